//! C17: the Python extension module against the Rust library, in lockstep.
#![allow(clippy::all)]
use crate::common::*;
use crate::ensure;
use crate::models::*;
use crate::rng::Rng;
use crate::spec::*;
use dess::prelude::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use serde_json::{json, Value as J};
use serde_yaml::Value;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const NODE: &str = include_str!("pynode.py");
struct Node {
    ch: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
thread_local! {
    static NODE_: RefCell<Option<Node>> = const { RefCell::new(None) };
}
fn spawn() -> Node {
    let mut ch = Command::new(std::env::var("DSIM_PYTHON").unwrap_or("python3.12".into()))
        .args(["-S", "-E", "-s", "-B", "-c", NODE, &format!("{}/target/py/mod", crate::verif_dir())])
        .env("PYTHONHASHSEED", "0")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("python");
    let tx = ch.stdin.take().unwrap();
    let rx = BufReader::with_capacity(1 << 16, ch.stdout.take().unwrap());
    Node { ch, tx, rx }
}
fn kill() {
    NODE_.with(|n| {
        if let Some(mut n) = n.borrow_mut().take() {
            let _ = n.ch.kill();
            let _ = n.ch.wait();
        }
    });
}
pub fn shutdown() {
    kill();
}
/// one request; Err if the node died
fn ask(req: J) -> Res<J> {
    NODE_.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(spawn);
        let mut l = req.to_string();
        l.push('\n');
        let ok = node.tx.write_all(l.as_bytes()).is_ok() && node.tx.flush().is_ok();
        let mut s = String::new();
        if !ok || node.rx.read_line(&mut s).unwrap_or(0) == 0 {
            let st = node.ch.wait().map(|s| s.to_string()).unwrap_or_default();
            *n = None;
            return viol("python-died", format!("the Python process died ({st}) in {}", req["op"]));
        }
        let v: J = serde_json::from_str(&s).expect("node reply");
        if let Some(e) = v.get("error") {
            return viol("python-error", format!("{}: {}", req["op"], e.as_str().unwrap_or("")));
        }
        Ok(v)
    })
}
fn bits(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}
fn canon_f(x: f64) -> String {
    if x.is_nan() {
        "fnan".into()
    } else {
        format!("f{}", bits(x))
    }
}
fn canon(v: &Value) -> String {
    match v {
        Value::Null => "n".into(),
        Value::Bool(b) => if *b { "b1" } else { "b0" }.into(),
        Value::Number(n) if n.is_f64() => canon_f(n.as_f64().unwrap()),
        Value::Number(n) => format!("i{n}"),
        Value::String(s) => format!("s{s}"),
        Value::Sequence(s) => format!("[{}]", s.iter().map(canon).collect::<Vec<_>>().join(",")),
        Value::Mapping(m) => {
            let b: BTreeMap<String, String> = m.iter().map(|(k, v)| (k.as_str().unwrap_or("?").to_string(), canon(v))).collect();
            format!("{{{}}}", b.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(","))
        }
        Value::Tagged(t) => canon(&t.value),
    }
}
#[derive(Clone)]
enum Obj {
    A(System3TM),
    B(System3TMWithBC),
}
macro_rules! each {
    ($o:expr, $s:ident => $e:expr) => {
        match $o {
            Obj::A($s) => $e,
            Obj::B($s) => $e,
        }
    };
}
impl Obj {
    fn cls(&self) -> &'static str {
        match self {
            Obj::A(_) => "System3TM",
            Obj::B(_) => "System3TMWithBC",
        }
    }
    fn forms(&self) -> (String, String, String) {
        each!(self, s => (s.to_yaml(), s.to_json(), hex(&s.to_bincode())))
    }
    /// attribute tree as Python shows it
    fn tree(&self) -> Value {
        each!(self, s => {
            let mut v = val(s);
            let m = v.as_mapping_mut().unwrap();
            m.insert("solver_type".into(), Value::String(s.st_ref().to_json()));
            m.insert("solver_conf".into(), s.sc().map(val).unwrap_or(Value::Null));
            v
        })
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn at<'a>(v: &'a Value, path: &str) -> Option<&'a Value> {
    let mut v = v;
    for p in path.split('.') {
        v = v.get(p)?;
    }
    Some(v)
}
const PATHS: [&str; 16] = [
    "history", "m1", "m2.history", "m3.state", "h12.history", "state", "m1.history", "h23", "solver_conf", "t_report", "solver_conf.history",
    "solver_conf.state", "h12.state", "m3", "m2", "solver_type",
];

pub fn gen_c17(rng: &mut Rng) -> Case {
    let o = GenOpts { kinds: vec![Kind::Tm3, Kind::TmBc], max_reports: 10, max_substeps: 300., ..Default::default() };
    let n = 1 + rng.below(3) as usize;
    let mut specs: Vec<SysSpec> = vec![];
    while specs.len() < n {
        let mut s = gen_spec(rng, &o);
        let d = s.t0;
        s.t0 = 0.;
        for t in s.t_report.iter_mut() {
            *t -= d;
        }
        specs.push(s);
    }
    let mut v = vec![];
    let w = [(0, 4), (1, 6), (2, 4), (3, 6), (4, 3), (5, 6), (6, 5), (7, 2), (8, 1), (9, 2), (10, 2), (11, 1), (12, 4)];
    let swarm: Vec<(u32, u64)> = w.iter().map(|&(k, x)| (k as u32, if rng.chance(0.75) { x as u64 } else { 0 })).collect();
    let tot: u64 = swarm.iter().map(|x| x.1).sum();
    let kind = |rng: &mut Rng| {
        let mut r = rng.below(tot.max(1));
        for (k, x) in &swarm {
            if r < *x {
                return *k;
            }
            r -= x;
        }
        1
    };
    v.push(Op::Cont(rng.below(100) as u32, 0.));
    for _ in 0..3 + rng.below(18) {
        let k = kind(rng);
        v.push(Op::Cont(k * 10_000 + rng.below(10_000) as u32, rng.uni(0., 1.)));
    }
    v.push(Op::Cont(10_000 + rng.below(10_000) as u32, 0.));
    Case { specs, scripts: vec![v], ..Default::default() }
}
struct Ck {
    cls: &'static str,
    fmt: Fmt,
    text: String,
    path: String,
}
pub fn run_c17(c: &Case, rx: &mut Rx) -> Res {
    let r = lockstep(c, rx);
    if r.is_err() {
        kill();
    }
    r
}
fn same(rx: &mut Rx, a: &J, o: &Obj, what: &str) -> Res {
    let (y, j, b) = o.forms();
    for (k, w) in [("yaml", &y), ("json", &j), ("bin", &b)] {
        let g = a[k].as_str().unwrap_or("");
        if g != w {
            let p = g.bytes().zip(w.bytes()).take_while(|(x, y)| x == y).count();
            let cut = |s: &str| s.chars().skip(p.saturating_sub(40)).take(80).collect::<String>();
            return viol("python-differs", format!("{what}: {k} form differs: Python ...{:?}..., Rust ...{:?}...", cut(g), cut(w)));
        }
    }
    rx.logs(b.as_bytes());
    Ok(())
}
fn dt_mean(rx: &mut Rx, s: u64, o: &Obj) -> Res {
    let g = ask(json!({"op": "dtmean", "slot": s}))?;
    let m = each!(o, x => x.sc().and_then(|c| c.dt_mean()));
    let want = m.map(canon_f).unwrap_or("n".into());
    ensure!(g["canon"] == want.as_str(), "python-differs", "dt_mean: Python {}, Rust {want}", g["canon"]);
    if let Some(m) = m {
        // the mean of the logged step sizes, computed here
        let h = each!(o, x => x.sc().unwrap().history.dt.clone());
        let r = h.iter().sum::<f64>() / h.len() as f64;
        ensure!((m - r).abs() <= 1e-12 * r.abs() || r.is_nan(), "dt-mean", "dt_mean is {m:e}, the logged steps average {r:e}");
        rx.hit("mean step sizes compared");
    }
    Ok(())
}
fn lockstep(c: &Case, rx: &mut Rx) -> Res {
    let mut live: BTreeMap<u64, Obj> = BTreeMap::new();
    // snapshots: canonical form when taken, and the stored form of the same object in Rust
    let mut snaps: BTreeMap<u64, (String, &'static str)> = BTreeMap::new();
    let mut cks: Vec<Ck> = vec![];
    let mut next = 0u64;
    let root = crate::vfs::root();
    ask(json!({"op": "reset"}))?;
    let tag = |f: Fmt| format!("{f:?}");
    rx.nontrivial = c.scripts[0].len() > 2;
    rx.fingerprint(format!("{:?}{:?}", c.scripts[0], c.specs.iter().map(|s| (s.kind, s.method)).collect::<Vec<_>>()));
    for op in &c.scripts[0] {
        let Op::Cont(code, _x) = op else { continue };
        let (k, a, b) = (code / 10_000, (code / 100) % 100, code % 100);
        let pick = |m: &BTreeMap<u64, Obj>| -> Option<u64> { m.keys().nth(a as usize % m.len().max(1)).cloned() };
        rx.logs(format!("{k} {a} {b}").as_bytes());
        match k {
            0 => {
                let mut spec = c.specs[a as usize % c.specs.len()].clone();
                // few rows and steps, and nothing to walk to
                match b % 13 {
                    11 => {
                        spec.t_report.truncate(1);
                        spec.dt_max = spec.dt_max.max(spec.t_end());
                        if spec.method.adaptive() {
                            spec.dt = spec.t_end().max(1e-3);
                            spec.save = true;
                        }
                    }
                    12 => spec.t_report.clear(),
                    _ => {}
                }
                let spec = &spec;
                let conf = spec.method.adaptive() && b % 2 == 0;
                let mut o = match spec.kind {
                    Kind::Tm3 => Obj::A(System3TM::build(spec)),
                    _ => Obj::B(System3TMWithBC::build(spec)),
                };
                let stj = each!(&o, s => s.st_ref().to_json());
                if !conf {
                    each!(&mut o, s => *s.st_mut() = SolverTypes::from_json(&stj).expect("solver type"));
                }
                let m: Vec<Vec<String>> = match spec.kind {
                    Kind::Tm3 => (0..3).map(|i| vec![bits(spec.p[i]), bits(spec.y0[i])]).collect(),
                    _ => vec![vec![bits(spec.y0[0])], vec![bits(spec.p[0]), bits(spec.y0[1])], vec![bits(spec.p[1]), bits(spec.y0[2])]],
                };
                let hs = if spec.kind == Kind::Tm3 { [spec.p[3], spec.p[4]] } else { [spec.p[2], spec.p[3]] };
                let mut r = json!({"op": "new", "slot": next, "cls": o.cls(), "m": m, "h": [bits(hs[0]), bits(hs[1])],
                    "t": spec.t_report.iter().map(|t| bits(*t)).collect::<Vec<_>>(), "solver": stj, "kw": b / 2 % 4});
                if conf {
                    r["conf"] = json!({"dt": bits(spec.dt), "dt_max": bits(spec.dt_max), "max_iter": spec.max_iter, "rtol": bits(spec.rtol), "atol": bits(spec.atol), "save": spec.save, "save_states": spec.save_states});
                    r["ctor"] = if spec.method == Method::Rk45 { "new_rk45_cash_karp" } else { "new_rk23_bogacki_shampine" }.into();
                    rx.hit("built through an adaptive constructor");
                } else {
                    rx.hit("built through the plain constructor");
                }
                let g = ask(r)?;
                same(rx, &g, &o, "construction")?;
                live.insert(next, o);
                next += 1;
            }
            1 => {
                let Some(s) = pick(&live) else { continue };
                let o = live.get_mut(&s).unwrap();
                let failed = each!(o, x => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.do_walk())).is_err());
                let g = ask(json!({"op": "walk", "slot": s}))?;
                ensure!(g["raised"].is_null() != failed, "python-differs", "walk: {} in Rust, raised in Python: {}", if failed { "panics" } else { "no panic" }, g["raised"]);
                same(rx, &g, o, "walk")?;
                if failed {
                    rx.hit("walks that fail in both");
                }
                if b % 4 == 0 {
                    dt_mean(rx, s, o)?;
                }
                each!(o, x => rx.sim_time += x.sys_state().time);
                rx.hit("walks");
            }
            2 => {
                let Some(s) = pick(&live) else { continue };
                let o = live[&s].clone();
                let g = ask(json!({"op": "copy", "slot": s, "to": next, "how": b % 3}))?;
                same(rx, &g, &o, ["clone()", "copy.copy", "copy.deepcopy"][b as usize % 3])?;
                live.insert(next, o);
                next += 1;
                rx.hit("copies");
            }
            3 => {
                let Some(s) = pick(&live) else { continue };
                let path = PATHS[b as usize % PATHS.len()];
                let t = live[&s].tree();
                if at(&t, "solver_conf").map(|v| v.is_null()).unwrap_or(true) && path.starts_with("solver_conf.") {
                    continue;
                }
                let v = at(&t, path).cloned().unwrap_or(Value::Null);
                let g = ask(json!({"op": "snap", "slot": s, "path": path, "id": next}))?;
                let want = canon(&v);
                ensure!(g["canon"] == want.as_str(), "python-differs", "attribute {path}: Python {}, Rust {want}", g["canon"]);
                if !v.is_null() {
                    snaps.insert(next, (want, path));
                }
                next += 1;
                rx.hit("attributes taken");
            }
            4 => {
                let Some(s) = pick(&live) else { continue };
                let g = ask(json!({"op": "read", "slot": s}))?;
                let want = canon(&live[&s].tree());
                let got = g["canon"].as_str().unwrap_or("");
                if got != want {
                    let p = got.bytes().zip(want.bytes()).take_while(|(x, y)| x == y).count();
                    let cut = |s: &str| s.chars().skip(p.saturating_sub(60)).take(110).collect::<String>();
                    return viol("python-differs", format!("attributes differ: Python ...{}..., Rust ...{}...", cut(got), cut(&want)));
                }
                rx.hit("whole attribute trees compared");
            }
            5 => {
                let Some(s) = pick(&live) else { continue };
                let fmt = FMTS[b as usize % 5];
                let path = format!("{root}py-{}.{}", cks.len(), if fmt == Fmt::FileJson { "json" } else { "yaml" });
                let g = ask(json!({"op": "store", "slot": s, "fmt": tag(fmt), "path": path}))?;
                let o = &live[&s];
                let (y, j, bi) = o.forms();
                let want = match fmt {
                    Fmt::Json | Fmt::FileJson => j,
                    Fmt::Bin => bi,
                    _ => y,
                };
                ensure!(g["text"] == want.as_str(), "python-differs", "stored form {fmt:?} differs: Python {} bytes, Rust {} bytes", g["text"].as_str().unwrap_or("").len(), want.len());
                rx.logs(want.as_bytes());
                cks.push(Ck { cls: o.cls(), fmt, text: want, path });
                rx.hit(&format!("stored {fmt:?}"));
            }
            6 => {
                if cks.is_empty() {
                    continue;
                }
                let ck = &cks[a as usize % cks.len()];
                let raw: Vec<u8> = if ck.fmt == Fmt::Bin { (0..ck.text.len() / 2).map(|i| u8::from_str_radix(&ck.text[2 * i..2 * i + 2], 16).unwrap()).collect() } else { vec![] };
                macro_rules! ld {
                    ($t:ty) => {
                        match ck.fmt {
                            Fmt::Json => <$t>::from_json(&ck.text),
                            Fmt::Yaml => <$t>::from_yaml(&ck.text),
                            Fmt::Bin => <$t>::from_bincode(&raw),
                            _ => <$t>::from_file(&ck.path),
                        }
                        .map_err(|e| e.to_string())
                    };
                }
                let o = if ck.cls == "System3TM" { ld!(System3TM).map(Obj::A) } else { ld!(System3TMWithBC).map(Obj::B) };
                let g = ask(json!({"op": "load", "slot": next, "cls": ck.cls, "fmt": tag(ck.fmt), "text": ck.text, "path": ck.path}));
                match (o, g) {
                    (Ok(o), Ok(g)) => {
                        same(rx, &g, &o, "load")?;
                        live.insert(next, o);
                        rx.hit("loads");
                    }
                    (Err(_), Err(e)) if e.class == "python-error" && !e.msg.contains("panic") => rx.hit("loads refused on both sides"),
                    (Err(r), Ok(_)) => return viol("python-differs", format!("Python loaded what Rust refuses: {r}")),
                    (_, Err(e)) => return Err(e),
                }
                next += 1;
            }
            7 => {
                kill();
                live.clear();
                snaps.clear();
                rx.hit("crash: Python process killed and restarted");
            }
            8 => {
                let Some(s) = pick(&live) else { continue };
                ask(json!({"op": "drop", "slot": s}))?;
                live.remove(&s);
            }
            9 => {
                let Some(s) = pick(&live) else { continue };
                let o = &live[&s];
                let how = b % 7;
                let text = match how {
                    0 => {
                        let j = o.forms().1;
                        j[..j.len() * (a as usize + 1) / 101].to_string()
                    }
                    1 => "m1: [1, 2".to_string(),
                    2 => {
                        let h = o.forms().2;
                        h[..(h.len() / 2 * (a as usize + 1) / 101) * 2].to_string()
                    }
                    _ => String::new(),
                };
                let g = ask(json!({"op": "bad", "cls": o.cls(), "slot": s, "how": how, "text": text, "path": format!("{root}bad")}))?;
                ensure!(!g["raised"].is_null(), "python-no-error", "bad request {how} raised nothing");
                ensure!(g["exists"] == json!([false, false]), "python-no-error", "a refused save left a file behind");
                let g = ask(json!({"op": "forms", "slot": s}))?;
                same(rx, &g, o, "object after an error")?;
                rx.hit("errors raised as exceptions");
            }
            10 => {
                let Some(s) = pick(&live) else { continue };
                dt_mean(rx, s, &live[&s])?;
                for p in ["history", "m2.history", "h12.history"] {
                    let g = ask(json!({"op": "len", "slot": s, "path": p}))?;
                    let n = each!(&live[&s], x => x.n_rows());
                    ensure!(g["n"] == n, "python-differs", "len of {p}: Python {}, {n} rows recorded", g["n"]);
                }
            }
            11 => {
                let o = if a % 2 == 0 { Obj::A(Default::default()) } else { Obj::B(Default::default()) };
                let g = ask(json!({"op": "default", "cls": o.cls(), "slot": next}))?;
                same(rx, &g, &o, "default")?;
                live.insert(next, o);
                next += 1;
            }
            _ => {
                let Some(id) = snaps.keys().nth(a as usize % snaps.len().max(1)).cloned() else { continue };
                let (want, path) = snaps[&id].clone();
                if path == "t_report" || path == "solver_type" || b % 2 == 0 {
                    let how = if path == "t_report" || path == "solver_type" { 2 } else { b / 2 % 3 };
                    let g = ask(json!({"op": "snapread", "id": id, "how": how}))?;
                    for k in ["canon", "copy"] {
                        ensure!(g[k] == want.as_str(), "snapshot-changed", "an object taken from attribute {path} now reads {} ({k}), was {want}", g[k]);
                    }
                } else {
                    let fmt = FMTS[b as usize / 2 % 5];
                    let g = ask(json!({"op": "snapstore", "id": id, "fmt": tag(fmt), "path": format!("{root}snap.{}", if fmt == Fmt::FileJson { "json" } else { "yaml" })}));
                    let json = matches!(fmt, Fmt::Json | Fmt::FileJson);
                    match g {
                        Ok(g) => {
                            if json {
                                // JSON may change the last digits (finding of C10)
                                let strip = |s: &str| s.len();
                                ensure!(strip(g["canon"].as_str().unwrap_or("")) == want.len(), "python-differs", "{path} through {fmt:?}: {} from {want}", g["canon"]);
                            } else {
                                ensure!(g["canon"] == want.as_str(), "python-differs", "{path} through {fmt:?}: {} from {want}", g["canon"]);
                            }
                        }
                        Err(e) if json && e.class == "python-error" && (want.contains("fnan") || want.contains("f7ff0") || want.contains("ffff0")) => {}
                        Err(e) => return Err(e),
                    }
                }
                rx.hit("snapshots reread");
            }
        }
    }
    // nothing has influenced anything else
    for (s, o) in &live {
        let g = ask(json!({"op": "forms", "slot": s}))?;
        same(rx, &g, o, "final state")?;
    }
    for (id, (want, path)) in &snaps {
        let g = ask(json!({"op": "snapread", "id": id, "how": 2}))?;
        ensure!(g["canon"] == want.as_str(), "snapshot-changed", "an object taken from attribute {path} now reads {}, was {want}", g["canon"]);
    }
    rx.io_faults();
    Ok(())
}
