//! Deterministic simulation of de-system-solver: one seed, one exactly repeatable execution.
#![allow(clippy::all)]
mod common;
mod models;
mod p_io;
mod p_misc;
mod p_py;
mod p_solver;
mod props;
mod refsolver;
mod rng;
mod sched;
mod seam;
mod shrink;
mod spec;
mod threads;
mod vfs;

use common::{panic_msg, Rx, Viol};
use props::{prop, Prop, PROPS};
use rng::{hash_bytes, mix, Rng};
use serde::{Deserialize, Serialize};
use spec::Case;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub const DEFAULT_SEED: u64 = 20240817;
pub const STORED_EXACTLY: [&str; 4] = ["C07", "C09", "C10", "C16"];
pub const EVAL_BUDGET: u64 = 3_000_000;

pub fn verif_dir() -> String {
    std::env::var("DSIM_VERIF").unwrap_or_else(|_| "/verif".into())
}
fn known_list(prop: &str) -> BTreeMap<String, String> {
    let f = format!("{}/known_findings.json", verif_dir());
    let Ok(t) = std::fs::read_to_string(&f) else { return Default::default() };
    let v: serde_json::Value = serde_json::from_str(&t).expect("known_findings.json");
    let mut m = BTreeMap::new();
    for e in v["findings"].as_array().cloned().unwrap_or_default() {
        if e["property"] == prop {
            m.insert(e["key"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string());
        }
    }
    m
}
pub fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(7, prop.as_bytes())).wrapping_add(idx.wrapping_mul(0x9E3779B97F4A7C15)))
}
pub fn gen_case(p: &Prop, cs: u64) -> Case {
    let mut rng = Rng::new(cs);
    let mut c = (p.gen)(&mut rng);
    c.prop = p.id.into();
    c.seed = cs;
    if p.id != "C18" {
        // how slow the machine is: clock time that passes between reads and per evaluation
        c.knobs.insert("slow".into(), (mix(cs ^ 0x51c0) % 4) as i64);
    }
    c
}
/// one simulated run
fn run_case(p: &Prop, c: &Case, known: &BTreeMap<String, String>) -> (Result<(), Viol>, Rx) {
    let mut rx = Rx::default();
    seam::reset(EVAL_BUDGET, vec![]);
    let _ = (vfs::take_trace(), vfs::take_fired(), vfs::take_kinds());
    if p.id != "C18" {
        let ns = [0, 1_000_000, 10_000_000_000, 200_000_000_000][c.knob("slow") as usize % 4];
        vfs::clock_slow(ns);
        vfs::clock_on((mix(c.seed) >> 2) as i64 / 4);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(c, &mut rx)));
    vfs::clock_slow(0);
    if p.id != "C18" && vfs::clock_reads() > 0 {
        rx.add("clock reads through the simulated clock", vfs::clock_reads());
    }
    vfs::clock_off();
    vfs::disarm();
    if vfs::is_dead() {
        vfs::recover();
    }
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let class = if e.is::<seam::BudgetExceeded>() { "no-termination" } else { "panic" };
            Err(Viol { class: class.into(), msg: format!("the code under test panicked: {}", panic_msg(&e)) })
        }
    };
    if !STORED_EXACTLY.contains(&p.id) {
        // a float changed by a JSON round trip breaks only the properties about stored values themselves
        if let Some(n) = rx.known.remove(common::JSON_ULP) {
            rx.add("floats changed by JSON text (finding of C10)", n);
        }
    }
    let r = match r {
        Ok(()) => match rx.known.keys().find(|k| !known.contains_key(*k)) {
            Some(k) => Err(Viol { class: k.clone(), msg: format!("{k}: not a listed finding for {}", p.id) }),
            None => Ok(()),
        },
        e => e,
    };
    (r, rx)
}

// ---- worker processes ---------------------------------------------------------------------------------------
#[derive(Serialize, Deserialize, Default)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    digest: u64,
    steps: u64,
    sim_time: f64,
    counters: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    fps: BTreeSet<u64>,
}
/// moves stdout out of the way of the code under test and prepares the scratch disk
fn child_setup(base: &str) -> std::fs::File {
    unsafe {
        let fd = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY, 0);
        libc::dup2(null, 1);
        if std::env::var("DSIM_STDERR").is_err() {
            libc::dup2(null, 2);
        }
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        std::panic::set_hook(Box::new(|_| {}));
        vfs::init(base);
        std::fs::File::from_raw_fd(fd)
    }
}
fn start_of_time() -> Instant {
    static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    *T.get_or_init(Instant::now)
}
fn worker(args: &[String]) -> ! {
    let p = prop(&args[0]).expect("prop");
    let seed: u64 = args[1].parse().unwrap();
    let start: u64 = args[2].parse().unwrap();
    let stride: u64 = args[3].parse().unwrap();
    let n: u64 = args[4].parse().unwrap();
    let base = &args[5];
    let cap: u64 = args[6].parse().unwrap();
    let trace = std::env::var("DSIM_TRACE").is_ok();
    // DSIM_SLOW=SECONDS: report runs that take longer
    let slow: Option<f64> = std::env::var("DSIM_SLOW").ok().and_then(|s| s.parse().ok());
    let real_now = || Instant::now().duration_since(start_of_time()).as_secs_f64();
    let known = known_list(p.id);
    let mut out = child_setup(base);
    let t0 = Instant::now();
    let mut a = Agg::default();
    let mut i = start;
    while i < n {
        if t0.elapsed().as_secs() >= cap {
            break;
        }
        let cs = case_seed(seed, p.id, i);
        let c = gen_case(p, cs);
        let _ = out.write_all(format!("S {i}\n").as_bytes());
        let began = slow.map(|_| real_now());
        let (r, rx) = run_case(p, &c, &known);
        if let (Some(b), Some(lim)) = (began, slow) {
            if real_now() - b > lim {
                let _ = out.write_all(format!("T run {i} took {:.1} s\n", real_now() - b).as_bytes());
            }
        }
        a.runs += 1;
        a.nontrivial += rx.nontrivial as u64;
        if rx.nontrivial && a.fps.len() < 300_000 {
            a.fps.insert(rx.fp);
        }
        a.digest = a.digest.wrapping_add(mix(rx.digest ^ mix(i)));
        a.steps += rx.steps;
        a.sim_time += rx.sim_time;
        for (k, v) in rx.counters {
            *a.counters.entry(k).or_default() += v;
        }
        for (k, v) in rx.known {
            *a.known.entry(k).or_default() += v;
        }
        if trace {
            let _ = out.write_all(format!("D {i} {:016x}\n", rx.digest).as_bytes());
        }
        if let Err(v) = r {
            let m = serde_json::to_string(&(i, &v.class, &v.msg)).unwrap();
            let _ = out.write_all(format!("V {m}\n").as_bytes());
            break;
        }
        i += stride;
    }
    let _ = out.write_all(format!("A {}\n", serde_json::to_string(&a).unwrap()).as_bytes());
    p_py::shutdown();
    std::process::exit(0)
}
/// `dsim one FILE BASE`: one case in a process of its own; prints the outcome as JSON
fn one(args: &[String]) -> ! {
    let t = std::fs::read_to_string(&args[0]).expect("case file");
    let c: Case = serde_yaml::from_str::<ReplayFile>(&t).map(|r| r.case).expect("case file");
    let p = prop(&c.prop).expect("property");
    let known = known_list(p.id);
    let mut out = child_setup(&args[1]);
    let (r, rx) = run_case(p, &c, &known);
    let o = Outcome {
        class: r.as_ref().err().map(|v| v.class.clone()),
        msg: r.err().map(|v| v.msg).unwrap_or_default(),
        digest: rx.digest,
    };
    let _ = out.write_all(serde_json::to_string(&o).unwrap().as_bytes());
    p_py::shutdown();
    std::process::exit(0)
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Outcome {
    pub class: Option<String>,
    pub msg: String,
    pub digest: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ReplayFile {
    #[serde(default)]
    pub violation: String,
    #[serde(default)]
    pub message: String,
    #[serde(default)]
    pub digest: u64,
    #[serde(default)]
    pub verif_seed: u64,
    #[serde(default)]
    pub run_index: u64,
    #[serde(default)]
    pub shrunk: String,
    pub case: Case,
}
pub struct Lab {
    pub base: String,
    n: u64,
}
impl Lab {
    pub fn new() -> Self {
        let parent = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) { "/dev/shm".to_string() } else { std::env::temp_dir().to_string_lossy().to_string() };
        let mut base = format!("{parent}/dsim-{}", std::process::id());
        if std::fs::create_dir_all(&base).is_err() {
            base = format!("{}/target/scratch-{}", verif_dir(), std::process::id());
            std::fs::create_dir_all(&base).expect("scratch directory");
        }
        Lab { base, n: 0 }
    }
    /// runs one case in a fresh process
    pub fn run(&mut self, c: &Case, limit: Duration) -> Outcome {
        self.n += 1;
        let f = format!("{}/case-{}.yaml", self.base, self.n);
        let d = format!("{}/one-{}", self.base, self.n);
        let rf = ReplayFile { violation: String::new(), message: String::new(), digest: 0, verif_seed: 0, run_index: 0, shrunk: String::new(), case: c.clone() };
        std::fs::write(&f, serde_yaml::to_string(&rf).unwrap()).expect("write case");
        let mut ch = Command::new(std::env::current_exe().unwrap())
            .args(["one", &f, &d])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .expect("spawn");
        let o = wait_out(&mut ch, limit);
        let _ = std::fs::remove_file(&f);
        let _ = std::fs::remove_dir_all(&d);
        match o {
            None => Outcome { class: Some("hang".into()), msg: format!("no end after {} s", limit.as_secs()), digest: 0 },
            Some((t, st)) => serde_json::from_str(&t).unwrap_or_else(|_| died(&st)),
        }
    }
}
impl Drop for Lab {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.base);
    }
}
fn died(st: &str) -> Outcome {
    if st.ends_with(&format!(": {}", threads::DEADLOCK)) {
        return Outcome { class: Some("deadlock".into()), msg: "all threads wait for one another".into(), digest: 0 };
    }
    Outcome { class: Some("abort".into()), msg: format!("the process died: {st}"), digest: 0 }
}
fn wait_out(ch: &mut Child, limit: Duration) -> Option<(String, String)> {
    let so = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut BufReader::new(so), &mut s);
        let _ = tx.send(s);
    });
    match rx.recv_timeout(limit) {
        Ok(s) => {
            let st = ch.wait().map(|s| s.to_string()).unwrap_or_default();
            Some((s, st))
        }
        Err(_) => {
            let _ = ch.kill();
            let _ = ch.wait();
            None
        }
    }
}

// ---- the check ----------------------------------------------------------------------------------------------
struct Batch {
    agg: Agg,
    viols: BTreeMap<u64, Viol>,
    digests: BTreeMap<u64, String>,
    errors: Vec<String>,
    notes: Vec<String>,
    truncated: bool,
}
fn batch(p: &Prop, lab: &mut Lab, seed: u64, n: u64, w: u64, cap: u64) -> Batch {
    enum Msg {
        Line(usize, String),
        End(usize),
    }
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel::<Msg>();
    let mut kids: Vec<Child> = vec![];
    for k in 0..w {
        let mut ch = Command::new(&exe)
            .args(["worker", p.id, &seed.to_string(), &k.to_string(), &w.to_string(), &n.to_string(), &format!("{}/w{k}", lab.base), &cap.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let so = ch.stdout.take().unwrap();
        let tx = tx.clone();
        let k = k as usize;
        std::thread::spawn(move || {
            for l in BufReader::with_capacity(1 << 16, so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(Msg::Line(k, l)).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(Msg::End(k));
        });
        kids.push(ch);
    }
    drop(tx);
    let mut b = Batch { agg: Agg::default(), viols: Default::default(), digests: Default::default(), errors: vec![], notes: vec![], truncated: false };
    let now = Instant::now();
    let mut last: Vec<Instant> = vec![now; w as usize];
    let mut cur: Vec<Option<u64>> = vec![None; w as usize];
    let mut done = vec![false; w as usize];
    let mut aggd = vec![false; w as usize];
    let mut grace: Option<Instant> = None;
    let mut suspects: Vec<(u64, &'static str)> = vec![];
    while !done.iter().all(|d| *d) {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(k, l)) => {
                last[k] = Instant::now();
                let (tag, rest) = l.split_at(2.min(l.len()));
                match tag {
                    "S " => cur[k] = rest.parse().ok(),
                    "D " => {
                        if let Some((i, d)) = rest.split_once(' ') {
                            b.digests.insert(i.parse().unwrap_or(0), d.to_string());
                        }
                    }
                    "T " => println!("slow: {}", rest.trim()),
                    "V " => {
                        if let Ok((i, class, msg)) = serde_json::from_str::<(u64, String, String)>(rest) {
                            b.viols.insert(i, Viol { class, msg });
                            grace.get_or_insert(Instant::now());
                        }
                    }
                    "A " => match serde_json::from_str::<Agg>(rest) {
                        Ok(a) => {
                            aggd[k] = true;
                            let g = &mut b.agg;
                            g.runs += a.runs;
                            g.nontrivial += a.nontrivial;
                            g.digest = g.digest.wrapping_add(a.digest);
                            g.steps += a.steps;
                            g.sim_time += a.sim_time;
                            for (x, y) in a.counters {
                                *g.counters.entry(x).or_default() += y;
                            }
                            for (x, y) in a.known {
                                *g.known.entry(x).or_default() += y;
                            }
                            g.fps.extend(a.fps);
                        }
                        Err(e) => b.errors.push(format!("worker {k}: {e}")),
                    },
                    _ => {}
                }
            }
            Ok(Msg::End(k)) => {
                done[k] = true;
                let st = kids[k].wait().map(|s| s.to_string()).unwrap_or_default();
                if !aggd[k] && !suspects.iter().any(|(i, _)| Some(*i) == cur[k]) {
                    match cur[k] {
                        Some(i) => {
                            suspects.push((i, "abort"));
                            grace.get_or_insert(Instant::now());
                        }
                        None => b.errors.push(format!("worker {k} ended early: {st}")),
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        for k in 0..w as usize {
            if !done[k] && last[k].elapsed() > Duration::from_secs(60) {
                if let Some(i) = cur[k] {
                    suspects.push((i, "hang"));
                    grace.get_or_insert(Instant::now());
                }
                let _ = kids[k].kill();
                last[k] = Instant::now() + Duration::from_secs(3600);
            }
        }
        if grace.map(|g| g.elapsed() > Duration::from_secs(15)).unwrap_or(false) {
            for (k, ch) in kids.iter_mut().enumerate() {
                if !done[k] {
                    aggd[k] = true;
                    let _ = ch.kill();
                }
            }
            grace = Some(Instant::now() + Duration::from_secs(3600));
        }
    }
    // a process that died or hung counts only if the case does it again on its own
    for (i, what) in suspects {
        if !b.viols.is_empty() && b.viols.keys().next() < Some(&i) {
            continue;
        }
        let c = gen_case(p, case_seed(seed, p.id, i));
        let o = lab.run(&c, Duration::from_secs(100));
        match o.class {
            Some(cl) => {
                b.viols.insert(i, Viol { class: cl, msg: o.msg });
            }
            // a loaded machine, or memory taken by others: not a repeatable execution, so not a violation
            None => b.notes.push(format!("run {i}: {what} in the batch, but not alone")),
        }
    }
    b.truncated = b.viols.is_empty() && b.agg.runs < n;
    b
}
fn check(args: &[String]) -> i32 {
    let id = args[0].clone();
    let Some(p) = prop(&id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(DEFAULT_SEED);
    let mut runs = None;
    let mut workers = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(1, 16);
    let mut it = args[1..].iter();
    while let Some(a) = it.next() {
        let mut v = || it.next().cloned().unwrap_or_default();
        match a.as_str() {
            "--tier" => tier = v(),
            "--seed" => seed = v().parse().expect("seed"),
            "--runs" => runs = Some(v().parse::<u64>().expect("runs")),
            "--workers" => workers = v().parse().expect("workers"),
            _ => {
                eprintln!("unknown argument {a}");
                return 2;
            }
        }
    }
    let thorough = tier == "thorough";
    if !thorough {
        tier = "quick".into();
    }
    let n = runs.unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = if thorough { 700 } else { 240 };
    println!("seed {seed}, property {id}, tier {tier}, {n} runs on {workers} workers");
    let t0 = Instant::now();
    let mut lab = Lab::new();
    let b = batch(p, &mut lab, seed, n, workers, cap);
    let wall = t0.elapsed().as_secs_f64();
    for e in b.errors.iter().chain(&b.notes) {
        eprintln!("harness: {e}");
    }
    let known = known_list(p.id);
    for (k, cnt) in &b.agg.known {
        if let Some(w) = known.get(k) {
            println!("KNOWN-FINDING: property={id} {w} [{k}, met {cnt} times]");
        }
    }
    let mut code = 0;
    let mut replay = None;
    if let Some((i, v)) = b.viols.iter().next() {
        let cs = case_seed(seed, p.id, *i);
        let c = gen_case(p, cs);
        let (c2, o, note) = shrink::shrink(&mut lab, c, v, Duration::from_secs(if thorough { 120 } else { 60 }));
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let f = format!("{dir}/{id}-{cs:016x}.yaml");
        let rf = ReplayFile {
            violation: o.class.clone().unwrap_or(v.class.clone()),
            message: if o.class.is_some() { o.msg.clone() } else { v.msg.clone() },
            digest: o.digest,
            verif_seed: seed,
            run_index: *i,
            shrunk: note,
            case: c2,
        };
        std::fs::write(&f, serde_yaml::to_string(&rf).unwrap()).expect("write replay");
        println!("violation of {id} in run {i} (VERIF_SEED={seed}, case seed {cs:#x}): [{}] {}", rf.violation, rf.message);
        println!("VIOLATION property={id} replay={f}");
        replay = Some(f);
        code = 1;
    } else if !b.errors.is_empty() || b.agg.runs == 0 {
        code = 2;
    }
    let faults: BTreeMap<&String, &u64> = b.agg.counters.iter().filter(|(k, _)| k.starts_with("fault") || k.starts_with("crash") || k.contains("death") || k.contains("restart")).collect();
    let probes: BTreeMap<&String, &u64> = b.agg.counters.iter().filter(|(k, _)| !faults.contains_key(k)).collect();
    let samples: Vec<serde_json::Value> = (0..3u64)
        .map(|k| {
            let i = k * (n.max(3) / 3);
            let c = gen_case(p, case_seed(seed, p.id, i));
            serde_json::json!({"run": i, "case": serde_json::to_value(&c).unwrap_or_default()})
        })
        .collect();
    let h = 3600. / wall.max(1e-3);
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall,
        "violations": b.viols.len().min(1),
        "assumptions": [format!("simulated or stubbed: {}", p.stub), "sampling: a clean batch is evidence, not proof"],
        "coverage": {
            "evaluations": b.agg.runs,
            "distinct_nontrivial": b.agg.fps.len(),
            "rule": p.rule,
            "samples": samples,
            "nontrivial_runs": b.agg.nontrivial,
            "runs_per_hour": (b.agg.runs as f64 * h).round(),
            "seeds_per_hour": (b.agg.runs as f64 * h).round(),
            "seeds_note": "every run has a case seed of its own derived from VERIF_SEED and its index",
            "simulated_time": b.agg.sim_time,
            "simulated_time_unit": "model seconds covered by completed runs",
            "reference_steps_compared": b.agg.steps,
            "faults_fired": faults,
            "probes": probes,
            "distinct_measure": "hashes of script / fault plan / interleaving of non-trivial runs (capped at 300000 per worker)",
            "batch_digest": format!("{:016x}", b.agg.digest),
            "components_real": p.real,
            "components_stubbed": p.stub,
            "workers": workers,
            "truncated_by_time": b.truncated,
            "harness_notes": b.notes,
            "known_findings_met": b.agg.known,
            "replay": replay,
        }
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{} runs, {} distinct non-trivial, {:.1} s, digest {:016x}{}", b.agg.runs, b.agg.fps.len(), wall, b.agg.digest, if b.truncated { " (stopped by time cap)" } else { "" });
    code
}
fn replay(args: &[String]) -> i32 {
    let t = std::fs::read_to_string(&args[0]).expect("replay file");
    let rf: ReplayFile = serde_yaml::from_str(&t).expect("replay file");
    let mut lab = Lab::new();
    let o = lab.run(&rf.case, Duration::from_secs(120));
    match &o.class {
        Some(c) => {
            println!("[{c}] {}", o.msg);
            println!("recorded: [{}], digest {:016x}; now digest {:016x}: {}", rf.violation, rf.digest, o.digest, if *c == rf.violation && o.digest == rf.digest { "reproduced exactly" } else { "different" });
            println!("VIOLATION property={} replay={}", rf.case.prop, args[0]);
            1
        }
        None => {
            println!("the property held (recorded: [{}])", rf.violation);
            0
        }
    }
}
/// runs batches twice at different worker counts and compares the per-run digests
fn determinism(args: &[String]) -> i32 {
    std::env::set_var("DSIM_TRACE", "1");
    let runs: u64 = args.first().and_then(|s| s.parse().ok()).unwrap_or(2000);
    let seeds: u64 = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(4);
    let only = args.get(2).cloned();
    let mut bad = 0;
    for p in PROPS {
        if only.as_ref().map(|o| o != p.id).unwrap_or(false) {
            continue;
        }
        let mut total = 0;
        for s in 0..seeds {
            let mut d = vec![];
            for w in [8, 3, 13] {
                let mut lab = Lab::new();
                let b = batch(p, &mut lab, 1000 + s, runs.min(p.quick), w, 600);
                if !b.viols.is_empty() || !b.errors.is_empty() {
                    println!("{}: {:?} {:?}", p.id, b.viols, b.errors);
                }
                d.push(b.digests);
            }
            total += d[0].len();
            for k in 1..d.len() {
                if d[0] != d[k] {
                    bad += 1;
                    let x = d[0].iter().find(|(i, v)| d[k].get(i) != Some(v));
                    println!("{}: seed {} differs at {x:?}", p.id, 1000 + s);
                }
            }
        }
        println!("{}: {total} runs x 3 worker counts compared", p.id);
    }
    (bad > 0) as i32
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a[1..]),
        Some("one") => one(&a[1..]),
        Some("check") if a.len() > 1 => check(&a[1..]),
        Some("replay") if a.len() > 1 => replay(&a[1..]),
        Some("determinism") => determinism(&a[1..]),
        Some("show") => {
            // dsim show PROP SEED IDX
            let p = prop(&a[1]).expect("prop");
            let c = gen_case(p, case_seed(a[2].parse().unwrap(), p.id, a[3].parse().unwrap()));
            println!("{}", serde_yaml::to_string(&ReplayFile { violation: String::new(), message: String::new(), digest: 0, verif_seed: 0, run_index: 0, shrunk: String::new(), case: c }).unwrap());
            0
        }
        _ => {
            eprintln!("usage: dsim check ID [--tier quick|thorough] [--seed N] [--runs N] [--workers W] | replay FILE | determinism [RUNS SEEDS ID] | show ID SEED IDX");
            2
        }
    };
    std::process::exit(code)
}
