//! Storing and loading under disk faults and crashes.
#![allow(clippy::all)]
use crate::common::*;
use crate::models::*;
use crate::rng::Rng;
use crate::sched;
use crate::spec::*;
use crate::vfs::{self, Planned};
use crate::{ensure, with_sys};
use dess::prelude::*;
use dess_examples::three_thermal_mass_sys as tm3;
use dess_examples::three_thrml_mass_w_bc_sys as tmbc;
use std::collections::BTreeMap;

fn resolve(pos: Pos, n: u64) -> u64 {
    let n = n.max(1);
    match pos {
        Pos::Frac(f) => 1 + (n - 1) * f as u64 / 1000,
        Pos::FromStart(k) => 1 + k as u64,
        Pos::FromEnd(k) => n.saturating_sub(k as u64).max(1),
    }
}
fn plan(io: &[IoFault], n: u64) -> Vec<Planned> {
    io.iter().map(|f| Planned { at: resolve(f.pos, n), kind: f.kind, arg: f.arg }).collect()
}
fn gen_pos(rng: &mut Rng) -> Pos {
    match rng.below(4) {
        0 => Pos::FromStart(rng.below(4) as u32),
        1 => Pos::FromEnd(rng.below(6) as u32),
        _ => Pos::Frac(rng.below(1001) as u32),
    }
}
/// the object of a run: a system advanced by some rows
fn object<S: SimSys>(spec: &SysSpec, rows: u32, tag: f64) -> S {
    let mut s = S::build(spec);
    for _ in 0..rows {
        Exec::<S>::row(&mut s);
    }
    // makes every stored object distinguishable
    s.t_rep().push(1e6 + tag);
    s
}
const EXTS: [&str; 8] = ["json", "yaml", "json", "yaml", "json", "yaml", "toml", ""];
fn file_name(sel: i64, ext: &str) -> String {
    let base = match sel % 5 {
        0 => "state",
        1 => "a b",
        2 => "sub/state",
        3 => "v1.2.state",
        _ => "bench_µ",
    };
    match ext {
        "" => base.to_string(),
        e => format!("{base}.{e}"),
    }
}
fn path_of(sel: i64, ext: &str) -> String {
    let f = file_name(sel, ext);
    // sometimes relative to the working directory
    if sel % 3 == 0 {
        f
    } else {
        format!("{}{f}", vfs::root())
    }
}

// ---- C09 ----------------------------------------------------------------------------------------------------
pub fn gen_c09(rng: &mut Rng) -> Case {
    let o = GenOpts { max_reports: *rng.pick(&[1usize, 3, 8, 14]), max_substeps: 60., ..Default::default() };
    let mut spec = gen_spec(rng, &o);
    spec.max_iter = spec.max_iter.min(8);
    let mut knobs = BTreeMap::new();
    if rng.chance(0.01) {
        let (lo, hi) = if rng.chance(0.2) { (40_000., 90_000.) } else { (500., 10_000.) };
        knobs.insert("bulk".into(), rng.logu(lo, hi) as i64);
    }
    knobs.insert("ext".into(), if rng.chance(0.93) { rng.below(6) as i64 } else { 6 + rng.below(2) as i64 });
    knobs.insert("file".into(), rng.below(15) as i64);
    knobs.insert("old".into(), rng.chance(0.75) as i64);
    let mut c = Case { specs: vec![spec], ..Default::default() };
    let savers = if rng.chance(0.3) { 2 + rng.below(2) } else { 1 };
    knobs.insert("savers".into(), savers as i64);
    knobs.insert("stale".into(), rng.chance(0.3) as i64);
    knobs.insert("reader".into(), rng.chance(0.5) as i64);
    if rng.chance(0.02) {
        knobs.insert("bad".into(), 1 + rng.below(2) as i64);
    }
    let link = rng.chance(0.06);
    if link {
        knobs.insert("link".into(), 1);
    }
    if savers > 1 && rng.chance(0.4) {
        knobs.insert("twin".into(), 1);
    }
    if savers > 1 {
        c.preempt = sched::gen_preempt(rng, 24);
    }
    // one save per fault slot
    let n = if knobs.get("bulk").copied().unwrap_or(0) > 20_000 { 1 + rng.below(2) } else { 1 + rng.below(4) } as usize;
    knobs.insert("saves".into(), n as i64);
    let kinds = [IoKind::Enospc, IoKind::EnospcSticky, IoKind::Eio, IoKind::Eintr, IoKind::Short, IoKind::AllShort, IoKind::Storm, IoKind::OpenDenied, IoKind::Crash, IoKind::PowerLoss, IoKind::Crash, IoKind::PowerLoss];
    for _ in 0..n {
        if rng.chance(0.85) {
            c.io.push(IoFault { pos: gen_pos(rng), kind: *rng.pick(&kinds), arg: rng.below(1 << 31) as u32 });
        } else {
            // a save without a fault
            c.io.push(IoFault { pos: Pos::FromStart(1 << 30), kind: IoKind::Eio, arg: 0 });
        }
    }
    if link {
        // what power loss leaves of a link is not modelled
        for f in c.io.iter_mut().filter(|f| f.kind == IoKind::PowerLoss) {
            f.kind = IoKind::Crash;
        }
    }
    c.knobs = knobs;
    c
}
pub fn run_c09(c: &Case, rx: &mut Rx) -> Res {
    with_sys!(c.specs[0].kind, S => c09::<S>(c, rx))
}
fn load_kind<S: SimSys>(path: &str, cands: &[S]) -> Result<usize, String> {
    let rel = path.strip_prefix(&vfs::root()).unwrap_or(path).to_string();
    let Some(bytes) = vfs::get(&rel) else { return Err("absent".into()) };
    match caught(|| S::from_file(path)) {
        Err(p) => Err(format!("loading it panicked: {p} ({} bytes)", bytes.len())),
        Ok(Err(e)) => Err(format!("it does not load: {e} ({} bytes)", bytes.len())),
        Ok(Ok(s)) => {
            let json = path.ends_with(".json");
            let mut first = String::new();
            for (k, c) in cands.iter().enumerate().rev() {
                match ulp_diff(c, &s) {
                    None => return Ok(k),
                    Some(Ok(_)) if json => return Ok(k),
                    Some(Ok(n)) => first = format!("{n} ulp off object {k}"),
                    Some(Err(d)) => {
                        if first.is_empty() {
                            first = d
                        }
                    }
                }
            }
            Err(format!("it loads as an object that was never saved ({first}; {} bytes)", bytes.len()))
        }
    }
}
fn c09<S: SimSys>(c: &Case, rx: &mut Rx) -> Res {
    let spec = &c.specs[0];
    let ext = EXTS[c.knob("ext") as usize % 8];
    let path = path_of(c.knob("file"), ext);
    let n = c.knob("saves").max(1) as usize;
    let savers = c.knob("savers").max(1) as usize;
    let mut objs: Vec<S> = (0..=n * savers + 1).map(|k| object::<S>(spec, (k as u32 * 3) % 11, k as f64)).collect();
    for (k, o) in objs.iter_mut().enumerate() {
        o.t_rep().extend((0..c.knob("bulk")).map(|j| 2e6 + (j + k as i64) as f64 / 7.));
    }
    let objs = objs;
    vfs::format_disk(&[]);
    vfs::make_dir("sub");
    vfs::put("sub/keep.txt", b"unrelated");
    vfs::adopt();
    rx.fingerprint(format!("{:?}{:?}{:?}", c.io, c.knobs, c.preempt));

    if ext != "json" && ext != "yaml" {
        let before = vfs::listing();
        let r = caught(|| objs[0].to_file(&path));
        ensure!(matches!(r, Ok(Err(_))), "unsupported-suffix", "saving to {path} gave {:?} instead of an error", r.map(|x| x.is_ok()));
        ensure!(vfs::listing() == before, "unsupported-suffix", "saving to {path} touched files");
        let r = caught(|| S::from_file(&path).map(|_| ()));
        ensure!(matches!(r, Ok(Err(_))), "unsupported-suffix", "loading {path} gave {r:?} instead of an error");
        rx.hit("unsupported suffix");
        rx.nontrivial = true;
        rx.log(7);
        rx.io_faults();
        return Ok(());
    }
    if c.knob("bad") > 0 {
        // the path is a directory, or lies in a directory that does not exist
        let p = if c.knob("bad") == 1 {
            vfs::make_dir(&format!("taken.{ext}"));
            vfs::put(&format!("taken.{ext}/keep.txt"), b"unrelated");
            format!("{}taken.{ext}", vfs::root())
        } else {
            format!("absent/x.{ext}")
        };
        let before = vfs::listing();
        let r = caught(|| objs[0].to_file(&p));
        ensure!(matches!(r, Ok(Err(_))), "unreported", "saving to {p} gave {:?} instead of an error", r.map(|x| x.is_ok()));
        let r = caught(|| S::from_file(&p).map(|_| ()));
        ensure!(matches!(r, Ok(Err(_))), "unreported", "loading {p} gave {r:?} instead of an error");
        let after = vfs::listing();
        ensure!(before.iter().all(|(p, b)| after.get(p) == Some(b)), "other-file", "a failed save to {p} changed other files");
        rx.hit("path cannot hold a file");
        vfs::adopt();
    }
    if c.knob("link") == 1 {
        vfs::symlink(&format!("sub/real.{ext}"), path.strip_prefix(&vfs::root()).unwrap_or(&path));
        rx.hit("path is a symbolic link");
    }
    let twin = (c.knob("twin") == 1).then(|| {
        let e = if ext == "json" { "yaml" } else { "json" };
        path.strip_suffix(ext).map(|p| format!("{p}{e}")).unwrap_or_default()
    });
    // how many calls one save makes
    let dry = format!("{}dry.{ext}", vfs::root());
    vfs::arm(vec![]);
    if let Err(e) = objs[1].to_file(&dry) {
        return viol("save-failed", format!("save without any fault failed: {e}"));
    }
    let calls = vfs::ops();
    let mut cur: Option<usize> = None; // object the path holds, None = absent
    let mut was_absent = true;
    if c.knob("old") == 1 {
        if let Err(e) = objs[0].to_file(&path) {
            return viol("save-failed", format!("save without any fault failed: {e}"));
        }
        cur = Some(0);
        was_absent = false;
    }
    vfs::adopt();
    for k in 0..n {
        let mine: Vec<usize> = (0..savers).map(|j| 1 + k * savers + j).collect();
        let f = &c.io[k.min(c.io.len().max(1) - 1)..(k + 1).min(c.io.len())];
        vfs::arm(plan(f, calls * savers as u64));
        let mut oks: Vec<usize> = vec![];
        let mut reads: Vec<Result<S, String>> = vec![];
        let mut twin_ok = None;
        if savers == 1 {
            match caught(|| objs[mine[0]].to_file(&path)) {
                Ok(Ok(())) => oks.push(mine[0]),
                Ok(Err(_)) => rx.hit("saves that reported an error"),
                Err(p) => {
                    if !vfs::is_dead() {
                        return viol("save-panicked", format!("save {k} panicked: {p}"));
                    }
                }
            }
        } else {
            enum Out<S> {
                Saved(usize, bool),
                Twin(bool),
                Read(Result<S, String>),
            }
            let mut tasks: Vec<Box<dyn FnOnce() -> Out<S> + Send>> = vec![];
            for &m in &mine {
                let (o, p) = (objs[m].clone(), path.clone());
                tasks.push(Box::new(move || Out::Saved(m, o.to_file(&p).is_ok())));
            }
            if c.knob("reader") == 1 {
                let p = path.clone();
                tasks.push(Box::new(move || Out::Read(S::from_file(&p).map_err(|e| e.to_string()))));
            }
            if let Some(p) = twin.clone() {
                let o = objs[n * savers + 1].clone();
                tasks.insert(1, Box::new(move || Out::Twin(o.to_file(&p).is_ok())));
            }
            let (res, rep) = sched::run(tasks, c.preempt.clone());
            rx.add("task switches", rep.switches);
            rx.add("task switches inside I/O", rep.mid_io);
            rx.add("waits for a lock", rep.blocks);
            rx.log(rep.hash);
            rx.fingerprint(rep.hash);
            for r in res {
                match r {
                    Ok(Out::Saved(m, true)) => oks.push(m),
                    Ok(Out::Saved(_, false)) => rx.hit("saves that reported an error"),
                    Ok(Out::Twin(ok)) => twin_ok = Some(ok),
                    Ok(Out::Read(r)) => reads.push(r),
                    Err(e) => {
                        if !vfs::is_dead() {
                            return viol("save-panicked", format!("concurrent save {k} panicked: {}", panic_msg(&e)));
                        }
                    }
                }
            }
            rx.hit("several savers on one path");
        }
        let fired = vfs::take_fired();
        let crashed = vfs::is_dead();
        let power = fired.contains_key("power loss");
        let n_fired: u64 = fired.values().sum();
        for (f, x) in &fired {
            rx.add(&format!("fault: {f}"), *x);
        }
        rx.nontrivial |= n_fired > 0 || savers > 1;
        if crashed {
            vfs::recover();
            rx.hit("restarts after a crash inside a save");
            if c.knob("stale") == 1 {
                let rel = path.strip_prefix(&vfs::root()).unwrap_or(&path).to_string();
                let n = vfs::age_leftovers(&|p| p == rel || p == "sub/keep.txt" || p.starts_with("dry."));
                rx.add("fault: stale files of an earlier process", n);
            }
        } else {
            vfs::disarm();
        }
        // a concurrent reader saw a complete object (or nothing)
        for r in reads {
            match r {
                Ok(s) => {
                    let known = objs.iter().any(|o| match ulp_diff(o, &s) {
                        None => true,
                        Some(Ok(_)) => ext == "json",
                        _ => false,
                    });
                    ensure!(known, "torn-read", "a concurrent reader of {path} loaded an object that was never saved");
                    rx.hit("concurrent reads of a complete object");
                }
                Err(e) => {
                    ensure!(cur.is_none() || n_fired > 0, "torn-read", "a concurrent reader of {path} failed without any fault: {e}");
                }
            }
        }
        if let Some(p) = twin.as_ref() {
            // the other file, saved at the same time
            match load_kind::<S>(p, &objs[..]) {
                Err(e) if e == "absent" => ensure!(crashed || twin_ok != Some(true), "ok-but-missing", "the save to {p} during save {k} reported success but nothing is stored"),
                Err(e) => return viol("torn-file", format!("after save {k} the other path {p} holds no complete object: {e}")),
                Ok(x) => ensure!(x == n * savers + 1, "wrong-object", "after save {k} the other path {p} holds object {x}"),
            }
            rx.hit("another file saved at the same time");
        }
        let now = load_kind::<S>(&path, &objs[..]);
        let now = match now {
            Err(e) if e == "absent" => None,
            Err(e) => {
                return viol("torn-file", format!("after save {k} ({}{}) the path holds no complete object: {e}",
                    fired.keys().cloned().collect::<Vec<_>>().join(", "), if crashed { ", restart" } else { "" }));
            }
            Ok(x) => Some(x),
        };
        rx.log(now.map(|x| x as u64 + 1).unwrap_or(0));
        match now {
            None => {
                let fine = cur.is_none() || (power && was_absent);
                ensure!(fine, "lost-file", "after save {k} ({:?}) the path is empty although object {cur:?} was stored", fired.keys());
                ensure!(oks.is_empty() || crashed, "ok-but-missing", "save {k} reported success but nothing is stored");
            }
            Some(x) => {
                let new = mine.contains(&x);
                let earlier = x <= k * savers;
                ensure!(new || earlier, "wrong-object", "after save {k} the path holds object {x}");
                if !oks.is_empty() && !crashed {
                    ensure!(new, "ok-but-old", "save {k} reported success but the path holds the earlier object {x}");
                    if savers == 1 {
                        ensure!(x == mine[0], "ok-but-old", "save {k} reported success but the path holds object {x}");
                    }
                }
                if !new && !power {
                    ensure!(Some(x) == cur, "wrong-object", "after the failed save {k} the path holds object {x}, before it held {cur:?}");
                }
                rx.hit(if new { "path held the new object" } else { "path held an earlier object" });
            }
        }
        cur = now;
        if crashed && power {
            was_absent = now.is_none();
        }
        ensure!(vfs::get("sub/keep.txt").as_deref() == Some(b"unrelated"), "other-file", "an unrelated file changed during save {k}");
    }
    // faults over: saving works
    let last = n * savers + 1;
    vfs::disarm();
    match caught(|| objs[last].to_file(&path)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return viol("save-after-fault", format!("saving fails after the fault is gone: {e}")),
        Err(p) => return viol("save-after-fault", format!("saving panics after the fault is gone: {p}")),
    }
    match load_kind::<S>(&path, &objs) {
        Ok(x) if x == last => {}
        o => return viol("save-after-fault", format!("after the faults a save reported success but the path holds {o:?} instead of object {last}")),
    }
    if ext == "json" {
        let got = S::from_file(&path).expect("checked");
        same_stored(rx, true, &objs[last], &got, "reload-differs", "final save")?;
    }
    rx.log(vfs::take_trace());
    rx.io_faults();
    Ok(())
}

// ---- C10 ----------------------------------------------------------------------------------------------------
pub fn gen_c10(rng: &mut Rng) -> Case {
    let o = GenOpts { max_reports: *rng.pick(&[1usize, 3, 8, 30]), max_substeps: 60., ..Default::default() };
    let spec = gen_spec(rng, &o);
    let mut knobs = BTreeMap::new();
    knobs.insert("fmt".into(), rng.below(5) as i64);
    if rng.chance(0.006) {
        let (lo, hi) = if rng.chance(0.1) { (40_000., 90_000.) } else { (500., 20_000.) };
        knobs.insert("bulk".into(), rng.logu(lo, hi) as i64);
    }
    knobs.insert("file".into(), rng.below(15) as i64);
    knobs.insert("rows".into(), rng.below(31) as i64);
    knobs.insert("mode".into(), rng.below(4) as i64);
    knobs.insert("pos".into(), rng.below(1 << 20) as i64);
    knobs.insert("arg".into(), rng.below(1 << 31) as i64);
    knobs.insert("n".into(), 1 + rng.below(3) as i64);
    let mut c = Case { specs: vec![spec], knobs, ..Default::default() };
    let kinds = [IoKind::Eio, IoKind::Eintr, IoKind::Short, IoKind::AllShort, IoKind::Storm, IoKind::OpenDenied];
    for _ in 0..rng.below(6) {
        c.io.push(IoFault { pos: gen_pos(rng), kind: *rng.pick(&kinds), arg: rng.below(1 << 31) as u32 });
    }
    c
}
pub fn run_c10(c: &Case, rx: &mut Rx) -> Res {
    with_sys!(c.specs[0].kind, S => c10::<S>(c, rx))
}
fn c10<S: SimSys>(c: &Case, rx: &mut Rx) -> Res {
    let spec = &c.specs[0];
    let fmt = FMTS[c.knob("fmt") as usize % 5];
    let mut obj = object::<S>(spec, c.knob("rows") as u32, 1.0);
    obj.t_rep().extend((0..c.knob("bulk")).map(|k| 2e6 + k as f64 / 7.));
    if c.knob("rows") % 7 == 0 {
        // text that needs quoting in no format but sits in every one: very large and very small numbers
        obj.t_rep().extend([1e-300, 5e-324, 1.7976931348623157e308, 0.1 + 0.2]);
    }
    vfs::format_disk(&[]);
    vfs::make_dir("sub");
    vfs::adopt();
    rx.fingerprint(format!("{:?}{:?}", c.io, c.knobs));
    rx.nontrivial = true;
    // the stored bytes
    let ext = match fmt {
        Fmt::FileJson => "json",
        Fmt::FileYaml => "yaml",
        Fmt::Json => "json",
        Fmt::Yaml => "yaml",
        Fmt::Bin => "bin",
    };
    let file = matches!(fmt, Fmt::FileJson | Fmt::FileYaml);
    let path = path_of(c.knob("file"), ext);
    let bytes: Vec<u8> = match fmt {
        Fmt::Json => obj.to_json().into_bytes(),
        Fmt::Yaml => obj.to_yaml().into_bytes(),
        Fmt::Bin => obj.to_bincode(),
        _ => {
            if let Err(e) = obj.to_file(&path) {
                return viol("save-failed", format!("save without any fault failed: {e}"));
            }
            vfs::get(path.strip_prefix(&vfs::root()).unwrap_or(&path)).unwrap_or_default()
        }
    };
    rx.log(bytes.len() as u64);
    let json = ext == "json";
    let load = |b: &[u8]| -> Result<Result<S, String>, String> {
        if file {
            vfs::put(path.strip_prefix(&vfs::root()).unwrap_or(&path), b);
            caught(|| S::from_file(&path).map_err(|e| e.to_string()))
        } else if fmt == Fmt::Bin {
            caught(|| S::from_bincode(b).map_err(|e| e.to_string()))
        } else {
            let t = String::from_utf8_lossy(b).to_string();
            caught(|| if json { S::from_json(&t) } else { S::from_yaml(&t) }.map_err(|e| e.to_string()))
        }
    };
    // the file, loaded before, is replaced by another of the same size
    let replaced = |rx: &mut Rx| -> Res {
        let mut o = object::<S>(spec, c.knob("rows") as u32, 2.0);
        let own = o.t_rep().len();
        o.t_rep().extend(&obj.clone().t_rep()[own..]);
        for k in 0..2 {
            let new = if k == 0 { &o } else { &obj };
            if let Err(e) = new.to_file(&path) {
                return viol("save-failed", format!("save over an existing file without any fault failed: {e}"));
            }
            match caught(|| S::from_file(&path).map_err(|e| e.to_string())) {
                Err(p) => return viol("load-panicked", format!("loading a replaced {ext} file panicked: {p}")),
                Ok(Err(e)) => return viol("load-failed", format!("loading a replaced {ext} file failed: {e}")),
                Ok(Ok(s)) => same_stored(rx, json, new, &s, "reload-differs", "file replaced by one of the same size")?,
            }
        }
        rx.hit("file replaced and loaded again");
        Ok(())
    };
    match c.knob("mode") % 4 {
        0 if file => {
            // faults while reading
            vfs::arm(vec![]);
            let r = load(&bytes);
            let calls = vfs::ops();
            match r {
                Err(p) => return viol("load-panicked", format!("loading an intact {ext} file panicked: {p}")),
                Ok(Err(e)) => return viol("load-failed", format!("loading an intact {ext} file failed: {e}")),
                Ok(Ok(s)) => same_stored(rx, json, &obj, &s, "reload-differs", "intact file")?,
            }
            vfs::arm(plan(&c.io, calls));
            let r = load(&bytes);
            let fired = vfs::take_fired();
            vfs::disarm();
            let hard = fired.keys().any(|k| matches!(*k, "I/O error" | "open denied"));
            for (f, x) in &fired {
                rx.add(&format!("fault: {f}"), *x);
            }
            rx.log(hard as u64);
            match r {
                Err(p) => return viol("load-panicked", format!("loading panicked under {:?}: {p}", fired.keys())),
                Ok(Err(e)) => ensure!(hard, "load-failed", "loading intact data failed under harmless faults {:?}: {e}", fired.keys()),
                Ok(Ok(s)) => {
                    ensure!(!hard, "error-swallowed", "a read error was not reported ({:?})", fired.keys());
                    same_stored(rx, json, &obj, &s, "reload-differs", "short or interrupted reads")?;
                }
            }
            replaced(rx)?;
            // missing file, unsupported suffix
            let gone = format!("{}none.{ext}", vfs::root());
            ensure!(matches!(caught(|| S::from_file(&gone).is_err()), Ok(true)), "missing-file", "loading a missing file did not give an error");
            let odd = format!("{}state.{}", vfs::root(), ["txt", "jsonx", "yml", "bin"][c.knob("n") as usize % 4]);
            vfs::put(odd.strip_prefix(&vfs::root()).unwrap(), &bytes);
            ensure!(matches!(caught(|| S::from_file(&odd).is_err()), Ok(true)), "unsupported-suffix", "loading {odd} did not give an error");
            rx.hit("reads under disk faults");
        }
        0 | 1 => {
            // intact round trip, twice
            match load(&bytes) {
                Err(p) => return viol("load-panicked", format!("loading intact data panicked: {p}")),
                Ok(Err(e)) => return viol("load-failed", format!("loading intact data ({fmt:?}) failed: {e}")),
                Ok(Ok(s)) => {
                    same_stored(rx, json, &obj, &s, "reload-differs", "intact data")?;
                    let again = match fmt {
                        Fmt::Json | Fmt::FileJson => S::from_json(&s.to_json()),
                        Fmt::Yaml | Fmt::FileYaml => S::from_yaml(&s.to_yaml()),
                        Fmt::Bin => S::from_bincode(&s.to_bincode()),
                    };
                    match again {
                        Err(e) => return viol("load-failed", format!("a reloaded object could not be stored and loaded again: {e}")),
                        Ok(g) => same_stored(rx, json, &s, &g, "reload-differs", "second generation")?,
                    }
                }
            }
            if file {
                replaced(rx)?;
            }
            rx.hit("intact round trips");
        }
        2 => {
            // cut short
            let cut = match c.knob("arg") % 3 {
                0 => bytes.len().saturating_sub(1 + c.knob("pos") as usize % 4),
                1 => c.knob("pos") as usize % 16,
                _ => c.knob("pos") as usize,
            } % bytes.len();
            let r = load(&bytes[..cut]);
            rx.hit("fault: data cut short");
            match r {
                Err(p) => return viol("load-panicked", format!("loading {fmt:?} data cut at {cut} of {} panicked: {p}", bytes.len())),
                Ok(Ok(_)) => {
                    // the file may end in a newline the object does not need
                    let trivial = bytes[cut..].iter().all(|b| b.is_ascii_whitespace());
                    ensure!(ext == "yaml" || (trivial && json), "truncated-accepted", "{fmt:?} data cut at {cut} of {} bytes was accepted", bytes.len());
                    rx.log(1);
                }
                Ok(Err(_)) => rx.log(2),
            }
        }
        _ => {
            // damaged
            let mut b = bytes.clone();
            let mut r = Rng::new(c.knob("arg") as u64);
            for _ in 0..c.knob("n") {
                let i = if r.chance(0.4) { r.below(b.len().min(200) as u64) } else { r.below(b.len() as u64) } as usize;
                match r.below(5) {
                    0 => b[i] ^= 1 << r.below(8),
                    1 => b[i] = r.below(256) as u8,
                    2 => {
                        let j = (i + 1 + r.below(8) as usize).min(b.len());
                        for x in &mut b[i..j] {
                            *x = 0xff;
                        }
                    }
                    3 => {
                        let j = (i + r.below(64) as usize).min(b.len());
                        b.drain(i..j);
                        if b.is_empty() {
                            b.push(0);
                        }
                    }
                    _ => {
                        let j = (i + r.below(64) as usize).min(b.len());
                        let part: Vec<u8> = b[i..j].to_vec();
                        b.splice(i..i, part);
                    }
                }
            }
            rx.hit("fault: stored bytes damaged");
            match load(&b) {
                Err(p) => return viol("load-panicked", format!("loading damaged {fmt:?} data panicked: {p}")),
                Ok(Ok(_)) => {
                    rx.hit("damaged data loaded");
                    rx.log(1);
                }
                Ok(Err(_)) => {
                    rx.hit("damaged data rejected");
                    rx.log(2);
                }
            }
        }
    }
    rx.io_faults();
    Ok(())
}

// ---- C20 ----------------------------------------------------------------------------------------------------
const BENCH: [&str; 7] = ["euler", "heuns", "midpoint", "ralstons", "rk23", "rk4", "rk45"];
fn bench_path(k: usize) -> String {
    format!("dess-examples/src/tests/fixtures/{} benchmark.yaml", BENCH[k])
}
fn mock(k: usize) -> tm3::System3TM {
    match k {
        0 => tm3::mock_euler_sys(),
        1 => tm3::mock_heuns_sys(),
        2 => tm3::mock_midpoint_sys(),
        3 => tm3::mock_ralstons_sys(),
        4 => tm3::mock_rk23_sys(),
        5 => tm3::mock_rk4fixed_sys(),
        _ => tm3::mock_rk45_sys(),
    }
}
pub fn gen_c20(rng: &mut Rng) -> Case {
    let mut c = Case::default();
    c.knobs.insert("request".into(), rng.chance(0.85) as i64);
    c.knobs.insert("old".into(), rng.below(128) as i64);
    c.knobs.insert("bc".into(), rng.chance(0.3) as i64);
    c.knobs.insert("stale".into(), rng.chance(0.3) as i64);
    c.knobs.insert("main".into(), rng.below(12) as i64);
    let kinds = [IoKind::Enospc, IoKind::EnospcSticky, IoKind::Eio, IoKind::Eintr, IoKind::Short, IoKind::AllShort, IoKind::Storm, IoKind::OpenDenied, IoKind::Crash, IoKind::PowerLoss];
    for _ in 0..rng.below(3) {
        c.io.push(IoFault { pos: gen_pos(rng), kind: *rng.pick(&kinds), arg: rng.below(1 << 31) as u32 });
    }
    c
}
mod ex_main {
    include!(concat!(env!("OUT_DIR"), "/ex_main.rs"));
}
use ex_main::MAIN;
static ARGV: std::sync::atomic::AtomicPtr<*const libc::c_char> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
/// the C library hands the program's arguments to every initialiser
#[used]
#[link_section = ".init_array"]
static SEE_ARGS: extern "C" fn(libc::c_int, *mut *const libc::c_char, *const *const libc::c_char) = {
    extern "C" fn see(argc: libc::c_int, argv: *mut *const libc::c_char, _: *const *const libc::c_char) {
        if argc > 1 {
            ARGV.store(argv, std::sync::atomic::Ordering::SeqCst);
        }
    }
    see
};
/// runs `f` with another first argument of the program (or none)
fn with_arg<R>(a: Option<&std::ffi::CStr>, f: impl FnOnce() -> R) -> R {
    let v = ARGV.load(std::sync::atomic::Ordering::SeqCst);
    if v.is_null() {
        return f();
    }
    unsafe {
        let (old, old2) = (*v.add(1), *v.add(2));
        *v.add(1) = a.map_or(std::ptr::null(), |a| a.as_ptr());
        *v.add(2) = std::ptr::null();
        let r = f();
        *v.add(1) = old;
        *v.add(2) = old2;
        r
    }
}
pub fn run_c20(c: &Case, rx: &mut Rx) -> Res {
    thread_local! { static REF: (Vec<tm3::System3TM>, Vec<tm3::System3TM>) = {
        let new: Vec<_> = (0..7).map(|k| { let mut s = mock(k); s.walk(); s }).collect();
        let old: Vec<_> = (0..7).map(|k| { let mut s = mock(k); Exec::row(&mut s); Exec::row(&mut s); s }).collect();
        (new, old)
    } }
    REF.with(|(new, old)| c20(c, rx, new, old))
}
fn c20(c: &Case, rx: &mut Rx, new: &[tm3::System3TM], old: &[tm3::System3TM]) -> Res {
    std::env::set_var("CARGO_MANIFEST_DIR", format!("{}dess-examples", vfs::root()));
    vfs::format_disk(&[]);
    vfs::make_dir("dess-examples/src/tests/fixtures");
    let mut had = vec![];
    for k in 0..7 {
        let h = c.knob("old") >> k & 1 == 1;
        had.push(h);
        if h {
            vfs::put(&bench_path(k), old[k].to_yaml().as_bytes());
        }
    }
    vfs::put("dess-examples/src/tests/fixtures/other.yaml", b"a: 1\n");
    vfs::adopt();
    rx.fingerprint(format!("{:?}{:?}", c.io, c.knobs));
    let before = vfs::listing();
    vfs::arm(vec![]);
    if c.knob("request") == 0 {
        if let (Some(main), true) = (MAIN, c.knob("main") > 0) {
            // the whole program, with arguments that ask for nothing, on a disk that takes nothing
            const ASK: [Option<&std::ffi::CStr>; 10] = [None, Some(c"false"), Some(c"False"), Some(c""), Some(c"0"), Some(c"no"), Some(c"untrue"), Some(c"tru"), Some(c"--help"), Some(c"truest")];
            vfs::arm(plan(&[IoFault { pos: Pos::FromStart(0), kind: IoKind::EnospcSticky, arg: 0 }], 0));
            let a = ASK[(c.knob("main") - 1) as usize % ASK.len()];
            let r = with_arg(a, || caught(main));
            vfs::arm(vec![]);
            vfs::take_fired();
            if let Err(p) = r {
                return viol("unrequested-write", format!("the program run with argument {a:?} on a full disk panicked: {p}"));
            }
            ensure!(vfs::listing() == before, "unrequested-write", "the program run with argument {a:?} changed files");
            rx.hit("whole program runs without a request");
            rx.hit("fault: full disk during a run that is to write nothing");
        }
        let r = caught(|| {
            tm3::run_three_tm_sys(false);
            if c.knob("bc") == 1 {
                tmbc::run_three_tm_w_bc_sys();
            }
        });
        if let Err(p) = r {
            return viol("example-panicked", format!("running the examples panicked: {p}"));
        }
        ensure!(vfs::listing() == before, "unrequested-write", "running the examples without a request changed files");
        rx.hit("runs without a request");
        rx.nontrivial = true;
        rx.io_faults();
        return Ok(());
    }
    // number of calls of a complete regeneration
    thread_local! { static CALLS: std::cell::RefCell<std::collections::BTreeMap<i64, u64>> = const { std::cell::RefCell::new(std::collections::BTreeMap::new()) }; }
    let mask = c.knob("old");
    let known = CALLS.with(|x| x.borrow().get(&mask).copied());
    if !c.io.is_empty() && known.is_none() {
        vfs::arm(vec![]);
        if let Err(p) = caught(|| tm3::run_three_tm_sys(true)) {
            return viol("example-panicked", format!("regenerating the benchmarks without a fault panicked: {p}"));
        }
        CALLS.with(|x| x.borrow_mut().insert(mask, vfs::ops()));
        vfs::take_fired();
        return c20(c, rx, new, old);
    }
    vfs::take_trace();
    vfs::arm(plan(&c.io, known.unwrap_or(0)));
    let r = caught(|| tm3::run_three_tm_sys(true));
    let fired = vfs::take_fired();
    for (f, x) in &fired {
        rx.add(&format!("fault: {f}"), *x);
    }
    let crashed = vfs::is_dead();
    let power = fired.contains_key("power loss");
    if crashed {
        vfs::recover();
        rx.hit("restarts after a crash inside a regeneration");
        if c.knob("stale") == 1 {
            let n = vfs::age_leftovers(&|p| (0..7).any(|k| p == bench_path(k)) || p.ends_with("other.yaml"));
            rx.add("fault: stale files of an earlier process", n);
        }
    } else {
        vfs::disarm();
    }
    rx.nontrivial |= !fired.is_empty();
    let clean = r.is_ok() && !crashed;
    if r.is_err() && fired.is_empty() {
        return viol("example-panicked", format!("regenerating the benchmarks panicked without a fault: {}", r.unwrap_err()));
    }
    let state = |k: usize| -> Result<Option<bool>, String> {
        if vfs::get(&bench_path(k)).is_none() {
            return Ok(None);
        }
        let p = format!("{}{}", vfs::root(), bench_path(k));
        match caught(|| tm3::System3TM::from_file(&p)) {
            Err(p) => Err(format!("loading panics: {p}")),
            Ok(Err(e)) => Err(format!("it does not load: {e}")),
            Ok(Ok(s)) => {
                if diff(&s, &new[k]).is_none() {
                    Ok(Some(true))
                } else if diff(&s, &old[k]).is_none() {
                    Ok(Some(false))
                } else {
                    Err(format!("it holds neither the old nor the new result: {}", diff(&new[k], &s).unwrap_or_default()))
                }
            }
        }
    };
    for k in 0..7 {
        match state(k) {
            Err(e) => return viol("torn-benchmark", format!("{} benchmark after {:?}: {e}", BENCH[k], fired.keys())),
            Ok(None) => ensure!(!had[k] && !clean, "missing-benchmark", "{} benchmark is missing", BENCH[k]),
            Ok(Some(n)) => {
                ensure!(n || !clean, "old-benchmark", "{} benchmark still holds the old result after a successful regeneration", BENCH[k]);
                ensure!(n || had[k], "old-benchmark", "{} benchmark holds an old result that was never there", BENCH[k]);
                rx.log(n as u64 + 1);
                rx.hit(if n { "benchmark new" } else { "benchmark old" });
            }
        }
    }
    let _ = power;
    ensure!(vfs::get("dess-examples/src/tests/fixtures/other.yaml").as_deref() == Some(b"a: 1\n"), "other-file", "an unrelated file changed");
    // once more without faults
    vfs::arm(vec![]);
    if !clean || c.knob("bc") == 1 {
        if let Err(p) = caught(|| tm3::run_three_tm_sys(true)) {
            return viol("example-panicked", format!("regenerating after the fault is gone panicked: {p}"));
        }
        for k in 0..7 {
            ensure!(state(k) == Ok(Some(true)), "old-benchmark", "{} benchmark is {:?} after regenerating without faults", BENCH[k], state(k));
        }
    }
    rx.log(vfs::take_trace());
    rx.sim_time += 7.0;
    rx.io_faults();
    Ok(())
}
