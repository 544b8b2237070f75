//! Shared by all property runners: run context, violation type, comparison of whole objects, script executor.
#![allow(clippy::all)]
use crate::models::*;
use crate::rng::{hash_bytes, mix};
use crate::seam;
use crate::spec::*;
use dess::prelude::*;
use serde::Serialize;
use serde_yaml::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Viol {
    /// coarse class, stable under minimisation
    pub class: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Viol>;
pub fn viol<T>(class: &str, msg: impl Into<String>) -> Res<T> {
    Err(Viol { class: class.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { return $crate::common::viol($class, format!($($a)*)); } };
}

/// what one run observed
#[derive(Default)]
pub struct Rx {
    pub digest: u64,
    pub fp: u64,
    pub nontrivial: bool,
    pub sim_time: f64,
    pub steps: u64,
    pub counters: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub quiet: bool,
}
impl Rx {
    pub fn hit(&mut self, k: &str) {
        *self.counters.entry(k.into()).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.into()).or_default() += n;
        }
    }
    pub fn known(&mut self, k: &str) {
        *self.known.entry(k.into()).or_default() += 1;
    }
    pub fn log(&mut self, x: u64) {
        self.digest = mix(self.digest.rotate_left(7) ^ x);
    }
    pub fn logs(&mut self, s: &[u8]) {
        self.digest = hash_bytes(self.digest, s);
    }
    pub fn logf(&mut self, x: f64) {
        // all NaNs alike
        self.log(if x.is_nan() { 0x7ff8 << 48 } else { x.to_bits() });
    }
    pub fn log_sys<S: SimSys>(&mut self, s: &S) {
        let st = s.sys_state();
        self.log(st.i as u64);
        self.logf(st.time);
        for v in s.cur_cols() {
            self.logf(v);
        }
        for v in &s.sys_hist().time {
            self.logf(*v);
        }
        for (_, c) in s.cols() {
            for v in c {
                self.logf(v);
            }
        }
    }
    pub fn fingerprint(&mut self, x: impl std::hash::Hash) {
        use std::hash::Hasher;
        struct H(u64);
        impl Hasher for H {
            fn finish(&self) -> u64 {
                self.0
            }
            fn write(&mut self, b: &[u8]) {
                self.0 = hash_bytes(self.0, b);
            }
        }
        let mut h = H(self.fp);
        x.hash(&mut h);
        self.fp = h.finish();
    }
    pub fn model_faults(&mut self) {
        let (a, b, c) = seam::take_fired();
        self.add("fault: NaN derivative", a);
        self.add("fault: infinite derivative", b);
        self.add("fault: panicking callback", c);
    }
    pub fn io_faults(&mut self) {
        for (k, n) in crate::vfs::take_fired() {
            self.add(&format!("fault: {k}"), n);
        }
        for (k, n) in crate::vfs::take_kinds() {
            self.add(&format!("io calls: {k}"), n);
        }
    }
}

// ---- comparing whole objects --------------------------------------------------------------------------------
pub fn val<T: Serialize>(x: &T) -> Value {
    serde_yaml::to_value(x).expect("to_value")
}
fn leaf_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_f64(), y.as_f64()) {
            (Some(u), Some(v)) => u == v || (u.is_nan() && v.is_nan()),
            _ => x == y,
        },
        _ => a == b,
    }
}
fn walk_diff(path: &mut String, a: &Value, b: &Value, f: &mut dyn FnMut(&str, &Value, &Value) -> bool) -> Option<String> {
    match (a, b) {
        (Value::Sequence(x), Value::Sequence(y)) => {
            if x.len() != y.len() {
                return Some(format!("{path}: length {} vs {}", x.len(), y.len()));
            }
            for (i, (u, v)) in x.iter().zip(y).enumerate() {
                let l = path.len();
                path.push_str(&format!("[{i}]"));
                if let Some(d) = walk_diff(path, u, v, f) {
                    return Some(d);
                }
                path.truncate(l);
            }
            None
        }
        (Value::Mapping(x), Value::Mapping(y)) => {
            if x.len() != y.len() {
                return Some(format!("{path}: different fields"));
            }
            for (k, u) in x {
                let l = path.len();
                path.push_str(&format!(".{}", k.as_str().unwrap_or("?")));
                match y.get(k) {
                    None => return Some(format!("{path}: missing")),
                    Some(v) => {
                        if let Some(d) = walk_diff(path, u, v, f) {
                            return Some(d);
                        }
                    }
                }
                path.truncate(l);
            }
            None
        }
        (Value::Tagged(x), Value::Tagged(y)) => {
            if x.tag != y.tag {
                return Some(format!("{path}: {} vs {}", x.tag, y.tag));
            }
            walk_diff(path, &x.value, &y.value, f)
        }
        _ => {
            if f(path, a, b) {
                None
            } else {
                Some(format!("{path}: {a:?} vs {b:?}"))
            }
        }
    }
}
/// first difference between two objects, NaN equal to NaN
pub fn diff<T: Serialize + PartialEq + std::fmt::Debug>(a: &T, b: &T) -> Option<String> {
    if a == b {
        return None;
    }
    let (va, vb) = (val(a), val(b));
    walk_diff(&mut String::new(), &va, &vb, &mut |_, x, y| leaf_eq(x, y)).or_else(|| unstored(a, b))
}
/// objects that compare unequal with equal stored forms: NaN somewhere, or something that is not stored
fn unstored<T: std::fmt::Debug>(a: &T, b: &T) -> Option<String> {
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    if x == y {
        return None;
    }
    let k = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count();
    let cut = |s: &str| s.chars().skip(k.saturating_sub(30)).take(70).collect::<String>();
    Some(format!("...{}... vs ...{}...", cut(&x), cut(&y)))
}
pub fn diff_val(a: &Value, b: &Value) -> Option<String> {
    walk_diff(&mut String::new(), a, b, &mut |_, x, y| leaf_eq(x, y))
}
pub fn ulps(a: f64, b: f64) -> u64 {
    if a == b || (a.is_nan() && b.is_nan()) {
        return 0;
    }
    if !a.is_finite() || !b.is_finite() || (a < 0.) != (b < 0.) {
        return u64::MAX;
    }
    (a.to_bits() as i64).abs_diff(b.to_bits() as i64)
}
/// None: equal. Some(Ok(n)): only floats differ, by at most n ulps (n <= 4), each as the JSON library's default number
/// parser makes them differ. Some(Err): any other difference. Used for JSON; other formats accept only None.
pub fn ulp_diff<T: Serialize + PartialEq + std::fmt::Debug>(a: &T, b: &T) -> Option<Result<u64, String>> {
    if a == b {
        return None;
    }
    ulp_diff_val(&val(a), &val(b)).or_else(|| unstored(a, b).map(Err))
}
pub fn ulp_diff_val(va: &Value, vb: &Value) -> Option<Result<u64, String>> {
    let mut m = 0u64;
    let d = walk_diff(&mut String::new(), va, vb, &mut |_, x, y| {
        if leaf_eq(x, y) {
            return true;
        }
        match (x.as_f64(), y.as_f64()) {
            (Some(u), Some(v)) if x.is_f64() && y.is_f64() => {
                let n = ulps(u, v);
                m = m.max(n);
                // exactly what the JSON library's own number parser makes of the printed number
                n <= 4 && json_reparse(u) == Some(v)
            }
            _ => false,
        }
    });
    match d {
        Some(d) => Some(Err(d)),
        None if m == 0 => None,
        None => Some(Ok(m)),
    }
}
/// does any float in the value lack a JSON form?
pub fn non_finite(v: &Value) -> bool {
    match v {
        Value::Number(n) => n.as_f64().map(|x| !x.is_finite()).unwrap_or(false),
        Value::Sequence(s) => s.iter().any(non_finite),
        Value::Mapping(m) => m.iter().any(|(_, x)| non_finite(x)),
        Value::Tagged(t) => non_finite(&t.value),
        _ => false,
    }
}
fn json_reparse(u: f64) -> Option<f64> {
    serde_json::from_str(&serde_json::to_string(&u).ok()?).ok()
}
pub const JSON_ULP: &str = "json-ulp";
/// Checks that `got` is what was stored as `want`. JSON text may be off by a few units in the last place in float
/// leaves (listed known finding); everything else must be exact.
pub fn same_stored<T: Serialize + PartialEq + std::fmt::Debug>(rx: &mut Rx, json: bool, want: &T, got: &T, class: &str, what: &str) -> Res {
    match ulp_diff(want, got) {
        None => Ok(()),
        Some(Ok(_)) if json => {
            rx.known(JSON_ULP);
            Ok(())
        }
        Some(Ok(n)) => viol(class, format!("{what}: reloaded object differs from the stored one by {n} ulp")),
        Some(Err(d)) => viol(class, format!("{what}: reloaded object differs from the stored one: {d}")),
    }
}
/// runs `f`, turning a panic of the code under test into Err(message)
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => Err(panic_msg(&e)),
    }
}
pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if e.is::<seam::InjectedPanic>() {
        "injected panic".into()
    } else if let Some(b) = e.downcast_ref::<seam::BudgetExceeded>() {
        format!("more than {} derivative evaluations", b.0 - 1)
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

// ---- driving a system by a script ---------------------------------------------------------------------------
#[derive(Clone)]
enum Stored {
    Text(String),
    Bytes(Vec<u8>),
    File(String),
}
#[derive(Clone)]
struct Ck<S> {
    fmt: Fmt,
    data: Stored,
    exact: S,
    over: BTreeMap<usize, (Vec<f64>, Vec<f64>)>,
    sets: BTreeMap<usize, SysSpec>,
    p: Vec<f64>,
    dist: bool,
}
pub struct Exec<S: SimSys> {
    pub spec: SysSpec,
    pub live: S,
    ck: Option<Ck<S>>,
    pub decoys: Vec<S>,
    pub name: String,
    /// start values of the interval following row r, where they were changed from outside: r -> (states, params)
    pub over: BTreeMap<usize, (Vec<f64>, Vec<f64>)>,
    /// solver settings changed from outside: from row r on (dt = NaN: the proposed step size was left alone)
    pub sets: BTreeMap<usize, SysSpec>,
    pub restarts: u64,
    pub disturbed_after_last_row: bool,
    pub p: Vec<f64>,
}
impl<S: SimSys> Exec<S> {
    pub fn new(spec: &SysSpec, name: &str) -> Self {
        Exec {
            spec: spec.clone(),
            live: S::build(spec),
            ck: None,
            decoys: vec![],
            name: name.into(),
            over: Default::default(),
            sets: Default::default(),
            restarts: 0,
            disturbed_after_last_row: false,
            p: spec.p.clone(),
        }
    }
    /// the solver settings in force for the interval that ends in row r
    pub fn spec_at(&self, r: usize) -> &SysSpec {
        self.sets.range(..=r).next_back().map(|x| x.1).unwrap_or(&self.spec)
    }
    pub fn finished(&self) -> bool {
        self.live.sys_state().time >= *self.live.t_rep_ref().last().unwrap()
    }
    pub fn row(s: &mut S) {
        if s.sys_state().time < *s.t_rep_ref().last().unwrap() {
            s.do_solve_step();
            s.sys_state_mut().i += 1;
            s.do_save_state();
        }
    }
    pub fn store(&mut self, rx: &mut Rx, fmt: Fmt) -> Res {
        let s = &self.live;
        let name = format!("{}-ckpt", self.name);
        let data = match fmt {
            Fmt::Json => Stored::Text(s.to_json()),
            Fmt::Yaml => Stored::Text(s.to_yaml()),
            Fmt::Bin => Stored::Bytes(s.to_bincode()),
            Fmt::FileJson | Fmt::FileYaml => {
                let f = format!("{}{}.{}", crate::vfs::root(), name, if fmt == Fmt::FileJson { "json" } else { "yaml" });
                if let Err(e) = s.to_file(&f) {
                    return viol("store-failed", format!("to_file({f}) failed without a fault: {e}"));
                }
                Stored::File(f)
            }
        };
        rx.hit(&format!("checkpoint: {fmt:?}"));
        self.ck = Some(Ck { fmt, data, exact: s.clone(), over: self.over.clone(), sets: self.sets.clone(), p: self.p.clone(), dist: self.disturbed_after_last_row });
        Ok(())
    }
    /// the process dies and is started again
    pub fn restart(&mut self, rx: &mut Rx) -> Res {
        self.restarts += 1;
        self.decoys.clear();
        self.disturbed_after_last_row = false;
        match self.ck.clone() {
            None => {
                rx.hit("crash and restart from scratch");
                self.live = S::build(&self.spec);
                self.over.clear();
                self.sets.clear();
                self.p = self.spec.p.clone();
            }
            Some(c) => {
                rx.hit("crash and restart from checkpoint");
                let got = match &c.data {
                    Stored::Text(t) => {
                        if c.fmt == Fmt::Json {
                            S::from_json(t)
                        } else {
                            S::from_yaml(t)
                        }
                    }
                    Stored::Bytes(b) => S::from_bincode(b),
                    Stored::File(f) => S::from_file(f),
                };
                let got = match got {
                    Ok(g) => g,
                    Err(_) if matches!(c.fmt, Fmt::Json | Fmt::FileJson) && non_finite(&val(&c.exact)) => {
                        rx.hit("JSON checkpoint with non-finite values refused on load");
                        c.exact.clone()
                    }
                    Err(e) => return viol("reload-failed", format!("a checkpoint ({:?}) could not be loaded: {e}", c.fmt)),
                };
                let json = matches!(c.fmt, Fmt::Json | Fmt::FileJson);
                same_stored(rx, json, &c.exact, &got, "reload-differs", "restart")?;
                // after a JSON reload the run goes on from the exact values, so that the listed rounding of JSON
                // text does not hide anything else
                self.live = if json { c.exact.clone() } else { got };
                self.over = c.over.clone();
                self.sets = c.sets.clone();
                self.p = c.p.clone();
                self.disturbed_after_last_row = c.dist;
            }
        }
        Ok(())
    }
    pub fn op(&mut self, rx: &mut Rx, op: &Op) -> Res {
        let rows_before = self.live.n_rows();
        match op {
            Op::Row => Self::row(&mut self.live),
            Op::Rows(n) => {
                for _ in 0..*n {
                    Self::row(&mut self.live);
                }
            }
            Op::WalkTo(pm) => {
                let full = self.live.t_rep_ref().clone();
                let k = 1 + (full.len() - 1) * (*pm as usize).min(1000) / 1000;
                let k = k.max(self.live.sys_state().i).min(full.len());
                self.live.t_rep().truncate(k);
                self.live.do_walk();
                *self.live.t_rep() = full;
                rx.hit("walk over part of the list, list extended");
            }
            Op::Walk => self.live.do_walk(),
            Op::Rewalk => {
                let before = if self.finished() { Some(self.live.clone()) } else { None };
                self.live.do_walk();
                if let Some(b) = before {
                    rx.hit("walk on a finished system");
                    if let Some(d) = diff(&b, &self.live) {
                        return viol("rewalk-changes", format!("walking a finished system changed it: {d}"));
                    }
                }
            }
            Op::Ckpt(f) => self.store(rx, *f)?,
            Op::Restart => self.restart(rx)?,
            Op::CloneSwap => {
                let c = self.live.clone();
                self.live = c;
                rx.hit("run continued on a clone");
            }
            Op::Decoy(n) => {
                let mut d = self.live.clone();
                for x in d.nodes_mut() {
                    let (v, _) = x.cur();
                    x.set_cur(v * 1.5 + self.spec.unit(), 7.0);
                }
                for _ in 0..*n {
                    Self::row(&mut d);
                }
                self.decoys.push(d);
                rx.hit("disturbed copy advanced alongside");
            }
            Op::StepDecoys(n) => {
                for d in self.decoys.iter_mut() {
                    for _ in 0..*n {
                        Self::row(d);
                    }
                }
            }
            Op::Disturb(k, dv) => {
                let n = self.live.nodes().len();
                let all = (8..12).contains(k);
                let lost = *k >= 12;
                let k = if n > 8 { *k as usize * 5 % n } else { *k as usize % n };
                let mut ns = self.live.nodes_mut();
                let v = if lost { f64::NAN } else { ns[k].state() + dv * self.spec.unit() };
                if lost {
                    rx.hit("a state lost (NaN) from outside");
                }
                if all {
                    // everything to one and the same value
                    for x in ns.iter_mut() {
                        x.set_state(v);
                    }
                    rx.hit("all states set to one value");
                } else {
                    ns[k].set_state(v);
                }
                drop(ns);
                let r = self.live.n_rows();
                self.over.insert(r, (self.live.ys(), self.p.clone()));
                self.disturbed_after_last_row = true;
                rx.hit("states changed from outside between steps");
            }
            Op::Poke(..) | Op::Cont(..) => {}
        }
        if self.live.n_rows() > rows_before {
            self.disturbed_after_last_row = false;
        }
        Ok(())
    }
    pub fn run(&mut self, rx: &mut Rx, script: &[Op]) -> Res {
        for o in script {
            self.op(rx, o)?;
        }
        Ok(())
    }
}
/// A random script over the given kinds of operations, always ending with a walk to the end.
pub fn gen_script(rng: &mut crate::rng::Rng, max: usize, what: &[&str]) -> Vec<Op> {
    let n = rng.below(max as u64 + 1) as usize;
    let mut v = vec![];
    // swarm: each run uses a random subset
    let use_: Vec<&str> = what.iter().cloned().filter(|_| rng.chance(0.7)).collect();
    if !use_.is_empty() {
        for _ in 0..n {
            v.push(match *rng.pick(&use_) {
                "row" => {
                    if rng.chance(0.6) {
                        Op::Row
                    } else {
                        Op::Rows(1 + rng.below(5) as u32)
                    }
                }
                "walkto" => Op::WalkTo(rng.below(1001) as u32),
                "walk" => Op::Walk,
                "rewalk" => Op::Rewalk,
                "ckpt" => Op::Ckpt(*rng.pick(&FMTS)),
                "restart" => Op::Restart,
                "clone" => Op::CloneSwap,
                "decoy" => {
                    if rng.chance(0.5) {
                        Op::Decoy(rng.below(4) as u32)
                    } else {
                        Op::StepDecoys(1 + rng.below(3) as u32)
                    }
                }
                "disturb" => Op::Disturb(rng.below(12) as u32, {
                    let x = rng.uni(-20., 20.);
                    if rng.chance(0.5) {
                        x.round() + 0.5
                    } else {
                        x
                    }
                }),
                o => panic!("op {o}"),
            });
        }
    }
    v.push(Op::Walk);
    v
}
pub fn rows_of<S: SimSys>(s: &S) -> (Vec<f64>, Vec<usize>) {
    (s.sys_hist().time.clone(), s.sys_hist().i.clone())
}
pub fn maxabs(v: &[f64]) -> f64 {
    v.iter().fold(0., |a: f64, x| a.max(x.abs()))
}
/// report times in the order rows are expected, given the start time
pub fn expected_times(t0: f64, t_report: &[f64]) -> Vec<f64> {
    if *t_report.last().unwrap() <= t0 {
        return vec![];
    }
    t_report.iter().map(|&t| t.max(t0)).collect()
}
