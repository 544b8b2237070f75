//! Isolation, copies, containers, clock.
#![allow(clippy::all)]
use crate::common::*;
use crate::models::*;
use crate::rng::Rng;
use crate::sched;
use crate::seam::{self, Glitch, ModelFault};
use crate::spec::*;
use crate::vfs;
use crate::{ensure, with_sys};
use dess::prelude::*;
use dess_examples::components::*;
use serde_yaml::Value;
use std::collections::BTreeMap;

// ---- C11 ----------------------------------------------------------------------------------------------------
pub trait DynExec: Send {
    fn op(&mut self, rx: &mut Rx, op: &Op) -> Res;
    fn out(&self) -> Value;
    fn log(&self, rx: &mut Rx);
    fn crash(&mut self, rx: &mut Rx) -> Res;
}
impl<S: SimSys> DynExec for Exec<S> {
    fn op(&mut self, rx: &mut Rx, op: &Op) -> Res {
        Exec::op(self, rx, op)
    }
    fn out(&self) -> Value {
        val(&self.live)
    }
    fn log(&self, rx: &mut Rx) {
        rx.log_sys(&self.live);
    }
    fn crash(&mut self, rx: &mut Rx) -> Res {
        self.restart(rx)
    }
}
fn new_exec(spec: &SysSpec, name: &str) -> Box<dyn DynExec> {
    with_sys!(spec.kind, S => Box::new(Exec::<S>::new(spec, name)) as Box<dyn DynExec>)
}
pub fn gen_c11(rng: &mut Rng) -> Case {
    let n = 2 + rng.below(4) as usize;
    let mut c = Case::default();
    let same_kind = rng.chance(0.3);
    let same_method = rng.chance(0.3);
    let k = *rng.pick(&SEAM_KINDS);
    let m = *rng.pick(&ALL_METHODS);
    for _ in 0..n {
        let o = GenOpts {
            kinds: if same_kind { vec![k] } else { [&SEAM_KINDS[..], &ALL_KINDS[..]].concat() },
            methods: if same_method { vec![m] } else { ALL_METHODS.to_vec() },
            max_reports: 8,
            max_substeps: 120.,
            log: false,
            any_time: true,
        };
        let mut s = gen_spec(rng, &o);
        // twins: same system with other initial values or parameters
        if rng.chance(0.3) && !c.specs.is_empty() {
            s = c.specs[0].clone();
            let d = rng.uni(0.5, 2.0);
            if rng.chance(0.5) {
                for y in s.y0.iter_mut() {
                    *y += d;
                }
            } else {
                s.p[0] *= d;
            }
        }
        c.specs.push(s);
        c.scripts.push(gen_script(rng, 7, &["row", "row", "walkto", "ckpt", "restart", "clone"]));
    }
    if rng.chance(0.3) {
        c.model.push(ModelFault { at: 1 + rng.below(150), len: 1, kind: *rng.pick(&[Glitch::Panic, Glitch::Nan]), comp: 0 });
    }
    c.knobs.insert("one_thread".into(), rng.chance(0.35) as i64);
    c.knobs.insert("nest".into(), rng.chance(0.6) as i64);
    // now and then every system is stored and loaded all the time, all in one format
    if rng.chance(0.12) {
        let f = *rng.pick(&FMTS);
        for s in c.scripts.iter_mut() {
            *s = vec![Op::Ckpt(f)];
            for _ in 0..1 + rng.below(4) {
                s.push(Op::Restart);
                if rng.chance(0.4) {
                    s.push(Op::Row);
                    s.push(Op::Ckpt(f));
                }
            }
            s.push(Op::Walk);
        }
        c.knobs.insert("one_thread".into(), rng.chance(0.1) as i64);
    }
    c.preempt = sched::gen_preempt(rng, 300);
    c
}
/// one task: runs its script; an injected panic is a crash followed by a restart
fn task_body(spec: &SysSpec, script: &[Op], name: &str, faults: Vec<ModelFault>) -> (Result<Value, Viol>, Rx) {
    let mut rx = Rx::default();
    seam::reset(3_000_000, faults);
    let mut ex = new_exec(spec, name);
    let mut r = Ok(());
    for op in script {
        sched::yield_point(sched::Site::Op);
        r = step_task(&mut *ex, &mut rx, op);
        if r.is_err() {
            break;
        }
    }
    rx.model_faults();
    ex.log(&mut rx);
    (r.map(|_| ex.out()), rx)
}
fn step_task(ex: &mut dyn DynExec, rx: &mut Rx, op: &Op) -> Res {
    for _ in 0..5 {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.op(rx, op))) {
            Ok(r) => return r,
            Err(e) if e.is::<seam::InjectedPanic>() => ex.crash(rx)?,
            Err(e) => return viol("panic", panic_msg(&e)),
        }
    }
    Ok(())
}
/// systems sharing one thread; a system that is being advanced is out of its slot
#[derive(Default)]
struct Co {
    slots: Vec<Option<Box<dyn DynExec>>>,
    at: Vec<usize>,
    scripts: Vec<Vec<Op>>,
    plan: Vec<(u64, u32)>,
    next: usize,
    evals: u64,
    depth: u64,
    ops: u64,
    nested: u64,
    hash: u64,
    err: Option<Viol>,
}
thread_local! {
    static CO: std::cell::RefCell<Co> = std::cell::RefCell::new(Co::default());
}
struct ClearNest;
impl Drop for ClearNest {
    fn drop(&mut self) {
        seam::NEST.with(|h| h.set(None));
    }
}
/// runs one operation of one of the systems that are not being advanced already
fn co_step(ch: usize) -> bool {
    let Some((k, mut ex, op)) = CO.with(|co| {
        let mut co = co.borrow_mut();
        let live: Vec<usize> = (0..co.slots.len()).filter(|&k| co.slots[k].is_some() && co.at[k] < co.scripts[k].len()).collect();
        if live.is_empty() || co.err.is_some() {
            return None;
        }
        let k = live[ch % live.len()];
        let op = co.scripts[k][co.at[k]].clone();
        co.at[k] += 1;
        co.ops += 1;
        co.depth += 1;
        if co.depth > 1 {
            co.nested += 1;
        }
        co.hash = crate::rng::mix(co.hash ^ (co.evals << 8) ^ k as u64);
        let ex = co.slots[k].take().expect("filtered");
        Some((k, ex, op))
    }) else {
        return false;
    };
    let r = step_task(&mut *ex, &mut Rx::default(), &op);
    CO.with(|co| {
        let mut co = co.borrow_mut();
        co.slots[k] = Some(ex);
        co.depth -= 1;
        if let Err(v) = r {
            let how = if co.depth > 0 { " inside another system's derivative evaluation" } else { "" };
            co.err.get_or_insert(Viol { class: v.class, msg: format!("system {k}, advanced{how}: {}", v.msg) });
        }
    });
    true
}
fn co_hook() {
    let ch = CO.with(|co| {
        let mut co = co.borrow_mut();
        co.evals += 1;
        if co.next < co.plan.len() && co.plan[co.next].0 <= co.evals && co.depth < 4 {
            let ch = co.plan[co.next].1;
            co.next += 1;
            Some(ch)
        } else {
            None
        }
    });
    if let Some(ch) = ch {
        co_step(ch as usize);
    }
}
pub fn run_c11(c: &Case, rx: &mut Rx) -> Res {
    vfs::format_disk(&[]);
    let n = c.specs.len();
    let fault_of = |k: usize| if k == 0 { c.model.clone() } else { vec![] };
    // each alone, on a thread of its own
    let mut alone = vec![];
    for k in 0..n {
        let (spec, script, f) = (c.specs[k].clone(), c.scripts[k].clone(), fault_of(k));
        let r = std::thread::spawn(move || task_body(&spec, &script, &format!("t{k}"), f)).join();
        match r {
            Ok((Ok(v), _)) => alone.push(v),
            Ok((Err(v), _)) => return Err(v),
            Err(e) => return viol("panic", panic_msg(&e)),
        }
    }
    vfs::format_disk(&[]);
    let mut together = vec![];
    if c.knob("one_thread") == 1 {
        // all on one thread, operations interleaved; model faults would hit whoever runs, so none are used
        seam::reset(crate::EVAL_BUDGET * n as u64, vec![]);
        let nest = c.knob("nest") == 1;
        CO.with(|co| {
            *co.borrow_mut() = Co {
                slots: (0..n).map(|k| Some(new_exec(&c.specs[k], &format!("t{k}")))).collect(),
                at: vec![0; n],
                scripts: c.scripts.clone(),
                plan: c.preempt.clone(),
                ..Default::default()
            }
        });
        let _clear = ClearNest;
        if nest {
            seam::NEST.with(|h| h.set(Some(co_hook)));
        }
        let mut turn = 0usize;
        loop {
            let ch = if c.preempt.is_empty() { turn } else { c.preempt[turn % c.preempt.len()].1 as usize + turn };
            turn += 1;
            if !co_step(ch) {
                break;
            }
        }
        seam::NEST.with(|h| h.set(None));
        let co = CO.with(|co| std::mem::take(&mut *co.borrow_mut()));
        if let Some(v) = co.err {
            return Err(v);
        }
        rx.add("operations interleaved on one thread", co.ops);
        rx.add("operations run inside another system's derivative evaluation", co.nested);
        rx.log(co.hash);
        rx.fingerprint(co.hash);
        for ex in co.slots {
            together.push(ex.expect("back in its slot").out());
        }
        if !c.model.is_empty() {
            // the faulty run alone differs by design; compare the others
            together[0] = alone[0].clone();
        }
        rx.nontrivial = n > 1;
    } else {
        let mut tasks: Vec<Box<dyn FnOnce() -> (Result<Value, Viol>, Rx) + Send>> = vec![];
        for k in 0..n {
            let (spec, script, f) = (c.specs[k].clone(), c.scripts[k].clone(), fault_of(k));
            tasks.push(Box::new(move || task_body(&spec, &script, &format!("t{k}"), f)));
        }
        let (res, rep) = sched::run(tasks, c.preempt.clone());
        rx.add("task switches", rep.switches);
        rx.add("task switches inside a step", rep.mid_step);
        rx.add("task switches inside I/O", rep.mid_io);
        rx.add("yield points passed", rep.yields);
        rx.log(rep.hash);
        rx.fingerprint(rep.hash);
        rx.nontrivial = rep.switches > 0;
        for r in res {
            match r {
                Ok((Ok(v), r)) => {
                    together.push(v);
                    for (k, n) in r.counters {
                        rx.add(&k, n);
                    }
                    rx.log(r.digest);
                }
                Ok((Err(v), _)) => return viol(&v.class, format!("interleaved with other systems: {}", v.msg)),
                Err(e) => return viol("panic", panic_msg(&e)),
            }
        }
    }
    for k in 0..n {
        if let Some(d) = diff_val(&alone[k], &together[k]) {
            return viol("interference", format!("system {k} ends differently when interleaved with others: {d}"));
        }
        rx.sim_time += c.specs[k].t_end() - c.specs[k].t0;
    }
    rx.fingerprint(format!("{:?}", c.scripts));
    rx.io_faults();
    Ok(())
}

// ---- C12 ----------------------------------------------------------------------------------------------------
pub fn gen_c12(rng: &mut Rng) -> Case {
    let o = GenOpts { max_reports: 10, max_substeps: 300., log: false, ..Default::default() };
    let spec = gen_spec(rng, &o);
    let mut script = vec![];
    for _ in 0..1 + rng.below(12) {
        script.push(match rng.below(8) {
            0 => Op::CloneSwap,
            1 => Op::Decoy(rng.below(4) as u32),
            2 => Op::StepDecoys(1 + rng.below(3) as u32),
            3 => Op::Poke(rng.below(1 << 16) as u32, rng.uni(-5., 5.)),
            4 => Op::WalkTo(rng.below(1001) as u32),
            5 => Op::Cont(rng.below(4) as u32, 0.0),
            _ => Op::Row,
        });
    }
    script.push(Op::Walk);
    let mut c = Case { specs: vec![spec], scripts: vec![script], ..Default::default() };
    if rng.chance(0.4) {
        c.model.push(ModelFault { at: 1 + rng.below(40), len: 1 + rng.below(3), kind: *rng.pick(&[Glitch::Panic, Glitch::Nan, Glitch::PosInf]), comp: rng.below(9) as u32 });
    }
    c.preempt = sched::gen_preempt(rng, 40);
    c
}
pub fn run_c12(c: &Case, rx: &mut Rx) -> Res {
    with_sys!(c.specs[0].kind, S => c12::<S>(c, rx))
}
fn c12<S: SimSys>(c: &Case, rx: &mut Rx) -> Res {
    let spec = &c.specs[0];
    seam::rearm(crate::EVAL_BUDGET, vec![]);
    let mut control = S::build(spec);
    control.do_walk();
    let mut ex = Exec::<S>::new(spec, "a");
    rx.fingerprint(format!("{:?}", c.scripts));
    rx.nontrivial = c.scripts[0].len() > 1;
    for op in &c.scripts[0] {
        let snap = ex.live.clone();
        let decoys: Vec<S> = ex.decoys.clone();
        match op {
            Op::Poke(sel, x) => {
                // a bare copy
                let mut bare = ex.live.bare_clone();
                let mut want = snap.clone();
                want.clear_rows();
                if let Some(d) = diff(&want, &bare) {
                    return viol("bare-clone-differs", format!("bare clone (second) and the original without rows (first): {d}"));
                }
                rx.hit("bare clones compared");
                // advance it; rows equal those a full clone adds
                let mut full = snap.clone();
                let n0 = full.n_rows();
                let k = 1 + sel % 3;
                for _ in 0..k {
                    Exec::row(&mut bare);
                    Exec::row(&mut full);
                }
                for ((l, b), (_, f)) in bare.cols().iter().zip(full.cols()) {
                    ensure!(b.len() == full.n_rows() - n0, "bare-clone-rows", "bare clone recorded {} rows in {l}, a clone {}", b.len(), full.n_rows() - n0);
                    for (i, v) in b.iter().enumerate() {
                        ensure!(v.to_bits() == f[n0 + i].to_bits() || (v.is_nan() && f[n0 + i].is_nan()), "bare-clone-rows", "row {i} after copying: {l} is {v:e} in the bare clone, {:e} in a clone", f[n0 + i]);
                    }
                }
                let (a, b) = (bare.sys_hist(), full.sys_hist());
                ensure!(a.time[..] == b.time[n0..] && a.i[..] == b.i[n0..], "bare-clone-rows", "times of the bare clone's rows differ");
                // disturb the bare copy
                for nd in bare.nodes_mut() {
                    let v = nd.state();
                    nd.set_state(v * 2.0 + x);
                }
                bare.t_rep().clear();
                drop(bare);
                if let Some(d) = diff(&snap, &ex.live) {
                    return viol("copy-changes-original", format!("advancing a bare clone changed the original: {d}"));
                }
            }
            Op::Cont(sel, _) => {
                // a copy advanced concurrently with the original, possibly failing
                let faults = c.model.clone();
                let (mut a, mut b) = (ex.live.clone(), ex.live.clone());
                let rows = 1 + sel;
                let tasks: Vec<Box<dyn FnOnce() -> S + Send>> = vec![
                    Box::new({
                        let rows = rows;
                        move || {
                            seam::reset(crate::EVAL_BUDGET, vec![]);
                            for _ in 0..rows {
                                Exec::row(&mut a);
                            }
                            a
                        }
                    }),
                    Box::new(move || {
                        seam::reset(crate::EVAL_BUDGET, faults);
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            for nd in b.nodes_mut() {
                                let v = nd.state();
                                nd.set_state(v + 3.0);
                            }
                            for _ in 0..rows + 1 {
                                Exec::row(&mut b);
                            }
                        }));
                        b
                    }),
                ];
                let (mut res, rep) = sched::run(tasks, c.preempt.clone());
                rx.add("task switches", rep.switches);
                rx.add("task switches inside a step", rep.mid_step);
                rx.log(rep.hash);
                let b = res.pop().unwrap();
                let a = res.pop().unwrap();
                let (Ok(a), Ok(b)) = (a, b) else { return viol("panic", "a copy panicked") };
                ex.decoys.push(b);
                if let Some(d) = diff(&snap, &ex.live) {
                    return viol("copy-changes-original", format!("advancing clones changed the original: {d}"));
                }
                ex.live = a;
                rx.hit("original and disturbed copy advanced concurrently");
            }
            Op::Decoy(_) | Op::StepDecoys(_) => {
                seam::rearm(crate::EVAL_BUDGET, c.model.clone());
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.op(rx, op)));
                rx.model_faults();
                seam::rearm(crate::EVAL_BUDGET, vec![]);
                match r {
                    Ok(r) => r?,
                    Err(e) if e.is::<seam::InjectedPanic>() => rx.hit("copy failed while being advanced"),
                    Err(e) => std::panic::resume_unwind(e),
                }
                if let Some(d) = diff(&snap, &ex.live) {
                    return viol("copy-changes-original", format!("advancing a disturbed clone changed the original: {d}"));
                }
            }
            Op::CloneSwap => {
                let cl = ex.live.clone();
                if let Some(d) = diff(&ex.live, &cl) {
                    return viol("clone-differs", format!("a clone differs from its original: {d}"));
                }
                let old = std::mem::replace(&mut ex.live, cl);
                drop(old);
                if let Some(d) = diff(&snap, &ex.live) {
                    return viol("clone-differs", format!("dropping the original changed its clone: {d}"));
                }
                rx.hit("run continued on a clone");
            }
            o => {
                ex.op(rx, o)?;
                for (a, b) in decoys.iter().zip(&ex.decoys) {
                    if let Some(d) = diff(a, b) {
                        return viol("original-changes-copy", format!("advancing the original changed a copy: {d}"));
                    }
                }
            }
        }
        if ex.decoys.len() > 3 {
            ex.decoys.remove(0);
        }
    }
    if let Some(d) = diff(&control, &ex.live) {
        return viol("run-differs", format!("the run with copies taken ends differently from one without: {d}"));
    }
    rx.log_sys(&ex.live);
    rx.sim_time += spec.t_end() - spec.t0;
    Ok(())
}

// ---- C16 ----------------------------------------------------------------------------------------------------
pub fn gen_c16(rng: &mut Rng) -> Case {
    let n = rng.below(60) as usize;
    let push = rng.uni(0.2, 0.8);
    let special = rng.chance(0.3);
    let mut ops = vec![];
    for _ in 0..n {
        let sel = if rng.chance(push) { 0 } else { 1 + rng.below(9) as u32 };
        let x = match rng.below(12) {
            0 => *rng.pick(&[0.0, -0.0, f64::MIN_POSITIVE, 5e-324, -3e-310, f64::MAX, -f64::MAX, 1e17, 123456789.0]),
            1 if special => *rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
            2 => rng.range(-3, 3) as f64,
            _ => rng.uni(-1e3, 1e3),
        };
        ops.push(Op::Cont(sel + 16 * rng.below(1 << 12) as u32, x));
    }
    if rng.chance(0.02) {
        // many records at once, then the rest of the operations on the long container
        let at = rng.below(ops.len() as u64 + 1) as usize;
        ops.truncate(at + 12);
        let mut n = *rng.pick(&[127u32, 255, 256, 257, 1000, 1023, 1025, 2100, 4095, 4100]) + rng.below(3) as u32;
        if rng.chance(0.02) {
            n = *rng.pick(&[32766u32, 65534, 70_000]) + rng.below(3) as u32;
            let keep = ops.len().min(at + 3);
            ops.truncate(keep);
        }
        ops.insert(at, Op::Cont(10 + 16 * n, 0.5));
        for _ in 0..4 {
            ops.push(Op::Cont(*rng.pick(&[0u32, 1, 3, 4, 5 + 32, 7, 8]), 1.5));
        }
    }
    let mut c = Case { scripts: vec![ops], ..Default::default() };
    c.knobs.insert("kind".into(), rng.below(6) as i64);
    c
}
trait Hist<T>: Clone + PartialEq + Default + serde::Serialize + for<'a> serde::Deserialize<'a> + std::fmt::Debug {
    fn h_push(&mut self, t: T);
    fn h_pop(&mut self) -> Option<T>;
    fn h_clear(&mut self);
    fn h_len(&self) -> usize;
    fn h_empty(&self) -> bool;
    fn h_new() -> Self;
    /// element k put together from the columns, and the lengths of all columns
    fn at(&self, k: usize) -> Option<T>;
    fn lens(&self) -> Vec<usize>;
}
macro_rules! hist {
    ($v:ty, $t:ident, $($f:ident),+) => {
        impl Hist<$t> for $v {
            fn h_push(&mut self, t: $t) { self.push(t) }
            fn h_pop(&mut self) -> Option<$t> { self.pop() }
            fn h_clear(&mut self) { self.clear() }
            fn h_len(&self) -> usize { self.len() }
            fn h_empty(&self) -> bool { self.is_empty() }
            fn h_new() -> Self { <$v>::new() }
            fn at(&self, k: usize) -> Option<$t> { Some($t { $($f: self.$f.get(k)?.clone()),+ }) }
            fn lens(&self) -> Vec<usize> { vec![$(self.$f.len()),+] }
        }
    };
}
hist!(SystemStateHistoryVec, SystemState, i, time);
hist!(ThermalMassStateHistoryVec, ThermalMassState, temp, dtemp);
hist!(ConductanceStateHistoryVec, ConductanceState, q);
hist!(NodeStateHistoryVec, NodeState, x, dx);
hist!(LinkStateHistoryVec, LinkState, q);
hist!(SolverStateHistoryVec, SolverState, dt, n_iter, norm_err, norm_err_rel, t_curr, states);
pub fn run_c16(c: &Case, rx: &mut Rx) -> Res {
    match c.knob("kind") % 6 {
        0 => c16::<SystemState, SystemStateHistoryVec>(c, rx, |k, x| SystemState { i: k as usize, time: x }),
        1 => c16::<ThermalMassState, ThermalMassStateHistoryVec>(c, rx, |k, x| ThermalMassState { temp: x, dtemp: k as f64 + 0.5 }),
        2 => c16::<ConductanceState, ConductanceStateHistoryVec>(c, rx, |_, x| ConductanceState { q: x }),
        3 => c16::<NodeState, NodeStateHistoryVec>(c, rx, |k, x| NodeState { x, dx: -(k as f64) }),
        4 => c16::<LinkState, LinkStateHistoryVec>(c, rx, |_, x| LinkState { q: x }),
        _ => c16::<SolverState, SolverStateHistoryVec>(c, rx, |k, x| SolverState {
            dt: x,
            n_iter: (k % 251) as u8,
            norm_err: if k % 3 == 0 { None } else { Some(x * 0.5) },
            norm_err_rel: if k % 5 == 0 { None } else { Some(k as f64 * 0.25) },
            t_curr: k as f64,
            states: (0..k % 4).map(|j| x + j as f64).collect(),
        }),
    }
}
fn c16<T, H>(c: &Case, rx: &mut Rx, mk: impl Fn(u32, f64) -> T) -> Res
where
    T: Clone + PartialEq + std::fmt::Debug + serde::Serialize,
    H: Hist<T>,
{
    // as `==`, with NaN equal to NaN
    fn eq<X: PartialEq + std::fmt::Debug>(a: &X, b: &X) -> bool {
        a == b || format!("{a:?}") == format!("{b:?}")
    }
    let mut h = H::h_new();
    ensure!(h == H::default(), "default", "new and default containers differ");
    let mut model: Vec<T> = vec![];
    let mut saved: Option<(u32, Vec<u8>, H, Vec<T>)> = None;
    vfs::format_disk(&[]);
    for op in &c.scripts[0] {
        let Op::Cont(sel, x) = op else { continue };
        let (sel, arg) = (sel % 16, sel / 16);
        let x = *x;
        match sel {
            0 => {
                h.h_push(mk(arg, x));
                model.push(mk(arg, x));
                rx.hit("push");
            }
            1 | 2 => {
                let n = 1 + arg % 3;
                for _ in 0..n {
                    let (a, b) = (h.h_pop(), model.pop());
                    ensure!(eq(&a, &b), "pop", "pop returned {a:?}, the last record pushed was {b:?}");
                    rx.hit(if b.is_some() { "pop" } else { "pop on empty" });
                }
            }
            3 => {
                if arg % 4 == 0 {
                    h.h_clear();
                    model.clear();
                    rx.hit("clear");
                }
            }
            4 => {
                // a copy is changed; the original is not
                let before = h.clone();
                let mut d = h.clone();
                d.h_push(mk(arg, x));
                d.h_push(mk(arg + 1, x + 1.));
                d.h_pop();
                ensure!(eq(&before, &h), "copy", "changing a copy changed the original");
                ensure!(d.h_len() == model.len() + 1, "copy", "copy has {} records instead of {}", d.h_len(), model.len() + 1);
                if arg % 2 == 0 {
                    h = before;
                }
                rx.hit("copy");
            }
            5 | 6 => {
                let mut f = arg % 5;
                if (f == 0 || f == 3) && non_finite(&val(&h)) {
                    // JSON has no form for these
                    f = 1;
                }
                let b = match f {
                    0 => h.to_json().into_bytes(),
                    1 => h.to_yaml().into_bytes(),
                    2 => h.to_bincode(),
                    _ => {
                        let p = format!("{}hist.{}", vfs::root(), if f == 3 { "json" } else { "yaml" });
                        if let Err(e) = h.to_file(&p) {
                            return viol("store", format!("to_file failed: {e}"));
                        }
                        p.into_bytes()
                    }
                };
                saved = Some((f, b, h.clone(), model.clone()));
                rx.hit("store");
            }
            7 => {
                // crash: back to what was stored
                if let Some((f, b, want, m)) = saved.clone() {
                    let text = || String::from_utf8_lossy(&b).to_string();
                    let got = match f {
                        0 => H::from_json(&text()),
                        1 => H::from_yaml(&text()),
                        2 => H::from_bincode(&b),
                        _ => H::from_file(&text()),
                    };
                    let got = match got {
                        Ok(g) => g,
                        Err(e) => return viol("load", format!("a stored container does not load: {e}")),
                    };
                    let json = f == 0 || f == 3;
                    same_stored(rx, json, &want, &got, "load", "container")?;
                    h = if json { want } else { got };
                    model = m;
                    rx.hit("crash and reload");
                } else {
                    h = H::h_new();
                    model.clear();
                }
            }
            8 => {
                // the same record again
                let t = match model.last() {
                    Some(t) => t.clone(),
                    None => mk(arg, x),
                };
                for _ in 0..1 + arg % 2 {
                    h.h_push(t.clone());
                    model.push(t.clone());
                }
                rx.hit("push of an equal record");
            }
            9 => {
                // a default-like record
                h.h_push(mk(0, 0.0));
                model.push(mk(0, 0.0));
                rx.hit("push");
            }
            10 => {
                for k in 0..arg {
                    h.h_push(mk(k, x + k as f64));
                    model.push(mk(k, x + k as f64));
                }
                rx.hit("many pushes");
            }
            _ => {}
        }
        // whole-sequence comparison
        ensure!(h.h_len() == model.len(), "len", "length is {}, {} records were pushed and not popped", h.h_len(), model.len());
        ensure!(h.h_empty() == model.is_empty(), "is-empty", "is_empty() is {} with {} records", h.h_empty(), model.len());
        let l = h.lens();
        ensure!(l.iter().all(|n| *n == model.len()), "columns", "columns have lengths {l:?} with {} records", model.len());
        for (k, m) in model.iter().enumerate() {
            let got = h.at(k);
            ensure!(got.as_ref() == Some(m) || eq(&got, &Some(m.clone())), "contents", "record {k} is {:?}, pushed was {m:?}", h.at(k));
        }
        rx.log(model.len() as u64 + ((sel as u64) << 32));
    }
    rx.fingerprint(format!("{:?}", c.scripts));
    rx.nontrivial = c.scripts[0].len() > 3;
    // reverse order to the end
    while let Some(m) = model.pop() {
        let p = h.h_pop();
        ensure!(p.as_ref() == Some(&m) || eq(&p, &Some(m.clone())), "pop", "pop returned {p:?}, expected {m:?}");
    }
    ensure!(h.h_pop().is_none() && h.h_empty(), "pop", "an empty container popped a record");
    rx.io_faults();
    Ok(())
}

// ---- C18 ----------------------------------------------------------------------------------------------------
pub fn gen_c18(rng: &mut Rng) -> Case {
    let o = GenOpts { kinds: SEAM_KINDS.to_vec(), max_reports: 4, max_substeps: 30., ..Default::default() };
    let mut c = Case { specs: vec![gen_spec(rng, &o)], ..Default::default() };
    c.knobs.insert("start".into(), rng.below(4_000_000_000_000_000_000) as i64);
    // per-evaluation clock advances: zero is a stalled clock, large is a jump (suspend, NTP step)
    let n = 1 + rng.below(5);
    let mut ops = vec![];
    for _ in 0..n {
        let ns = match rng.below(6) {
            0 | 1 => 0,
            2 => rng.below(1000) as i64,
            3 => rng.below(2_000_000_000) as i64,
            4 => 1_000_000_000 * rng.below(3) as i64,
            _ => rng.below(400_000_000_000_000) as i64,
        };
        ops.push(Op::Cont(0, ns as f64));
    }
    c.scripts.push(ops);
    c.knobs.insert("nest".into(), rng.below(3) as i64);
    c
}
pub fn run_c18(c: &Case, rx: &mut Rx) -> Res {
    with_sys!(c.specs[0].kind, S => c18::<S>(c, rx))
}
fn c18<S: SimSys>(c: &Case, rx: &mut Rx) -> Res {
    use std::time::{Duration, Instant};
    let adv: Vec<i64> = c.scripts[0].iter().map(|o| if let Op::Cont(_, x) = o { *x as i64 } else { 0 }).collect();
    let spec = &c.specs[0];
    seam::reset(crate::EVAL_BUDGET, vec![]);
    let mut control = S::build(spec);
    control.do_walk();
    let evals = seam::evals();
    seam::reset(crate::EVAL_BUDGET, vec![]);
    vfs::clock_on(c.knob("start"));
    seam::EVAL_NS.with(|v| *v.borrow_mut() = adv.clone());
    let mut s = S::build(spec);
    let mut runs = 0u64;
    let mut inner = Duration::ZERO;
    let mut extra = 0i64;
    let r = caught(|| match c.knob("nest") {
        0 => time_it!({
            runs += 1;
            s.do_walk()
        }),
        1 => time_it!({
            runs += 1;
            inner = time_it!(s.do_walk());
            vfs::clock_advance(adv[0]);
            extra = adv[0];
        }),
        _ => {
            let k = 1;
            let d = time_it!(runs += k);
            inner = time_it!(s.do_walk());
            d + inner
        }
    });
    vfs::clock_off();
    seam::EVAL_NS.with(|v| v.borrow_mut().clear());
    let total: i128 = (0..evals).map(|k| adv[k as usize % adv.len()] as i128).sum();
    let d = match r {
        Ok(d) => d,
        Err(p) => return viol("time-it-panicked", format!("time_it! panicked: {p}")),
    };
    let _ = Instant::now;
    ensure!(runs == 1, "evaluated-times", "the expression was evaluated {runs} times");
    if let Some(x) = diff(&control, &s) {
        return viol("evaluated-times", format!("the timed walk ended differently from an untimed one: {x}"));
    }
    ensure!(seam::evals() == evals, "evaluated-times", "the model was evaluated {} times, {} without timing", seam::evals(), evals);
    let want = total + extra as i128;
    ensure!(d.as_nanos() as i128 == want, "elapsed", "time_it! returned {} ns, the clock advanced by {want} ns", d.as_nanos());
    if c.knob("nest") > 0 {
        ensure!(inner.as_nanos() as i128 == total, "elapsed", "inner time_it! returned {} ns, the clock advanced by {total} ns", inner.as_nanos());
    }
    ensure!(vfs::clock_reads() > 0 || true, "elapsed", "");
    rx.add("clock reads through the simulated clock", vfs::clock_reads());
    rx.hit(if total == 0 { "fault: stalled clock" } else { "clock advanced during the expression" });
    if adv.iter().any(|a| *a > 1_000_000_000_000) {
        rx.hit("fault: clock jumps forward");
    }
    rx.nontrivial = vfs::clock_reads() >= 2;
    rx.log(d.as_nanos() as u64);
    rx.fingerprint((d.as_nanos() as u64, evals));
    rx.sim_time += d.as_secs_f64();
    Ok(())
}
#[allow(dead_code)]
fn _unused(_: BTreeMap<u8, u8>, _: &Rng) {}
