//! Properties of the walk and the solver methods.
#![allow(clippy::all)]
use crate::common::*;
use crate::models::*;
use crate::refsolver::*;
use crate::rng::Rng;
use crate::seam::{self, Glitch, ModelFault};
use crate::spec::*;
use crate::{ensure, with_sys};
use crate::EVAL_BUDGET;
use dess::prelude::*;
use std::collections::BTreeMap;

fn kinds_methods(seam_only: bool, m: &[Method]) -> GenOpts {
    GenOpts { kinds: if seam_only { SEAM_KINDS.to_vec() } else { ALL_KINDS.to_vec() }, methods: m.to_vec(), ..Default::default() }
}
fn finish<S: SimSys>(rx: &mut Rx, s: &S, spec: &SysSpec) {
    rx.log_sys(s);
    let t = s.sys_state().time;
    if t.is_finite() {
        rx.sim_time += (t - spec.t0).max(0.);
    }
    rx.add("rows recorded", s.n_rows() as u64);
    rx.hit(&format!("method {:?}", spec.method));
    rx.hit(&format!("model {:?}", spec.kind));
    rx.model_faults();
}
fn script_probe(rx: &mut Rx, script: &[Op]) {
    rx.nontrivial |= script.len() > 1;
    rx.fingerprint(format!("{script:?}"));
}
/// start (time, states, params) of the interval that ends in row r
fn start_of<S: SimSys>(ex: &Exec<S>, r: usize) -> (f64, Vec<f64>, Vec<f64>) {
    let s = &ex.live;
    let (t, mut y) = if r == 0 {
        (ex.spec.t0, ex.spec.y0.clone())
    } else {
        (s.sys_hist().time[r - 1], s.y_cols().iter().map(|c| c[r - 1]).collect())
    };
    let mut p = ex.p.clone();
    // parameters: the latest change at or before r
    if let Some((_, (_, pp))) = ex.over.range(..=r).next_back() {
        p = pp.clone();
    } else if !ex.over.is_empty() {
        p = ex.spec.p.clone();
    }
    if let Some((yy, _)) = ex.over.get(&r) {
        y = yy.clone();
    }
    (t, y, p)
}
fn row_ys<S: SimSys>(s: &S, r: usize) -> Vec<f64> {
    s.y_cols().iter().map(|c| c[r]).collect()
}

// ---- C01 ----------------------------------------------------------------------------------------------------
pub fn gen_c01(rng: &mut Rng) -> Case {
    let o = GenOpts { max_reports: *rng.pick(&[2usize, 5, 14, 30]), max_substeps: 400., ..kinds_methods(false, &ALL_METHODS) };
    let mut spec = gen_spec(rng, &o);
    if rng.chance(0.03) {
        // everything already passed
        let d = spec.t_end() - spec.t0 + rng.uni(0., 2.).round();
        for t in spec.t_report.iter_mut() {
            *t -= d;
        }
    }
    let script = gen_script(rng, 14, &["row", "walkto", "walk", "rewalk", "ckpt", "restart", "clone", "decoy"]);
    let tail = if rng.chance(0.3) { 1 } else { 0 };
    let mut knobs = BTreeMap::new();
    if rng.chance(0.0005) {
        let mut spec = spec;
        long_haul(rng, &mut spec, 1.5e5);
        return Case { specs: vec![spec], scripts: vec![vec![Op::Walk]], ..Default::default() };
    }
    if rng.chance(0.0003) {
        // very many report times
        let mut spec = spec;
        let gap = (spec.t_end() - spec.t0).abs() * rng.logu(1e-6, 1e-4);
        let gap = gap.max(spec.t0.abs() * 1e-10).max(1e-15);
        let n = rng.range(20_000, 72_000);
        // (Euler: the other methods copy the whole list several times per step)
        spec.method = Method::Euler;
        spec.t_report = (1..=n).map(|k| spec.t0 + gap * k as f64).collect();
        spec.dt = gap * rng.uni(0.4, 1.5);
        tame(&mut spec);
        let mut script = vec![Op::Walk];
        if rng.chance(0.5) {
            script.push(Op::Rewalk);
        }
        return Case { specs: vec![spec], scripts: vec![script], ..Default::default() };
    }
    knobs.insert("extend".into(), tail);
    Case { specs: vec![spec], scripts: vec![script], knobs, ..Default::default() }
}
pub fn run_c01(c: &Case, rx: &mut Rx) -> Res {
    with_sys!(c.specs[0].kind, S => c01::<S>(c, rx))
}
fn c01_check<S: SimSys>(ex: &Exec<S>, full: &[f64], done: bool) -> Res {
    let s = &ex.live;
    let (ts, is) = rows_of(s);
    let want = expected_times(ex.spec.t0, full);
    let n = ts.len();
    ensure!(is.len() == n, "columns-differ", "system history columns have lengths {n} and {}", is.len());
    for (l, col) in s.cols() {
        ensure!(col.len() == n, "columns-differ", "component column {l} has {} rows, the system {n}", col.len());
    }
    ensure!(n <= want.len(), "too-many-rows", "{n} rows for {} report times", want.len());
    ensure!(!done || n == want.len(), "rows-missing", "walk finished with {n} rows for {} report times", want.len());
    for r in 0..n {
        let tol = 4. * f64::EPSILON * want[r].abs().max(ex.spec.t0.abs()).max(f64::MIN_POSITIVE);
        ensure!((ts[r] - want[r]).abs() <= tol, "wrong-time", "row {r} has time {:e}, report time is {:e}", ts[r], want[r]);
        ensure!(is[r] == r + 1, "wrong-row-number", "row {r} is numbered {}", is[r]);
    }
    let st = s.sys_state();
    ensure!(st.i == n, "wrong-row-number", "{n} rows recorded but the system's index is {}", st.i);
    let t = if n == 0 { ex.spec.t0 } else { ts[n - 1] };
    ensure!(st.time == t, "wrong-time", "system time {:e} after a row at {:e}", st.time, t);
    Ok(())
}
fn c01<S: SimSys>(c: &Case, rx: &mut Rx) -> Res {
    let spec = &c.specs[0];
    let mut ex = Exec::<S>::new(spec, "a");
    script_probe(rx, &c.scripts[0]);
    for op in &c.scripts[0] {
        ex.op(rx, op)?;
        c01_check(&ex, &spec.t_report, matches!(op, Op::Walk | Op::Rewalk))?;
    }
    let mut full = spec.t_report.clone();
    if c.knob("extend") == 1 && *full.last().unwrap() > spec.t0 {
        let l = full.len();
        let g = if l > 1 { full[l - 1] - full[l - 2] } else { full[0] - spec.t0 };
        for k in 1..4 {
            full.push(full[l - 1] + g * k as f64);
        }
        *ex.live.t_rep() = full.clone();
        ex.live.do_walk();
        rx.hit("finished system extended and walked on");
        c01_check(&ex, &full, true)?;
    }
    if ex.live.n_rows() == 0 {
        rx.hit("all report times already passed");
    }
    if spec.t_report[0] < spec.t0 {
        rx.hit("some report times already passed at the start");
    }
    finish(rx, &ex.live, spec);
    Ok(())
}

// ---- C02 ----------------------------------------------------------------------------------------------------
pub fn gen_c02(rng: &mut Rng) -> Case {
    let spec = gen_spec(rng, &kinds_methods(false, &FIXED));
    let script = gen_script(rng, 10, &["row", "walkto", "ckpt", "restart", "clone", "decoy", "disturb"]);
    Case { specs: vec![spec], scripts: vec![script], ..Default::default() }
}
pub fn run_c02(c: &Case, rx: &mut Rx) -> Res {
    with_sys!(c.specs[0].kind, S => c02::<S>(c, rx))
}
/// checks every recorded row against the reference method applied from the previous row
fn fixed_rows<S: SimSys>(ex: &Exec<S>, rx: &mut Rx) -> Res {
    let spec = &ex.spec;
    let s = &ex.live;
    let want = expected_times(spec.t0, s.t_rep_ref());
    ensure!(s.n_rows() == want.len(), "rows-missing", "{} rows for {} report times", s.n_rows(), want.len());
    for r in 0..want.len() {
        let (t, y, p) = start_of(ex, r);
        let spec = ex.spec_at(r);
        if spec.method.adaptive() {
            continue;
        }
        let m = Model { kind: spec.kind, p: &p };
        let (mut t1, mut y1) = (t, y.clone());
        let n = fixed_to(&m, spec.method, spec.dt, &mut t1, &mut y1, s.t_rep_ref()[r], false);
        rx.steps += n;
        if n == 0 {
            // nothing to integrate: the row repeats the current values
            let got = row_ys(s, r);
            ensure!(got == y, "trajectory", "row {r} at the start time has states {got:?}, not {y:?}");
            continue;
        }
        let (mut t2, mut y2) = (t, y.clone());
        fixed_to(&m, spec.method, spec.dt, &mut t2, &mut y2, s.t_rep_ref()[r], true);
        let got = row_ys(s, r);
        let scale = maxabs(&y).max(maxabs(&y1));
        let mut amp = 0f64;
        for i in 0..y1.len() {
            amp = amp.max((y1[i] - y2[i]).abs());
        }
        let tol = 1e-12 * (scale + spec.unit()) + 200. * amp + 64. * f64::EPSILON * t1.abs().max(t.abs()) * lam(spec.kind, &p) * scale;
        if !(tol < 1e-5 * (scale + spec.unit())) {
            rx.hit("interval too sensitive to decide (skipped)");
            continue;
        }
        rx.hit("intervals checked");
        for i in 0..y1.len() {
            if !((got[i] - y1[i]).abs() <= tol) {
                return viol(
                    "trajectory",
                    format!("row {r} (t={}): state {i} is {:e}, {:?} with dt={} from t={t} gives {:e} (tolerance {tol:e})",
                        want[r], got[i], spec.method, spec.dt, y1[i]),
                );
            }
        }
    }
    Ok(())
}
fn c02<S: SimSys>(c: &Case, rx: &mut Rx) -> Res {
    let spec = &c.specs[0];
    let mut ex = Exec::<S>::new(spec, "a");
    script_probe(rx, &c.scripts[0]);
    ex.run(rx, &c.scripts[0])?;
    fixed_rows(&ex, rx)?;
    finish(rx, &ex.live, spec);
    Ok(())
}

// ---- C03, C04, C05, C06: adaptive steps ----------------------------------------------------------------------
#[derive(Clone, Copy, Default)]
struct What {
    formula: bool,
    control: bool,
    log: bool,
    /// derivative glitches were injected: trials may have been rejected for reasons the reference does not see
    glitch: bool,
    /// states were changed between steps inside an interval: the log is checked for continuity only
    jumps: bool,
}
struct Obs {
    t: f64,
    dt: f64,
    n_iter: u8,
    err: Option<f64>,
    rel: Option<f64>,
}
/// checks one accepted trial from (t, y) against the formula and the control law; returns the reference increment
fn check_step(rx: &mut Rx, w: What, spec: &SysSpec, p: &[f64], t: f64, y: &mut Vec<f64>, post: Option<&[f64]>, o: &Obs,
    prop: Option<f64>, rem: f64, tag: &str) -> Res<Vec<f64>> {
    let m = Model { kind: spec.kind, p };
    let tb = tab(spec.method);
    let s = step(&m, &tb, t, y, o.dt);
    rx.steps += 1;
    let ymax = maxabs(y);
    if w.formula {
        if let Some(post) = post {
            let tol = 1e-11 * (ymax + s.mag + 1e-3 * spec.unit());
            for i in 0..y.len() {
                if Some(i) == constrained(spec.kind) {
                    continue;
                }
                let want = y[i] + s.hi[i];
                if !((post[i] - want).abs() <= tol) {
                    return viol("step-formula", format!(
                        "{tag}: step from t={t} by {:e} moved state {i} from {:e} to {:e}; the {:?} formula gives {want:e}",
                        o.dt, y[i], post[i], spec.method));
                }
            }
            rx.hit("accepted steps checked against the formula");
        }
    }
    if w.control {
        let (Some(prop), Some(err)) = (prop, o.err) else { return viol("no-error-estimate", format!("{tag}: accepted step without error estimate")) };
        let lim = prop.min(rem).min(spec.dt_max);
        // rounding of the clock
        let slack = 8. * f64::EPSILON * (t.abs() + rem);
        ensure!(o.dt <= lim * (1. + 1e-9) + slack, "dt-too-large",
            "{tag}: accepted step {:e} exceeds min(proposal {prop:e}, remaining {rem:e}, maximum {:e})", o.dt, spec.dt_max);
        ensure!(o.n_iter >= 1 && (o.n_iter as u32) <= (spec.max_iter as u32).max(1), "n-iter", "{tag}: {} iterations with at most {}", o.n_iter, spec.max_iter);
        let mut h = lim;
        for it in 1..=o.n_iter {
            let last = it == o.n_iter;
            if last && (o.dt - h).abs() > 1e-9 * h + slack {
                return viol("dt-sequence", format!("{tag}: iteration {it} should have tried {h:e}, accepted {:e} (proposal {prop:e}, remaining {rem:e})", o.dt));
            }
            let hh = if last { o.dt } else { h };
            let mut yy = y.clone();
            let s = step(&m, &tb, t, &mut yy, hh);
            let lo = s.lo.as_ref().unwrap();
            let e = l2(s.hi.iter().zip(lo).map(|(a, b)| a - b));
            let nh = l2(s.hi.iter().cloned());
            let rel = if nh != 0. { Some(e / nh) } else { None };
            let etol = s.noise + 1e-6 * e;
            let maybe = |x: f64, thr: f64, tol: f64| -> (bool, bool) { (x - tol <= thr, x + tol <= thr) };
            let (abs_may, abs_must) = maybe(e, spec.atol, etol);
            let (rel_may, rel_must) = match rel {
                Some(r) => maybe(r, spec.rtol, etol / nh),
                None => (abs_may, abs_must),
            };
            // a vanishing increment is too close to rounding for its relative error to be predicted
            let rel_may = rel_may || nh <= s.noise;
            if !last {
                ensure!(!(abs_must || rel_must), "rejected-acceptable",
                    "{tag}: trial {it} of size {hh:e} at t={t} was rejected although err={e:e} (atol {:e}), rel={rel:?} (rtol {:e})", spec.atol, spec.rtol);
                rx.hit("rejected trials");
                // retried smaller, by the documented factor
                let c = match rel {
                    Some(_) => 0.25,
                    None => coeff(e, rel, spec.rtol, spec.atol),
                };
                h *= c;
            } else {
                if o.n_iter < spec.max_iter {
                    ensure!(abs_may || rel_may, "accepted-unacceptable",
                        "{tag}: trial {it} of size {hh:e} at t={t} was accepted although err={e:e} > atol {:e} and rel={rel:?} > rtol {:e} with {} of {} iterations",
                        spec.atol, spec.rtol, o.n_iter, spec.max_iter);
                } else {
                    rx.hit("steps accepted at the iteration limit");
                }
                ensure!((err - e).abs() <= etol, "norm-err", "{tag}: reported absolute error {err:e}, the pair's difference is {e:e}");
                match (o.rel, rel) {
                    (Some(a), Some(b)) => {
                        if nh > 1e3 * s.noise {
                            ensure!((a - b).abs() <= etol / nh + 1e-6 * b, "norm-err-rel", "{tag}: reported relative error {a:e}, should be {b:e}");
                        }
                    }
                    (None, Some(_)) => ensure!(nh <= s.noise, "norm-err-rel", "{tag}: no relative error reported although the increment is {nh:e}"),
                    (Some(_), None) => ensure!(nh <= s.noise, "norm-err-rel", "{tag}: relative error reported for a zero increment"),
                    (None, None) => {}
                }
            }
        }
        rx.hit("accepted steps checked against the control law");
    }
    Ok(s.hi)
}
fn conf<S: SimSys>(s: &S) -> AdaptiveSolverConfig {
    s.sc().expect("adaptive").clone()
}
/// walks through the step log of a finished run
fn check_log<S: SimSys>(ex: &Exec<S>, rx: &mut Rx, w: What) -> Res {
    let spec = &ex.spec;
    let s = &ex.live;
    let sc = conf(s);
    let h = &sc.history;
    let nl = h.dt.len();
    for (nm, l) in [("n_iter", h.n_iter.len()), ("norm_err", h.norm_err.len()), ("norm_err_rel", h.norm_err_rel.len()), ("t_curr", h.t_curr.len()), ("states", h.states.len())] {
        ensure!(l == nl, "log-columns", "step log column {nm} has {l} entries, dt has {nl}");
    }
    if !spec.save && ex.sets.is_empty() {
        ensure!(nl == 0, "log-off", "logging is off but {nl} entries were logged");
        return Ok(());
    }
    let want = expected_times(spec.t0, s.t_rep_ref());
    let mut li = 0;
    let mut prop = spec.dt;
    let ns = spec.y0.len();
    for r in 0..want.len().min(s.n_rows()) {
        let (t0, mut y, p) = start_of(ex, r);
        let spec = ex.spec_at(r);
        if !spec.method.adaptive() {
            continue;
        }
        if let Some(c) = ex.sets.get(&r) {
            if !c.dt.is_nan() {
                prop = c.dt;
            }
        }
        let target = s.t_rep_ref()[r];
        let mut t = t0;
        let mut tainted = false;
        while t < target {
            ensure!(li < nl, "log-gap", "step log ends at t={t}, before the report time {target} of row {r}");
            let (lt, ldt) = (h.t_curr[li], h.dt[li]);
            let tol = 4. * f64::EPSILON * t.abs().max(target.abs());
            if w.log || w.control {
                ensure!((lt - t).abs() <= tol, "log-gap", "log entry {li} starts at {lt:e}, the previous one ended at {t:e}");
                ensure!(ldt > 0., "log-dt", "log entry {li} has step {ldt:e}");
                ensure!(lt + ldt <= target + tol, "log-crosses-report", "log entry {li} [{lt}, {}] crosses the report time {target}", lt + ldt);
                ensure!(ldt <= spec.dt_max * (1. + 1e-12), "log-dt", "log entry {li} has step {ldt:e} > maximum {:e}", spec.dt_max);
            }
            let st = &h.states[li];
            let have = spec.save_states;
            if w.log {
                ensure!(st.len() == if have { ns } else { 0 }, "log-states", "log entry {li} has {} states, logging of states is {}", st.len(), if have { "on" } else { "off" });
                ensure!(h.n_iter[li] >= 1 && (h.n_iter[li] as u32) <= (spec.max_iter as u32).max(1), "n-iter", "log entry {li} reports {} iterations of at most {}", h.n_iter[li], spec.max_iter);
            }
            let o = Obs { t: lt, dt: ldt, n_iter: h.n_iter[li], err: h.norm_err[li], rel: h.norm_err_rel[li] };
            let limit = o.n_iter >= spec.max_iter;
            let _ = o.t;
            if limit && w.glitch {
                tainted = true;
            }
            if have && !tainted && !w.jumps && st.len() == ns && (w.formula || w.control || w.log) {
                if w.glitch {
                    ensure!(st.iter().all(|v| v.is_finite()), "non-finite", "log entry {li}: states {st:?} after a transient glitch");
                }
                let f = What { formula: true, ..w };
                check_step(rx, f, spec, &p, t, &mut y, Some(st), &o, if w.control { Some(prop) } else { None }, target - t, &format!("log entry {li}"))?;
                y = st.clone();
            } else if w.glitch && tainted {
                rx.hit("glitch met at the iteration limit (exempt)");
                return Ok(());
            }
            if let Some(e) = o.err {
                let c = coeff(e, o.rel, spec.rtol, spec.atol);
                prop = (ldt * c).min(spec.dt_max);
            }
            t = lt + ldt;
            li += 1;
        }
        if w.log {
            let rt = s.sys_hist().time[r];
            ensure!((t - rt).abs() <= 4. * f64::EPSILON * rt.abs(), "log-gap", "log ends the interval at {t:e}, row {r} is at {rt:e}");
        }
        if spec.save_states && li > 0 && !tainted && !w.jumps && t > t0 {
            let got = row_ys(s, r);
            for i in 0..ns {
                if Some(i) != constrained(spec.kind) {
                    ensure!((got[i] - y[i]).abs() <= 1e-11 * (maxabs(&y) + 1e-3 * spec.unit()), if w.log { "log-states" } else { "step-formula" },
                        "row {r}: state {i} is {:e} but the last logged step reached {:e}", got[i], y[i]);
                }
            }
        }
    }
    if w.log {
        let sum: f64 = h.dt.iter().sum();
        match sc.dt_mean() {
            None => ensure!(nl == 0, "dt-mean", "dt_mean() is None with {nl} logged steps"),
            Some(m) => ensure!(nl > 0 && (m - sum / nl as f64).abs() <= 1e-12 * (sum / nl as f64), "dt-mean", "dt_mean() is {m:e}, {nl} logged steps average {:e}", sum / nl as f64),
        }
    }
    ensure!(li == nl || !w.log, "log-extra", "{} log entries beyond the end of the run", nl - li);
    let spec = ex.spec_at(s.n_rows());
    if w.control && nl > 0 && ex.restarts == 0 && !ex.sets.contains_key(&s.n_rows()) {
        let got = sc.state.dt.min(spec.dt_max);
        ensure!((got - prop).abs() <= 1e-6 * prop, "dt-next", "next step proposal is {got:e}, ratio of tolerance to error gives {prop:e}");
    }
    rx.add("log entries checked", nl as u64);
    Ok(())
}
/// drives the system by single calls of the adaptive methods
fn by_hand<S: SimSys>(ex: &mut Exec<S>, rx: &mut Rx, w: What, dist: &[Op]) -> Res<bool> {
    let spec = ex.spec.clone();
    let mut k = 0usize;
    let mut di = dist.iter().filter(|o| matches!(o, Op::Disturb(..))).cycle();
    let has = dist.iter().any(|o| matches!(o, Op::Disturb(..)));
    for (r, &target) in spec.t_report.clone().iter().enumerate() {
        while ex.live.sys_state().time < target {
            let t = ex.live.sys_state().time;
            let rem = target - t;
            let mut y = ex.live.ys();
            let prop = ex.live.sc().unwrap().state.dt;
            let logged = ex.live.sc().unwrap().history.len();
            let used = match spec.method {
                Method::Rk23 => ex.live.rk23_bogacki_shampine(&rem),
                _ => ex.live.rk45_cash_karp(&rem),
            };
            let sc = conf(&ex.live);
            let t1 = ex.live.sys_state().time;
            let tag = format!("call {k}");
            ensure!((t1 - (t + used)).abs() <= 2. * f64::EPSILON * t1.abs().max(t.abs()), "time-advance", "{tag}: returned step {used:e} but time went from {t:e} to {t1:e}");
            ensure!(used > 0. && used <= rem * (1. + 1e-12) + 4. * f64::EPSILON * t.abs(), "time-advance", "{tag}: step {used:e} with {rem:e} left");
            if w.control {
                ensure!(sc.state.t_curr == t, "t-curr", "{tag}: reports step start {:e}, was {t:e}", sc.state.t_curr);
            }
            if w.log {
                let n = sc.history.len();
                ensure!(n == logged + spec.save as usize, "log-gap", "{tag}: one step added {} log entries", n as i64 - logged as i64);
            }
            let o = Obs { t, dt: used, n_iter: sc.state.n_iter, err: sc.state.norm_err, rel: sc.state.norm_err_rel };
            let post = ex.live.ys();
            // a step accepted because no iteration remained may contain a glitch, but only one of its own last trial
            let clean = seam::since_fault() > 16 && y.iter().all(|v| v.is_finite());
            if clean && w.glitch && o.n_iter >= spec.max_iter {
                rx.hit("undisturbed last trials checked");
            }
            let exempt = w.glitch && o.n_iter >= spec.max_iter && !clean;
            if exempt {
                rx.hit("glitch met at the iteration limit (exempt)");
                if !post.iter().all(|v| v.is_finite()) {
                    return Ok(false);
                }
            } else {
                if w.glitch {
                    ensure!(post.iter().all(|v| v.is_finite()), "non-finite", "{tag}: states {post:?} after a transient glitch");
                }
                check_step(rx, w, &spec, &ex.p.clone(), t, &mut y, Some(&post), &o, Some(prop), rem, &tag)?;
            }
            if w.control {
                let e = o.err.unwrap_or(f64::NAN);
                let next = (used * coeff(e, o.rel, spec.rtol, spec.atol)).min(spec.dt_max);
                let got = sc.state.dt.min(spec.dt_max);
                ensure!((got - next).abs() <= 1e-6 * next, "dt-next", "{tag}: next step proposal is {got:e}, ratio of tolerance to error gives {next:e}");
            }
            if has && k % 3 == 1 {
                if let Some(op) = di.next() {
                    ex.op(rx, op)?;
                }
            }
            k += 1;
            if k > 900 {
                return Ok(false);
            }
        }
        ex.live.sys_state_mut().i = r + 1;
        ex.live.do_save_state();
    }
    rx.hit("driven step by step through the public step methods");
    Ok(true)
}
fn gen_adaptive(rng: &mut Rng, seam_only: bool, what: &[&str]) -> Case {
    let o = GenOpts { log: true, ..kinds_methods(seam_only, &ADAPTIVE) };
    let spec = gen_spec(rng, &o);
    let script = gen_script(rng, 10, what);
    let mut knobs = BTreeMap::new();
    knobs.insert("by_hand".into(), rng.chance(0.35) as i64);
    Case { specs: vec![spec], scripts: vec![script], knobs, ..Default::default() }
}
fn adaptive<S: SimSys>(c: &Case, rx: &mut Rx, w: What) -> Res {
    let spec = &c.specs[0];
    let mut ex = Exec::<S>::new(spec, "a");
    seam::rearm(EVAL_BUDGET, c.model.clone());
    script_probe(rx, &c.scripts[0]);
    if c.knob("by_hand") == 1 {
        let whole = by_hand(&mut ex, rx, w, &c.scripts[0])?;
        rx.nontrivial = true;
        rx.model_faults();
        let n = ex.live.n_rows();
        ensure!(!whole || n == spec.t_report.len(), "rows-missing", "{n} rows");
        if w.log && whole {
            seam::rearm(EVAL_BUDGET, vec![]);
            // rows of passed reports are recorded one per report by hand as well
            let jumps = c.scripts[0].iter().any(|o| matches!(o, Op::Disturb(..)));
            check_log(&ex, rx, What { log: true, jumps, ..Default::default() })?;
        }
    } else {
        ex.run(rx, &c.scripts[0])?;
        check_log(&ex, rx, w)?;
    }
    finish(rx, &ex.live, spec);
    Ok(())
}
pub fn gen_c03(rng: &mut Rng) -> Case {
    let seam = rng.chance(0.5);
    let mut c = gen_adaptive(rng, seam, &["row", "walkto", "ckpt", "restart", "clone", "decoy", "disturb"]);
    if seam {
        add_glitches(rng, &mut c);
    }
    c
}
fn add_glitches(rng: &mut Rng, c: &mut Case) {
    let spec = &mut c.specs[0];
    spec.max_iter = *rng.pick(&[12u8, 20, 40]);
    let n = 1 + rng.below(3);
    let est = if rng.chance(0.5) { 400 } else { 60 };
    for _ in 0..n {
        c.model.push(ModelFault {
            at: 1 + rng.below(est),
            len: *rng.pick(&[1u64, 1, 1, 2, 6, 9]),
            kind: *rng.pick(&[Glitch::Nan, Glitch::PosInf, Glitch::NegInf]),
            comp: rng.below(9) as u32,
        });
    }
}
pub fn run_c03(c: &Case, rx: &mut Rx) -> Res {
    let w = What { formula: true, glitch: !c.model.is_empty(), ..Default::default() };
    with_sys!(c.specs[0].kind, S => adaptive::<S>(c, rx, w))
}
pub fn gen_c04(rng: &mut Rng) -> Case {
    let mut c = gen_adaptive(rng, false, &["row", "walkto", "ckpt", "restart", "clone", "decoy", "disturb"]);
    // force rejections often
    if rng.chance(0.4) {
        c.specs[0].rtol = rng.logu(1e-9, 1e-5);
        c.specs[0].atol = rng.logu(1e-13, 1e-8);
    }
    if c.specs[0].method == Method::Rk23 {
        c.specs[0].rtol = c.specs[0].rtol.max(1e-7);
    }
    if rng.chance(0.1) {
        // at rest until something from outside moves it
        at_rest(rng, &mut c.specs[0]);
        if rng.chance(0.7) {
            c.scripts[0].insert(0, Op::Disturb(rng.below(12) as u32, rng.uni(-20., 20.)));
            c.scripts[0].insert(0, Op::Row);
        }
        c.specs[0].max_iter = *rng.pick(&[1u8, 1, 2, 3, 5, 8]);
    }
    tame(&mut c.specs[0]);
    c
}
pub fn run_c04(c: &Case, rx: &mut Rx) -> Res {
    let w = What { control: true, ..Default::default() };
    with_sys!(c.specs[0].kind, S => adaptive::<S>(c, rx, w))
}
pub fn gen_c05(rng: &mut Rng) -> Case {
    let mut c = gen_adaptive(rng, false, &["row", "walkto", "rewalk", "ckpt", "restart", "clone", "decoy", "disturb"]);
    match rng.below(6) {
        0 => c.specs[0].save = false,
        1 => c.specs[0].save_states = false,
        _ => {}
    }
    if rng.chance(0.0005) {
        let s = &mut c.specs[0];
        long_haul(rng, s, 5e3);
        if rng.chance(0.1) {
            s.dt_max = (s.t_report[0] - s.t0).abs().max(1e-6) / rng.uni(10_500., 12_000.);
            s.dt = s.dt_max;
            s.save = true;
            s.save_states = false;
            tame(s);
        }
        c.scripts[0] = vec![Op::Walk];
    }
    c
}
pub fn run_c05(c: &Case, rx: &mut Rx) -> Res {
    let w = What { log: true, ..Default::default() };
    with_sys!(c.specs[0].kind, S => adaptive::<S>(c, rx, w))
}
pub fn gen_c06(rng: &mut Rng) -> Case {
    let mut c = gen_adaptive(rng, true, &["row", "walkto", "clone", "decoy"]);
    add_glitches(rng, &mut c);
    if rng.chance(0.3) {
        c.knobs.insert("by_hand".into(), 1);
    }
    c
}
pub fn run_c06(c: &Case, rx: &mut Rx) -> Res {
    let w = What { formula: true, glitch: true, ..Default::default() };
    with_sys!(c.specs[0].kind, S => c06::<S>(c, rx, w))
}
fn c06<S: SimSys>(c: &Case, rx: &mut Rx, w: What) -> Res {
    let spec = &c.specs[0];
    adaptive::<S>(c, rx, w)?;
    // liveness: the whole list was walked. Run once more with the same faults on a plain walk.
    seam::rearm(EVAL_BUDGET, c.model.clone());
    let mut s = S::build(spec);
    s.do_walk();
    rx.model_faults();
    let want = expected_times(spec.t0, &spec.t_report);
    ensure!(s.n_rows() == want.len(), "rows-missing", "{} rows for {} report times", s.n_rows(), want.len());
    let sc = conf(&s);
    let limit = sc.history.n_iter.iter().any(|&n| n >= spec.max_iter);
    if !limit {
        for r in 0..s.n_rows() {
            let y = row_ys(&s, r);
            ensure!(y.iter().all(|v| v.is_finite()), "non-finite", "row {r} holds states {y:?} after a transient glitch");
        }
        rx.hit("runs in which every glitch was absorbed");
    } else {
        rx.hit("runs with a step at the iteration limit");
    }
    Ok(())
}

// ---- C07 ----------------------------------------------------------------------------------------------------
/// a system at rest: increments and error estimates vanish
fn at_rest(rng: &mut Rng, spec: &mut SysSpec) {
    match spec.kind {
        Kind::One => spec.p[1] = 0.0,
        Kind::Osc => spec.p[2] = 0.0,
        Kind::Net4 => spec.p[12] = 0.0,
        Kind::Wide => spec.p[33] = 0.0,
        _ => {}
    }
    if spec.kind == Kind::One {
        spec.p[3] = 0.0;
        spec.p[4] = 0.0;
    }
    let v = if matches!(spec.kind, Kind::One | Kind::Osc) { 0.0 } else { rng.range(-3, 20) as f64 };
    spec.y0 = vec![v; spec.y0.len()];
}
pub fn gen_c07(rng: &mut Rng) -> Case {
    let mut spec = gen_spec(rng, &kinds_methods(false, &ALL_METHODS));
    if rng.chance(0.1) {
        at_rest(rng, &mut spec);
    }
    let script = gen_script(rng, 16, &["row", "walkto", "ckpt", "ckpt", "restart", "restart", "clone", "rewalk"]);
    let mut c = Case { specs: vec![spec], scripts: vec![script], ..Default::default() };
    if has_seam(c.specs[0].kind) && rng.chance(0.7) {
        // deaths in the middle of a step
        for _ in 0..1 + rng.below(3) {
            let hi = *rng.pick(&[30u64, 200, 1500]);
            c.model.push(ModelFault { at: 1 + rng.below(hi), len: 1, kind: Glitch::Panic, comp: 0 });
        }
        c.model.sort_by_key(|m| m.at);
    }
    c
}
pub fn run_c07(c: &Case, rx: &mut Rx) -> Res {
    with_sys!(c.specs[0].kind, S => c07::<S>(c, rx))
}
fn c07<S: SimSys>(c: &Case, rx: &mut Rx) -> Res {
    let spec = &c.specs[0];
    seam::rearm(EVAL_BUDGET, vec![]);
    let mut control = S::build(spec);
    control.do_walk();
    let mut ex = Exec::<S>::new(spec, "a");
    script_probe(rx, &c.scripts[0]);
    let mut faults = c.model.clone();
    seam::rearm(EVAL_BUDGET, faults.drain(..faults.len().min(1)).collect());
    for op in &c.scripts[0] {
        let mut tries = 0;
        loop {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.op(rx, op)));
            match r {
                Ok(r) => {
                    r?;
                    break;
                }
                Err(e) if e.is::<seam::InjectedPanic>() => {
                    rx.hit("process death in the middle of a step");
                    rx.model_faults();
                    seam::rearm(EVAL_BUDGET, faults.drain(..faults.len().min(1)).collect());
                    ex.restart(rx)?;
                    tries += 1;
                    if tries > 10 {
                        break;
                    }
                }
                Err(e) => std::panic::resume_unwind(e),
            }
        }
    }
    seam::rearm(EVAL_BUDGET, vec![]);
    ex.live.do_walk();
    if let Some(d) = diff(&control, &ex.live) {
        return viol("resume-differs", format!("the resumed run differs from the uninterrupted one: {d}"));
    }
    // every format holds the final state
    for f in FMTS {
        ex.store(rx, f)?;
        ex.restart(rx)?;
    }
    let s = &control;
    if s.ys().iter().all(|v| v.is_finite()) && s.cols().iter().all(|(_, c)| c.iter().all(|v| v.is_finite())) {
        rx.hit("runs with finite values only");
    }
    rx.nontrivial |= ex.restarts > 5;
    finish(rx, &ex.live, spec);
    Ok(())
}

// ---- C08 ----------------------------------------------------------------------------------------------------
pub fn gen_c08(rng: &mut Rng) -> Case {
    let spec = gen_spec(rng, &kinds_methods(true, &ALL_METHODS));
    let mut c = Case { specs: vec![spec], scripts: vec![gen_script(rng, 5, &["row", "walkto"])], ..Default::default() };
    let n = 1 + rng.below(4);
    for _ in 0..n {
        c.model.push(ModelFault { at: rng.below(1_000_000), len: *rng.pick(&[1, 1, 1, 2, 5]), kind: Glitch::Panic, comp: 0 });
    }
    c
}
/// listed finding: the row of the last report time is lost if the evaluation after the last step fails
pub const LAST_ROW: &str = "last-row-lost";
pub fn run_c08(c: &Case, rx: &mut Rx) -> Res {
    with_sys!(c.specs[0].kind, S => c08::<S>(c, rx))
}
/// all step boundaries (time, states) of the undisturbed run, by calling the step methods as a walk does
fn boundaries<S: SimSys>(spec: &SysSpec) -> (Vec<(f64, Vec<f64>)>, S, bool) {
    let mut s = S::build(spec);
    let mut b = vec![(s.sys_state().time, s.ys())];
    let mut limit = false;
    for &r in &spec.t_report {
        while s.sys_state().time < r {
            let rem = r - s.sys_state().time;
            let h = rem.min(spec.dt);
            match spec.method {
                Method::Euler => s.euler(&h),
                Method::Heun => s.heun(&h),
                Method::Midpoint => s.midpoint(&h),
                Method::Ralston => s.ralston(&h),
                Method::Rk4 => s.rk4fixed(&h),
                Method::Rk23 => {
                    s.rk23_bogacki_shampine(&rem);
                }
                Method::Rk45 => {
                    s.rk45_cash_karp(&rem);
                }
            }
            if let Some(sc) = s.sc() {
                limit |= sc.state.n_iter >= spec.max_iter && spec.max_iter > 1;
            }
            b.push((s.sys_state().time, s.ys()));
        }
        s.sys_state_mut().i += 1;
        s.do_save_state();
    }
    (b, s, limit)
}
fn near(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol || (x.is_nan() && y.is_nan()) || x == y)
}
fn c08<S: SimSys>(c: &Case, rx: &mut Rx) -> Res {
    let spec = &c.specs[0];
    seam::rearm(EVAL_BUDGET, vec![]);
    let mut control = S::build(spec);
    control.do_walk();
    let evals = seam::evals().max(1);
    let (bs, _, limit) = boundaries::<S>(spec);
    let mut ex = Exec::<S>::new(spec, "a");
    script_probe(rx, &c.scripts[0]);
    // fault positions are spread over the evaluations of the undisturbed run
    let mut ats: Vec<ModelFault> = c.model.iter().map(|m| ModelFault { at: 1 + m.at % evals, ..m.clone() }).collect();
    ats.sort_by_key(|m| m.at);
    let mut done = 0u64;
    let mut next = 0usize;
    let arm = |done: u64, next: &mut usize| -> Vec<ModelFault> {
        let mut v = vec![];
        if *next < ats.len() {
            let mut f = ats[*next].clone();
            f.at = f.at.saturating_sub(done).max(1);
            v.push(f);
            *next += 1;
        }
        v
    };
    seam::rearm(EVAL_BUDGET, arm(0, &mut next));
    let mut panics = 0u64;
    let mut stale = 0usize;
    let mut last_failed_at_end = false;
    for op in &c.scripts[0] {
        let full = spec.t_report.clone();
        loop {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.op(rx, op)));
            match r {
                Ok(r) => {
                    r?;
                    break;
                }
                Err(e) if e.is::<seam::InjectedPanic>() => {
                    // an interrupted walk over a prefix leaves the shortened list
                    *ex.live.t_rep() = full.clone();
                    panics += 1;
                    rx.hit("callback failures survived");
                    let (t, y) = (ex.live.sys_state().time, ex.live.ys());
                    let (tt, yy) = (f64::EPSILON * 4. * t.abs(), 1e-12 * (1. + maxabs(&y)));
                    let hit = bs.iter().any(|(bt, by)| (bt - t).abs() <= tt && near(by, &y, yy));
                    // after a failure inside a step that needed the iteration limit, the run may take other steps
                    if !hit && !(limit && panics > 1) {
                        return viol("torn-step", format!(
                            "after the callback failed at evaluation {} the system holds t={t:e}, states {y:?}, which is no step boundary of the undisturbed run", seam::evals()));
                    }
                    // the step to the last report time was complete, its row was not yet recorded
                    last_failed_at_end = t >= spec.t_end() && ex.live.n_rows() + 1 == spec.t_report.len();
                    let rep = ex.live.t_rep_ref().iter().any(|r| (r - t).abs() <= tt);
                    if rep {
                        stale += 1;
                    }
                    let st = ex.live.sys_state();
                    ensure!(st.i == ex.live.n_rows(), "torn-row", "after the failure the index is {} but {} rows are recorded", st.i, ex.live.n_rows());
                    for (l, col) in ex.live.cols() {
                        ensure!(col.len() == st.i, "torn-row", "after the failure column {l} has {} rows, the system {}", col.len(), st.i);
                    }
                    done += seam::evals();
                    let f = arm(done, &mut next);
                    if panics > 40 {
                        seam::rearm(EVAL_BUDGET, vec![]);
                    } else if seam::evals() >= 1 && !f.is_empty() {
                        seam::rearm(EVAL_BUDGET, f);
                    } else {
                        seam::rearm(EVAL_BUDGET, vec![]);
                    }
                }
                Err(e) => std::panic::resume_unwind(e),
            }
        }
    }
    rx.model_faults();
    seam::rearm(EVAL_BUDGET, vec![]);
    ex.live.do_walk();
    let (t1, i1) = rows_of(&control);
    let (t2, i2) = rows_of(&ex.live);
    let lost = last_failed_at_end && t2.len() + 1 == t1.len();
    if lost {
        rx.known(LAST_ROW);
    }
    let (t1, i1) = if lost { (t1[..t2.len()].to_vec(), i1[..t2.len()].to_vec()) } else { (t1, i1) };
    ensure!(t1.len() == t2.len() && i1 == i2, "resume-rows", "{} rows after resuming, {} without a failure", t2.len(), t1.len());
    for r in 0..t1.len() {
        ensure!((t1[r] - t2[r]).abs() <= 4. * f64::EPSILON * t1[r].abs(), "resume-rows", "row {r} at {:e} instead of {:e}", t2[r], t1[r]);
        if !limit {
            let (a, b) = (row_ys(&control, r), row_ys(&ex.live, r));
            let tol = 1e-10 * (1. + maxabs(&a));
            ensure!(near(&a, &b, tol), "resume-rows", "row {r}: states {b:?} after resuming, {a:?} without a failure");
        }
    }
    if limit {
        rx.hit("runs with steps at the iteration limit (states after resuming not compared)");
    }
    rx.add("failures at a report time", stale as u64);
    rx.nontrivial = panics > 0;
    rx.fingerprint(panics);
    finish(rx, &ex.live, spec);
    Ok(())
}

// ---- C13 ----------------------------------------------------------------------------------------------------
pub fn gen_c13(rng: &mut Rng) -> Case {
    let o = GenOpts { kinds: vec![Kind::Ring, Kind::Star, Kind::Big, Kind::Nest, Kind::Tm3, Kind::ResNet, Kind::Mix, Kind::TmBc], ..Default::default() };
    let spec = gen_spec(rng, &o);
    let script = gen_script(rng, 10, &["row", "walkto", "ckpt", "restart", "clone", "decoy", "disturb"]);
    Case { specs: vec![spec], scripts: vec![script], ..Default::default() }
}
pub fn run_c13(c: &Case, rx: &mut Rx) -> Res {
    with_sys!(c.specs[0].kind, S => c13::<S>(c, rx))
}
fn c13<S: SimSys>(c: &Case, rx: &mut Rx) -> Res {
    let spec = &c.specs[0];
    let mut ex = Exec::<S>::new(spec, "a");
    script_probe(rx, &c.scripts[0]);
    ex.run(rx, &c.scripts[0])?;
    let s = &ex.live;
    let n = s.n_rows();
    let span = spec.t_end() - spec.t0;
    let per = if spec.method.adaptive() { 4000. } else { span / spec.dt + n as f64 };
    // what was last set from outside before row r, and whether a step was taken since
    let mut base = spec.y0.clone();
    let mut stepped = false;
    let mut t = spec.t0;
    let mut starts = vec![];
    for r in 0..n {
        if let Some((y, _)) = ex.over.get(&r) {
            base = y.clone();
            stepped = false;
        }
        stepped |= s.sys_hist().time[r] > t;
        t = t.max(s.sys_hist().time[r]);
        starts.push((base.clone(), stepped));
    }
    if let Some(cs) = closed_caps(spec.kind, &spec.p) {
        let heat = |y: &[f64]| y.iter().zip(&cs).map(|(a, b)| a * b).sum::<f64>();
        let size = |y: &[f64]| y.iter().zip(&cs).map(|(a, b)| (a * b).abs()).sum::<f64>();
        let mut scale = size(&spec.y0);
        let amp = 1. + spec.lam() * if spec.method.adaptive() { spec.dt_max.min(span) } else { spec.dt.min(span) };
        for r in 0..n {
            let y = row_ys(s, r);
            if y.iter().any(|v| !v.is_finite() || v.abs() > 1e200) {
                break;
            }
            let q0 = heat(&starts[r].0);
            scale = scale.max(size(&y)).max(size(&starts[r].0));
            let q = heat(&y);
            let tol = 1e-15 * (100. + per) * scale * amp.powi(4).min(1e4);
            ensure!((q - q0).abs() <= tol, "energy", "row {r} (t={}): total heat {q:e}, initially {q0:e} (tolerance {tol:e})", s.sys_hist().time[r]);
            rx.hit("rows checked for total heat");
        }
    }
    // reservoirs keep their temperature; flows go from warm to cold
    match spec.kind {
        Kind::ResNet | Kind::Mix => {
            for i in (0..spec.y0.len()).filter(|&i| is_reservoir(spec.kind, i)) {
                for r in 0..n {
                    let v = s.y_cols()[i][r];
                    let w = starts[r].0[i];
                    ensure!(v == w, "reservoir", "row {r}: temperature of reservoir {i} is {v:e}, initially {w:e}");
                    rx.hit("rows checked for reservoir temperature");
                }
            }
        }
        Kind::TmBc => {
            for r in 0..n {
                if !starts[r].1 {
                    continue;
                }
                let t = s.sys_hist().time[r];
                let v = s.y_cols()[0][r];
                ensure!((v - bc_temp(t)).abs() <= 1e-9, "reservoir", "row {r}: reservoir temperature {v:e}, boundary condition {:e}", bc_temp(t));
                rx.hit("rows checked for reservoir temperature");
            }
        }
        _ => {}
    }
    let pairs: Vec<(usize, usize, f64)> = match spec.kind {
        Kind::Ring => vec![(0, 1, spec.p[4]), (1, 2, spec.p[5]), (2, 3, spec.p[6]), (3, 0, spec.p[7])],
        Kind::Big => (0..BIG).map(|i| (i, (i + 1) % BIG, spec.p[BIG + i])).collect(),
        Kind::Nest => vec![(0, 1, spec.p[3]), (1, 2, spec.p[4]), (2, 0, spec.p[5])],
        Kind::Tm3 => vec![(0, 1, spec.p[3]), (1, 2, spec.p[4])],
        Kind::ResNet => vec![(1, 0, spec.p[3]), (0, 2, spec.p[4]), (2, 1, spec.p[5]), (3, 2, spec.p[6])],
        Kind::TmBc => vec![(0, 1, spec.p[2]), (1, 2, spec.p[3])],
        Kind::Mix => vec![(1, 2, spec.p[2]), (2, 1, spec.p[3]), (0, 3, spec.p[4]), (0, 1, spec.p[5]), (2, 3, spec.p[6])],
        Kind::Star => STAR_LINKS.iter().enumerate().map(|(k, (a, b))| (*a, *b, spec.p[6 + k])).collect(),
        _ => vec![],
    };
    let fl = s.flows();
    for r in 0..n {
        if !starts[r].1 {
            continue;
        }
        let y = row_ys(s, r);
        for (k, (a, b, h)) in pairs.iter().enumerate() {
            let want = h * (y[*a] - y[*b]);
            let got = fl[k].col_q()[r];
            ensure!((got - want).abs() <= 1e-11 * h * (1e-3 * spec.unit() + y[*a].abs() + y[*b].abs()) || !want.is_finite(), "flow",
                "row {r}: flow {k} is {got:e}, conductance times temperature difference is {want:e}");
        }
    }
    finish(rx, &ex.live, spec);
    Ok(())
}

// ---- C14 ----------------------------------------------------------------------------------------------------
pub fn gen_c14(rng: &mut Rng) -> Case {
    let mut spec = gen_spec(rng, &kinds_methods(true, &ALL_METHODS));
    let mut knobs = BTreeMap::new();
    if rng.chance(0.1) {
        // very small (but clock-moving) proposals and limits
        spec.max_iter = *rng.pick(&[1u8, 2, 40]);
        if spec.method.adaptive() {
            spec.dt = rng.logu(1e-7, 1e-3);
        }
    }
    if rng.chance(0.08) {
        at_rest(rng, &mut spec);
    }
    let mut c = Case { specs: vec![spec], ..Default::default() };
    let cut = rng.below(1001) as i64;
    knobs.insert("cut".into(), cut);
    knobs.insert("cut2".into(), rng.below(1001) as i64);
    if rng.chance(0.5) {
        c.model.push(ModelFault {
            at: rng.below(1_000_000),
            len: u64::MAX / 2,
            kind: *rng.pick(&[Glitch::Nan, Glitch::PosInf, Glitch::NegInf]),
            comp: rng.below(9) as u32,
        });
    }
    c.scripts.push(vec![]);
    c.knobs = knobs;
    if rng.chance(0.0003) {
        long_haul(rng, &mut c.specs[0], 6e4);
        c.model.clear();
    }
    c
}
pub fn run_c14(c: &Case, rx: &mut Rx) -> Res {
    with_sys!(c.specs[0].kind, S => c14::<S>(c, rx))
}
fn c14<S: SimSys>(c: &Case, rx: &mut Rx) -> Res {
    let spec = &c.specs[0];
    let want = expected_times(spec.t0, &spec.t_report);
    // work budget from the reference: generous multiple
    let span = (spec.t_end() - spec.t0).max(0.);
    let budget = if spec.method.adaptive() {
        let tr = adaptive_trials(spec, EVAL_BUDGET);
        // dt_max floors the step size once the states have diverged
        400 * (tr + want.len() as u64 + (span / spec.dt_max).ceil() as u64) + 20_000
    } else {
        200 * (want.len() as u64 + (span / spec.dt).ceil() as u64) + 20_000
    };
    rx.add("evaluation budget", budget);
    seam::rearm(budget, vec![]);
    let walk = |s: &mut S, what: &str| -> Res {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.do_walk())) {
            Ok(()) => Ok(()),
            Err(e) if e.is::<seam::BudgetExceeded>() => viol("no-termination", format!("{what}: not finished after {budget} derivative evaluations, time {:e} of {:e}", s.sys_state().time, spec.t_end())),
            Err(e) => std::panic::resume_unwind(e),
        }
    };
    let mut whole = S::build(spec);
    walk(&mut whole, "walk")?;
    let evals = seam::evals().max(1);
    let check_times = |s: &S, what: &str| -> Res {
        let t = &s.sys_hist().time;
        for w in t.windows(2) {
            ensure!(w[1] >= w[0], "time-backwards", "{what}: time went from {:e} to {:e}", w[0], w[1]);
        }
        if let Some(sc) = s.sc() {
            for w in sc.history.t_curr.windows(2) {
                ensure!(w[1] >= w[0], "time-backwards", "{what}: logged time went from {:e} to {:e}", w[0], w[1]);
            }
        }
        ensure!(t.len() == want.len(), "rows-missing", "{what}: {} rows for {} report times", t.len(), want.len());
        ensure!(want.is_empty() || s.sys_state().time >= spec.t_end(), "rows-missing", "{what}: ended at {:e}", s.sys_state().time);
        Ok(())
    };
    check_times(&whole, "walk")?;
    // repeat
    seam::rearm(budget, vec![]);
    let before = whole.clone();
    walk(&mut whole, "second walk")?;
    ensure!(seam::evals() == 0 || want.is_empty(), "rewalk-works", "walking a finished system evaluated the model {} times", seam::evals());
    if let Some(d) = diff(&before, &whole) {
        return viol("rewalk-changes", format!("walking a finished system changed it: {d}"));
    }
    // extend
    seam::rearm(2 * budget, vec![]);
    let mut ext = S::build(spec);
    let n = spec.t_report.len();
    let mut cuts: Vec<usize> = [c.knob("cut"), c.knob("cut2")].iter().map(|k| 1 + (n - 1) * (*k as usize).min(1000) / 1000).collect();
    cuts.sort();
    cuts.push(n);
    for k in cuts {
        *ext.t_rep() = spec.t_report[..k].to_vec();
        walk(&mut ext, "walk over a part")?;
    }
    if let Some(d) = diff(&whole, &ext) {
        return viol("extension-differs", format!("appending report times and walking again differs from one walk: {d}"));
    }
    rx.hit("lists walked in parts");
    rx.log(evals);
    // the model fails for good
    if let Some(f) = c.model.first() {
        let f = ModelFault { at: 1 + f.at % evals, ..f.clone() };
        seam::rearm(10 * budget, vec![f]);
        let mut s = S::build(spec);
        walk(&mut s, "walk with a model that became non-finite for good")?;
        check_times(&s, "walk with a non-finite model")?;
        rx.log(seam::evals());
        rx.nontrivial = true;
        rx.log_sys(&s);
    }
    rx.nontrivial |= n > 1;
    rx.fingerprint(format!("{spec:?}{:?}{:?}", c.model, c.knobs));
    finish(rx, &whole, spec);
    Ok(())
}

// ---- C15 ----------------------------------------------------------------------------------------------------
pub fn gen_c15(rng: &mut Rng) -> Case {
    let mut o = kinds_methods(false, &ALL_METHODS);
    o.max_substeps = 300.;
    let spec = gen_spec(rng, &o);
    let mut script = gen_script(rng, 12, &["row", "walkto", "rewalk", "ckpt", "restart", "clone", "decoy", "disturb"]);
    if rng.chance(0.03) && !matches!(spec.kind, Kind::ResNet | Kind::Mix | Kind::TmBc) {
        // what is recorded once a state is lost shows it
        script.insert(script.len() - 1, Op::Disturb(12 + rng.below(12) as u32, 0.));
    }
    Case { specs: vec![spec], scripts: vec![script], ..Default::default() }
}
pub fn run_c15(c: &Case, rx: &mut Rx) -> Res {
    with_sys!(c.specs[0].kind, S => c15::<S>(c, rx))
}
fn c15<S: SimSys>(c: &Case, rx: &mut Rx) -> Res {
    let spec = &c.specs[0];
    let mut ex = Exec::<S>::new(spec, "a");
    script_probe(rx, &c.scripts[0]);
    for op in &c.scripts[0] {
        ex.op(rx, op)?;
        let s = &ex.live;
        let n = s.n_rows();
        if n > 0 && !ex.disturbed_after_last_row && !matches!(op, Op::Restart) {
            let st = s.sys_state();
            ensure!(st.time == s.sys_hist().time[n - 1] && st.i == s.sys_hist().i[n - 1], "current-vs-row", "current system state {st:?} differs from its last row");
            for ((l, col), v) in s.cols().iter().zip(s.cur_cols()) {
                let x = col[n - 1];
                ensure!(x == v || (x.is_nan() && v.is_nan()), "current-vs-row", "current {l} is {v:e}, its last row holds {x:e}");
            }
        }
    }
    let s = &ex.live;
    for r in 0..s.n_rows() {
        let (t0, _, p) = start_of(&ex, r);
        let t = s.sys_hist().time[r];
        if t <= t0 {
            rx.hit("rows recorded before anything was computed (exempt)");
            continue;
        }
        let got = row_ys(s, r);
        let mut y = got.clone();
        let m = Model { kind: spec.kind, p: &p };
        let (dy, q) = m.fq(t, &mut y);
        let scale = (maxabs(&y) + spec.unit()) * (spec.lam() + 1.);
        if !scale.is_finite() || scale > 1e100 {
            continue;
        }
        let near = |a: f64, b: f64, tol: f64| (a - b).abs() <= tol || (a.is_nan() && b.is_nan());
        let tol = 1e-11 * scale + if spec.kind == Kind::TmBc { 1e-9 } else { 0. };
        for (i, nd) in s.nodes().into_iter().enumerate() {
            ensure!(near(y[i], got[i], tol), "row-state", "row {r}: state {i} is {:e}, the model prescribes {:e} at t={t}", got[i], y[i]);
            let v = nd.col_dx()[r];
            ensure!(near(v, dy[i], tol), "row-deriv", "row {r} (t={t}): recorded derivative {i} is {v:e}, the model gives {:e} for the recorded states", dy[i]);
        }
        for (i, fl) in s.flows().into_iter().enumerate() {
            let v = fl.col_q()[r];
            ensure!(near(v, q[i], tol * (1. + spec.p.iter().cloned().fold(0., f64::max))), "row-flow", "row {r} (t={t}): recorded flow {i} is {v:e}, the model gives {:e} for the recorded states", q[i]);
        }
        rx.hit("rows checked for coherence");
    }
    finish(rx, &ex.live, spec);
    Ok(())
}

// ---- C19 ----------------------------------------------------------------------------------------------------
pub fn gen_c19(rng: &mut Rng) -> Case {
    let mut o = kinds_methods(false, &ALL_METHODS);
    o.log = true;
    o.max_substeps = 300.;
    o.any_time = false;
    let mut spec = gen_spec(rng, &o);
    if spec.unit() < 1e-3 || spec.atol == 0. {
        // the changes are of any size
        spec.atol = spec.atol.max(1e-10);
    }
    spec.rtol = spec.rtol.max(1e-7);
    let big = spec.y0.iter().fold(0f64, |a, y| a.max(y.abs()));
    if big > 1e5 {
        spec.atol = spec.atol.max(1e-11 * big);
    }
    let tiny = rng.chance(0.15);
    let mut script = vec![];
    let mut knobs = BTreeMap::new();
    let settings_only = rng.chance(0.12);
    knobs.insert("settings_only".into(), settings_only as i64);
    for _ in 0..1 + rng.below(20) {
        script.push(match rng.below(4) {
            0 => Op::Row,
            1 => Op::Ckpt(*rng.pick(&FMTS)),
            _ if settings_only => Op::Poke(12 + 15 * rng.below(1 << 20) as u32, rng.uni(0., 1.)),
            _ => Op::Poke(rng.below(1 << 20) as u32, if tiny { rng.logu(1e-22, 1e-12) } else { rng.uni(-30., 30.) }),
        });
        if rng.chance(0.05) {
            script.push(Op::Restart);
        }
    }
    script.push(Op::Walk);
    Case { specs: vec![spec], scripts: vec![script], knobs, ..Default::default() }
}
pub fn run_c19(c: &Case, rx: &mut Rx) -> Res {
    with_sys!(c.specs[0].kind, S => c19::<S>(c, rx))
}
fn is_reservoir(kind: Kind, i: usize) -> bool {
    (kind == Kind::ResNet && i == 1) || (kind == Kind::Mix && (i == 0 || i == 3)) || (kind == Kind::TmBc && i == 0)
}
/// other settings for the solver: another step size or fixed-step method, other tolerances, ...
fn change_settings(rng: &mut Rng, now: &mut SysSpec, orig: &SysSpec, ymax: f64) {
    if !now.method.adaptive() {
        if rng.chance(0.15) {
            // on with an adaptive method, with a new log
            now.method = *rng.pick(&ADAPTIVE);
            now.rtol = rng.logu(1e-4, 1e-2);
            now.atol = 1e-6 * (1. + ymax);
            now.max_iter = now.max_iter.min(20);
            return;
        }
        if rng.chance(0.6) {
            now.method = *rng.pick(&FIXED);
        }
        if rng.chance(0.6) {
            now.dt = orig.dt * rng.uni(0.5, 2.);
        }
        return;
    }
    match rng.below(6) {
        0 => now.rtol = (now.rtol * rng.logu(1., 30.)).min(0.5),
        1 => now.atol *= rng.logu(1., 30.),
        2 => now.max_iter = *rng.pick(&[1u8, 3, 7, 40]),
        3 => now.dt_max = orig.dt_max * rng.uni(0.3, 2.),
        4 => now.dt = orig.dt * rng.logu(0.1, 3.),
        _ => now.save_states = !now.save_states,
    }
}
fn apply_settings(st: &mut SolverTypes, now: &SysSpec) {
    let was = match st {
        SolverTypes::RK23BogackiShampine(_) => Method::Rk23,
        SolverTypes::RK45CashKarp(_) => Method::Rk45,
        _ => Method::Euler,
    };
    match st {
        SolverTypes::RK23BogackiShampine(sc) | SolverTypes::RK45CashKarp(sc) if was == now.method => {
            sc.rtol = now.rtol;
            sc.atol = now.atol;
            sc.max_iter = now.max_iter;
            sc.dt_max = now.dt_max;
            sc.save_states = now.save_states;
            if !now.dt.is_nan() {
                sc.state.dt = now.dt;
            }
        }
        _ => *st = now.solver(),
    }
}
fn c19<S: SimSys>(c: &Case, rx: &mut Rx) -> Res {
    let spec = &c.specs[0];
    let mut ex = Exec::<S>::new(spec, "a");
    script_probe(rx, &c.scripts[0]);
    let n = spec.y0.len();
    for op in &c.scripts[0] {
        let Op::Poke(sel, x) = op else {
            ex.op(rx, op)?;
            continue;
        };
        let (sel, x) = (*sel, *x);
        let k = (sel as usize >> 8) % n;
        // the expected object is built by setting component fields directly
        let mut want = ex.live.clone();
        let cur: Vec<(f64, f64)> = want.nodes().iter().map(|nd| nd.cur()).collect();
        let vec_of = |s: f64| -> Vec<f64> {
            // small arguments give small values throughout
            let f = if x.abs() < 1e-9 { x } else { 1.0 };
            (0..n).map(|i| f * s * (1.0 + i as f64 * 0.25) + x).collect()
        };
        let s = &mut ex.live;
        let what;
        // reservoirs ignore derivatives being set, by design
        let setd = |i: usize, old: f64, v: f64| if is_reservoir(spec.kind, i) { let _ = old; 0.0 } else { v };
        match sel % 15 {
            0 => {
                what = "set_states";
                let v = vec_of(1.5);
                for (i, nd) in want.nodes_mut().into_iter().enumerate() {
                    nd.set_cur(v[i], cur[i].1);
                }
                s.set_states(v.clone());
                ensure!(HasStates::states(s) == v, "readback", "states() does not return what set_states stored");
            }
            1 => {
                what = "set_state of one component";
                want.nodes_mut()[k].set_cur(x, cur[k].1);
                s.nodes_mut()[k].set_state(x);
                ensure!(s.nodes()[k].state() == x, "readback", "state() does not return what set_state stored");
            }
            2 => {
                what = "step_states";
                let v = vec_of(0.5);
                for (i, nd) in want.nodes_mut().into_iter().enumerate() {
                    nd.set_cur(cur[i].0 + v[i], cur[i].1);
                }
                s.step_states(v);
            }
            3 => {
                what = "step_state of one component";
                want.nodes_mut()[k].set_cur(cur[k].0 + x, cur[k].1);
                s.nodes_mut()[k].step_state(x);
            }
            4 => {
                what = "set_derivs";
                let v = vec_of(-2.0);
                for (i, nd) in want.nodes_mut().into_iter().enumerate() {
                    nd.set_cur(cur[i].0, setd(i, cur[i].1, v[i]));
                }
                s.set_derivs(&v);
                let rd = s.derivs();
                for i in 0..n {
                    ensure!(rd[i] == setd(i, cur[i].1, v[i]), "readback", "derivs() returns {:e} for component {i} after set_derivs({:e})", rd[i], v[i]);
                }
            }
            5 => {
                what = "step_derivs";
                let v = vec_of(0.75);
                for (i, nd) in want.nodes_mut().into_iter().enumerate() {
                    nd.set_cur(cur[i].0, cur[i].1 + v[i]);
                }
                s.step_derivs(v);
            }
            6 => {
                what = "step_deriv of one component";
                want.nodes_mut()[k].set_cur(cur[k].0, cur[k].1 + x);
                s.nodes_mut()[k].step_deriv(x);
            }
            7 => {
                what = "reset_derivs";
                // whatever the derivatives were, also after a glitch
                if sel >> 12 & 1 == 1 {
                    s.nodes_mut()[k].set_deriv(if sel >> 13 & 1 == 1 { f64::NAN } else { f64::NEG_INFINITY });
                    rx.hit("non-finite derivative set from outside");
                }
                for (i, nd) in want.nodes_mut().into_iter().enumerate() {
                    nd.set_cur(cur[i].0, 0.0);
                }
                s.reset_derivs();
                ensure!(s.derivs().iter().all(|d| *d == 0.0), "readback", "derivs() is {:?} after reset_derivs", s.derivs());
            }
            8 => {
                what = "step_time (forth and back)";
                let t = want.sys_state().time;
                let h = 0.125 * (1 + k) as f64;
                s.step_time(&h);
                ensure!(s.sys_state().time == t + h, "readback", "step_time({h}) moved time from {t:e} to {:e}", s.sys_state().time);
                ensure!(SolverBase::state(s).time == t + h, "readback", "state() does not show the system's time");
                s.sys_state_mut().time = t;
            }
            9 => {
                what = "step_states_by_dt (time put back)";
                let t = want.sys_state().time;
                let h = 0.03125 * (1 + k) as f64;
                for (i, nd) in want.nodes_mut().into_iter().enumerate() {
                    nd.set_cur(cur[i].0 + h * cur[i].1, cur[i].1);
                }
                s.step_states_by_dt(&h);
                ensure!(s.sys_state().time == t + h, "readback", "step_states_by_dt({h}) moved time from {t:e} to {:e}", s.sys_state().time);
                s.sys_state_mut().time = t;
            }
            10 => {
                what = "step_state_by_dt of one component";
                let h = 0.0625;
                want.nodes_mut()[k].set_cur(cur[k].0 + h * cur[k].1, cur[k].1);
                s.nodes_mut()[k].step_state_by_dt(&h);
            }
            14 => {
                what = "set_states to one value";
                for nd in want.nodes_mut() {
                    let d = nd.cur().1;
                    nd.set_cur(x, d);
                }
                s.set_states(vec![x; n]);
                ensure!(HasStates::states(s).iter().all(|v| *v == x), "readback", "states() does not return what set_states stored");
            }
            13 => {
                what = "special values, put back";
                let ys: Vec<f64> = cur.iter().map(|c| c.0).collect();
                const SPECIAL: [f64; 12] = [5e-324, -5e-324, f64::MIN_POSITIVE / 4.0, -f64::MIN_POSITIVE, -0.0, 0.0, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0 + f64::EPSILON];
                let mut at = sel as usize >> 12;
                let v: Vec<f64> = (0..n).map(|_| { at = at.wrapping_mul(5).wrapping_add(7); SPECIAL[at % 12] }).collect();
                let bits = |a: f64, b: f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
                s.set_states(v.clone());
                let got = HasStates::states(s);
                let own = s.ys();
                for i in 0..n {
                    ensure!(bits(got[i], v[i]) && bits(own[i], v[i]), "readback", "set_states({:?}) stored {:?} in component {i}, states() returns {:?}", v[i], own[i], got[i]);
                }
                s.set_states(ys.clone());
                s.nodes_mut()[k].set_state(v[k]);
                ensure!(bits(s.nodes()[k].state(), v[k]), "readback", "set_state({:?}) stored {:?}", v[k], s.nodes()[k].state());
                s.nodes_mut()[k].set_state(ys[k]);
                let ds: Vec<f64> = cur.iter().map(|c| c.1).collect();
                s.set_derivs(&v);
                let got = s.derivs();
                for i in 0..n {
                    let w = setd(i, 0.0, v[i]);
                    ensure!(bits(got[i], w) || got[i] == w, "readback", "set_derivs({:?}) stored {:?} in component {i}", v[i], got[i]);
                }
                // increments, too
                let steps: Vec<f64> = v.iter().rev().cloned().collect();
                let near = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-15 * (a.abs() + b.abs());
                for base in [0.0, 1.0] {
                    for nd in s.nodes_mut() {
                        nd.set_cur(base, base);
                    }
                    s.step_states(steps.clone());
                    s.step_derivs(steps.clone());
                    let (got, der) = (HasStates::states(s), s.derivs());
                    for i in 0..n {
                        let w = base + steps[i];
                        ensure!(near(got[i], w), "readback", "step_states({:?}) moved component {i} from {base} to {:?}", steps[i], got[i]);
                        ensure!(near(der[i], w), "readback", "step_derivs({:?}) moved component {i} from {base} to {:?}", steps[i], der[i]);
                    }
                }
                for (nd, (y, d)) in s.nodes_mut().into_iter().zip(ys.iter().zip(&ds)) {
                    nd.set_cur(*y, *d);
                }
            }
            12 => {
                what = "solver settings";
                let r = want.n_rows();
                let mut now = ex.sets.range(..=r).next_back().map(|x| x.1).unwrap_or(&ex.spec).clone();
                if ex.sets.get(&r).map_or(true, |c| c.dt.is_nan()) && now.method.adaptive() {
                    now.dt = f64::NAN;
                }
                let u = Rng::new(sel as u64 ^ x.to_bits());
                change_settings(&mut u.clone(), &mut now, &ex.spec, maxabs(&s.ys()));
                for o in [&mut *s, &mut want] {
                    apply_settings(o.st_mut(), &now);
                }
                ex.sets.insert(r, now);
            }
            _ => {
                what = "parameter change";
                let mut p = ex.p.clone();
                let j = (sel as usize >> 12) % p.len();
                // capacities of reservoirs do not exist; all listed parameters are live
                p[j] *= 1.25;
                let y = s.ys();
                s.set_params(&p);
                want.set_params(&p);
                ensure!(s.ys() == y, "readback", "changing a parameter changed states");
                ex.p = p;
            }
        }
        rx.hit(&format!("poked: {what}"));
        let tol_ok = |a: f64, b: f64| (a - b).abs() <= 1e-14 * (a.abs() + b.abs()) || a == b || (a.is_nan() && b.is_nan());
        // bulk arithmetic may round differently; everything else must be untouched
        let got = s.cur_cols();
        let exp = want.cur_cols();
        for i in 0..got.len() {
            ensure!(tol_ok(got[i], exp[i]), "poke-values", "{what}: value {i} is {:e}, expected {:e} (state/derivative pairs in declaration order, then flows)", got[i], exp[i]);
        }
        let st: Vec<f64> = s.nodes().iter().map(|n| n.storage()).collect();
        ensure!(HasStates::states(s) == s.ys(), "readback", "states() {:?} differs from the components' states {:?}", HasStates::states(s), s.ys());
        ensure!(s.derivs() == s.nodes().iter().map(|n| n.cur().1).collect::<Vec<_>>(), "readback", "derivs() differs from the components' derivatives");
        ensure!(s.storages() == st, "readback", "storages() differs from the components' storages");
        let cap: Vec<Option<f64>> = match spec.kind {
            Kind::Net4 => ex.p[0..4].iter().map(|v| Some(*v)).collect(),
            Kind::Ring => ex.p[0..4].iter().map(|v| Some(*v)).collect(),
            Kind::Wide => ex.p[0..9].iter().map(|v| Some(*v)).collect(),
            Kind::Big => ex.p[0..BIG].iter().map(|v| Some(*v)).collect(),
            Kind::Star => ex.p[0..6].iter().map(|v| Some(*v)).collect(),
            Kind::Mix => vec![None, Some(ex.p[0]), Some(ex.p[1]), None],
            Kind::Tm3 | Kind::Nest => ex.p[0..3].iter().map(|v| Some(*v)).collect(),
            Kind::ResNet => vec![Some(ex.p[0]), None, Some(ex.p[1]), Some(ex.p[2])],
            Kind::TmBc => vec![None, Some(ex.p[0]), Some(ex.p[1])],
            _ => vec![],
        };
        for (i, w) in cap.iter().enumerate() {
            match w {
                Some(w) => ensure!(st[i] == *w, "readback", "storage of component {i} is {:e}, its capacitance is {w:e}", st[i]),
                None => ensure!(st[i] == f64::INFINITY, "readback", "storage of reservoir {i} is {:e}", st[i]),
            }
        }
        // align values (rounding), then the rest has to be identical
        for (i, nd) in want.nodes_mut().into_iter().enumerate() {
            nd.set_cur(got[2 * i], got[2 * i + 1]);
        }
        if let Some(d) = diff(&want, s) {
            return viol("poke-side-effect", format!("{what} changed something else: {d}"));
        }
        let r = s.n_rows();
        let y = s.ys();
        ex.over.insert(r, (y, ex.p.clone()));
        ex.disturbed_after_last_row = true;
    }
    if ex.live.ys().iter().all(|v| v.is_finite() && v.abs() < 1e60) && ex.restarts == 0 {
        if ex.live.sc().is_some() {
            check_log(&ex, rx, What { formula: true, control: c.knob("settings_only") == 1, ..Default::default() })?;
        }
        fixed_rows(&ex, rx)?;
        // derivatives freshly computed after changes
        let s = &ex.live;
        for r in 0..s.n_rows() {
            let (t0, _, p) = start_of(&ex, r);
            let t = s.sys_hist().time[r];
            if t <= t0 {
                continue;
            }
            let mut y = row_ys(s, r);
            let dy = Model { kind: spec.kind, p: &p }.f(t, &mut y);
            let tol = 1e-10 * (maxabs(&y) + spec.unit()) * (lam(spec.kind, &p) + 1.) + if spec.kind == Kind::TmBc { 1e-9 } else { 0. };
            for (i, nd) in s.nodes().into_iter().enumerate() {
                let v = nd.col_dx()[r];
                ensure!((v - dy[i]).abs() <= tol, "stale-deriv", "row {r} (t={t}): derivative {i} is {v:e}, the model gives {:e}", dy[i]);
            }
        }
    }
    finish(rx, &ex.live, spec);
    Ok(())
}
