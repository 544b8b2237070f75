//! Greedy minimisation of a failing case; every candidate runs in a fresh process.
use crate::common::Viol;
use crate::spec::*;
use crate::{Lab, Outcome};
use std::time::{Duration, Instant};

fn drop_chunks<T: Clone>(v: &[T], keep_last: usize) -> Vec<Vec<T>> {
    let n = v.len().saturating_sub(keep_last);
    let mut out = vec![];
    let mut size = n;
    // (a long list is first shortened by chunks: a candidate holds a copy of the whole case)
    let least = (n / 64).max(1);
    while size >= least {
        let mut at = 0;
        while at < n {
            let end = (at + size).min(n);
            let mut w = v[..at].to_vec();
            w.extend_from_slice(&v[end..]);
            out.push(w);
            at = end;
        }
        if size == least {
            break;
        }
        size = (size / 2).max(least);
    }
    out
}
fn candidates(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    let mut push = |f: &dyn Fn(&mut Case)| {
        let mut d = c.clone();
        f(&mut d);
        if &d != c {
            out.push(d);
        }
    };
    // whole tasks
    if c.specs.len() > 1 {
        for k in 0..c.specs.len() {
            push(&|d| {
                d.specs.remove(k);
                if k < d.scripts.len() {
                    d.scripts.remove(k);
                }
            });
        }
    }
    for w in drop_chunks(&c.preempt, 0) {
        push(&|d| d.preempt = w.clone());
    }
    for w in drop_chunks(&c.model, 0) {
        push(&|d| d.model = w.clone());
    }
    // a save per fault slot (C09): keep the list shape when removing
    for w in drop_chunks(&c.io, 0) {
        push(&|d| d.io = w.clone());
        push(&|d| {
            d.io = w.clone();
            if let Some(n) = d.knobs.get_mut("saves") {
                *n = (w.len() as i64).max(1);
            }
        });
    }
    for k in 0..c.scripts.len() {
        for w in drop_chunks(&c.scripts[k], 1) {
            push(&|d| d.scripts[k] = w.clone());
        }
    }
    for k in 0..c.specs.len() {
        for w in drop_chunks(&c.specs[k].t_report, 0) {
            if !w.is_empty() {
                push(&|d| d.specs[k].t_report = w.clone());
            }
        }
        push(&|d| d.specs[k].save = false);
        push(&|d| d.specs[k].save_states = false);
        push(&|d| d.specs[k].t0 = 0.0);
        for j in 0..c.specs[k].y0.len() {
            push(&|d| d.specs[k].y0[j] = d.specs[k].y0[j].round());
            push(&|d| d.specs[k].y0[j] = 1.0);
        }
        for j in 0..c.specs[k].p.len() {
            push(&|d| d.specs[k].p[j] = (d.specs[k].p[j] * 10.).round() / 10.);
        }
        for j in 0..c.specs[k].t_report.len() {
            if c.specs[k].t_report.len() > 200 {
                break;
            }
            push(&|d| d.specs[k].t_report[j] = (d.specs[k].t_report[j] * 100.).round() / 100.);
        }
        push(&|d| d.specs[k].dt = (d.specs[k].dt * 100.).round() / 100.);
        push(&|d| d.specs[k].dt_max = 10.);
    }
    for k in 0..c.scripts.len() {
        for j in 0..c.scripts[k].len() {
            let op = &c.scripts[k][j];
            let simpler: Vec<Op> = match op {
                Op::Rows(n) if *n > 1 => vec![Op::Row, Op::Rows(n / 2)],
                Op::Ckpt(f) if *f != Fmt::Bin => vec![Op::Ckpt(Fmt::Bin)],
                Op::WalkTo(_) | Op::Rewalk => vec![Op::Row, Op::Walk],
                Op::Disturb(a, b) => vec![Op::Disturb(*a, b.round())],
                Op::Poke(a, b) => vec![Op::Poke(*a, b.round()), Op::Poke(a % 256, *b)],
                Op::Cont(a, b) => vec![Op::Cont(*a, b.round()), Op::Cont(a % 16, *b)],
                _ => vec![],
            };
            for s in simpler {
                push(&|d| d.scripts[k][j] = s.clone());
            }
        }
    }
    for j in 0..c.model.len() {
        push(&|d| d.model[j].len = 1);
        push(&|d| d.model[j].comp = 0);
        push(&|d| d.model[j].at = d.model[j].at / 2);
        push(&|d| d.model[j].at = d.model[j].at.saturating_sub(1).max(1));
    }
    for (k, v) in &c.knobs {
        if *v != 0 {
            push(&|d| {
                d.knobs.insert(k.clone(), 0);
            });
            push(&|d| {
                d.knobs.insert(k.clone(), v / 2);
            });
        }
    }
    for j in 0..c.preempt.len() {
        push(&|d| d.preempt[j].1 = 0);
    }
    out.retain(valid);
    out
}
fn valid(c: &Case) -> bool {
    c.specs.iter().all(|s| {
        s.t_report.windows(2).all(|w| w[1] > w[0])
            && s.dt > 0.
            && s.p.len() > 0
            && lam_ok(s)
            && (s.method.adaptive() || (s.t_end() - s.t0) / s.dt < 4000.)
    })
}
/// rounding must not turn capacitances into zero
fn lam_ok(s: &SysSpec) -> bool {
    let l = s.lam();
    let caps = match s.kind {
        Kind::Net4 | Kind::Ring => 4,
        Kind::Wide => 9,
        Kind::Star => 6,
        Kind::Big => crate::models::BIG,
        Kind::Mix => 2,
        Kind::ResNet | Kind::Tm3 | Kind::Nest => 3,
        Kind::TmBc => 2,
        _ => 0,
    };
    l.is_finite() && l < 1e4 && s.p[..caps].iter().all(|v| *v > 0.)
}
pub fn shrink(lab: &mut Lab, c: Case, v: &Viol, budget: Duration) -> (Case, Outcome, String) {
    let t0 = Instant::now();
    let slow = matches!(v.class.as_str(), "hang" | "abort" | "no-termination");
    let lim = if slow { Duration::from_secs(20) } else { Duration::from_secs(15) };
    let mut best = lab.run(&c, Duration::from_secs(60));
    let mut tried = 1u64;
    let class = match &best.class {
        Some(c) => c.clone(),
        None => return (c, best, "the violation did not repeat in a process of its own".into()),
    };
    let mut c = c;
    let size0 = serde_yaml::to_string(&c).map(|s| s.len()).unwrap_or(0);
    'outer: loop {
        let mut any = false;
        let mut k = 0;
        loop {
            let cs = candidates(&c);
            if k >= cs.len() {
                break;
            }
            if t0.elapsed() > budget {
                break 'outer;
            }
            let o = lab.run(&cs[k], lim);
            tried += 1;
            if o.class.as_deref() == Some(&class) {
                c = cs[k].clone();
                best = o;
                any = true;
                // stay at the same place in the (now changed) candidate list
            } else {
                k += 1;
            }
        }
        if !any {
            break;
        }
    }
    let size = serde_yaml::to_string(&c).map(|s| s.len()).unwrap_or(0);
    (c, best, format!("{tried} candidates, case text {size0} -> {size} bytes"))
}
