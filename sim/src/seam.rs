//! Seam at the model callback: every derivative evaluation of a harness model passes through `on_eval`,
//! where the fault plan of the running task is consulted and the scheduler may switch tasks.
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Glitch {
    Nan,
    PosInf,
    NegInf,
    Panic,
}
/// Fault active for evaluations `at .. at+len` (1-based count of the task's evaluations), hitting component `comp`.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ModelFault {
    pub at: u64,
    pub len: u64,
    pub kind: Glitch,
    pub comp: u32,
}
#[derive(Default)]
pub struct Ctx {
    pub evals: u64,
    pub budget: u64,
    pub faults: Vec<ModelFault>,
    pub fired_nan: u64,
    pub fired_inf: u64,
    pub fired_panic: u64,
    /// number of the last evaluation that was tampered with
    pub last_fired: u64,
}
pub struct BudgetExceeded(pub u64);
pub struct InjectedPanic;

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx{budget:u64::MAX,..Default::default()});
}
pub fn reset(budget: u64, faults: Vec<ModelFault>) {
    CTX.with(|c| {
        *c.borrow_mut() = Ctx { budget, faults, ..Default::default() };
    });
}
pub fn evals() -> u64 {
    CTX.with(|c| c.borrow().evals)
}
/// how many evaluations ago the last fault fired
pub fn since_fault() -> u64 {
    CTX.with(|c| {
        let c = c.borrow();
        if c.last_fired == 0 { u64::MAX } else { c.evals - c.last_fired }
    })
}
/// restarts the evaluation counter with a new fault plan, keeping the fired counters
pub fn rearm(budget: u64, faults: Vec<ModelFault>) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.evals = 0;
        c.last_fired = 0;
        c.budget = budget;
        c.faults = faults;
    });
}
pub fn take_fired() -> (u64, u64, u64) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let r = (c.fired_nan, c.fired_inf, c.fired_panic);
        c.fired_nan = 0;
        c.fired_inf = 0;
        c.fired_panic = 0;
        r
    })
}
thread_local! {
    /// called at every derivative evaluation: lets a model callback work on other systems before it returns
    pub static NEST: std::cell::Cell<Option<fn()>> = const { std::cell::Cell::new(None) };
    /// simulated nanoseconds every derivative evaluation takes
    pub static EVAL_NS: RefCell<Vec<i64>> = const { RefCell::new(vec![]) };
}
/// Called by harness models at the start of a derivative evaluation.
pub fn on_eval() -> Option<(f64, usize)> {
    crate::sched::yield_point(crate::sched::Site::Eval);
    crate::vfs::clock_tick();
    EVAL_NS.with(|v| {
        let v = v.borrow();
        if !v.is_empty() {
            let n = CTX.with(|c| c.borrow().evals) as usize;
            crate::vfs::clock_advance(v[n % v.len()]);
        }
    });
    if let Some(f) = NEST.with(|h| h.get()) {
        f();
    }
    enum A {
        None,
        G(f64, usize),
        Panic,
        Budget(u64),
    }
    let a = CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.evals += 1;
        let n = c.evals;
        if n > c.budget {
            return A::Budget(n);
        }
        let hit = c.faults.iter().find(|f| n >= f.at && n - f.at < f.len).cloned();
        match hit {
            None => A::None,
            Some(f) => {
                c.last_fired = n;
                match f.kind {
                Glitch::Nan => {
                    c.fired_nan += 1;
                    A::G(f64::NAN, f.comp as usize)
                }
                Glitch::PosInf => {
                    c.fired_inf += 1;
                    A::G(f64::INFINITY, f.comp as usize)
                }
                Glitch::NegInf => {
                    c.fired_inf += 1;
                    A::G(f64::NEG_INFINITY, f.comp as usize)
                }
                Glitch::Panic => {
                    c.fired_panic += 1;
                    A::Panic
                }
                }
            }
        }
    });
    match a {
        A::None => None,
        A::G(v, k) => Some((v, k)),
        A::Panic => std::panic::panic_any(InjectedPanic),
        A::Budget(n) => std::panic::panic_any(BudgetExceeded(n)),
    }
}
