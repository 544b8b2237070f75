//! Cooperative scheduler: simulated tasks are real threads of which exactly one runs at any time.
//! A task can only lose control at a yield point (derivative evaluation, intercepted I/O call, explicit),
//! and whether it does is decided by the preemption list of the case, never by the OS.
use std::cell::Cell;
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Site {
    Eval,
    Io,
    Op,
}
struct Sched {
    current: usize,
    done: Vec<bool>,
    /// the address a task waits on, until somebody wakes it
    blocked: Vec<Option<usize>>,
    blocks: u64,
    yields: u64,
    /// absolute yield number -> choice among the other live tasks
    preempt: Vec<(u64, u32)>,
    next: usize,
    hash: u64,
    switches: u64,
    mid_step: u64,
    mid_io: u64,
}
static S: Mutex<Option<Sched>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
thread_local! {
    static TASK: Cell<Option<usize>> = const { Cell::new(None) };
    /// this thread is executing the scheduler's own code
    static INSIDE: Cell<u32> = const { Cell::new(0) };
}
#[derive(Default, Clone, Debug)]
pub struct SchedReport {
    pub yields: u64,
    pub switches: u64,
    pub mid_step: u64,
    pub mid_io: u64,
    pub hash: u64,
    pub blocks: u64,
}
struct In;
impl In {
    fn new() -> In {
        let _ = INSIDE.try_with(|i| i.set(i.get() + 1));
        In
    }
}
impl Drop for In {
    fn drop(&mut self) {
        let _ = INSIDE.try_with(|i| i.set(i.get() - 1));
    }
}
pub fn inside() -> bool {
    INSIDE.try_with(|i| i.get() > 0).unwrap_or(true)
}
fn me() -> Option<usize> {
    TASK.try_with(|t| t.get()).unwrap_or(None)
}
pub fn is_task() -> bool {
    me().is_some()
}
fn await_turn(mut g: std::sync::MutexGuard<'static, Option<Sched>>, me: usize) {
    while g.as_ref().map(|s| s.current != me).unwrap_or(false) {
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}
/// next task after `me` that can run
fn next_ready(s: &Sched, me: usize) -> Option<usize> {
    let n = s.done.len();
    (1..n).map(|k| (me + k) % n).find(|&i| !s.done[i] && s.blocked[i].is_none())
}
/// The running task waits on `addr`: another one runs until it is woken. False if no other task can run.
pub fn blocked(addr: usize, timed: bool) -> bool {
    let Some(me) = me() else { return false };
    let _in = In::new();
    let mut g = lock();
    let s = g.as_mut().expect("scheduler");
    let Some(to) = next_ready(s, me) else { return false };
    if !timed {
        s.blocked[me] = Some(addr);
    }
    s.blocks += 1;
    s.hash = crate::rng::mix(s.hash ^ (s.yields << 8) ^ to as u64 ^ 1 << 60);
    s.current = to;
    CV.notify_all();
    await_turn(g, me);
    true
}
/// tasks waiting on `addr` can run again
pub fn wake(addr: usize) -> usize {
    let _in = In::new();
    let mut g = lock();
    let Some(s) = g.as_mut() else { return 0 };
    let mut n = 0;
    for b in s.blocked.iter_mut() {
        if *b == Some(addr) {
            *b = None;
            n += 1;
        }
    }
    n
}
/// a choice that depends on the schedule so far
pub fn coin() -> bool {
    let _in = In::new();
    lock().as_ref().is_some_and(|s| crate::rng::mix(s.hash ^ s.blocks) & 1 == 1)
}
/// the running task lets another one run (sleep, yield)
pub fn pass() {
    let Some(me) = me() else { return };
    if inside() {
        return;
    }
    let _in = In::new();
    let mut g = lock();
    let s = g.as_mut().expect("scheduler");
    let Some(to) = next_ready(s, me) else { return };
    s.hash = crate::rng::mix(s.hash ^ (s.yields << 8) ^ to as u64 ^ 1 << 61);
    s.current = to;
    CV.notify_all();
    await_turn(g, me);
}
fn lock() -> std::sync::MutexGuard<'static, Option<Sched>> {
    S.lock().unwrap_or_else(|e| e.into_inner())
}
pub fn yield_point(site: Site) {
    let Some(me) = me() else { return };
    let _in = In::new();
    let mut g = lock();
    let s = g.as_mut().expect("scheduler");
    s.yields += 1;
    if s.next < s.preempt.len() && s.preempt[s.next].0 <= s.yields {
        let choice = s.preempt[s.next].1;
        s.next += 1;
        let others: Vec<usize> = (0..s.done.len()).filter(|&i| i != me && !s.done[i] && s.blocked[i].is_none()).collect();
        if !others.is_empty() {
            let to = others[choice as usize % others.len()];
            s.switches += 1;
            match site {
                Site::Eval => s.mid_step += 1,
                Site::Io => s.mid_io += 1,
                Site::Op => {}
            }
            s.hash = crate::rng::mix(s.hash ^ (s.yields << 8) ^ to as u64);
            s.current = to;
            CV.notify_all();
            await_turn(g, me);
        }
    }
}
/// Runs the tasks under the given preemption list; returns each task's result (Err = it panicked).
pub fn run<R: Send + 'static>(
    tasks: Vec<Box<dyn FnOnce() -> R + Send>>,
    preempt: Vec<(u64, u32)>,
) -> (Vec<std::thread::Result<R>>, SchedReport) {
    let n = tasks.len();
    let _in = In::new();
    *lock() = Some(Sched {
        current: 0,
        done: vec![false; n],
        blocked: vec![None; n],
        blocks: 0,
        yields: 0,
        preempt,
        next: 0,
        hash: n as u64,
        switches: 0,
        mid_step: 0,
        mid_io: 0,
    });
    let mut hs = vec![];
    for (me, t) in tasks.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    TASK.with(|c| c.set(Some(me)));
                    {
                        let _in = In::new();
                        await_turn(lock(), me);
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(t));
                    TASK.with(|c| c.set(None));
                    let _in = In::new();
                    let mut g = lock();
                    let s = g.as_mut().expect("scheduler");
                    s.done[me] = true;
                    let live = |s: &Sched, i: usize| !s.done[i] && s.blocked[i].is_none();
                    if let Some(nx) = (0..s.done.len()).find(|&i| live(s, i)) {
                        s.current = nx;
                    } else if let Some(nx) = (0..s.done.len()).find(|&i| !s.done[i]) {
                        // it waits for something outside the simulation, or for ever
                        s.blocked[nx] = None;
                        s.current = nx;
                    }
                    CV.notify_all();
                    r
                })
                .expect("spawn"),
        );
    }
    let mut out = vec![];
    for h in hs {
        out.push(match h.join() {
            Ok(r) => r,
            Err(e) => Err(e),
        });
    }
    let s = lock().take().expect("scheduler");
    (
        out,
        SchedReport { yields: s.yields, switches: s.switches, mid_step: s.mid_step, mid_io: s.mid_io, hash: s.hash, blocks: s.blocks },
    )
}
/// Random preemption list: gaps drawn from 1..=g.
pub fn gen_preempt(rng: &mut crate::rng::Rng, max: usize) -> Vec<(u64, u32)> {
    let g = *rng.pick(&[1u64, 2, 3, 7, 20, 60, 200, 1000]);
    let n = rng.below(max as u64 + 1) as usize;
    let mut at = 0;
    let mut v = vec![];
    for _ in 0..n {
        at += 1 + rng.below(g);
        v.push((at, rng.below(8) as u32));
    }
    v
}
