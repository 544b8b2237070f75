//! Blocking behind the seam: the futex, sleep and yield calls of std are interposed in this binary, so that a simulated
//! task that waits for a lock another task holds hands control to that task instead of stopping the simulation.
//! Sleeping takes simulated time only.
use crate::{sched, vfs};
use libc::{c_int, c_long, timespec};

/// the system call itself
#[inline(always)]
pub unsafe fn sys6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
        in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn ret(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = -r as c_int };
        -1
    } else {
        r
    }
}
const PRIVATE_OR_CLOCK: c_long = 128 | 256;

/// exit status of a process all whose tasks wait for one another
pub const DEADLOCK: c_int = 86;
static STUCK: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

/// libc's `syscall`, through which std waits and wakes
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long,
) -> c_long {
    if n == libc::SYS_futex && !sched::inside() {
        match b & !PRIVATE_OR_CLOCK {
            // FUTEX_WAIT, FUTEX_WAIT_BITSET
            0 | 9 if sched::is_task() => {
                let word = &*(a as *const std::sync::atomic::AtomicU32);
                if word.load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                    return ret(-libc::EAGAIN as c_long);
                }
                let timed = d != 0;
                if sched::blocked(a as usize, timed) {
                    STUCK.store(0, std::sync::atomic::Ordering::SeqCst);
                } else {
                    // no other task can run: whoever is to wake this one is outside the simulation
                    if STUCK.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 250 {
                        libc::_exit(DEADLOCK);
                    }
                    let ts = timespec { tv_sec: 0, tv_nsec: 20_000_000 };
                    sys6(n, a, 128, c, &ts as *const timespec as c_long, 0, 0);
                }
                return if timed { ret(-libc::ETIMEDOUT as c_long) } else { 0 };
            }
            // FUTEX_WAKE, FUTEX_WAKE_BITSET
            1 | 10 => {
                let k = sched::wake(a as usize);
                let r = ret(sys6(n, a, b, c, d, e, f));
                if k > 0 && sched::coin() {
                    // the woken task may well be faster than the one that woke it
                    sched::pass();
                }
                return if r < 0 { r } else { (r + k as c_long).min(c) };
            }
            _ => {}
        }
    }
    ret(sys6(n, a, b, c, d, e, f))
}
unsafe fn slept(ts: *const timespec) {
    let ns = (*ts).tv_sec.saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec);
    vfs::clock_advance(ns);
    sched::pass();
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t, flags: c_int, ts: *const timespec, rem: *mut timespec,
) -> c_int {
    if flags == 0 && (sched::is_task() || vfs::active()) {
        slept(ts);
        return 0;
    }
    -sys6(libc::SYS_clock_nanosleep, id as c_long, flags as c_long, ts as c_long, rem as c_long, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const timespec, rem: *mut timespec) -> c_int {
    if sched::is_task() || vfs::active() {
        slept(ts);
        return 0;
    }
    ret(sys6(libc::SYS_nanosleep, ts as c_long, rem as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    sched::pass();
    sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    let wait = op & libc::LOCK_NB == 0;
    loop {
        let op = if wait && sched::is_task() { op | libc::LOCK_NB } else { op };
        let r = ret(sys6(libc::SYS_flock, fd as c_long, op as c_long, 0, 0, 0, 0));
        if r == 0 || !wait || *libc::__errno_location() != libc::EWOULDBLOCK {
            return r as c_int;
        }
        sched::pass();
    }
}
