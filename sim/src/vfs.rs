//! Simulated disk: the libc calls std and serde use for files are interposed in this binary.
//! Calls on paths below the scratch root are counted, may be failed, shortened, interrupted or cut off by a crash,
//! and feed a model of what has become durable; everything else passes straight through to the kernel.
use crate::rng::Rng;
use crate::sched;
use crate::spec::IoKind;
use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::Mutex;

static ACTIVE: AtomicBool = AtomicBool::new(false);
static V: Mutex<Option<Vfs>> = Mutex::new(None);

#[derive(Clone, Debug)]
enum NsOp {
    Create(String, u64),
    Rename(String, String),
    Unlink(String),
}
#[derive(Clone, Debug)]
enum DataOp {
    Write(u64, Vec<u8>),
    Trunc(u64),
}
#[derive(Clone, Debug)]
pub struct Planned {
    pub at: u64,
    pub kind: IoKind,
    pub arg: u32,
}
struct FdInfo {
    path: String,
    id: u64,
    append: bool,
    dir: bool,
}
struct Vfs {
    root: String,
    ops: u64,
    plan: Vec<Planned>,
    sticky_full: bool,
    /// every transfer is a short one
    all_short: Option<u32>,
    /// so many more calls are interrupted, every other time
    storm: u32,
    fds: BTreeMap<i32, FdInfo>,
    dead: bool,
    power: Option<u32>,
    fired: BTreeMap<&'static str, u64>,
    trace: u64,
    kinds: BTreeMap<&'static str, u64>,
    next_id: u64,
    vis: BTreeMap<String, u64>,
    dur_ns: BTreeMap<String, u64>,
    dur_data: BTreeMap<u64, Vec<u8>>,
    pend_ns: Vec<NsOp>,
    pend_data: BTreeMap<u64, Vec<DataOp>>,
}
fn lock() -> std::sync::MutexGuard<'static, Option<Vfs>> {
    V.lock().unwrap_or_else(|e| e.into_inner())
}
fn raw<T>(f: impl FnOnce() -> T) -> T {
    let was = ACTIVE.swap(false, Ordering::SeqCst);
    let r = f();
    ACTIVE.store(was, Ordering::SeqCst);
    r
}
/// Creates the scratch root, makes it the working directory, and starts tracking.
pub fn init(root: &str) {
    let _ = std::fs::create_dir_all(root);
    std::env::set_current_dir(root).expect("chdir scratch");
    *lock() = Some(Vfs {
        root: format!("{}/", root.trim_end_matches('/')),
        ops: 0,
        plan: vec![],
        sticky_full: false,
        all_short: None,
        storm: 0,
        fds: Default::default(),
        dead: false,
        power: None,
        fired: Default::default(),
        trace: 0,
        kinds: Default::default(),
        next_id: 1,
        vis: Default::default(),
        dur_ns: Default::default(),
        dur_data: Default::default(),
        pend_ns: vec![],
        pend_data: Default::default(),
    });
    ACTIVE.store(true, Ordering::SeqCst);
}
pub fn root() -> String {
    lock().as_ref().expect("vfs").root.clone()
}
fn walk_dir(base: &std::path::Path, rel: &str, out: &mut BTreeMap<String, Vec<u8>>, dirs: &mut Vec<String>) {
    if let Ok(rd) = std::fs::read_dir(base.join(rel)) {
        let mut es: Vec<_> = rd.flatten().collect();
        es.sort_by_key(|e| e.file_name());
        for e in es {
            let name = e.file_name().to_string_lossy().to_string();
            let r = if rel.is_empty() { name } else { format!("{rel}/{name}") };
            if e.path().is_dir() {
                dirs.push(r.clone());
                walk_dir(base, &r, out, dirs);
            } else if let Ok(b) = std::fs::read(e.path()) {
                out.insert(r, b);
            }
        }
    }
}
/// contents of the disk as the (restarted) program sees it
pub fn listing() -> BTreeMap<String, Vec<u8>> {
    let root = root();
    raw(|| {
        let mut m = BTreeMap::new();
        walk_dir(std::path::Path::new(&root), "", &mut m, &mut vec![]);
        m
    })
}
/// wipes the disk and stores the given files as durable
pub fn format_disk(files: &[(&str, &[u8])]) {
    let root = root();
    raw(|| {
        if let Ok(rd) = std::fs::read_dir(&root) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    let _ = std::fs::remove_dir_all(p);
                } else {
                    let _ = std::fs::remove_file(p);
                }
            }
        }
        for (n, b) in files {
            let p = std::path::Path::new(&root).join(n);
            if let Some(d) = p.parent() {
                let _ = std::fs::create_dir_all(d);
            }
            std::fs::write(p, b).expect("scratch write");
        }
    });
    adopt();
}
pub fn make_dir(name: &str) {
    let root = root();
    raw(|| {
        let _ = std::fs::create_dir_all(std::path::Path::new(&root).join(name));
    });
}
pub fn symlink(to: &str, name: &str) {
    let root = root();
    raw(|| {
        let _ = std::os::unix::fs::symlink(std::path::Path::new(&root).join(to), std::path::Path::new(&root).join(name));
    });
}
/// everything visible now is durable; clears plan and counters
pub fn adopt() {
    let l = listing();
    let mut g = lock();
    let v = g.as_mut().expect("vfs");
    v.vis.clear();
    v.dur_ns.clear();
    v.dur_data.clear();
    v.pend_ns.clear();
    v.pend_data.clear();
    for (p, b) in l {
        let id = v.next_id;
        v.next_id += 1;
        v.vis.insert(p.clone(), id);
        v.dur_ns.insert(p, id);
        v.dur_data.insert(id, b);
    }
    v.plan.clear();
    v.sticky_full = false;
    v.all_short = None;
    v.storm = 0;
    v.dead = false;
    v.power = None;
    v.ops = 0;
}
/// overwrite or create one file outside the simulation's accounting
pub fn put(name: &str, b: &[u8]) {
    let root = root();
    raw(|| std::fs::write(std::path::Path::new(&root).join(name), b).expect("scratch write"));
    let mut g = lock();
    let v = g.as_mut().expect("vfs");
    let id = v.next_id;
    v.next_id += 1;
    v.vis.insert(name.into(), id);
    v.dur_ns.insert(name.into(), id);
    v.dur_data.insert(id, b.to_vec());
}
/// A process restarted with the id and counters of one that died finds its files: for every leftover not in `known`,
/// files with the numbers in its name counted up, holding something longer than any object.
pub fn age_leftovers(known: &dyn Fn(&str) -> bool) -> u64 {
    let l = listing();
    let mut n = 0;
    for (p, _) in l.iter().filter(|(p, _)| !known(p)) {
        let at = p.rfind('/').map(|k| k + 1).unwrap_or(0);
        let (dir, name) = p.split_at(at);
        let b = name.as_bytes();
        let mut runs = vec![];
        let mut k = 0;
        while k < b.len() {
            if b[k].is_ascii_digit() {
                let s = k;
                while k < b.len() && b[k].is_ascii_digit() {
                    k += 1;
                }
                runs.push((s, k));
            } else {
                k += 1;
            }
        }
        for (s, e) in runs.into_iter().rev().take(2) {
            let Ok(v) = name[s..e].parse::<u64>() else { continue };
            for d in 1..=6 {
                let new = format!("{dir}{}{}{}", &name[..s], v.wrapping_add(d), &name[e..]);
                if !l.contains_key(&new) && !known(&new) {
                    let b = "}{ left behind by an interrupted run\n".repeat(4_000).into_bytes();
                    raw(|| std::fs::write(std::path::Path::new(&root()).join(&new), &b).expect("scratch write"));
                    // comes after everything that is pending
                    let mut g = lock();
                    let v = g.as_mut().expect("vfs");
                    let id = v.next_id;
                    v.next_id += 1;
                    v.vis.insert(new.clone(), id);
                    v.pend_ns.push(NsOp::Create(new, id));
                    v.dur_data.insert(id, b);
                    n += 1;
                }
            }
        }
    }
    n
}
pub fn get(name: &str) -> Option<Vec<u8>> {
    let root = root();
    raw(|| std::fs::read(std::path::Path::new(&root).join(name)).ok())
}
pub fn arm(plan: Vec<Planned>) {
    let mut g = lock();
    let v = g.as_mut().expect("vfs");
    v.plan = plan;
    v.plan.sort_by_key(|p| p.at);
    v.ops = 0;
    v.sticky_full = false;
    v.all_short = None;
    v.storm = 0;
}
/// number of calls since `arm`
pub fn ops() -> u64 {
    lock().as_ref().expect("vfs").ops
}
pub fn is_dead() -> bool {
    lock().as_ref().expect("vfs").dead
}
/// faults over (disk has space again, device answers)
pub fn disarm() {
    let mut g = lock();
    let v = g.as_mut().expect("vfs");
    v.plan.clear();
    v.sticky_full = false;
    v.all_short = None;
    v.storm = 0;
}
pub fn take_fired() -> BTreeMap<&'static str, u64> {
    std::mem::take(&mut lock().as_mut().expect("vfs").fired)
}
pub fn take_trace() -> u64 {
    let mut g = lock();
    let v = g.as_mut().expect("vfs");
    std::mem::replace(&mut v.trace, 0)
}
pub fn take_kinds() -> BTreeMap<&'static str, u64> {
    std::mem::take(&mut lock().as_mut().expect("vfs").kinds)
}
fn apply_data(buf: &mut Vec<u8>, op: &DataOp, upto: usize) {
    match op {
        DataOp::Trunc(n) => buf.resize(*n as usize, 0),
        DataOp::Write(off, b) => {
            let b = &b[..upto.min(b.len())];
            let end = *off as usize + b.len();
            if buf.len() < end {
                buf.resize(end, 0);
            }
            buf[*off as usize..end].copy_from_slice(b);
        }
    }
}
fn apply_ns(ns: &mut BTreeMap<String, u64>, op: &NsOp) {
    match op {
        NsOp::Create(p, id) => {
            ns.insert(p.clone(), *id);
        }
        NsOp::Rename(a, b) => {
            if let Some(id) = ns.remove(a) {
                ns.insert(b.clone(), id);
            }
        }
        NsOp::Unlink(p) => {
            ns.remove(p);
        }
    }
}
/// Restart after a crash. After process death the page cache survives; after power loss only the durable part,
/// plus an arbitrary prefix of what was pending, does.
pub fn recover() {
    let (root, power) = {
        let mut g = lock();
        let v = g.as_mut().expect("vfs");
        v.dead = false;
        v.plan.clear();
        v.sticky_full = false;
        v.all_short = None;
        v.storm = 0;
        (v.root.clone(), v.power.take())
    };
    if let Some(arg) = power {
        let mut rng = Rng::new(arg as u64 ^ 0x5eed);
        let (ns, content) = {
            let mut g = lock();
            let v = g.as_mut().expect("vfs");
            let mut ns = v.dur_ns.clone();
            let n = v.pend_ns.len() as u64;
            let keep = if rng.chance(0.4) { n } else { rng.below(n + 1) };
            for op in v.pend_ns.iter().take(keep as usize) {
                apply_ns(&mut ns, op);
            }
            let mut content = BTreeMap::new();
            // by age, not by name: names of temporary files depend on how often the process has saved before
            let mut files: Vec<(&String, &u64)> = ns.iter().collect();
            files.sort_by_key(|(p, id)| (**id, p.len(), *p));
            for (p, id) in files {
                let mut b = v.dur_data.get(id).cloned().unwrap_or_default();
                if let Some(pd) = v.pend_data.get(id) {
                    let n = pd.len() as u64;
                    let keep = match rng.below(4) {
                        0 => 0,
                        1 => n,
                        _ => rng.below(n + 1),
                    } as usize;
                    for op in pd.iter().take(keep) {
                        apply_data(&mut b, op, usize::MAX);
                    }
                    if keep < pd.len() {
                        if let DataOp::Write(_, w) = &pd[keep] {
                            let k = rng.below(w.len() as u64 + 1) as usize;
                            apply_data(&mut b, &pd[keep], k);
                        }
                    }
                }
                content.insert(p.clone(), b);
            }
            (ns, content)
        };
        let _ = ns;
        raw(|| {
            let mut m = BTreeMap::new();
            let base = std::path::Path::new(&root);
            walk_dir(base, "", &mut m, &mut vec![]);
            for p in m.keys() {
                if !content.contains_key(p) {
                    let _ = std::fs::remove_file(base.join(p));
                }
            }
            for (p, b) in &content {
                if m.get(p) != Some(b) {
                    if let Some(d) = base.join(p).parent() {
                        let _ = std::fs::create_dir_all(d);
                    }
                    std::fs::write(base.join(p), b).expect("scratch write");
                }
            }
        });
        adopt();
    }
}

// ---- decisions ----------------------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
enum OpK {
    Open { create: bool },
    Read,
    Write,
    Sync,
    Close,
    Rename,
    Unlink,
    Trunc,
    /// permissions, directories, links
    Other,
}
enum Act {
    Go,
    Err(i32),
    /// transfer at most this many bytes
    Short(u32),
    /// transfer this fraction (1/2^16) of the bytes, then the process is dead
    Die(u32),
}
fn compatible(k: IoKind, o: OpK) -> bool {
    use IoKind::*;
    match k {
        Enospc | EnospcSticky => matches!(o, OpK::Write | OpK::Open { create: true } | OpK::Rename | OpK::Sync),
        Eio => matches!(o, OpK::Write | OpK::Read | OpK::Sync | OpK::Open { .. } | OpK::Rename | OpK::Trunc | OpK::Other),
        Eintr | Storm => matches!(o, OpK::Write | OpK::Read | OpK::Open { .. } | OpK::Sync),
        Short | AllShort => matches!(o, OpK::Write | OpK::Read),
        OpenDenied => matches!(o, OpK::Open { .. } | OpK::Other),
        Crash | PowerLoss => true,
    }
}
fn decide(o: OpK) -> Act {
    sched::yield_point(sched::Site::Io);
    let mut g = lock();
    let Some(v) = g.as_mut() else { return Act::Go };
    v.ops += 1;
    let name = match o {
        OpK::Open { .. } => "open",
        OpK::Read => "read",
        OpK::Write => "write",
        OpK::Sync => "fsync",
        OpK::Close => "close",
        OpK::Rename => "rename",
        OpK::Unlink => "unlink",
        OpK::Trunc => "truncate",
        OpK::Other => "chmod, mkdir, link",
    };
    *v.kinds.entry(name).or_default() += 1;
    v.trace = crate::rng::mix(v.trace ^ name.len() as u64 ^ (name.as_bytes()[0] as u64) << 32);
    if v.dead {
        return Act::Err(libc::EIO);
    }
    if v.sticky_full && matches!(o, OpK::Write | OpK::Open { create: true }) {
        return Act::Err(libc::ENOSPC);
    }
    let n = v.ops;
    if v.storm > 0 && compatible(IoKind::Eintr, o) && !matches!(o, OpK::Open { .. } | OpK::Sync) {
        v.storm -= 1;
        if v.storm % 3 != 0 {
            *v.fired.entry("interrupted call").or_default() += 1;
            return Act::Err(libc::EINTR);
        }
    }
    if let (Some(a), OpK::Write | OpK::Read) = (v.all_short, o) {
        *v.fired.entry("short transfer").or_default() += 1;
        return Act::Short((crate::rng::mix(a as u64 ^ n << 32) >> 33) as u32);
    }
    let Some(k) = v.plan.iter().position(|p| p.at <= n && compatible(p.kind, o)) else { return Act::Go };
    let p = v.plan.remove(k);
    let mut fire = |s: &'static str| *v.fired.entry(s).or_default() += 1;
    match p.kind {
        IoKind::Enospc => {
            fire("disk full (once)");
            Act::Err(libc::ENOSPC)
        }
        IoKind::EnospcSticky => {
            fire("disk full (until space is freed)");
            v.sticky_full = true;
            if o == OpK::Write && p.arg % 2 == 1 {
                Act::Short(p.arg)
            } else {
                Act::Err(libc::ENOSPC)
            }
        }
        IoKind::Eio => {
            fire("I/O error");
            Act::Err(libc::EIO)
        }
        IoKind::Eintr => {
            fire("interrupted call");
            Act::Err(libc::EINTR)
        }
        IoKind::Short => {
            fire("short transfer");
            Act::Short(p.arg)
        }
        IoKind::AllShort => {
            fire("short transfers throughout");
            v.all_short = Some(p.arg);
            Act::Short(p.arg)
        }
        IoKind::Storm => {
            fire("interrupted again and again");
            v.storm = 2 + p.arg % 40;
            Act::Err(libc::EINTR)
        }
        IoKind::OpenDenied => {
            fire("open denied");
            Act::Err(libc::EACCES)
        }
        IoKind::Crash => {
            fire(if o == OpK::Write { "process death inside write" } else { "process death at call" });
            v.dead = true;
            Act::Die(p.arg)
        }
        IoKind::PowerLoss => {
            fire("power loss");
            v.dead = true;
            v.power = Some(p.arg);
            Act::Die(p.arg)
        }
    }
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
/// tracked path relative to the scratch root
unsafe fn tracked(path: *const c_char) -> Option<String> {
    if !ACTIVE.load(Ordering::SeqCst) || path.is_null() {
        return None;
    }
    let p = CStr::from_ptr(path).to_str().ok()?;
    let g = lock();
    let v = g.as_ref()?;
    if let Some(r) = p.strip_prefix(&v.root) {
        Some(norm(r))
    } else if p == v.root.trim_end_matches('/') {
        Some(String::new())
    } else if !p.starts_with('/') {
        Some(norm(p))
    } else {
        None
    }
}
fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    out.join("/")
}
fn tracked_fd(fd: c_int) -> bool {
    ACTIVE.load(Ordering::SeqCst) && lock().as_ref().map(|v| v.fds.contains_key(&fd)).unwrap_or(false)
}

// ---- interposed symbols -------------------------------------------------------------------------------------
unsafe fn do_open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let sys = || libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as libc::c_uint) as c_int;
    let Some(rel) = tracked(path) else { return sys() };
    let create = flags & libc::O_CREAT != 0;
    match decide(OpK::Open { create }) {
        Act::Err(e) => {
            set_errno(e);
            return -1;
        }
        Act::Die(a) => {
            // the call may or may not have taken effect
            if a % 2 == 1 {
                let fd = open_effect(&rel, flags, sys);
                if fd >= 0 {
                    libc::syscall(libc::SYS_close, fd);
                    if let Some(v) = lock().as_mut() {
                        v.fds.remove(&fd);
                    }
                }
            }
            set_errno(libc::EIO);
            return -1;
        }
        _ => {}
    }
    open_effect(&rel, flags, sys)
}
unsafe fn open_effect(rel: &str, flags: c_int, sys: impl FnOnce() -> c_int) -> c_int {
    let fd = sys();
    if fd < 0 {
        return fd;
    }
    let mut st: libc::stat = std::mem::zeroed();
    libc::fstat(fd, &mut st);
    let dir = st.st_mode & libc::S_IFMT == libc::S_IFDIR;
    let mut g = lock();
    if let Some(v) = g.as_mut() {
        let id = match v.vis.get(rel) {
            Some(id) => *id,
            None => {
                let id = v.next_id;
                v.next_id += 1;
                if !dir {
                    v.vis.insert(rel.to_string(), id);
                    v.pend_ns.push(NsOp::Create(rel.to_string(), id));
                }
                id
            }
        };
        if flags & libc::O_TRUNC != 0 {
            v.pend_data.entry(id).or_default().push(DataOp::Trunc(0));
        }
        v.fds.insert(fd, FdInfo { path: rel.to_string(), id, append: flags & libc::O_APPEND != 0, dir });
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
unsafe fn xfer_read(fd: c_int, n: size_t, f: impl FnOnce(size_t) -> ssize_t) -> ssize_t {
    if !tracked_fd(fd) {
        return f(n);
    }
    match decide(OpK::Read) {
        Act::Err(e) => {
            set_errno(e);
            -1
        }
        Act::Short(a) => f(if n > 1 { 1 + (a as usize) % (n.min(4096) - 1).max(1) } else { n }),
        Act::Die(_) => {
            set_errno(libc::EIO);
            -1
        }
        Act::Go => f(n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    xfer_read(fd, n, |n| libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    xfer_read(fd, n, |n| libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !tracked_fd(fd) {
        return libc::syscall(libc::SYS_readv, fd, iov, n) as ssize_t;
    }
    if n <= 0 {
        return 0;
    }
    let v = &*iov;
    read(fd, v.iov_base, v.iov_len)
}
unsafe fn xfer_write(fd: c_int, buf: *const c_void, n: size_t, off: Option<off64_t>) -> ssize_t {
    let sys = |n: size_t| match off {
        None => libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t,
        Some(o) => libc::syscall(libc::SYS_pwrite64, fd, buf, n, o) as ssize_t,
    };
    if !tracked_fd(fd) {
        return sys(n);
    }
    let act = decide(OpK::Write);
    let m = match act {
        Act::Err(e) => {
            set_errno(e);
            return -1;
        }
        Act::Short(a) => {
            if n > 1 {
                1 + (a as usize) % (n - 1)
            } else {
                n
            }
        }
        Act::Die(a) => ((a as u64 & 0xffff) * (n as u64 + 1) >> 16) as usize,
        Act::Go => n,
    };
    let at = {
        let append = lock().as_ref().and_then(|v| v.fds.get(&fd).map(|f| f.append)).unwrap_or(false);
        match off {
            Some(o) => o as u64,
            None => {
                if append {
                    let mut st: libc::stat = std::mem::zeroed();
                    libc::fstat(fd, &mut st);
                    st.st_size as u64
                } else {
                    libc::lseek(fd, 0, libc::SEEK_CUR) as u64
                }
            }
        }
    };
    let r = if m == 0 { 0 } else { sys(m) };
    if r > 0 {
        let bytes = std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec();
        let mut g = lock();
        if let Some(v) = g.as_mut() {
            if let Some(id) = v.fds.get(&fd).map(|f| f.id) {
                v.pend_data.entry(id).or_default().push(DataOp::Write(at, bytes));
            }
        }
    }
    if let Act::Die(_) = act {
        set_errno(libc::EIO);
        return -1;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    xfer_write(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    xfer_write(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !tracked_fd(fd) {
        return libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t;
    }
    let s = std::slice::from_raw_parts(iov, n.max(0) as usize);
    match s.iter().find(|v| v.iov_len > 0) {
        None => 0,
        Some(v) => write(fd, v.iov_base, v.iov_len),
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if tracked_fd(fd) {
        let _ = decide(OpK::Close);
        if let Some(v) = lock().as_mut() {
            v.fds.remove(&fd);
        }
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
unsafe fn do_sync(fd: c_int) -> c_int {
    if !tracked_fd(fd) {
        return libc::syscall(libc::SYS_fsync, fd) as c_int;
    }
    match decide(OpK::Sync) {
        Act::Err(e) => {
            set_errno(e);
            return -1;
        }
        Act::Die(a) if a % 2 == 0 => {
            set_errno(libc::EIO);
            return -1;
        }
        _ => {}
    }
    let mut g = lock();
    if let Some(v) = g.as_mut() {
        if let Some((id, dir, path)) = v.fds.get(&fd).map(|f| (f.id, f.dir, f.path.clone())) {
            let in_dir = |p: &str| p.rsplit_once('/').map(|(d, _)| d).unwrap_or("") == path;
            if dir {
                let ops = std::mem::take(&mut v.pend_ns);
                for op in ops {
                    let hit = match &op {
                        NsOp::Create(p, _) | NsOp::Unlink(p) => in_dir(p),
                        NsOp::Rename(a, b) => in_dir(a) || in_dir(b),
                    };
                    if hit {
                        apply_ns(&mut v.dur_ns, &op);
                    } else {
                        v.pend_ns.push(op);
                    }
                }
            } else {
                let mut b = v.dur_data.remove(&id).unwrap_or_default();
                for op in v.pend_data.remove(&id).unwrap_or_default() {
                    apply_data(&mut b, &op, usize::MAX);
                }
                v.dur_data.insert(id, b);
                // a journalled file system makes the creation of the synced file durable, with all earlier
                // namespace changes
                if let Some(k) = v.pend_ns.iter().position(|o| matches!(o, NsOp::Create(_, i) if *i == id)) {
                    let done: Vec<NsOp> = v.pend_ns.drain(..=k).collect();
                    for op in done {
                        apply_ns(&mut v.dur_ns, &op);
                    }
                }
            }
        }
        if v.dead {
            set_errno(libc::EIO);
            return -1;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let sys = || libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
    if !tracked_fd(fd) {
        return sys();
    }
    match decide(OpK::Trunc) {
        Act::Err(e) => {
            set_errno(e);
            return -1;
        }
        Act::Die(_) => {
            set_errno(libc::EIO);
            return -1;
        }
        _ => {}
    }
    let r = sys();
    if r == 0 {
        if let Some(v) = lock().as_mut() {
            if let Some(id) = v.fds.get(&fd).map(|f| f.id) {
                v.pend_data.entry(id).or_default().push(DataOp::Trunc(len as u64));
            }
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
unsafe fn rename_effect(a: &str, b: &str, sys: impl FnOnce() -> c_int) -> c_int {
    let r = sys();
    if r == 0 {
        if let Some(v) = lock().as_mut() {
            if let Some(id) = v.vis.remove(a) {
                v.vis.insert(b.to_string(), id);
                v.pend_ns.push(NsOp::Rename(a.to_string(), b.to_string()));
            }
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let sys = || libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as c_int;
    let (Some(ra), Some(rb)) = (tracked(a), tracked(b)) else { return sys() };
    match decide(OpK::Rename) {
        Act::Err(e) => {
            set_errno(e);
            -1
        }
        Act::Die(k) => {
            if k % 2 == 1 {
                rename_effect(&ra, &rb, sys);
            }
            set_errno(libc::EIO);
            -1
        }
        _ => rename_effect(&ra, &rb, sys),
    }
}
unsafe fn unlink_effect(a: &str, sys: impl FnOnce() -> c_int) -> c_int {
    let r = sys();
    if r == 0 {
        if let Some(v) = lock().as_mut() {
            if v.vis.remove(a).is_some() {
                v.pend_ns.push(NsOp::Unlink(a.to_string()));
            }
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let sys = || libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, a, 0) as c_int;
    let Some(ra) = tracked(a) else { return sys() };
    match decide(OpK::Unlink) {
        Act::Err(e) => {
            set_errno(e);
            -1
        }
        Act::Die(k) => {
            if k % 2 == 1 {
                unlink_effect(&ra, sys);
            }
            set_errno(libc::EIO);
            -1
        }
        _ => unlink_effect(&ra, sys),
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, fl: libc::c_uint,
) -> ssize_t {
    if tracked_fd(a) || tracked_fd(b) {
        set_errno(libc::ENOSYS);
        return -1;
    }
    libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, fl) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if tracked_fd(o) || tracked_fd(i) {
        set_errno(libc::ENOSYS);
        return -1;
    }
    libc::syscall(libc::SYS_sendfile, o, i, off, n) as ssize_t
}

unsafe fn other(hit: bool, sys: impl FnOnce() -> c_int) -> c_int {
    if !hit {
        return sys();
    }
    match decide(OpK::Other) {
        Act::Err(e) => {
            set_errno(e);
            -1
        }
        Act::Die(k) => {
            if k % 2 == 1 {
                sys();
            }
            set_errno(libc::EIO);
            -1
        }
        _ => sys(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, mode: mode_t) -> c_int {
    other(tracked(a).is_some(), || libc::syscall(libc::SYS_chmod, a, mode as libc::c_uint) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    other(tracked_fd(fd), || libc::syscall(libc::SYS_fchmod, fd, mode as libc::c_uint) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: mode_t) -> c_int {
    other(tracked(a).is_some(), || libc::syscall(libc::SYS_mkdir, a, mode as libc::c_uint) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    other(tracked(a).is_some(), || libc::syscall(libc::SYS_rmdir, a) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, flags: c_int) -> c_int {
    let (ra, rb) = (tracked(a), tracked(b));
    other(ra.is_some() && rb.is_some(), || {
        let r = libc::syscall(libc::SYS_linkat, da, a, db, b, flags) as c_int;
        if let (0, Some(ra), Some(rb), Some(v)) = (r, ra, rb, lock().as_mut()) {
            if let Some(id) = v.vis.get(&ra).copied() {
                v.vis.insert(rb.clone(), id);
                v.pend_ns.push(NsOp::Create(rb, id));
            }
        }
        r
    })
}

/// file times of the simulated disk are coarse: whatever happens in a run, happens within one tick of them
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    let ours = if path.is_null() || *path == 0 { tracked_fd(dir) } else { tracked(path).is_some() };
    let r = libc::syscall(libc::SYS_statx, dir, path, flags, mask, buf) as c_int;
    if r == 0 && ours {
        for t in [&mut (*buf).stx_mtime, &mut (*buf).stx_ctime, &mut (*buf).stx_atime, &mut (*buf).stx_btime] {
            t.tv_sec = 1_700_000_000;
            t.tv_nsec = 0;
        }
    }
    r
}

/// the simulated process has an id of its own
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if ACTIVE.load(Ordering::SeqCst) {
        return 4711;
    }
    libc::syscall(libc::SYS_getpid) as libc::pid_t
}

// ---- clock and entropy --------------------------------------------------------------------------------------
static SIM_CLOCK: AtomicBool = AtomicBool::new(false);
static CLOCK_NS: AtomicI64 = AtomicI64::new(0);
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
static SLOW_NS: AtomicI64 = AtomicI64::new(0);
/// from now on every clock read in this process returns the simulated clock
pub fn clock_on(ns: i64) {
    CLOCK_NS.store(ns, Ordering::SeqCst);
    CLOCK_READS.store(0, Ordering::SeqCst);
    SIM_CLOCK.store(true, Ordering::SeqCst);
}
/// a slow machine: so much time passes with every clock read and every derivative evaluation
pub fn clock_slow(ns: i64) {
    SLOW_NS.store(ns, Ordering::SeqCst);
}
pub fn clock_tick() {
    let ns = SLOW_NS.load(Ordering::SeqCst);
    if ns != 0 && SIM_CLOCK.load(Ordering::SeqCst) {
        CLOCK_NS.fetch_add(ns, Ordering::SeqCst);
    }
}
pub fn active() -> bool {
    ACTIVE.load(Ordering::SeqCst)
}
pub fn clock_off() {
    SIM_CLOCK.store(false, Ordering::SeqCst);
}
pub fn clock_advance(ns: i64) {
    CLOCK_NS.fetch_add(ns, Ordering::SeqCst);
}
pub fn clock_reads() -> u64 {
    CLOCK_READS.load(Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if SIM_CLOCK.load(Ordering::SeqCst) {
        CLOCK_READS.fetch_add(1, Ordering::SeqCst);
        clock_tick();
        let mut t = CLOCK_NS.load(Ordering::SeqCst);
        if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE || id == libc::CLOCK_TAI {
            // the wall clock is being set back; only the monotonic clocks measure durations
            t = t / 2 - 3_600_000_000_000 * CLOCK_READS.load(Ordering::SeqCst) as i64;
        }
        (*ts).tv_sec = t.div_euclid(1_000_000_000);
        (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, _flags: libc::c_uint) -> ssize_t {
    let s = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    for (i, b) in s.iter_mut().enumerate() {
        *b = crate::rng::mix(i as u64 + 77) as u8;
    }
    n as ssize_t
}
