//! The simulated world: one chooser, one file system, a set of simulated processes (threads parked
//! and released one at a time), fault injection and the record of what happened.

use crate::chooser::Chooser;
use crate::simfs::SimFs;
use libc::c_int;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::thread::Thread;

pub const MAIN: usize = usize::MAX;

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: &'static str,
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Default)]
pub struct FaultCfg {
    /// per-mille rates at each eligible point
    pub eintr: u32,
    pub short_write: u32,
    pub short_read: u32,
    pub eio_read: u32,
    pub eio_write: u32,
    pub enospc: u32,
    pub open_fail: u32,
    pub stat_fail: u32,
    pub dir_fail: u32,
    pub crash: u32,
    /// a crash inside a write may leave part of that write behind
    pub torn: bool,
    /// at most this many "hard" faults (not EINTR / short) per run
    pub budget: u32,
}

#[derive(Default)]
pub struct Proc {
    pub done: bool,
    pub dead: bool,
    pub incarnation: u32,
    pub panic: Option<String>,
    /// hard faults delivered to this process since the last reset
    pub hard: u32,
    /// any fault at all
    pub any: u32,
    pub blocked: bool,
    /// number of file operations since reset
    pub ops: u64,
    /// crash at this op count (targeted crash), if any
    pub crash_at: Option<u64>,
    pub touched_stdio: u32,
}

#[derive(Clone, Debug)]
pub struct FsEv {
    pub seq: u64,
    pub pid: usize,
    pub kind: &'static str,
    pub fd: c_int,
    pub res: i64,
    pub at: i64,
}

pub struct Token {
    /// offset behind its last byte
    pub end: usize,
    /// its bytes arrive together (an escape sequence)
    pub whole: bool,
    /// nothing else arrives with it (the Esc key)
    pub alone: bool,
}

pub struct Stdio {
    pub input: Vec<u8>,
    pub pos: usize,
    pub chunk: bool,
    pub output: Vec<u8>,
    pub cols: u16,
    pub raw: bool,
    pub attr: Option<libc::termios>,
    pub orig: Option<libc::termios>,
    pub set_calls: u32,
    pub read_fault: u32,
    pub write_fault: u32,
    pub attr_fault: u32,
    pub tokens: Vec<Token>,
    /// bytes that must have been sent when each token is waited for
    pub marks: Vec<usize>,
    pub watch: bool,
    /// error after the last byte of input
    pub fail_read: Option<c_int>,
    /// the write that fails
    pub fail_write_at: Option<u32>,
    pub write_failed: bool,
    pub writes: u32,
    /// the question for the width that fails, and how many there were in the line
    pub fail_width_at: Option<u32>,
    pub widths: u32,
}

pub struct Sim {
    pub ch: Chooser,
    pub fs: SimFs,
    pub procs: Vec<Proc>,
    pub threads: Vec<Option<Thread>>,
    pub cfg: FaultCfg,
    pub hard_used: u32,
    pub seq: u64,
    /// microseconds on the simulated clock (the code reads none today)
    pub clock: u64,
    pub hash: u64,
    pub switch_rate: u32,
    pub switches: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub violation: Option<Violation>,
    pub known: Vec<(&'static str, String)>,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub fslog: Vec<FsEv>,
    pub watch: Option<Vec<u8>>,
    pub versions: Vec<(u64, usize, Vec<u8>)>,
    pub stdio: Option<Stdio>,
    /// names handed out by directory streams, and streams open
    pub dirlog: Vec<Vec<u8>>,
    pub dirs_open: i64,
    pub gates: u64,
    pub gate_limit: u64,
    /// set by the scenario: this run exercised what the property is about
    pub nontrivial: bool,
    pub sample: Vec<String>,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
static CURRENT: AtomicUsize = AtomicUsize::new(MAIN);

thread_local! {
    static PID: Cell<usize> = const { Cell::new(MAIN) };
    pub static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// The world.  Only the holder of the baton may call this.
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

/// Simulated process running on this thread, if any.
pub fn active() -> Option<usize> {
    let p = PID.try_with(|p| p.get()).unwrap_or(MAIN);
    if p == MAIN {
        None
    } else {
        Some(p)
    }
}

/// Run harness code with interception off (for bookkeeping inside a simulated process).
pub fn choose(n: u32) -> u32 {
    sim().ch.choose(n)
}
pub fn chance(num: u32, den: u32) -> bool {
    sim().ch.chance(num, den)
}
pub fn weighted(w: &[u32]) -> usize {
    sim().ch.weighted(w)
}
pub fn range(lo: u32, hi: u32) -> u32 {
    sim().ch.range(lo, hi)
}
pub fn pick<T>(v: &[T]) -> &T {
    &v[choose(v.len() as u32) as usize]
}
pub fn count(k: &'static str) {
    *sim().counts.entry(k).or_insert(0) += 1;
}
pub fn count_n(k: &'static str, n: u64) {
    *sim().counts.entry(k).or_insert(0) += n;
}

#[macro_export]
macro_rules! trace {
    ($($a:tt)*) => {
        if $crate::sim::sim().tracing {
            let s = format!($($a)*);
            $crate::sim::trace_str(s);
        }
    };
}

pub fn trace_str(s: String) {
    let pid = PID.with(|p| p.get());
    let who = if pid == MAIN {
        "world".to_string()
    } else {
        format!("p{}", pid)
    };
    let q = sim().seq;
    if std::env::var_os("LSIM_LIVE").is_some() {
        // (this process's own write() is simulated)
        let l = format!("[{:>5}] {:<5} {}\n", q, who, s);
        unsafe { libc::syscall(libc::SYS_write, 1, l.as_ptr(), l.len()) };
    }
    sim().trace.push(format!("[{:>5}] {:<5} {}", q, who, s));
}

pub fn hash_mix(x: u64) {
    let s = sim();
    s.hash = (s.hash ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
}
pub fn hash_str(b: &[u8]) {
    let mut h: u64 = 0xcbf29ce484222325;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    hash_mix(h);
}

pub fn violate(prop: &'static str, class: &str, msg: String) {
    let s = sim();
    if s.violation.is_none() {
        trace!("!! VIOLATION {} {}: {}", prop, class, msg);
        s.violation = Some(Violation {
            prop,
            class: class.to_string(),
            msg,
        });
    }
}
pub fn failed() -> bool {
    sim().violation.is_some()
}

impl Sim {
    pub fn new(ch: Chooser) -> Sim {
        Sim {
            ch,
            fs: SimFs::new(),
            procs: Vec::new(),
            threads: Vec::new(),
            cfg: FaultCfg::default(),
            hard_used: 0,
            seq: 0,
            clock: 0,
            hash: 0xcbf29ce484222325,
            switch_rate: 250,
            switches: 0,
            counts: BTreeMap::new(),
            violation: None,
            known: Vec::new(),
            tracing: false,
            trace: Vec::new(),
            fslog: Vec::new(),
            watch: None,
            versions: Vec::new(),
            stdio: None,
            dirlog: Vec::new(),
            dirs_open: 0,
            gates: 0,
            gate_limit: 60_000,
            nontrivial: false,
            sample: Vec::new(),
        }
    }
}

/// Install a world; returns the finished one after `f` has run.
pub fn with_world<F: FnOnce()>(world: Sim, f: F) -> Sim {
    unsafe {
        SIM = Box::into_raw(Box::new(world));
    }
    CURRENT.store(MAIN, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    PID.with(|p| p.set(MAIN));
    let mut boxed = unsafe { Box::from_raw(SIM) };
    unsafe {
        SIM = std::ptr::null_mut();
    }
    if let Err(e) = r {
        let m = PANIC_MSG
            .with(|m| m.borrow_mut().take())
            .unwrap_or_else(|| "?".into());
        drop(e);
        // (outside any simulated process, where the results are looked at)
        if boxed.violation.is_none() {
            boxed.violation = Some(Violation { prop: "ANY", class: format!("panic:{}", m.rsplit('(').next().unwrap_or("")), msg: format!("it panicked: {}", m) });
        }
    }
    *boxed
}

fn wait_for(me: usize) {
    while CURRENT.load(Ordering::Acquire) != me {
        std::thread::park();
    }
}

fn hand_to(next: usize) {
    let t = if next == MAIN {
        sim().threads.last().cloned().flatten()
    } else {
        sim().threads[next].clone()
    };
    CURRENT.store(next, Ordering::Release);
    if let Some(t) = t {
        t.unpark();
    }
}

fn runnable() -> Vec<usize> {
    (0..sim().procs.len())
        .filter(|i| !sim().procs[*i].done)
        .collect()
}

/// A scheduling point.  `force` = do not stay on this process if another can run.
pub fn yield_point(force: bool) {
    let me = match active() {
        Some(p) => p,
        None => return,
    };
    let s = sim();
    s.seq += 1;
    if s.procs.len() == 1 {
        return;
    }
    let others: Vec<usize> = runnable().into_iter().filter(|p| *p != me).collect();
    if others.is_empty() {
        return;
    }
    if !force && !s.ch.chance(s.switch_rate, 1000) {
        return;
    }
    let next = others[s.ch.choose(others.len() as u32) as usize];
    s.switches += 1;
    hash_mix(0x5117c4 ^ ((next as u64) << 32) ^ s.seq);
    hand_to(next);
    wait_for(me);
}

pub type Body = Box<dyn FnOnce() + Send>;

/// Run simulated processes to completion under the seeded scheduler.
pub fn run_procs(bodies: Vec<Body>) {
    let n = bodies.len();
    sim().procs = (0..n).map(|_| Proc::default()).collect();
    if n == 1 {
        // (a thread of its own, so that nothing thread-local is left from other runs)
        let b = bodies.into_iter().next().unwrap();
        let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            PID.with(|p| p.set(0));
            let r = catch_unwind(AssertUnwindSafe(b));
            PID.with(|p| p.set(MAIN));
            finish(0, r.is_err());
        });
        let _ = h.expect("spawn").join();
        return;
    }
    let mut threads: Vec<Option<Thread>> = vec![None; n];
    threads.push(Some(std::thread::current()));
    sim().threads = threads;
    let mut handles = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                wait_for(i);
                PID.with(|p| p.set(i));
                let r = catch_unwind(AssertUnwindSafe(b));
                PID.with(|p| p.set(MAIN));
                finish(i, r.is_err());
                let rest = runnable();
                let next = if rest.is_empty() {
                    MAIN
                } else {
                    rest[sim().ch.choose(rest.len() as u32) as usize]
                };
                hand_to(next);
            })
            .expect("spawn");
        sim().threads[i] = Some(h.thread().clone());
        handles.push(h);
    }
    let first = sim().ch.choose(n as u32) as usize;
    hand_to(first);
    wait_for(MAIN);
    for h in handles {
        let _ = h.join();
    }
}

fn finish(i: usize, panicked: bool) {
    let p = &mut sim().procs[i];
    p.done = true;
    if panicked {
        let m = PANIC_MSG
            .with(|m| m.borrow_mut().take())
            .unwrap_or_else(|| "panic".into());
        p.panic = Some(m);
    }
    sim().fs.close_all(i);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit('/').next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("{} ({})", msg, loc)));
    }));
}

/// Run code of the system under test, catching a panic.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC_MSG
            .with(|m| m.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

/// Run a closure as simulated process 0 of the current world on this thread, after `run_procs`
/// finished (verification phase): no faults, no switches.
pub fn as_observer<R>(f: impl FnOnce() -> R) -> R {
    let saved = std::mem::take(&mut sim().cfg);
    let procs = std::mem::replace(&mut sim().procs, vec![Proc::default()]);
    let watch = sim().watch.take();
    let cap = sim().fs.capacity.take();
    PID.with(|p| p.set(0));
    let r = f();
    PID.with(|p| p.set(MAIN));
    sim().fs.close_all(0);
    sim().procs = procs;
    sim().cfg = saved;
    sim().watch = watch;
    sim().fs.capacity = cap;
    r
}

pub fn me() -> &'static mut Proc {
    let p = active().expect("in process");
    &mut sim().procs[p]
}
pub fn my_pid() -> usize {
    active().expect("in process")
}
pub fn dead() -> bool {
    match active() {
        Some(p) => sim().procs[p].dead,
        None => false,
    }
}

pub fn crash_me(why: &str) {
    let pid = my_pid();
    trace!("CRASH ({})", why);
    count("fault.crash");
    hash_mix(0xdead ^ sim().seq);
    sim().procs[pid].dead = true;
    sim().fs.close_all(pid);
}

/// Bring a crashed process back (a new incarnation).
pub fn revive() {
    let p = me();
    p.dead = false;
    p.done = false;
    p.incarnation += 1;
    p.hard = 0;
    p.any = 0;
    p.ops = 0;
    p.crash_at = None;
    trace!("RESTART");
}

fn hard_ok() -> bool {
    sim().hard_used < sim().cfg.budget
}
fn hard(kind: &'static str) {
    sim().hard_used += 1;
    me().hard += 1;
    me().any += 1;
    count(kind);
    hash_str(kind.as_bytes());
    trace!("FAULT {}", kind);
}
fn soft(kind: &'static str) {
    me().any += 1;
    count(kind);
    hash_str(kind.as_bytes());
    trace!("FAULT {}", kind);
}

pub enum Gate {
    Go,
    /// perform the operation, then the process is dead
    GoThenDie,
    /// writes/reads: at most this many bytes
    Short(usize),
    /// write this many bytes, then die
    TornThenDie(usize),
    Err(c_int),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Open,
    Read,
    Write,
    Close,
    Stat,
    Meta,
    Dir,
}

/// Every intercepted file operation passes here first: yield, then decide the fault.
pub fn gate(op: Op, len: usize) -> Gate {
    yield_point(false);
    let s = sim();
    let pid = my_pid();
    s.gates += 1;
    if s.gates > s.gate_limit {
        // something spins on file operations
        if s.violation.is_none() {
            violate(
                "ANY",
                "spin",
                format!("more than {} file operations in one run", s.gate_limit),
            );
        }
        s.procs[pid].dead = true;
    }
    if s.procs[pid].dead {
        return Gate::Err(libc::EIO);
    }
    s.procs[pid].ops += 1;
    if op == Op::Close {
        return Gate::Go;
    }
    let cfg = s.cfg.clone();
    if let Some(at) = s.procs[pid].crash_at {
        if s.procs[pid].ops >= at {
            s.procs[pid].crash_at = None;
            me().hard += 1;
            if op == Op::Write && len > 0 && cfg.torn {
                return Gate::TornThenDie(s.ch.choose(len as u32) as usize);
            }
            if s.ch.choose(2) == 1 {
                return Gate::GoThenDie;
            }
            crash_me("before op");
            return Gate::Err(libc::EIO);
        }
    }
    if hard_ok() {
        if cfg.crash > 0 && s.ch.chance(cfg.crash, 1000) {
            sim().hard_used += 1;
            me().hard += 1;
            if op == Op::Write && len > 0 && cfg.torn {
                return Gate::TornThenDie(s.ch.choose(len as u32) as usize);
            }
            if s.ch.choose(2) == 1 {
                return Gate::GoThenDie;
            }
            crash_me("before op");
            return Gate::Err(libc::EIO);
        }
        match op {
            Op::Open => {
                if cfg.open_fail > 0 && s.ch.chance(cfg.open_fail, 1000) {
                    hard("fault.open");
                    return Gate::Err(*pick(&[libc::EACCES, libc::EMFILE, libc::EIO]));
                }
            }
            Op::Read => {
                if cfg.eio_read > 0 && s.ch.chance(cfg.eio_read, 1000) {
                    hard("fault.eio_read");
                    return Gate::Err(libc::EIO);
                }
            }
            Op::Write => {
                if cfg.eio_write > 0 && s.ch.chance(cfg.eio_write, 1000) {
                    hard("fault.eio_write");
                    return Gate::Err(libc::EIO);
                }
                if cfg.enospc > 0 && len > 0 && s.ch.chance(cfg.enospc, 1000) {
                    hard("fault.enospc");
                    let n = s.ch.choose(len as u32) as usize;
                    if n == 0 {
                        return Gate::Err(libc::ENOSPC);
                    }
                    // part fits; the disk is full from here on, until the harness frees space
                    let used = s.fs.used();
                    s.fs.capacity = Some(used + n as u64);
                    return Gate::Go;
                }
            }
            Op::Stat => {
                if cfg.stat_fail > 0 && s.ch.chance(cfg.stat_fail, 1000) {
                    hard("fault.stat");
                    return Gate::Err(libc::EACCES);
                }
            }
            Op::Dir => {
                if cfg.dir_fail > 0 && s.ch.chance(cfg.dir_fail, 1000) {
                    hard("fault.dir");
                    return Gate::Err(*pick(&[libc::EIO, libc::EACCES]));
                }
            }
            _ => {}
        }
    }
    match op {
        Op::Open | Op::Read | Op::Write => {
            if cfg.eintr > 0 && s.ch.chance(cfg.eintr, 1000) {
                soft("fault.eintr");
                return Gate::Err(libc::EINTR);
            }
        }
        _ => {}
    }
    if op == Op::Write && len > 1 && cfg.short_write > 0 && s.ch.chance(cfg.short_write, 1000) {
        soft("fault.short_write");
        return Gate::Short(1 + s.ch.choose(len as u32 - 1) as usize);
    }
    if op == Op::Read && len > 1 && cfg.short_read > 0 && s.ch.chance(cfg.short_read, 1000) {
        soft("fault.short_read");
        return Gate::Short(1 + s.ch.choose((len as u32 - 1).min(24)) as usize);
    }
    Gate::Go
}

/// After an operation that may have changed the watched file.
pub fn note_change() {
    let s = sim();
    if let Some(w) = &s.watch {
        let cur = s.fs.get(w).unwrap_or(b"");
        let changed = match s.versions.last() {
            Some((_, _, v)) => v != cur,
            None => true,
        };
        if changed {
            let c = cur.to_vec();
            let pid = PID.with(|p| p.get());
            hash_str(&c);
            s.versions.push((s.seq, pid, c));
        }
    }
}
