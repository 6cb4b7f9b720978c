//! Runtime of the simulator. Compiled without basic-block callbacks.
//!
//! * one simulated task runs at a time; who runs is decided from the tape
//! * every basic-block edge of instrumented code, every allocation and every
//!   explicit yield is a step, a possible preemption and a unit of work
//! * `getrandom`, `futex` (all std locks) and `clock_gettime` are interposed
//! * each run happens in a forked process; what it did is left in shared memory

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU32, AtomicU64, Ordering::*};

pub mod sys;

// ------------------------------------------------------------------ shared memory

pub const NSTREAM: usize = 3;
/// workload choices
pub const W: usize = 0;
/// fault choices
pub const F: usize = 1;
/// schedule choices
pub const S: usize = 2;
pub const TAPE_CAP: usize = 1 << 14;
const LOG_CAP: usize = 1 << 20;
const MSG_CAP: usize = 1 << 16;
pub const NCTR: usize = 256;
pub const COV_CAP: usize = 1 << 19;
pub const SITE_CAP: usize = 1 << 20;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ctr {
    pub name: [u8; 48],
    pub len: usize,
    pub n: u64,
}

/// What one run leaves behind (survives a crash of the run).
#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub steps: u64,
    pub switches: u64,
    pub trace_hash: u64,
    pub result_hash: u64,
    pub sched_hash: u64,
    pub nontrivial: u32,
    pub class_len: usize,
    pub class: [u8; 256],
    pub msg_len: usize,
    pub msg: [u8; MSG_CAP],
    pub tape_len: [usize; NSTREAM],
    pub tape: [[u64; TAPE_CAP]; NSTREAM],
    pub log_keep: u32,
    pub log_len: usize,
    pub log: [u8; LOG_CAP],
    // cumulative over the runs of one worker
    pub counting: u32,
    pub ctr: [Ctr; NCTR],
    pub cov: [u8; COV_CAP],
    pub sites: [u8; SITE_CAP],
}

pub const RUNNING: u32 = 0;
pub const OK: u32 = 1;
pub const VIOLATION: u32 = 2;
pub const HARNESS: u32 = 3;

static SH: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());

pub fn new_shared() -> *mut Shared {
    sys::mmap_shared(std::mem::size_of::<Shared>()) as *mut Shared
}
pub fn use_shared(p: *mut Shared) {
    SH.store(p, Release);
}
fn sh() -> Option<&'static mut Shared> {
    let p = SH.load(Relaxed);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}
pub fn shared() -> &'static mut Shared {
    sh().expect("no shared region")
}
impl Shared {
    pub fn reset(&mut self) {
        self.status = RUNNING;
        self.steps = 0;
        self.switches = 0;
        self.trace_hash = 0xcbf29ce484222325;
        self.result_hash = 0xcbf29ce484222325;
        self.sched_hash = 0xcbf29ce484222325;
        self.nontrivial = 0;
        self.class_len = 0;
        self.msg_len = 0;
        self.tape_len = [0; NSTREAM];
        self.log_len = 0;
    }
    pub fn class_str(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len]).into_owned()
    }
    pub fn msg_str(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len]).into_owned()
    }
    pub fn log_str(&self) -> String {
        String::from_utf8_lossy(&self.log[..self.log_len]).into_owned()
    }
    pub fn tapes(&self) -> Vec<Vec<u64>> {
        (0..NSTREAM).map(|i| self.tape[i][..self.tape_len[i]].to_vec()).collect()
    }
}

pub fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

// ------------------------------------------------------------------ prng and tape

#[derive(Clone)]
pub struct Rng(pub [u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut next = || {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        };
        Rng([next(), next(), next(), next()])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub enum Source {
    Random(u64),
    Replay(Vec<Vec<u64>>),
}

struct Tape {
    rng: Option<[Rng; NSTREAM]>,
    replay: Vec<Vec<u64>>,
    pos: [usize; NSTREAM],
}
struct TapeCell(UnsafeCell<Option<Tape>>);
unsafe impl Sync for TapeCell {}
static TAPE: TapeCell = TapeCell(UnsafeCell::new(None));

/// Only one simulated thread runs at a time, so plain access is enough.
fn tape() -> &'static mut Option<Tape> {
    unsafe { &mut *TAPE.0.get() }
}

pub fn set_source(s: Source) {
    *tape() = Some(match s {
        Source::Random(seed) => Tape {
            rng: Some([
                Rng::new(seed ^ 0x57),
                Rng::new(seed.rotate_left(21) ^ 0xFA17),
                Rng::new(seed.rotate_left(42) ^ 0x5C4ED),
            ]),
            replay: vec![],
            pos: [0; NSTREAM],
        },
        Source::Replay(t) => Tape {
            rng: None,
            replay: t,
            pos: [0; NSTREAM],
        },
    });
}

/// A choice in `0..n`. 0 is always the simplest one.
pub fn draw(stream: usize, n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    let _m = Mask::new();
    let t = tape().as_mut().expect("tape");
    let i = t.pos[stream];
    t.pos[stream] += 1;
    let v = match &mut t.rng {
        Some(r) => {
            if i >= TAPE_CAP {
                0
            } else {
                r[stream].next() % n
            }
        }
        None => t.replay.get(stream).and_then(|s| s.get(i)).map(|x| x % n).unwrap_or(0),
    };
    if let Some(s) = sh() {
        if i < TAPE_CAP {
            s.tape[stream][i] = v;
            s.tape_len[stream] = i + 1;
        }
    }
    v
}

// ------------------------------------------------------------------ log, counters, verdict

/// Appends to the event trace. Never draws, never reads a clock.
pub fn log(a: std::fmt::Arguments) {
    let _m = Mask::new();
    let Some(s) = sh() else { return };
    struct Wr<'a>(&'a mut Shared);
    impl std::fmt::Write for Wr<'_> {
        fn write_str(&mut self, t: &str) -> std::fmt::Result {
            self.0.trace_hash = fnv(self.0.trace_hash, t.as_bytes());
            if self.0.log_keep != 0 {
                let n = t.len().min(LOG_CAP - self.0.log_len);
                let at = self.0.log_len;
                self.0.log[at..at + n].copy_from_slice(&t.as_bytes()[..n]);
                self.0.log_len += n;
            }
            Ok(())
        }
    }
    let mut w = Wr(s);
    let _ = std::fmt::Write::write_fmt(&mut w, a);
    let _ = std::fmt::Write::write_str(&mut w, "\n");
}
#[macro_export]
macro_rules! ev { ($($t:tt)*) => { $crate::log(format_args!($($t)*)) } }

/// Result of one library call, as part of the run's observable history.
pub fn result(a: &str) {
    let _m = Mask::new();
    if let Some(s) = sh() {
        s.result_hash = fnv(s.result_hash, a.as_bytes());
        s.result_hash = fnv(s.result_hash, &[0]);
        let h = s.result_hash;
        s.trace_hash = fnv(s.trace_hash, &h.to_le_bytes());
    }
}

pub fn count(name: &str) {
    count_n(name, 1)
}
pub fn count_n(name: &str, by: u64) {
    let Some(s) = sh() else { return };
    if s.counting == 0 {
        return;
    }
    let b = name.as_bytes();
    let b = &b[..b.len().min(48)];
    for c in s.ctr.iter_mut() {
        if c.len == 0 {
            c.name[..b.len()].copy_from_slice(b);
            c.len = b.len();
            c.n = by;
            return;
        }
        if c.len == b.len() && &c.name[..c.len] == b {
            c.n += by;
            return;
        }
    }
}
pub fn nontrivial() {
    if let Some(s) = sh() {
        s.nontrivial = 1;
    }
}

/// Records a violation (the first one of a run wins).
pub fn violation(class: &str, msg: &str) {
    let _m = Mask::new();
    put(VIOLATION, class, msg)
}
pub fn harness_error(msg: &str) -> ! {
    let _m = Mask::new();
    put(HARNESS, "harness", msg);
    sys::exit_now(0)
}
fn put(status: u32, class: &str, msg: &str) {
    let Some(s) = sh() else { return };
    if s.status == VIOLATION || s.status == HARNESS {
        return;
    }
    s.status = status;
    let n = class.len().min(256);
    s.class[..n].copy_from_slice(&class.as_bytes()[..n]);
    s.class_len = n;
    let n = msg.len().min(MSG_CAP);
    s.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
    s.msg_len = n;
    log(format_args!("VIOLATION {class}: {msg}"));
}
pub fn violated() -> bool {
    sh().map(|s| s.status == VIOLATION || s.status == HARNESS).unwrap_or(false)
}

// ------------------------------------------------------------------ steps

const IDLE: i64 = i64::MAX / 2;
thread_local! {
    static REM: Cell<i64> = const { Cell::new(IDLE) };
    static QUANTUM: Cell<i64> = const { Cell::new(IDLE) };
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static GUARD: Cell<u32> = const { Cell::new(0) };
    static MASKED: Cell<u32> = const { Cell::new(0) };
    static OWN: Cell<u64> = const { Cell::new(0) };
}
/// Steps the calling task has executed so far.
pub fn own_steps() -> u64 {
    OWN.with(|o| o.get()) + (QUANTUM.with(|q| q.get()) - REM.with(|r| r.get())).max(0) as u64
}

/// While alive, the current thread neither counts steps nor is preempted.
pub struct Mask;
impl Mask {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Mask {
        MASKED.with(|m| m.set(m.get() + 1));
        Mask
    }
}
impl Drop for Mask {
    fn drop(&mut self) {
        MASKED.with(|m| m.set(m.get() - 1));
    }
}

#[inline(always)]
fn step() {
    REM.with(|r| {
        let v = r.get() - 1;
        if v <= 0 {
            slow();
        } else if MASKED.with(|m| m.get()) == 0 {
            r.set(v);
        }
    })
}

static COVP: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static NGUARD: AtomicU32 = AtomicU32::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let g = unsafe { *g };
    let p = COVP.load(Relaxed);
    if !p.is_null() && (g as usize) < COV_CAP {
        unsafe { *p.add(g as usize) = 1 };
        GUARD.with(|x| x.set(g));
        step();
        if FRESH.load(Relaxed) != 0 {
            fresh(g);
        }
        if g == STICKY.load(Relaxed) {
            stick();
        }
    }
}
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
/// Before a load or store of the library's code: writable statics are shared by all tasks.
#[inline(always)]
fn access(a: usize) {
    if a < (&raw const _end) as usize && a >= (&raw const __data_start) as usize {
        shared_access();
    }
}
#[cold]
#[inline(never)]
fn shared_access() {
    if COVP.load(Relaxed).is_null() || MASKED.with(|m| m.get()) != 0 || !in_task() {
        return;
    }
    let _m = Mask::new();
    let s = sched();
    s.touched += 1;
    if s.touched == 1 {
        count("probe.static-touched");
    }
    if s.cfg.statics && s.touched <= 400 && draw(S, 2) == 1 {
        account();
        switch("static");
    }
}
macro_rules! accesses {
    ($($f:ident)*) => { $(#[no_mangle]
    pub extern "C" fn $f(a: usize) {
        access(a)
    })* }
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
accesses!(__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// The edge at which tasks stop for one another, if any.
static STICKY: AtomicU32 = AtomicU32::new(0);
/// Counts down the edges seen for the first time by a task; the last one becomes the one above.
static FRESH: AtomicU32 = AtomicU32::new(0);
struct Seen(UnsafeCell<[u8; COV_CAP]>);
// only the running task touches it
unsafe impl Sync for Seen {}
static SEEN: Seen = Seen(UnsafeCell::new([0; COV_CAP]));
fn fresh(g: u32) {
    if MASKED.with(|m| m.get()) != 0 || !in_task() {
        return;
    }
    let seen = unsafe { &mut *(SEEN.0.get() as *mut u8).add(g as usize) };
    if *seen == 0 {
        *seen = 1;
        if FRESH.fetch_sub(1, Relaxed) == 1 {
            STICKY.store(g, Relaxed);
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    unsafe {
        if s == e || *s != 0 {
            return;
        }
        let mut i = NGUARD.load(Relaxed) + 1;
        while s < e {
            *s = i;
            i += 1;
            s = s.add(1);
        }
        NGUARD.store(i - 1, Relaxed);
    }
}
pub fn guards() -> u32 {
    NGUARD.load(Relaxed)
}
/// Call in the process of a run: edges are recorded and steps counted from here on.
pub fn enable_steps() {
    if let Some(s) = sh() {
        COVP.store(s.cov.as_mut_ptr(), Relaxed);
    }
}

// ------------------------------------------------------------------ scheduler

#[derive(Clone, Copy, PartialEq)]
enum St {
    Runnable,
    Blocked(usize, bool),
    Done,
}
const MAXT: usize = 8;
struct Sched {
    n: usize,
    st: [St; MAXT],
    go: [AtomicU32; MAXT],
    timed_out: [bool; MAXT],
    cur: usize,
    cfg: SchedCfg,
    used: u32,
    steps: u64,
    left: i64,
    ended: bool,
    deadline: i64,
    touched: u32,
}
#[derive(Clone, Copy, Debug)]
pub struct SchedCfg {
    /// preemptions at arbitrary steps, at most
    pub max_preempts: u32,
    /// gaps between them are log-uniform up to 2^gap_bits steps
    pub gap_bits: u32,
    /// when not 0: the first gap and a few of the others are up to 2^burst steps
    pub burst: u32,
    /// the preemptions end after about this many
    pub end: u32,
    /// where the first one happens, tasks stop again and again
    pub sticky: bool,
    /// when not 0: one of the first so many different edges is where they stop, instead
    pub fresh: u32,
    /// tasks may stop where they touch statics
    pub statics: bool,
    /// chance (of 256) of switching at an explicit yield point
    pub explicit: u32,
    pub step_limit: u64,
    pub stack: usize,
}
struct SchedCell(UnsafeCell<Option<Sched>>);
unsafe impl Sync for SchedCell {}
static SCHED: SchedCell = SchedCell(UnsafeCell::new(None));
static MAIN_GO: AtomicU32 = AtomicU32::new(0);
static FINISHED: AtomicU32 = AtomicU32::new(u32::MAX);
static HASH_SEED: AtomicU64 = AtomicU64::new(0);
static RAND_CALLS: AtomicU64 = AtomicU64::new(0);
static SIM_ON: AtomicBool = AtomicBool::new(false);

fn sched() -> &'static mut Sched {
    unsafe { (*SCHED.0.get()).as_mut().expect("sched") }
}
/// Seed of everything the process obtains from the OS as randomness.
pub fn set_hash_seed(s: u64) {
    HASH_SEED.store(s, Relaxed);
    RAND_CALLS.store(0, Relaxed);
}
pub fn in_task() -> bool {
    ME.with(|m| m.get()) != usize::MAX
}
pub fn task_id() -> usize {
    ME.with(|m| m.get())
}

fn park(me: usize) {
    let g = &sched().go[me];
    while g.load(Acquire) == 0 {
        sys::futex_wait(g, 0);
    }
    g.store(0, Relaxed);
}
fn release(t: usize) {
    let s = sched();
    s.cur = t;
    s.go[t].store(1, Release);
    sys::futex_wake(&s.go[t]);
}

fn new_quantum() {
    let s = sched();
    let limit_left = (s.cfg.step_limit as i64).saturating_sub(s.steps as i64).max(1);
    let runnable = (0..s.n).filter(|i| s.st[*i] == St::Runnable).count();
    let mut q = limit_left;
    s.deadline = limit_left;
    if !s.ended && s.used < s.cfg.max_preempts && runnable > 1 {
        if draw(S, s.cfg.end.max(2) as u64) == 0 {
            s.ended = true;
        } else {
            let far = s.cfg.burst != 0 && (s.used == 0 || draw(S, 24) == 23);
            let bits = draw(S, if far { s.cfg.burst } else { s.cfg.gap_bits } as u64 + 1);
            let gap = 1 + draw(S, 1 << bits) as i64;
            q = q.min(gap);
        }
    }
    s.left = q;
}
fn account() {
    let s = sched();
    let used = QUANTUM.with(|q| q.get()) - REM.with(|r| r.get());
    s.steps += used.max(0) as u64;
    OWN.with(|o| o.set(o.get() + used.max(0) as u64));
    QUANTUM.with(|q| q.set(REM.with(|r| r.get())));
    if let Some(h) = sh() {
        h.steps = s.steps;
    }
}
fn arm() {
    let s = sched();
    QUANTUM.with(|q| q.set(s.left));
    REM.with(|r| r.set(s.left));
}
fn disarm() {
    QUANTUM.with(|q| q.set(IDLE));
    REM.with(|r| r.set(IDLE));
}

#[cold]
#[inline(never)]
fn slow() {
    if MASKED.with(|m| m.get()) != 0 {
        return;
    }
    if !in_task() {
        disarm();
        return;
    }
    let _m = Mask::new();
    REM.with(|r| r.set(0));
    account();
    let s = sched();
    if s.steps >= s.cfg.step_limit {
        put(VIOLATION, "no-progress", &format!("task {} still running after {} steps", task_id(), s.steps));
        sys::exit_now(0);
    }
    s.used += 1;
    if s.cfg.sticky && !s.ended {
        s.ended = true;
        STICKY.store(GUARD.with(|g| g.get()), Relaxed);
    }
    switch("preempt");
}

#[cold]
#[inline(never)]
fn stick() {
    if MASKED.with(|m| m.get()) != 0 || !in_task() {
        return;
    }
    let _m = Mask::new();
    let s = sched();
    s.used += 1;
    if s.used >= s.cfg.max_preempts {
        STICKY.store(0, Relaxed);
    }
    if draw(S, 2) == 1 {
        account();
        switch("same edge");
    }
}

/// Hands the baton to another runnable task drawn from the tape.
fn switch(why: &str) {
    let me = task_id();
    let s = sched();
    let others: [usize; MAXT] = {
        let mut o = [usize::MAX; MAXT];
        let mut k = 0;
        for i in 0..s.n {
            if i != me && s.st[i] == St::Runnable {
                o[k] = i;
                k += 1;
            }
        }
        o
    };
    let k = others.iter().filter(|x| **x != usize::MAX).count();
    if k == 0 {
        new_quantum();
        arm();
        return;
    }
    let to = others[draw(S, k as u64) as usize];
    note_switch(me, to, why);
    disarm();
    new_quantum();
    release(to);
    park(me);
    arm();
}

fn note_switch(me: usize, to: usize, why: &str) {
    let g = GUARD.with(|g| g.get());
    if let Some(h) = sh() {
        h.switches += 1;
        let mut x = fnv(h.sched_hash, &(me as u32).to_le_bytes());
        x = fnv(x, &g.to_le_bytes());
        x = fnv(x, &(to as u32).to_le_bytes());
        h.sched_hash = x;
        // site: (edge where the running task stopped, edge where the resumed one had stopped)
        let og = LASTG[to].load(Relaxed);
        let y = fnv(fnv(0xcbf29ce484222325, &g.to_le_bytes()), &og.to_le_bytes()) as usize % SITE_CAP;
        if h.counting != 0 {
            h.sites[y] = 1;
        }
    }
    if me < MAXT {
        LASTG[me].store(g, Relaxed);
    }
    let st = sched().steps;
    log(format_args!("@{st} {why}: task {me} -> task {to}"));
}
static LASTG: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];

/// An explicit scheduling point (callbacks, block writes, ...).
pub fn yield_point(what: &str) {
    step();
    if !in_task() || MASKED.with(|m| m.get()) != 0 {
        return;
    }
    let s = sched();
    if s.cfg.explicit == 0 {
        return;
    }
    let _m = Mask::new();
    if draw(S, 256) >= 256 - s.cfg.explicit as u64 {
        account();
        switch(what);
    }
}

/// Runs the tasks to completion under the drawn schedule.
pub fn run_tasks(cfg: SchedCfg, tasks: Vec<Box<dyn FnOnce() + Send + '_>>) {
    let n = tasks.len();
    assert!(n <= MAXT && n > 0);
    unsafe {
        *SCHED.0.get() = Some(Sched {
            n,
            st: [St::Runnable; MAXT],
            go: [const { AtomicU32::new(0) }; MAXT],
            timed_out: [false; MAXT],
            cur: 0,
            cfg,
            used: 0,
            steps: 0,
            left: 0,
            ended: cfg.fresh != 0,
            deadline: 0,
            touched: 0,
        });
    }
    STICKY.store(0, Relaxed);
    FRESH.store(if cfg.fresh != 0 && n > 1 { 1 + draw(S, cfg.fresh as u64) as u32 } else { 0 }, Relaxed);
    SIM_ON.store(true, Release);
    let mut hs: Vec<Option<std::thread::JoinHandle<()>>> = Vec::new();
    for (i, t) in tasks.into_iter().enumerate() {
        // the threads are joined below, before the borrowed data can go away
        let t: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(t) };
        hs.push(Some(
            std::thread::Builder::new()
                .stack_size(cfg.stack)
                .spawn(move || {
                    ME.with(|m| m.set(i));
                    {
                        let _m = Mask::new();
                        park(i);
                        arm();
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(t));
                    let _m = Mask::new();
                    account();
                    disarm();
                    if r.is_err() {
                        put(VIOLATION, "task-panic", &format!("unexpected panic in task {i}: {}", last_panic()));
                    }
                    drop(r);
                    ME.with(|m| m.set(usize::MAX));
                    sched().st[i] = St::Done;
                    FINISHED.store(i as u32, Release);
                    MAIN_GO.store(1, Release);
                    sys::futex_wake(&MAIN_GO);
                })
                .expect("spawn"),
        ));
    }
    let mut done = 0;
    let mut next = draw(S, n as u64) as usize;
    loop {
        new_quantum();
        release(next);
        while MAIN_GO.load(Acquire) == 0 {
            sys::futex_wait(&MAIN_GO, 0);
        }
        MAIN_GO.store(0, Relaxed);
        let f = FINISHED.load(Acquire) as usize;
        // thread-local destructors of the finished task run before anybody else does
        let _ = hs[f].take().unwrap().join();
        done += 1;
        if done == n {
            break;
        }
        next = pick_or_deadlock(f);
        note_switch(f, next, "done");
    }
    SIM_ON.store(false, Release);
    unsafe { *SCHED.0.get() = None };
}

fn pick_or_deadlock(from: usize) -> usize {
    let s = sched();
    let r: Vec<usize> = (0..s.n).filter(|i| s.st[*i] == St::Runnable).collect();
    if r.is_empty() {
        // time passes until the first timed wait runs out
        for i in 0..s.n {
            if let St::Blocked(_, true) = s.st[i] {
                s.st[i] = St::Runnable;
                s.timed_out[i] = true;
                return i;
            }
        }
        put(VIOLATION, "deadlock", &format!("no task can run: {} wait on locks; last to run: task {from}", (0..s.n).filter(|i| matches!(s.st[*i], St::Blocked(..))).count()));
        sys::exit_now(0);
    }
    r[draw(S, r.len() as u64) as usize]
}

// ------------------------------------------------------------------ interposed system interfaces

const SYS_FUTEX: i64 = 202;

/// Replaces libc's `syscall` for this binary: std's locks come through here.
/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == SYS_FUTEX && SIM_ON.load(Relaxed) && in_task() && MASKED.with(|m| m.get()) == 0 {
        let op = b & 0x7f;
        let addr = a;
        match op {
            0 | 9 => {
                let _m = Mask::new();
                let v = (*(addr as *const AtomicU32)).load(SeqCst);
                if v != c as u32 {
                    sys::set_errno(11);
                    return -1;
                }
                account();
                let me = task_id();
                let s = sched();
                s.st[me] = St::Blocked(addr, d != 0);
                s.timed_out[me] = false;
                disarm();
                let to = pick_or_deadlock(me);
                if to != me {
                    note_switch(me, to, "lock-wait");
                    new_quantum();
                    release(to);
                    park(me);
                } else {
                    new_quantum();
                }
                arm();
                if sched().timed_out[me] {
                    sys::set_errno(110);
                    return -1;
                }
                return 0;
            }
            1 | 10 => {
                let _m = Mask::new();
                let s = sched();
                let mut woken = 0;
                for i in 0..s.n {
                    if woken >= c as i64 {
                        break;
                    }
                    if let St::Blocked(x, _) = s.st[i] {
                        if x == addr {
                            s.st[i] = St::Runnable;
                            woken += 1;
                        }
                    }
                }
                return woken;
            }
            _ => {}
        }
    }
    let r = sys::raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        sys::set_errno(-r as i32);
        -1
    } else {
        r
    }
}

/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, _flags: u32) -> isize {
    let _m = Mask::new();
    let k = RAND_CALLS.fetch_add(1, Relaxed);
    let mut r = Rng::new(HASH_SEED.load(Relaxed) ^ (k + 1).wrapping_mul(0xD6E8FEB86659FD93));
    for i in 0..n {
        *b.add(i) = (r.next() >> 32) as u8;
    }
    n as isize
}

#[repr(C)]
pub struct Timespec {
    s: i64,
    n: i64,
}
/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    if in_task() && MASKED.with(|m| m.get()) == 0 {
        let st = sched().steps + (QUANTUM.with(|q| q.get()) - REM.with(|r| r.get())).max(0) as u64;
        *t = Timespec { s: 1_000_000 + (st / 1_000_000) as i64, n: (st % 1_000_000) as i64 * 1000 };
        return 0;
    }
    let r = sys::raw6(228, id as usize, t as usize, 0, 0, 0, 0);
    if r < 0 {
        sys::set_errno(-r as i32);
        -1
    } else {
        0
    }
}

// ------------------------------------------------------------------ allocator

pub struct SimAlloc;
static LIVE: AtomicI64 = AtomicI64::new(0);
/// Bytes allocated and not yet freed by this process.
pub fn live_bytes() -> i64 {
    LIVE.load(Relaxed)
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !COVP.load(Relaxed).is_null() {
            step();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            std::ptr::write_bytes(p, 0xA5, l.size().min(4096));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        std::ptr::write_bytes(p, 0xDD, l.size().min(4096));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
#[global_allocator]
static A: SimAlloc = SimAlloc;

// ------------------------------------------------------------------ panics

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _m = Mask::new();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(payload)".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
/// Message and place of the last panic on this thread.
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

// ------------------------------------------------------------------ running one thing in a fresh process

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
}

/// Forks; the child runs `f` and exits with its result.
pub fn in_child(wall_s: u32, f: impl FnOnce() -> i32) -> Exit {
    match sys::fork_raw() {
        0 => {
            sys::alarm(wall_s);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let code = match r {
                Ok(c) => c,
                Err(_) => {
                    put(HARNESS, "harness", &format!("panic in harness: {}", last_panic()));
                    0
                }
            };
            sys::exit_now(code)
        }
        pid => sys::wait(pid),
    }
}
