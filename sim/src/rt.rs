//! The simulator runtime: choice tape, event log, fault counters, allocator,
//! instrumentation callbacks, and the baton scheduler for caller threads.
//!
//! One run happens per (forked) process, so the state is process-global. In
//! multi-thread worlds exactly one simulated thread runs at any time, and only
//! that thread touches this state.

use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::*};

// -------------------------------------------------------------- shared report

pub const TAPE_CAP: usize = 1 << 16;
pub const LOG_CAP: usize = 1 << 19;
pub const COV_CAP: usize = 1 << 15;
pub const NCOUNT: usize = 96;

/// Lives in memory shared between a run (child) and its supervisor.
#[repr(C)]
pub struct Report {
    pub class: [u8; 64],
    pub class_len: usize,
    pub msg: [u8; 4096],
    pub msg_len: usize,
    pub log: [u8; LOG_CAP],
    pub log_len: usize,
    pub tape: [u32; TAPE_CAP],
    pub tape_len: usize,
    pub ev_hash: u64,
    pub sched_hash: u64,
    pub events: u64,
    pub steps: u64,
    pub simtime_us: u64,
    pub switches: u64,
    pub ops: u64,
    pub faults: u64,
    /// The run ended by the harness's own hand, not inside a call.
    pub ended: bool,
    pub spawned: bool,
    /// Calls the control run leaves out (indices of refused or interrupted calls).
    pub skip: [u64; 1 << 18],
    pub skip_n: usize,
    /// The task the control run executes alone.
    pub focus: u64,
    // cumulative over the runs of one supervisor
    pub count: [u64; NCOUNT],
    pub cov: [u8; COV_CAP],
    pub guards: u32,
}

macro_rules! kinds {
    ($($n:ident $s:expr;)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[allow(dead_code)]
        pub enum K { $($n),* }
        pub const KIND_NAMES: &[&str] = &[$($s),*];
    }
}
// First the fault kinds (FAULT_KINDS of them), then probes.
kinds! {
    Fragment "fragmented delivery";
    EmptyRead "empty read (EINTR)";
    Stall "stalled delivery";
    Eof "early EOF / truncation";
    FlipBit "bit flip";
    LoseBytes "bytes or blocks lost";
    DupBytes "bytes or blocks duplicated";
    Reorder "reordering";
    Insert "bytes inserted";
    WrongIv "damaged IV";
    WrongKey "wrong key";
    ForgePad "forged padding";
    Crash "process crash and restart";
    TornWrite "torn write";
    LostWrite "unsynced write lost";
    Oom "failed allocation (fired)";
    Preempt "preemption inside a call";
    HotPreempt "preemption just before an access to shared memory";
    OpSwitch "thread switch between calls";
    FutexYield "blocking wait turned into a yield";
    Migrate "instance moved between threads or slots";
    Refused "refused call";
    Rekey "re-keying";
    PktLoss "packet lost";
    PktDup "packet duplicated";
    PktDelay "packet delayed or reordered";
    PktDamage "packet damaged";
    PktTrunc "packet truncated or bytes dropped";
    PktInsert "bytes inserted into or repeated in a packet";
    PktSwap "stretches of a packet swapped";
    Abandon "session abandoned mid-stream";
    StallIn "thread stalled inside a call until all others were done";
    EnvClock "clock read answered with a jump";
    EnvVar "environment variable invented";
    EnvFile "file read answered with garbage or refused";
    EnvWho "process, user, processors or terminal misreported";
    EnvHeap "heap shifted, fresh memory filled with garbage";
    Misuse "call outside the normal order of a session";
    PEnd "-";
    PadOverflow "probe: hash padding needed an extra block";
    LongStream "probe: stream longer than 2^16 bits";
    VeryLong "probe: stream longer than 2^24 bits";
    KeyLong "probe: MAC key longer than a hash block";
    KeyBlock "probe: MAC key exactly a hash block";
    FullPad "probe: full padding block";
    MidBlock "probe: write ended inside a block";
    Completed "probe: write completed a buffered partial block";
    BadPadSeen "probe: invalid padding verdict";
    UnfinSeen "probe: unfinished block verdict";
    OkAfterDamage "probe: flush succeeded on damaged stream";
    ZeroPad "probe: final byte 0";
    SizeChange "probe: re-key changed key size";
    ReadersMid "probe: two block operations in progress at once";
    KdfMid "probe: two derivations in progress at once";
    Resume "probe: resumed from a non-empty durable prefix";
    OomInit "probe: key installation interrupted";
    OomKdf "probe: derivation interrupted";
    OomCbc "probe: CBC call interrupted";
    Retrans "probe: retransmission";
    Tampered "probe: damaged record reached the verifier";
    Delivered "probe: record delivered";
    Messages "probe: further message in one session";
    LockWait "probe: thread waited for a simulated lock";
    PAesOp "probe: block operations checked";
    PHash "probe: digests checked";
    PKdf "probe: derivations checked";
    PCbcOp "probe: CBC calls checked";
    PWork "probe: costs measured";
    ChosenText "probe: plaintext chosen against key and chain";
    ManyCalls "probe: thousands of calls on one session";
    HugeKdf "probe: derivation beyond 16-bit counters or indices";
    PSalsa "probe: Salsa20 core calls checked";
}
pub const FAULT_KINDS: usize = K::PEnd as usize;

// ----------------------------------------------------------------- run state

#[derive(PartialEq, Clone, Copy)]
enum TState {
    Runnable,
    /// on a lock of the harness
    Blocked,
    /// in a futex wait of the code under test
    Futex,
    /// stopped inside a call until every other thread is done
    Stalled,
    Done,
}

pub const MAXT: usize = 8;
const FOREIGN: u32 = u32::MAX;

struct Run {
    rep: *mut Report,
    // tape
    replay: bool,
    control: bool,
    skip_at: usize,
    tape: Vec<u32>,
    pos: usize,
    private: Option<[u64; 4]>,
    rng: [u64; 4],
    // log
    logging: bool,
    buf: String,
    // code under test
    in_op: bool,
    steps: u64,
    op_steps: u64,
    alarm: u64,
    preempt_at: u64,
    budget: u64,
    // allocator
    fail_in: u64, // 0: never; n: the n-th allocation from now inside an op fails
    fail_sticky: bool,
    op_allocs: u64,
    op_moved: u64,
    oom_fired: bool,
    live: i64,
    live_n: i64,
    peak: i64,
    // threads
    nthreads: usize,
    state: [TState; MAXT],
    pre_mode: u32,
    pre_left: u32,
    burst: u32,
    quantum: u64,
    spin: [u32; MAXT],
    faddr: [i64; MAXT],
    hot_on: bool,
    shared: [(usize, usize); 4],
    op_waits: u64,
    slices: u64,
    slept_us: u64,
    panic_msg: String,
    hooked: u64,
    clock_reads: u64,
    rand_reads: u64,
    rng0: u64,
    stall: u8,
    stall_left: u64,
    env_world: bool,
    env: bool,
    junk: u8,
    env_reads: u64,
    recent: [Vec<u8>; 8],
    recent_n: usize,
}

struct Global(UnsafeCell<Run>);
unsafe impl Sync for Global {}

static G: Global = Global(UnsafeCell::new(Run {
    rep: std::ptr::null_mut(),
    replay: false,
    control: false,
    skip_at: 0,
    private: None,
    tape: Vec::new(),
    pos: 0,
    rng: [0; 4],
    logging: false,
    buf: String::new(),
    in_op: false,
    steps: 0,
    op_steps: 0,
    alarm: u64::MAX,
    preempt_at: u64::MAX,
    budget: u64::MAX,
    fail_in: 0,
    fail_sticky: false,
    op_allocs: 0,
    op_moved: 0,
    oom_fired: false,
    live: 0,
    live_n: 0,
    peak: 0,
    nthreads: 1,
    state: [TState::Done; MAXT],
    pre_mode: 0,
    pre_left: 0,
    burst: 0,
    quantum: 0,
    spin: [0; MAXT],
    faddr: [0; MAXT],
    hot_on: false,
    shared: [(0, 0); 4],
    op_waits: 0,
    slices: 0,
    slept_us: 0,
    panic_msg: String::new(),
    hooked: 0,
    clock_reads: 0,
    rand_reads: 0,
    rng0: 0,
    stall: 0,
    stall_left: 0,
    env_world: false,
    env: false,
    junk: 0xa5,
    env_reads: 0,
    recent: [const { Vec::new() }; 8],
    recent_n: 0,
}));

static WORD: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];

thread_local! {
    static TID: Cell<u32> = const { Cell::new(FOREIGN) };
}

#[inline(always)]
#[allow(clippy::mut_from_ref)]
fn g() -> &'static mut Run {
    unsafe { &mut *G.0.get() }
}
#[inline(always)]
fn tid() -> u32 {
    TID.with(|t| t.get())
}
pub fn rep() -> &'static mut Report {
    unsafe { &mut *g().rep }
}

pub const EXIT_OK: i32 = 0;
pub const EXIT_VIOL: i32 = 10;
pub const EXIT_DISCARD: i32 = 12;
pub const EXIT_HARNESS: i32 = 13;

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut s = 0x51;
    for p in parts {
        s ^= *p;
        s = splitmix(&mut s);
    }
    s
}

fn rng_from(seed: u64) -> [u64; 4] {
    let mut s = seed;
    [splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)]
}

/// Called in the child before the world starts.
pub fn start(rep: *mut Report, seed: u64, tape: Option<Vec<u32>>, logging: bool, control: bool) {
    let r = g();
    r.control = control;
    r.rep = rep;
    r.rng0 = 7;
    r.rng = rng_from(seed);
    r.replay = tape.is_some();
    r.tape = tape.unwrap_or_default();
    r.logging = logging;
    r.budget = 400_000_000;
    let p = crate::rt::rep();
    p.class_len = 0;
    p.msg_len = 0;
    p.log_len = 0;
    p.tape_len = 0;
    p.ev_hash = 0xcbf2_9ce4_8422_2325;
    p.sched_hash = 0x1234;
    p.events = 0;
    p.steps = 0;
    p.simtime_us = 0;
    p.switches = 0;
    p.ops = 0;
    p.faults = 0;
    p.ended = false;
    p.spawned = false;
    if !control {
        p.skip_n = 0;
        p.focus = 0;
    }
    TID.with(|t| t.set(0));
    r.state[0] = TState::Runnable;
}

pub fn finish(code: i32) -> ! {
    rep().steps = g().steps;
    rep().ended = true;
    unsafe { sys::_exit(code) }
}

fn put(dst: &mut [u8], len: &mut usize, s: &str) {
    let n = s.len().min(dst.len());
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    *len = n;
}

/// Ends the run with a violation of the property under test.
pub fn violate(class: &str, msg: &str) -> ! {
    let r = g();
    r.in_op = false;
    let p = rep();
    let own = if r.env_world && !class.starts_with("C23/") { format!("C23/{class}") } else { class.to_string() };
    let class = &own[..];
    ev(format_args!("VIOLATION {class}: {msg}"));
    put(&mut p.class, &mut p.class_len, class);
    put(&mut p.msg, &mut p.msg_len, msg);
    finish(EXIT_VIOL)
}

pub fn harness_error(msg: &str) -> ! {
    let r = g();
    r.in_op = false;
    let p = rep();
    put(&mut p.class, &mut p.class_len, "harness");
    put(&mut p.msg, &mut p.msg_len, msg);
    finish(EXIT_HARNESS)
}

// ---------------------------------------------------------------------- tape

fn next64(s: &mut [u64; 4]) -> u64 {
    let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = s[3].rotate_left(45);
    r
}

/// The only source of decisions. Uniform in [0, n) when generating; on replay
/// the recorded value, 0 (the benign choice) once the tape is used up.
pub fn choose(n: u64) -> u64 {
    let r = g();
    if n <= 1 {
        return 0;
    }
    debug_assert!(n <= 1 << 32);
    if let Some(x) = &mut r.private {
        return ((next64(x) >> 32) * n) >> 32;
    }
    let v = if r.replay {
        let v = r.tape.get(r.pos).copied().unwrap_or(0) as u64;
        r.pos += 1;
        v.min(n - 1)
    } else {
        ((next64(&mut r.rng) >> 32) * n) >> 32
    };
    let p = rep();
    if p.tape_len >= TAPE_CAP {
        finish(EXIT_DISCARD);
    }
    p.tape[p.tape_len] = v as u32;
    p.tape_len += 1;
    v
}
/// Runs f with its decisions drawn from a stream of their own, so that they do
/// not depend on what else happens in the run. Scheduling still uses the tape.
pub fn with_private<T>(state: &mut [u64; 4], f: impl FnOnce() -> T) -> T {
    g().private = Some(*state);
    let x = f();
    if let Some(s) = g().private.take() {
        *state = s;
    }
    x
}
pub fn private_stream(seed: u64) -> [u64; 4] {
    rng_from(seed ^ 0x7a57)
}
/// True in a control run: same decisions, without the faults.
pub fn control() -> bool {
    g().control && !g().env_world
}
pub fn focus(t: usize) {
    rep().focus = t as u64;
}
pub fn focused() -> usize {
    rep().focus as usize
}

/// True with probability num/den; false is the benign choice.
pub fn chance(num: u64, den: u64) -> bool {
    choose(den) >= den - num
}
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choose((hi - lo + 1) as u64) as usize
}
/// Index drawn by weight; index 0 is the benign choice.
pub fn weighted(w: &[u64]) -> usize {
    let mut u = choose(w.iter().sum());
    for (i, x) in w.iter().enumerate() {
        if u < *x {
            return i;
        }
        u -= x;
    }
    unreachable!()
}
pub fn one_of<T: Copy>(v: &[T]) -> T {
    v[choose(v.len() as u64) as usize]
}

pub fn one_of_ref<T>(v: &[T]) -> &T {
    &v[choose(v.len() as u64) as usize]
}

/// n bytes of content; the shape is one or two decisions, whatever n.
pub fn bytes(n: usize) -> Vec<u8> {
    if n == 0 {
        return vec![];
    }
    let random = |n: usize, seed: u64| {
        let mut s = seed ^ 0xabcd_0000_0000;
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
        }
        v.truncate(n);
        v
    };
    let r = g();
    let recall = r.private.is_none() && r.recent_n > 0;
    let v = match weighted(&[2, 16, 2, 2, 2, 1, 1, 1, 1, if recall { 3 } else { 0 }]) {
        0 => vec![0; n],
        1 => random(n, choose(1 << 32)),
        2 => vec![0xff; n],
        3 => vec![choose(256) as u8; n],
        4 => {
            let a = choose(256) as u8;
            (0..n).map(|i| (i as u8).wrapping_add(a)).collect()
        }
        5 => {
            // few bits set
            let x = random(8, choose(1 << 32));
            let mut v = vec![0; n];
            for k in 0..x[0] as usize % 3 + 1 {
                v[(x[2 * k + 1] as usize * 256 + x[2 * k + 2] as usize) % n] = 1 << (x[7] as usize + k) % 8;
            }
            v
        }
        6 => {
            // a small alphabet
            let x = random(n, choose(1 << 32));
            x.iter().map(|b| [0u8, 0xff, 0x80, 0x7f, 0x01, 0x10, 0x36, 0x5c][*b as usize % 8]).collect()
        }
        7 => {
            // one block over and over
            let k = choose(1 << 32);
            random(if k & 1 == 0 { 16 } else { 64 }, k >> 1).into_iter().cycle().take(n).collect()
        }
        8 => {
            // zeros at one end
            let k = choose(1 << 32);
            let mut v = random(n, k >> 1);
            let z = (k >> 8) as usize % (n + 1);
            if k & 1 == 0 {
                v[..z].fill(0)
            } else {
                v[n - z..].fill(0)
            }
            v
        }
        _ => {
            // something seen before in this run, or much the same
            let mut v: Vec<u8> = r.recent[choose(r.recent_n.min(8) as u64) as usize].iter().copied().cycle().take(n).collect();
            match choose(8) {
                0 | 1 => {}
                2 => v[n - 1] ^= 1,
                3 => v[0] ^= 0x80,
                4 => v.rotate_left(1),
                5 => v.reverse(),
                6 => {
                    let at = choose(n as u64) as usize;
                    v[at] = v[at].wrapping_add(1);
                }
                _ => {
                    // sums and checksums by exclusive or stay the same
                    let (a, b) = (choose(n as u64) as usize, choose(n as u64) as usize);
                    v.swap(a, b);
                }
            }
            v
        }
    };
    if r.private.is_none() {
        let at = r.recent_n % 8;
        r.recent[at].clear();
        r.recent[at].extend_from_slice(&v[..n.min(96)]);
        r.recent_n += 1;
    }
    v
}
pub fn arr16() -> [u8; 16] {
    let mut a = [0; 16];
    a.copy_from_slice(&bytes(16));
    a
}
pub fn aes_key() -> Vec<u8> {
    let n = one_of(&[16, 32, 24]);
    bytes(n)
}

// ----------------------------------------------------------------- event log

pub fn ev(a: std::fmt::Arguments) {
    let r = g();
    let was = std::mem::replace(&mut r.in_op, false);
    let mut b = std::mem::take(&mut r.buf);
    b.clear();
    let _ = std::fmt::write(&mut b, a);
    let p = rep();
    let mut h = p.ev_hash;
    for c in b.bytes() {
        h = (h ^ c as u64).wrapping_mul(0x1000_0000_01b3);
    }
    p.ev_hash = (h ^ 10).wrapping_mul(0x1000_0000_01b3);
    p.events += 1;
    if r.logging {
        let room = LOG_CAP - p.log_len;
        let n = (b.len() + 1).min(room);
        if n == b.len() + 1 {
            p.log[p.log_len..p.log_len + b.len()].copy_from_slice(b.as_bytes());
            p.log[p.log_len + b.len()] = b'\n';
            p.log_len += n;
        }
    }
    r.buf = b;
    r.in_op = was;
}
#[macro_export]
macro_rules! ev { ($($a:tt)*) => { $crate::rt::ev(format_args!($($a)*)) } }

pub fn count(k: K) {
    let p = rep();
    p.count[k as usize] += 1;
    if (k as usize) < FAULT_KINDS {
        p.faults += 1;
    }
}
pub fn simtime(us: u64) {
    rep().simtime_us = us;
}

// ------------------------------------------------- calls into the real crate

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    /// A failed allocation unwound out of the call.
    Oom,
    /// Any other panic.
    Panic(String),
    /// Left out by the control run.
    Skipped,
}

/// Runs one call into the code under test.
pub fn op<R>(f: impl FnOnce() -> R) -> Result<R, Stop> {
    let r = g();
    let index = rep().ops;
    rep().ops += 1;
    if control() && skipped(index) {
        r.fail_in = 0;
        return Err(Stop::Skipped);
    }
    r.op_steps = 0;
    r.op_waits = 0;
    r.slices = 0;
    r.op_allocs = 0;
    r.op_moved = 0;
    r.oom_fired = false;
    set_alarm();
    r.in_op = true;
    let x = catch_unwind(AssertUnwindSafe(f));
    let r = g();
    r.in_op = false;
    r.fail_in = 0;
    r.fail_sticky = false;
    match x {
        Ok(v) => Ok(v),
        Err(e) => {
            drop(e);
            if r.oom_fired && r.panic_msg.starts_with("simulated allocation failure") {
                leave_out(index);
                Err(Stop::Oom)
            } else {
                Err(Stop::Panic(std::mem::take(&mut r.panic_msg)))
            }
        }
    }
}

fn skipped(index: u64) -> bool {
    let (r, p) = (g(), rep());
    if r.skip_at < p.skip_n && p.skip[r.skip_at] == index {
        r.skip_at += 1;
        return true;
    }
    false
}
fn leave_out(index: u64) {
    let p = rep();
    if !g().control && p.skip_n < p.skip.len() {
        p.skip[p.skip_n] = index;
        p.skip_n += 1;
    }
}

/// Runs a call that may be refused; None if the control run leaves it out.
pub fn refusable<R, E: std::error::Error>(class: &str, what: &str, f: impl FnOnce() -> Result<R, E>) -> Option<Result<R, E>> {
    let index = rep().ops;
    match op(|| shown(f())) {
        Ok(v) => {
            if v.is_err() {
                leave_out(index);
            }
            Some(v)
        }
        Err(Stop::Skipped) => None,
        Err(e) => {
            leave_out(index);
            violate(class, &format!("{what}: the call panicked: {e:?}"))
        }
    }
}

/// A caller that shows the errors it is given.
pub fn shown<R, E: std::error::Error>(r: Result<R, E>) -> Result<R, E> {
    if let Err(e) = &r {
        #[allow(deprecated)]
        std::hint::black_box((e.to_string(), e.description().len(), format!("{e:?}"), e.source().is_some()));
    }
    r
}

/// Runs one call in which nothing may panic.
pub fn call<R>(class: &str, what: &str, f: impl FnOnce() -> R) -> R {
    match op(f) {
        Ok(v) => v,
        Err(e) => violate(class, &format!("{what}: the call panicked: {e:?}")),
    }
}

/// The n-th allocation of the next call fails (n >= 1); if sticky, so do all later ones.
pub fn fail_alloc(n: u64, sticky: bool) {
    if control() || THREADS.load(Relaxed) {
        return;
    }
    g().fail_in = n;
    g().fail_sticky = sticky;
}
/// The code under test starts threads of its own. Where it does, allocations do
/// not fail (std may not unwind out of starting a thread), and memory is not
/// accounted for (it is obtained and released on threads nobody schedules).
static THREADS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn spawned() {
    rep().spawned = true;
}
pub fn starts_threads() -> bool {
    THREADS.load(Relaxed)
}
pub fn set_starts_threads() {
    THREADS.store(true, Relaxed);
}
/// What the last call cost: steps taken in the real code, and memory traffic
/// (bytes copied, filled or obtained), eight of them to a step.
pub fn last_work() -> u64 {
    let r = g();
    r.op_steps + r.op_moved / 8
}
/// A block operation on n bytes of memory.
#[inline(always)]
pub fn moved(n: usize) {
    if tid() != FOREIGN {
        let r = g();
        if r.in_op {
            r.op_moved += n as u64;
        }
    }
}
/// Bytes / blocks obtained inside calls and not yet released.
pub fn live() -> (i64, i64) {
    (g().live, g().live_n)
}

/// Whether a panic still reaches the hook installed at the start.
pub fn panics_reported() -> bool {
    let n = g().hooked;
    let _ = std::panic::catch_unwind(|| panic!("a trial"));
    g().hooked == n + 1
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|i| {
        let r = g();
        if tid() == FOREIGN {
            return;
        }
        r.in_op = false;
        r.hooked += 1;
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if r.rep.is_null() {
            eprintln!("harness panic: {i}");
        }
        r.panic_msg = m;
        if let Some(l) = i.location() {
            if l.file().contains("dsim") || l.file().starts_with("src/worlds") {
                r.panic_msg += &format!(" at {}:{}", l.file(), l.line());
            }
        }
    }));
    std::alloc::set_alloc_error_hook(|l| {
        if tid() == FOREIGN {
            return;
        }
        g().in_op = false;
        panic!("simulated allocation failure ({} bytes)", l.size());
    });
}

// ----------------------------------------------------------------- allocator

pub struct Alloc;

const HDR: usize = 16;
fn hdr(l: &Layout) -> usize {
    l.align().max(HDR)
}

unsafe fn tag(p: *mut u8) -> *mut u64 {
    p.sub(8) as *mut u64
}

impl Alloc {
    #[inline]
    unsafe fn get(&self, l: Layout, zero: bool) -> *mut u8 {
        let h = hdr(&l);
        let mut t = 0u64;
        if tid() != FOREIGN {
            let r = g();
            if r.in_op {
                tick();
                r.op_allocs += 1;
                if r.fail_in > 0 {
                    r.fail_in -= 1;
                    if r.fail_in == 0 {
                        r.oom_fired = true;
                        count(K::Oom);
                        if r.fail_sticky {
                            r.fail_in = 1;
                        }
                        return std::ptr::null_mut();
                    }
                }
                t = 1;
                r.op_moved += l.size() as u64;
                r.live += l.size() as i64;
                r.live_n += 1;
                r.peak = r.peak.max(r.live);
            }
        }
        let Some(sz) = l.size().checked_add(h) else {
            return std::ptr::null_mut();
        };
        let nl = Layout::from_size_align_unchecked(sz, h);
        let p = if zero { System.alloc_zeroed(nl) } else { System.alloc(nl) };
        if p.is_null() {
            return p;
        }
        let p = p.add(h);
        *tag(p) = t;
        if t == 1 && !zero {
            // fresh memory holds anything
            sys::fill(p, g().junk, l.size());
        }
        p
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.get(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        self.get(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if *tag(p) == 1 {
            let r = g();
            r.live -= l.size() as i64;
            r.live_n -= 1;
            sys::fill(p, !r.junk, l.size());
        }
        let h = hdr(&l);
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.get(nl, false);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

// ------------------------------------------------- instrumentation callbacks

/// Steps after which a call gives way at the latest, should it be waiting for
/// another thread by polling.
const SLICE: u64 = 8_000_000;
/// Times one call may wait or poll.
const MAX_WAITS: u64 = 100_000;

fn set_alarm() {
    let r = g();
    let began = r.steps - r.op_steps;
    r.alarm = r.preempt_at.min(began.saturating_add(r.budget)).min(began.saturating_add((r.slices + 1) * SLICE));
}

#[inline(always)]
fn tick() {
    if tid() == FOREIGN {
        return;
    }
    let r = g();
    if !r.in_op {
        return;
    }
    r.steps += 1;
    r.op_steps += 1;
    if r.steps >= r.alarm {
        alarm_reached();
    }
}

#[cold]
#[inline(never)]
fn alarm_reached() {
    let r = g();
    if r.op_steps >= r.budget {
        r.in_op = false;
        stuck(&format!("a call did not finish within {} million steps", r.budget / 1_000_000));
    }
    if r.steps >= r.preempt_at {
        preempt();
    } else if r.op_steps >= (r.slices + 1) * SLICE {
        r.slices += 1;
        r.in_op = false;
        forced_yield(false);
        g().in_op = true;
    }
    set_alarm();
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(gd: *mut u32) {
    let r = g();
    unsafe {
        if !r.rep.is_null() {
            let i = *gd as usize;
            if i < COV_CAP {
                (*r.rep).cov[i] = 1;
            }
        }
    }
    tick();
}
static GUARDS: AtomicU32 = AtomicU32::new(0);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    unsafe {
        if *a != 0 {
            return;
        }
        while p < b {
            *p = GUARDS.fetch_add(1, Relaxed) + 1;
            p = p.add(1);
        }
    }
}
pub fn guards() -> u32 {
    GUARDS.load(Relaxed)
}
extern "C" {
    static __data_start: u8;
    static end: u8;
}

/// Memory several threads may reach: statics, and objects the world shares.
fn hot(p: *const u8) -> bool {
    let a = p as usize;
    let r = g();
    unsafe {
        if a >= &raw const __data_start as usize && a < &raw const end as usize {
            return true;
        }
    }
    r.shared.iter().any(|&(lo, hi)| a >= lo && a < hi)
}

/// Registers an object reached by several threads at once.
pub fn shared_object<T>(x: &T) {
    let r = g();
    let lo = x as *const T as usize;
    if let Some(s) = r.shared.iter_mut().find(|s| s.1 == 0) {
        *s = (lo, lo + std::mem::size_of::<T>());
    }
}

#[inline(always)]
fn touch(p: *const u8) {
    if !g().hot_on || tid() == FOREIGN {
        return;
    }
    if g().in_op && hot(p) {
        touched();
    }
}

/// Just before an access to memory other threads may reach.
#[cold]
#[inline(never)]
fn touched() {
    let r = g();
    if r.pre_left == 0 || r.nthreads < 2 {
        return;
    }
    r.in_op = false;
    let private = r.private.take();
    let now = choose(4) == 3;
    let r = g();
    r.private = private;
    r.in_op = true;
    if now {
        r.pre_left -= 1;
        count(K::HotPreempt);
        preempt();
        set_alarm();
    }
}

macro_rules! access { ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(p: *const u8) { tick(); touch(p) })* } }
access!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ----------------------------------------------------------------- scheduler

fn wait_turn(me: usize) {
    loop {
        if WORD[me].swap(0, Acquire) == 1 {
            return;
        }
        sys::futex_wait(&WORD[me], 0);
    }
}
fn give(to: usize) {
    WORD[to].store(1, Release);
    sys::futex_wake(&WORD[to]);
}

/// Hands the baton to `to`; returns when it comes back.
fn switch_to(to: usize) {
    let me = tid() as usize;
    if to == me {
        return;
    }
    let r = g();
    let p = rep();
    p.switches += 1;
    p.sched_hash = mix(&[p.sched_hash, r.steps, to as u64]);
    let save = ((r.op_waits, r.slices, r.op_moved), r.in_op, r.op_steps, r.op_allocs, r.oom_fired, r.fail_in, r.fail_sticky, r.private.take(), p.focus);
    r.in_op = false;
    give(to);
    wait_turn(me);
    let r = g();
    ((r.op_waits, r.slices, r.op_moved), r.in_op, r.op_steps, r.op_allocs, r.oom_fired, r.fail_in, r.fail_sticky, r.private, rep().focus) = save;
    set_alarm();
}

fn others() -> ([usize; MAXT], usize) {
    let r = g();
    let me = tid() as usize;
    if FOREIGN_WAKE.swap(false, std::sync::atomic::Ordering::SeqCst) {
        for s in r.state.iter_mut() {
            if *s == TState::Futex {
                *s = TState::Runnable;
            }
        }
    }
    let mut v = [0; MAXT];
    let mut n = 0;
    // rotated, so that the benign choice is fair
    for k in 1..r.nthreads {
        let i = (me + k) % r.nthreads;
        if r.state[i] == TState::Runnable {
            v[n] = i;
            n += 1;
        }
    }
    (v, n)
}

/// Draws when the next preemption inside a call happens.
fn arm_preemption() {
    let r = g();
    if r.pre_mode == 0 || r.pre_left == 0 {
        r.preempt_at = u64::MAX;
        return;
    }
    r.pre_left -= 1;
    let gap = if r.burst > 0 {
        r.burst -= 1;
        1 + choose(12)
    } else {
        match r.pre_mode {
            1 => {
                // sparse, log-uniform gaps; 0 means no more
                let c = choose(24);
                if c == 0 {
                    r.pre_left = 0;
                    r.preempt_at = u64::MAX;
                    return;
                }
                (1 << (c - 1)) + choose(1 << (c - 1))
            }
            2 => r.quantum,
            _ => {
                let c = choose(22);
                if c == 0 {
                    r.pre_left = 0;
                    r.preempt_at = u64::MAX;
                    return;
                }
                if choose(3) == 2 {
                    r.burst = 8 + choose(32) as u32;
                }
                (1 << (c - 1)) + choose(1 << (c - 1))
            }
        }
    };
    r.preempt_at = r.steps + gap;
}

fn preempt() {
    let r = g();
    let was = std::mem::replace(&mut r.in_op, false);
    let private = r.private.take();
    let (v, n) = others();
    if n > 0 && r.stall == 1 && r.stall_left <= 1 {
        // this thread comes to a standstill here; the others go on
        let to = v[choose(n as u64) as usize];
        count(K::StallIn);
        r.stall = 2;
        r.state[tid() as usize] = TState::Stalled;
        ev(format_args!("t{} stalls inside a call at step {} (call step {}) -> t{}", tid(), r.steps, r.op_steps, to));
        arm_preemption();
        switch_to(to);
    } else if n > 0 {
        r.stall_left = r.stall_left.saturating_sub(1);
        let to = v[choose(n as u64) as usize];
        count(K::Preempt);
        ev(format_args!("t{} preempted inside a call at step {} (call step {}) -> t{}", tid(), r.steps, r.op_steps, to));
        arm_preemption();
        switch_to(to);
    } else {
        arm_preemption();
    }
    g().in_op = was;
    g().private = private;
}

/// A point between calls where the scheduler may run another thread.
pub fn yield_point() {
    let r = g();
    if r.nthreads < 2 {
        return;
    }
    let (v, n) = others();
    if n == 0 {
        return;
    }
    let c = choose(2 * n as u64) as usize;
    if c >= n {
        count(K::OpSwitch);
        let to = v[c - n];
        ev!("t{} yields to t{}", tid(), to);
        switch_to(to);
    }
}

/// Must give way: somebody else has to run first. False if nobody can.
fn forced_yield(block: bool) -> bool {
    let r = g();
    let me = tid() as usize;
    if block {
        r.state[me] = TState::Blocked;
    }
    let (v, n) = others();
    if n == 0 {
        if block {
            r.state[me] = TState::Runnable;
        }
        return false;
    }
    let private = r.private.take();
    let i = if block { choose(n as u64) as usize } else { r.spin[me] as usize % n };
    r.spin[me] = r.spin[me].wrapping_add(1);
    switch_to(v[i]);
    g().private = private;
    true
}

/// Set by threads the simulator does not schedule (the code under test may have
/// started some): whoever waits looks again.
static FOREIGN_WAKE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// A futex wait of the code under test: the thread is blocked until somebody
/// wakes that address. The result of the system call; None to really do it.
pub fn futex_wait(addr: i64, val: i64, timeout: i64, absolute: bool) -> Option<i64> {
    if tid() == FOREIGN {
        return None;
    }
    let r = g();
    if !r.in_op {
        return None;
    }
    let moved = || unsafe { (*(addr as *const AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) != val as u32 };
    if moved() {
        return Some(-11);
    }
    r.in_op = false;
    count(K::FutexYield);
    waited();
    if timeout != 0 {
        // simulated time passes at once
        let r = g();
        unsafe {
            let [s, ns] = *(timeout as *const [i64; 2]);
            let mut us = s.clamp(0, 1 << 40) * 1_000_000 + ns / 1000;
            if absolute {
                us -= EPOCH * 1_000_000 + sim_now() as i64;
            }
            r.slept_us += us.clamp(0, 1 << 40) as u64;
        }
        forced_yield(false);
        g().in_op = true;
        return Some(-110);
    }
    let me = tid() as usize;
    let r = g();
    let private = r.private.take();
    r.state[me] = TState::Futex;
    r.faddr[me] = addr;
    let mut tries = 0;
    while g().state[me] == TState::Futex {
        let (v, n) = others();
        if n > 0 {
            switch_to(v[choose(n as u64) as usize]);
            continue;
        }
        // only a thread the code under test started itself could wake anyone
        if moved() {
            g().state[me] = TState::Runnable;
            break;
        }
        tries += 1;
        if tries > 2000 {
            stuck("every thread waits for another one, inside calls");
        }
        unsafe {
            let ts: [i64; 2] = [0, 200_000];
            sys::raw(202, addr, 128, val, ts.as_ptr() as i64, 0, 0);
        }
    }
    let r = g();
    r.state[me] = TState::Runnable;
    r.private = private;
    r.in_op = true;
    Some(0)
}

/// No progress; with a thread stalled on purpose, because of it.
fn stuck(msg: &str) -> ! {
    if g().stall == 2 {
        violate("C22/held-up", &format!("while another thread is stalled inside a call: {msg}"))
    }
    violate("no-progress", msg)
}

fn waited() {
    let r = g();
    r.op_waits += 1;
    if r.op_waits > MAX_WAITS {
        stuck("a call keeps waiting");
    }
}

/// A futex wake: simulated threads waiting there may run again.
pub fn futex_wake(addr: i64, mut n: i64) {
    if tid() == FOREIGN {
        FOREIGN_WAKE.store(true, std::sync::atomic::Ordering::SeqCst);
        return;
    }
    let r = g();
    for i in 0..r.nthreads.min(MAXT) {
        if n > 0 && r.state[i] == TState::Futex && r.faddr[i] == addr {
            r.state[i] = TState::Runnable;
            n -= 1;
        }
    }
}

pub fn inside() -> bool {
    tid() != FOREIGN && g().in_op
}

/// The simulated clock, for code under test that reads one.
pub fn sim_clock(realtime: bool) -> Option<u64> {
    if !inside() {
        return None;
    }
    let r = g();
    r.clock_reads += 1;
    if r.env {
        count(K::EnvClock);
        let d = env_draw();
        if realtime {
            // years, either way
            return Some(d % (EPOCH as u64 * 2_000_000));
        }
        g().slept_us += if d % 4 == 0 { d % 1_000_000_000_000 } else { d % 1000 };
    }
    Some(sim_now())
}

pub const EPOCH: i64 = 1_700_000_000;
fn sim_now() -> u64 {
    let r = g();
    rep().simtime_us + r.slept_us + r.steps / 1000 + r.clock_reads
}

/// Randomness for code under test that asks for some; a function of the seed.
pub fn sim_random(p: *mut u8, n: usize) -> bool {
    if !inside() {
        return false;
    }
    let r = g();
    r.rand_reads += 1;
    let mut s = mix(&[r.rng0, r.rand_reads]);
    for i in 0..n {
        unsafe { *p.add(i) = splitmix(&mut s) as u8 };
    }
    true
}

/// Code under test gives way voluntarily.
pub fn sim_yield() -> bool {
    if !inside() {
        return false;
    }
    let r = g();
    r.in_op = false;
    r.slept_us += 50;
    waited();
    forced_yield(false);
    g().in_op = true;
    true
}

pub fn me() -> usize {
    tid() as usize
}

/// One of the threads about to run will stall inside a call, at a point drawn now.
pub fn stall_one() {
    let r = g();
    r.stall = 1;
    r.stall_left = 1 + match weighted(&[3, 2, 1]) {
        0 => 0,
        1 => choose(8),
        _ => choose(100),
    };
    r.budget = 60_000_000;
}

// -------------------------------------------------------- hostile environment

/// From now on the environment answers calls adversely: clocks jump, variables
/// exist, files hold garbage, memory is elsewhere. A control run draws the same
/// decisions and answers honestly.
pub fn hostile_env() {
    let r = g();
    r.env_world = true;
    let seed = choose(1 << 32);
    let heap = choose(64);
    let junk = choose(256) as u8;
    if r.control {
        return;
    }
    r.env = true;
    r.rng0 = mix(&[seed, 9]);
    r.junk = junk;
    count(K::EnvHeap);
    let mut s = seed;
    for _ in 0..heap {
        std::mem::forget(Vec::<u8>::with_capacity((splitmix(&mut s) % 4096) as usize));
    }
    ev!("the environment is hostile, seed {seed}");
}
pub fn env_here() -> bool {
    inside() && g().env
}
/// An adverse answer to the next question the code under test asks.
pub fn env_draw() -> u64 {
    let r = g();
    r.env_reads += 1;
    mix(&[r.rng0, r.env_reads, 77])
}
/// The call reaches outside: never in a run of C23, silently dropped elsewhere.
pub fn effect(what: std::fmt::Arguments) {
    if g().env_world {
        g().in_op = false;
        violate("C23/effect", &format!("a call {what}"));
    }
}

/// Runs the bodies as simulated threads until all are done.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send>>) {
    let n = bodies.len();
    assert!(n <= MAXT);
    let r = g();
    r.nthreads = n;
    r.pre_mode = weighted(&[1, 3, 2, 2]) as u32;
    r.pre_left = 600;
    if r.pre_mode == 2 {
        let c = choose(14);
        r.quantum = (1 << c) + choose(1 << c);
    }
    r.hot_on = choose(2) == 1;
    ev!("{} threads, preemption mode {}, quantum {}{}", n, r.pre_mode, r.quantum, if r.hot_on { ", and before accesses to shared memory" } else { "" });
    arm_preemption();
    for i in 0..n {
        r.state[i] = TState::Runnable;
    }
    TID.with(|t| t.set(FOREIGN));
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        hs.push(std::thread::spawn(move || {
            wait_turn(i);
            TID.with(|t| t.set(i as u32));
            let x = catch_unwind(AssertUnwindSafe(b));
            if x.is_err() {
                harness_error(&format!("a simulated thread panicked: {}", g().panic_msg));
            }
            let r = g();
            r.state[i] = TState::Done;
            let (v, k) = others();
            TID.with(|t| t.set(FOREIGN));
            if k > 0 {
                give(v[choose(k as u64) as usize]);
            } else if let Some(w) = r.state[..r.nthreads].iter().position(|s| *s == TState::Futex) {
                // it finds out that nobody is left to wake it
                give(w);
            } else if let Some(w) = r.state[..r.nthreads].iter().position(|s| *s == TState::Stalled) {
                r.stall = 3;
                r.state[w] = TState::Runnable;
                give(w);
            } else if r.state[..r.nthreads].iter().any(|s| *s == TState::Blocked) {
                harness_error("simulated threads deadlocked on harness locks");
            } else {
                give(MAXT);
            }
        }));
    }
    give(choose(n as u64) as usize);
    wait_turn(MAXT);
    TID.with(|t| t.set(0));
    let r = g();
    r.nthreads = 1;
    r.preempt_at = u64::MAX;
    r.in_op = false;
    for h in hs {
        let _ = h.join();
    }
}

/// Reader-writer lock of the simulated world.
pub struct RwSim {
    readers: Cell<u32>,
    writer: Cell<bool>,
}
unsafe impl Sync for RwSim {}
impl RwSim {
    pub fn new() -> Self {
        RwSim { readers: Cell::new(0), writer: Cell::new(false) }
    }
    pub fn read(&self) {
        while self.writer.get() {
            count(K::LockWait);
            if !forced_yield(true) {
                harness_error("lock deadlock");
            }
        }
        self.readers.set(self.readers.get() + 1);
    }
    pub fn readers(&self) -> u32 {
        self.readers.get()
    }
    pub fn write(&self) {
        while self.writer.get() || self.readers.get() > 0 {
            count(K::LockWait);
            if !forced_yield(true) {
                harness_error("lock deadlock");
            }
        }
        self.writer.set(true);
    }
    fn wake(&self) {
        let r = g();
        for s in r.state[..r.nthreads].iter_mut() {
            if *s == TState::Blocked {
                *s = TState::Runnable;
            }
        }
    }
    pub fn unread(&self) {
        self.readers.set(self.readers.get() - 1);
        self.wake();
    }
    pub fn unwrite(&self) {
        self.writer.set(false);
        self.wake();
    }
}

/// Shares or moves a value between simulated threads. Only one of them runs at
/// a time and the baton orders their accesses.
pub struct Shared<T>(pub UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> {
    pub fn new(v: T) -> Self {
        Shared(UnsafeCell::new(v))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

/// The plain-build fallback: no instrumentation, guards stay at zero.
pub fn instrumented() -> bool {
    guards() > 0
}

pub fn panic_message() -> String {
    g().panic_msg.clone()
}
