//! Safe wrappers around the simulation runtime (simrt.c).
use std::alloc::{GlobalAlloc, Layout};
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Choice {
    pub tid: u8,
    pub kind: u8,
    pub op: u16,
    pub k: u32,
    pub v: i64,
}
pub const KINDS: [&str; 10] =
    ["sched", "block", "time", "wall", "wake", "spur", "open", "halt", "alloc", "read"];
pub const K_HALT: u8 = 7;

pub const STATS: [&str; NSTAT] = [
    "steps", "context_switches", "preemptions", "clock_advances", "wall_steps_forward", "wall_steps_backward",
    "futex_waits", "spurious_wakeups", "busy_wait_yields", "thread_stalls_forever", "open_failures", "read_failures",
    "short_reads", "interrupted_calls", "heap_block_reuses", "heap_allocs", "heap_frees", "user_panics",
    "clock_reads", "fair_phases", "operations", "in_op_switches", "cas_retries", "rearm", "probe0", "probe1",
    "probe2", "probe3", "probe4", "probe5", "probe6", "probe7", "long_thread_stalls", "calls_while_unwinding",
];
pub const NSTAT: usize = 34;
pub const ST_PANIC: i32 = 17;
pub const ST_UNWIND: i32 = 33;
pub const ST_USER0: i32 = 24;
pub const MAXLOG: usize = 49152;

#[repr(C)]
pub struct RunResult {
    pub status: i32,
    pub nlog: i32,
    pub cls: [u8; 80],
    pub msg: [u8; 6000],
    pub hash: u64,
    pub simtime: u64,
    pub stat: [u64; NSTAT],
    pub log: [Choice; MAXLOG],
}

#[repr(C)]
#[derive(Clone, Debug, Default)]
pub struct Config {
    pub seed: u64,
    pub replay: i32,
    pub policy: i32,
    pub p_switch: u32,
    pub pct_depth: i32,
    pub pct_len: u32,
    pub alloc_mode: i32,
    pub p_plain: u32,
    pub p_time: u32,
    pub p_wall: u32,
    pub p_spur: u32,
    pub p_fs: u32,
    pub p_short: u32,
    pub tvals: [i64; 8],
    pub ntv: i32,
    pub wvals: [i64; 8],
    pub nwv: i32,
    pub nhalt: i32,
    pub halt_tid: [i32; 4],
    pub halt_op: [i32; 4],
    pub halt_k: [i32; 4],
    pub cap1: u32,
    pub cap2: u32,
    pub mono0: u64,
    pub wall0: i64,
    pub fair_seed: u64,
    pub fixed_order: i32,
}

extern "C" {
    fn sim_alloc(n: usize, al: usize) -> *mut u8;
    fn sim_free(p: *mut u8);
    fn sim_realloc(p: *mut u8, old: usize, n: usize, al: usize) -> *mut u8;
    fn sim_fail(cls: *const u8, cl: usize, msg: *const u8, ml: usize) -> !;
    fn sim_herr(msg: *const u8, ml: usize) -> !;
    fn sim_ok() -> !;
    fn sim_point();
    fn sim_yield();
    fn sim_boundary();
    fn sim_set_sut(v: i32) -> i32;
    fn sim_tid() -> i32;
    fn sim_cur_op() -> i32;
    fn sim_seq() -> u64;
    fn sim_opsteps() -> u64;
    fn sim_nhalted() -> i32;
    fn sim_is_halted(t: i32) -> i32;
    fn sim_stat(i: i32, n: u64);
    fn sim_op(op: i32);
    fn sim_begin(c: *const Config, r: *mut RunResult, ch: *const Choice, n: i32);
    fn sim_thread_enter(id: i32);
    fn sim_threads_ready(n: i32);
    fn sim_run();
    fn sim_resume_halted() -> i32;
    fn sim_thread_exit() -> !;
    fn sim_heap_init();
    fn sim_check_live(p: *const u8, n: usize);
    fn sim_live_blocks() -> u64;
    fn sim_live_bytes() -> u64;
    fn sim_mono() -> u64;
    fn sim_wall() -> i64;
    fn sim_advance(ns: i64);
    fn sim_wall_step(ns: i64);
    fn sim_wall_mark() -> i32;
    fn sim_wall_get(from: i32, out: *mut i64, max: i32) -> i32;
    fn sim_fs_set(p: *const u8, pl: usize, d: *const u8, dl: usize);
    fn sim_fs_count(i: i32, what: i32) -> u32;
    fn sim_fs_reset();
    fn sim_fs_open_fds() -> i32;
    fn sim_real_ns() -> u64;
    fn sim_set_faults(on: i32);
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sim_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, _l: Layout) {
        sim_free(p)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sim_realloc(p, l.size(), n, l.align())
    }
}
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

pub fn heap_init() {
    unsafe { sim_heap_init() }
}
pub fn begin(c: &Config, r: *mut RunResult, ch: &[Choice]) {
    unsafe { sim_begin(c, r, ch.as_ptr(), ch.len() as i32) }
}
pub fn ok() -> ! {
    unsafe { sim_ok() }
}
pub fn fail(cls: &str, msg: &str) -> ! {
    unsafe {
        sim_set_sut(0);
        sim_fail(cls.as_ptr(), cls.len(), msg.as_ptr(), msg.len())
    }
}
pub fn herr(msg: &str) -> ! {
    unsafe { sim_herr(msg.as_ptr(), msg.len()) }
}
#[macro_export]
macro_rules! fail {
    ($cls:expr, $($a:tt)*) => { $crate::rt::fail($cls, &format!($($a)*)) };
}

struct Sut(i32);
impl Drop for Sut {
    fn drop(&mut self) {
        unsafe { sim_set_sut(self.0) };
    }
}
/// Runs library code: everything it does is simulated.  A panic is passed on.
pub fn sut_raw<T>(f: impl FnOnce() -> T) -> T {
    let _g = Sut(unsafe { sim_set_sut(1) });
    f()
}
/// Runs harness code from within a library call (a user callback).
pub fn user<T>(f: impl FnOnce() -> T) -> T {
    let _g = Sut(unsafe { sim_set_sut(0) });
    f()
}
/// Library call that may panic.
pub fn sut_catch<T>(f: impl FnOnce() -> T) -> Result<T, Box<dyn Any + Send>> {
    sut_raw(|| catch_unwind(AssertUnwindSafe(f)))
}
/// Library call that must not panic.
pub fn sut<T>(f: impl FnOnce() -> T) -> T {
    match sut_catch(f) {
        Ok(v) => v,
        Err(_) => {
            let m = last_panic();
            fail("unexpected-panic", &format!("op {} on thread {} panicked: {}", cur_op(), tid(), m))
        }
    }
}

static PANIC_MSG: [Mutex<String>; 16] = [const { Mutex::new(String::new()) }; 16];
fn slot() -> usize {
    (unsafe { sim_tid() } as usize).min(15)
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let old = unsafe { sim_set_sut(0) };
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(payload)".to_string()
        };
        // Keep only the file name: build paths must not leak into replays.
        let loc = i.location().map(|l| l.file().rsplit('/').next().unwrap_or("").to_string()).unwrap_or_default();
        if let Ok(mut g) = PANIC_MSG[slot()].lock() {
            *g = format!("{} ({})", m, loc);
        }
        unsafe { sim_set_sut(old) };
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG[slot()].lock().map(|g| g.clone()).unwrap_or_default()
}

pub fn point() {
    unsafe { sim_point() }
}
/// A point between two operations.
pub fn boundary() {
    unsafe { sim_boundary() }
}
pub fn yield_now() {
    unsafe { sim_yield() }
}
pub fn tid() -> usize {
    unsafe { sim_tid() as usize }
}
pub fn cur_op() -> i32 {
    unsafe { sim_cur_op() }
}
pub fn seq() -> u64 {
    unsafe { sim_seq() }
}
pub fn opsteps() -> u64 {
    unsafe { sim_opsteps() }
}
pub fn nhalted() -> usize {
    unsafe { sim_nhalted() as usize }
}
pub fn is_halted(t: usize) -> bool {
    unsafe { sim_is_halted(t as i32) != 0 }
}
pub fn stat(i: i32, n: u64) {
    unsafe { sim_stat(i, n) }
}
/// Reachability probe: counts that a rare situation was met.
pub fn probe(i: i32) {
    stat(ST_USER0 + i, 1)
}
pub fn set_op(op: i32) {
    unsafe { sim_op(op) }
}
pub fn resume_halted() -> usize {
    unsafe { sim_resume_halted() as usize }
}
pub fn check_live(s: &[u8]) {
    unsafe { sim_check_live(s.as_ptr(), s.len()) }
}
pub fn check_live_obj<T>(p: *const T) {
    unsafe { sim_check_live(p as *const u8, std::mem::size_of::<T>()) }
}
pub fn live_blocks() -> u64 {
    unsafe { sim_live_blocks() }
}
pub fn live_bytes() -> u64 {
    unsafe { sim_live_bytes() }
}
pub fn mono() -> u64 {
    unsafe { sim_mono() }
}
pub fn wall() -> i64 {
    unsafe { sim_wall() }
}
pub fn advance(ns: i64) {
    unsafe { sim_advance(ns) }
}
pub fn wall_step(ns: i64) {
    unsafe { sim_wall_step(ns) }
}
pub fn wall_mark() -> i32 {
    unsafe { sim_wall_mark() }
}
/// All wall clock values (ns since the epoch) that were current at some moment since `mark`
/// (`mark` taken with wall_mark; the value current at the mark is included).
pub fn wall_values(mark: i32) -> Vec<i64> {
    let mut v = vec![0i64; 4096];
    let n = unsafe { sim_wall_get(mark - 1, v.as_mut_ptr(), 4096) };
    v.truncate(n as usize);
    v
}
pub fn fs_set(path: &str, data: &str) {
    unsafe { sim_fs_set(path.as_ptr(), path.len(), data.as_ptr(), data.len()) }
}
pub fn fs_count(i: i32, what: i32) -> u32 {
    unsafe { sim_fs_count(i, what) }
}
pub fn fs_reset() {
    unsafe { sim_fs_reset() }
}
pub fn fs_open_fds() -> i32 {
    unsafe { sim_fs_open_fds() }
}
/// Switches injected clock movements and I/O faults off or on.
pub fn set_faults(on: bool) {
    unsafe { sim_set_faults(on as i32) }
}
pub fn real_ns() -> u64 {
    unsafe { sim_real_ns() }
}

/// Runs each plan thread in its own simulated thread until all have finished (or are halted).
pub fn run_threads(n: usize, body: impl Fn(usize) + Send + Sync + 'static) {
    let body: &'static (dyn Fn(usize) + Send + Sync) = Box::leak(Box::new(body));
    for i in 0..n {
        std::thread::Builder::new()
            .stack_size(512 * 1024)
            .spawn(move || {
                unsafe { sim_thread_enter(i as i32 + 1) };
                body(i + 1);
                unsafe { sim_thread_exit() }
            })
            .unwrap_or_else(|_| herr("cannot create a thread"));
    }
    unsafe {
        sim_threads_ready(n as i32);
        sim_run();
    }
}
