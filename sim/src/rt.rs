//! Interface to simrt.c, and the global allocator that routes through the simulated heap.
use std::alloc::{GlobalAlloc, Layout};
use std::os::raw::{c_char, c_int};

pub const NFAULT: usize = 20;
pub const FAULT_NAMES: [&str; NFAULT] = [
    "spurious_wakeup", "clock_jump", "alloc_failure",
    "stdout_short", "stdout_eintr", "stdout_error",
    "file_write_short", "file_write_eintr", "file_write_error",
    "read_short", "read_eintr", "read_error",
    "open_eintr", "open_error",
    "user0", "user1", "user2", "user3", "user4", "user5"];
pub const F_SPURIOUS: usize = 0; pub const F_CLOCK: usize = 1; pub const F_OOM: usize = 2;
pub const F_SO_SHORT: usize = 3; pub const F_SO_EINTR: usize = 4; pub const F_SO_ERR: usize = 5;
pub const F_FW_SHORT: usize = 6; pub const F_FW_EINTR: usize = 7; pub const F_FW_ERR: usize = 8;
pub const F_RD_SHORT: usize = 9; pub const F_RD_EINTR: usize = 10; pub const F_RD_ERR: usize = 11;
pub const F_OPEN_EINTR: usize = 12; pub const F_OPEN_ERR: usize = 13;
pub const F_USER: usize = 14;

pub const NOPREEMPT: i32 = 0; pub const RANDOM: i32 = 1; pub const PCT: i32 = 2; pub const STALL: i32 = 3;

#[repr(C)] #[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64, pub max_steps: u64, pub mode: i32, pub victim: i32, pub stall_until: u64,
    pub p_mem: f64, pub p_sync: f64,
    pub fault_rate: [f64; NFAULT], pub fault_cap: [u64; NFAULT],
}
impl Cfg {
    pub fn quiet(seed: u64) -> Cfg {
        Cfg { seed, max_steps: 4_000_000_000, mode: NOPREEMPT, victim: 0, stall_until: 0, p_mem: 0.0, p_sync: 0.0,
              fault_rate: [0.0; NFAULT], fault_cap: [u64::MAX / 2; NFAULT] }
    }
    pub fn fault(mut self, k: usize, rate: f64) -> Cfg { self.fault_rate[k] = rate; self }
    pub fn capped(mut self, k: usize, rate: f64, cap: u64) -> Cfg { self.fault_rate[k] = rate; self.fault_cap[k] = cap; self }
}

#[repr(C)] #[derive(Clone, Copy, Debug, PartialEq)]
pub struct Switch { pub step: u64, pub to: i64 }
#[repr(C)] #[derive(Clone, Copy, Debug, PartialEq)]
pub struct FaultRec { pub kind: i64, pub idx: u64, pub arg: u64 }

#[repr(C)] #[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub steps: u64, pub switches: u64, pub preemptions: u64, pub sync_ops: u64, pub yields: u64,
    pub futex_waits: u64, pub futex_wakes: u64, pub threads_started: u64, pub threads_ended: u64, pub nthreads: u64,
    pub clock_reads: u64, pub entropy_reads: u64, pub io_calls: u64, pub stdout_bytes: u64,
    pub allocs: u64, pub frees: u64, pub moves: u64,
    pub trace_hash: u64, pub log_overflow: u64,
    pub t0: i64, pub t1: i64,
    pub fault_opps: [u64; NFAULT], pub fault_fired: [u64; NFAULT],
}
pub const MAXLOG: usize = 1 << 17;
pub const MAXFLT: usize = 1 << 14;
#[repr(C)]
pub struct SimShared { pub stats: Stats, pub nsw: i32, pub nflt: i32, pub sw: [Switch; MAXLOG], pub flt: [FaultRec; MAXFLT] }

extern "C" {
    fn sim_begin(c: *const Cfg, sw: *const Switch, nsw: c_int, f: *const FaultRec, nf: c_int, replay: c_int);
    fn sim_phase(c: *const Cfg);
    fn sim_pause(); fn sim_resume(); fn sim_end(); fn sim_point();
    fn sim_fault(kind: c_int) -> u64;
    fn sim_arm(kind: c_int, skip: u64, n: u64, arg: u64);
    fn sim_set_shared(p: *mut SimShared);
    fn sim_shared_size() -> usize;
    fn sim_set_fatal(cb: extern "C" fn(c_int, *const c_char));
    fn sim_steps() -> u64; fn sim_max_steps(more: u64);
    fn sim_now() -> i64; fn sim_advance(ns: i64); fn sim_reseed_entropy(s: u64); fn sim_tid() -> c_int;
    fn sim_stdout(mode: c_int); fn sim_stdout_reset(); fn sim_stdout_data(p: *mut *const u8) -> usize;
    fn sim_file(path: *const c_char, data: *const u8, len: usize) -> c_int;
    fn sim_prefixes(rd: *const c_char, wr: *const c_char);
    fn sim_heap_on(seed: u64) -> c_int; fn sim_heap_reseed(seed: u64); fn sim_heap_check(); fn sim_heap_error() -> *const c_char;
    fn sim_tag(t: u32) -> u32; fn sim_tag_live(t: u32) -> u64; fn sim_tag_bytes(t: u32) -> u64; fn sim_oom_ctx(on: c_int);
    fn sim_get_stats(s: *mut Stats);
    fn sim_alloc(n: usize, align: usize, zero: c_int) -> *mut u8;
    fn sim_free(p: *mut u8, n: usize, align: usize);
    fn sim_realloc(p: *mut u8, old: usize, align: usize, n: usize) -> *mut u8;
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { sim_alloc(l.size(), l.align(), 0) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { sim_alloc(l.size(), l.align(), 1) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { sim_free(p, l.size(), l.align()) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { sim_realloc(p, l.size(), l.align(), n) }
}

pub fn begin(c: &Cfg, rep: Option<(&[Switch], &[FaultRec])>) {
    unsafe {
        match rep {
            None => sim_begin(c, std::ptr::null(), 0, std::ptr::null(), 0, 0),
            Some((s, f)) => sim_begin(c, s.as_ptr(), s.len() as c_int, f.as_ptr(), f.len() as c_int, 1),
        }
    }
}
pub fn phase(c: &Cfg) { unsafe { sim_phase(c) } }
pub fn pause() { unsafe { sim_pause() } }
pub fn resume() { unsafe { sim_resume() } }
pub fn end() { unsafe { sim_end() } }
#[allow(dead_code)] pub fn point() { unsafe { sim_point() } }
/// the next `n` opportunities for a fault after the first `skip` will fire; n = 0 disarms
pub fn arm(k: usize, skip: u64, n: u64, arg: u64) { unsafe { sim_arm(k as c_int, skip, n, arg) } }
pub fn fault(k: usize) -> u64 { unsafe { sim_fault(k as c_int) } }
pub fn set_shared(p: *mut SimShared) { unsafe { assert_eq!(sim_shared_size(), std::mem::size_of::<SimShared>()); sim_set_shared(p) } }
/// statistics and logs of what follows are nobody's business
pub fn set_private() { unsafe { sim_set_shared(std::ptr::null_mut()) } }
pub fn set_shared_slot() { set_shared(&mut crate::sup::slot().sim) }
pub fn set_fatal(cb: extern "C" fn(c_int, *const c_char)) { unsafe { sim_set_fatal(cb) } }
pub fn steps() -> u64 { unsafe { sim_steps() } }
pub fn max_steps(more: u64) { unsafe { sim_max_steps(more) } }
#[allow(dead_code)] pub fn now() -> i64 { unsafe { sim_now() } }
#[allow(dead_code)] pub fn advance(ns: i64) { unsafe { sim_advance(ns) } }
pub fn reseed_entropy(s: u64) { unsafe { sim_reseed_entropy(s) } }
#[allow(dead_code)] pub fn tid() -> i32 { unsafe { sim_tid() } }
pub fn stdout_mode(m: i32) { unsafe { sim_stdout(m) } }
pub fn stdout_reset() { unsafe { sim_stdout_reset() } }
pub fn stdout_data() -> &'static [u8] {
    unsafe { let mut p = std::ptr::null(); let n = sim_stdout_data(&mut p); if p.is_null() { &[] } else { std::slice::from_raw_parts(p, n) } }
}
pub fn file(path: &str, data: &[u8]) { let c = std::ffi::CString::new(path).unwrap(); unsafe { assert!(sim_file(c.as_ptr(), data.as_ptr(), data.len()) >= 0); } }
#[allow(dead_code)] pub fn prefixes(rd: &str, wr: &str) {
    let (a, b) = (std::ffi::CString::new(rd).unwrap(), std::ffi::CString::new(wr).unwrap());
    unsafe { sim_prefixes(a.as_ptr(), b.as_ptr()) }
}
pub fn heap_on(seed: u64) { unsafe { assert_eq!(sim_heap_on(seed), 0, "simulated heap could not be mapped"); } }
pub fn heap_reseed(seed: u64) { unsafe { sim_heap_reseed(seed) } }
pub fn heap_check() -> Option<String> {
    unsafe {
        sim_heap_check();
        let e = sim_heap_error();
        if e.is_null() { None } else { Some(std::ffi::CStr::from_ptr(e).to_string_lossy().into_owned()) }
    }
}
pub fn tag_live(t: u32) -> u64 { unsafe { sim_tag_live(t) } }
pub fn tag_bytes(t: u32) -> u64 { unsafe { sim_tag_bytes(t) } }
pub fn oom_ctx(on: bool) { unsafe { sim_oom_ctx(on as c_int) } }
pub fn stats() -> Stats { let mut s = Stats::default(); unsafe { sim_get_stats(&mut s) }; s }

/// Everything allocated inside `f` on this thread belongs to the engine.
pub fn engine<R>(f: impl FnOnce() -> R) -> R {
    struct Back(u32);
    impl Drop for Back { fn drop(&mut self) { unsafe { sim_tag(self.0); } } }
    let _b = Back(unsafe { sim_tag(1) });
    f()
}
/// Harness work in the middle of a run: no preemption, no faults, not the engine's memory.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    struct Back(u32);
    impl Drop for Back { fn drop(&mut self) { unsafe { sim_tag(self.0); } resume(); } }
    pause();
    let _b = Back(unsafe { sim_tag(0) });
    f()
}
pub fn set_tag(t: u32) -> u32 { unsafe { sim_tag(t) } }
