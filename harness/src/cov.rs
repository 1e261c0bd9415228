//! Receives the sancov callbacks of the instrumented crate under test: edge hits, comparison
//! constants and an executed-edge count used as a deterministic time limit.
//! Also replaces `getrandom`, so that the iteration order of every HashMap in a case is a
//! function of the case.
use std::sync::atomic::*;

pub const MAXG: usize = 1 << 17;
static NG: AtomicUsize = AtomicUsize::new(0);
static mut HITS: [u8; MAXG] = [0; MAXG];
static mut TOUCHED: [u32; MAXG] = [0; MAXG];
static mut NTOUCHED: usize = 0;
static mut STEPS: u64 = 0;
static mut LIMIT: u64 = u64::MAX;
/// whether the case is being traced; only one case runs at a time in a process
static mut ON: bool = false;
const CN: usize = 4096;
static mut CONSTS: [u64; CN] = [0; CN];
static mut NCONSTS: usize = 0;
pub static HASH_SEED: AtomicU64 = AtomicU64::new(7);
pub const STEP_EXIT: i32 = 77;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    while a < b {
        let n = NG.fetch_add(1, Ordering::Relaxed) + 1;
        *a = if n < MAXG { n as u32 } else { 0 };
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ON {
        return;
    }
    let g = *g as usize;
    let h = &raw mut HITS as *mut u8;
    let v = *h.add(g);
    if v == 0 {
        *(&raw mut TOUCHED as *mut u32).add(NTOUCHED) = g as u32;
        NTOUCHED += 1;
    }
    if v != 255 {
        *h.add(g) = v + 1;
    }
    STEPS += 1;
    if STEPS > LIMIT {
        over_limit();
    }
}
#[cold]
unsafe fn over_limit() -> ! {
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    _exit(STEP_EXIT)
}
#[inline]
unsafe fn note(c: u64) {
    if !ON {
        return;
    }
    // direct-mapped set of constants seen in this case
    let i = (c.wrapping_mul(0x9E3779B97F4A7C15) >> 52) as usize % CN;
    let p = (&raw mut CONSTS as *mut u64).add(i);
    if *p != c {
        *p = c;
        NCONSTS += 1;
    }
}
macro_rules! cc {($($n:ident $t:ty),*)=>{$(#[no_mangle] pub unsafe extern "C" fn $n(a:$t,_b:$t){note(a as u64);})*}}
macro_rules! nc {($($n:ident $t:ty),*)=>{$(#[no_mangle] pub unsafe extern "C" fn $n(_a:$t,_b:$t){})*}}
cc!(__sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_const_cmp2 u16, __sanitizer_cov_trace_const_cmp4 u32, __sanitizer_cov_trace_const_cmp8 u64);
nc!(__sanitizer_cov_trace_cmp1 u8, __sanitizer_cov_trace_cmp2 u16, __sanitizer_cov_trace_cmp4 u32, __sanitizer_cov_trace_cmp8 u64);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, c: *mut u64) {
    if !ON {
        return;
    }
    let n = *c as usize;
    for i in 0..n.min(64) {
        note(*c.add(2 + i));
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    let mut s = HASH_SEED.load(Ordering::Relaxed);
    for i in 0..n {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *p.add(i) = (s >> 33) as u8;
    }
    n as isize
}

pub fn begin(limit: u64) {
    unsafe {
        for i in 0..NTOUCHED {
            let g = *(&raw const TOUCHED as *const u32).add(i) as usize;
            *(&raw mut HITS as *mut u8).add(g) = 0;
        }
        NTOUCHED = 0;
        STEPS = 0;
        LIMIT = limit;
        ON = true;
    }
}
pub fn end() {
    unsafe { ON = false }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}
pub fn guards() -> usize {
    NG.load(Ordering::Relaxed)
}
/// pauses tracing (the step limit too) while `f` runs
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    let was = unsafe { ON };
    unsafe { ON = false };
    let r = f();
    unsafe { ON = was };
    r
}
fn bucket(v: u8) -> u8 {
    match v {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}
/// merges this case's edges into `seen` and returns (new edges, new buckets)
pub fn merge(seen: &mut [u8]) -> (usize, usize) {
    let (mut e, mut b) = (0, 0);
    unsafe {
        for i in 0..NTOUCHED {
            let g = *(&raw const TOUCHED as *const u32).add(i) as usize;
            let k = bucket(*(&raw const HITS as *const u8).add(g));
            if seen[g] == 0 {
                e += 1;
            }
            if seen[g] & k == 0 {
                seen[g] |= k;
                b += 1;
            }
        }
    }
    (e, b)
}
/// constants that the crate compared something against so far
pub fn consts() -> Vec<u64> {
    unsafe {
        let mut v: Vec<u64> = (0..CN).map(|i| *(&raw const CONSTS as *const u64).add(i)).filter(|c| *c != 0).collect();
        v.sort();
        v
    }
}
pub fn const_generation() -> usize {
    unsafe { NCONSTS }
}
