//! Runtime for SanitizerCoverage: inline 8-bit counters and comparison constants.
//! This crate itself is never instrumented.
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

const MAXR: usize = 256;
static mut REGIONS: [(usize, usize); MAXR] = [(0, 0); MAXR];
static NREG: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let n = NREG.load(Relaxed);
    if n < MAXR && stop as usize > start as usize {
        REGIONS[n] = (start as usize, stop as usize);
        NREG.store(n + 1, Relaxed);
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_a: *const usize, _b: *const usize) {}

/// Number of instrumented edges.
pub fn edges() -> usize {
    let mut t = 0;
    for i in 0..NREG.load(Relaxed) {
        let (a, b) = unsafe { REGIONS[i] };
        t += b - a;
    }
    t
}
pub fn reset() {
    for i in 0..NREG.load(Relaxed) {
        unsafe {
            let (a, b) = REGIONS[i];
            std::ptr::write_bytes(a as *mut u8, 0, b - a);
        }
    }
}
/// Merge this run's counters into `seen` (bucketed); returns how many new buckets appeared.
pub fn merge(seen: &mut Vec<u8>) -> usize {
    let mut base = 0;
    let mut new = 0;
    if seen.len() < edges() {
        seen.resize(edges(), 0);
    }
    for i in 0..NREG.load(Relaxed) {
        let (a, b) = unsafe { REGIONS[i] };
        let n = b - a;
        let s = unsafe { std::slice::from_raw_parts(a as *const u8, n) };
        let mut k = 0;
        while k < n {
            if k + 8 <= n && s[k..k + 8] == [0u8; 8] {
                k += 8;
                continue;
            }
            let c = s[k];
            if c != 0 {
                let bit = match c {
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                if seen[base + k] & bit == 0 {
                    seen[base + k] |= bit;
                    new += 1;
                }
            }
            k += 1;
        }
        base += n;
    }
    new
}

// ---- work ----
static STEPS: AtomicU64 = AtomicU64::new(0);
#[inline(always)]
fn step() {
    STEPS.store(STEPS.load(Relaxed).wrapping_add(1), Relaxed);
}
/// Comparisons and switches executed so far.
pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}

// ---- comparison constants ----
const CAP: usize = 4096;
static mut SLOTS: [u64; CAP] = [0; CAP];
static NCONST: AtomicUsize = AtomicUsize::new(0);
static mut LIST: [u64; CAP] = [0; CAP];

#[inline(always)]
fn note(v: u64) {
    let h = (v.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 52) as usize;
    unsafe {
        if SLOTS[h] == v.wrapping_add(1) {
            return;
        }
        add(h, v)
    }
}
#[inline(never)]
unsafe fn add(h: usize, v: u64) {
    let mut i = h;
    for _ in 0..32 {
        if SLOTS[i] == v.wrapping_add(1) {
            return;
        }
        if SLOTS[i] == 0 {
            let n = NCONST.load(Relaxed);
            if n < CAP / 2 {
                SLOTS[i] = v.wrapping_add(1);
                LIST[n] = v;
                NCONST.store(n + 1, Relaxed);
            }
            return;
        }
        i = (i + 1) % CAP;
    }
}
static QUIET: AtomicUsize = AtomicUsize::new(0);
/// Hide the collected constants: generation then depends on nothing the code under test does.
pub fn quiet() {
    QUIET.store(1, Relaxed)
}
pub fn nconsts() -> usize {
    if QUIET.load(Relaxed) == 1 {
        return 0;
    }
    NCONST.load(Relaxed)
}
pub fn const_at(i: usize) -> u64 {
    unsafe { LIST[i] }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {
    step()
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {
    step()
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {
    step()
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {
    step()
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(a: u8, _: u8) {
    step();
    note(a as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, _: u16) {
    step();
    note(a as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, _: u32) {
    step();
    note(a as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, _: u64) {
    step();
    note(a)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    step();
    let n = *cases as usize;
    for i in 0..n.min(64) {
        note(*cases.add(2 + i));
    }
}
