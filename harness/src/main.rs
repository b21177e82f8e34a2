#[macro_use]
mod conv;
mod engine;
#[macro_use]
mod kinds;
mod extra;
mod gen;
mod props;
mod refm;
mod schema;
mod src;
mod twin;

use std::alloc::{GlobalAlloc, Layout, System};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// Counts live bytes; the peak since the last `alloc_mark`.
struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
#[inline]
fn add(n: usize) {
    TOTAL.store(TOTAL.load(Relaxed).wrapping_add(n), Relaxed);
    let l = LIVE.load(Relaxed).wrapping_add(n);
    LIVE.store(l, Relaxed);
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
}
#[inline]
fn sub(n: usize) {
    LIVE.store(LIVE.load(Relaxed).wrapping_sub(n), Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // worst case: both blocks live
        add(n);
        let r = System.realloc(p, l, n);
        sub(l.size());
        r
    }
}
#[global_allocator]
static A: Counting = Counting;
pub fn alloc_mark() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}
/// Everything ever allocated.
pub fn alloc_total() -> u64 {
    TOTAL.load(Relaxed) as u64
}
pub fn alloc_peak_since(mark: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(mark)
}

fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()));
    let props = props::all();
    let find = |id: &str| -> &'static engine::Prop {
        match props.iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("no property {}", id);
                std::process::exit(2)
            }
        }
    };
    let code = match a.get(1).map(|s| &s[..]) {
        Some("list") => {
            for p in props {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        Some("check") => engine::check(find(&a[2]), &verif),
        Some("worker") => engine::worker(find(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), &PathBuf::from(&a[7])),
        Some("twin") => twin::main(&a[2..], props),
        Some("isolate") | Some("replay") => engine::isolate(find(&a[2]), &PathBuf::from(&a[3])),
        _ => {
            eprintln!("usage: vh check|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
