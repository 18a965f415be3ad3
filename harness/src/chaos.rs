//! Schedule perturbation.  Threads that opt in are delayed at random at every
//! backend call (`point`), every log statement of the code under test, and
//! every heap allocation, so that short critical sections get preempted.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0) };   // 0: not perturbed
    static RATE: Cell<u32> = const { Cell::new(0) };    // per 65536 allocations
    static BUSY: Cell<bool> = const { Cell::new(false) };
}
pub static POINTS: AtomicU64 = AtomicU64::new(0);
pub static DELAYS: AtomicU64 = AtomicU64::new(0);
/// When set, threads that the code under test starts are perturbed too.
static ALL: AtomicU64 = AtomicU64::new(0);

pub fn enable(seed: u64, rate: u32) {
    let _ = STATE.try_with(|s| s.set(seed | 1));
    let _ = RATE.try_with(|s| s.set(rate));
}
pub fn disable() {
    let _ = STATE.try_with(|s| s.set(0));
}
pub fn enable_all(rate: u32) {
    ALL.store(rate as u64, Ordering::Relaxed)
}

fn step(s: u64) -> u64 {
    let mut x = s;
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    x | 1
}

fn roll() -> Option<(u64, u32)> {
    STATE
        .try_with(|s| {
            let v = s.get();
            if v == 0 {
                let all = ALL.load(Ordering::Relaxed);
                if all == 0 {
                    return None;
                }
                let mut seed = 0u64;
                seed ^= s as *const _ as u64;
                let n = step(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
                s.set(n);
                let _ = RATE.try_with(|r| r.set(all as u32));
                return Some((n, all as u32));
            }
            let n = step(v);
            s.set(n);
            Some((n, RATE.try_with(|r| r.get()).unwrap_or(0)))
        })
        .unwrap_or(None)
}

fn delay(n: u64) {
    let was = BUSY.try_with(|b| b.replace(true)).unwrap_or(true);
    if was {
        return;
    }
    DELAYS.fetch_add(1, Ordering::Relaxed);
    match (n >> 20) % 16 {
        0..=7 => std::thread::yield_now(),
        8..=12 => {
            for _ in 0..((n >> 32) % 4000) {
                std::hint::spin_loop()
            }
        }
        13 | 14 => std::thread::sleep(Duration::from_micros(1 + (n >> 32) % 120)),
        _ => std::thread::sleep(Duration::from_micros(100 + (n >> 32) % 900)),
    }
    let _ = BUSY.try_with(|b| b.set(false));
}

/// A suspension point of an instrumented component.
pub fn point() {
    POINTS.fetch_add(1, Ordering::Relaxed);
    if let Some((n, rate)) = roll() {
        if rate > 0 && n >> 48 & 3 == 0 {
            delay(n)
        }
    }
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        perturb_alloc();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        perturb_alloc();
        System.alloc_zeroed(l)
    }
}
fn perturb_alloc() {
    if let Some((n, rate)) = roll() {
        if ((n >> 40) & 0xffff) < rate as u64 {
            delay(n)
        }
    }
}

/// Log sink: prints nothing, delays the logging thread.
pub struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target().starts_with("monolith") {
            point()
        }
    }
    fn flush(&self) {}
}
pub fn install_logger() {
    static L: Logger = Logger;
    let _ = log::set_logger(&L);
    log::set_max_level(log::LevelFilter::Info);
}
