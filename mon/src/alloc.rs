//! Counting global allocator. Every process of the monitors drives the code under test from one
//! thread (except the concurrency checks), so the thread-local counters are exact per call.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Counting;

#[derive(Clone, Copy, Default, Debug)]
pub struct Stat {
    /// Bytes and blocks currently held (allocated by this thread minus freed by this thread).
    pub live: i64,
    pub blocks: i64,
    pub peak: i64,
    /// Cumulative bytes requested (a realloc counts its whole new size) and number of requests.
    pub total: u64,
    pub calls: u64,
}

thread_local! {
    static STAT: Cell<Stat> = const { Cell::new(Stat { live: 0, blocks: 0, peak: 0, total: 0, calls: 0 }) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

pub static EXCEEDED: AtomicBool = AtomicBool::new(false);

fn add(bytes: i64, blocks: i64, total: u64) {
    let _ = STAT.try_with(|s| {
        let mut v = s.get();
        v.live += bytes;
        v.blocks += blocks;
        if v.live > v.peak {
            v.peak = v.live;
        }
        if total > 0 {
            v.total += total;
            v.calls += 1;
        }
        s.set(v);
        if v.live > LIMIT.with(Cell::get) {
            LIMIT.with(|l| l.set(i64::MAX));
            over_limit();
        }
    });
}

#[cold]
fn over_limit() -> ! {
    EXCEEDED.store(true, Ordering::SeqCst);
    unsafe extern "C" {
        fn _exit(code: i32) -> !;
        fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    }
    let msg = b"MONITOR: heap budget of the current call exceeded\n";
    unsafe {
        write(2, msg.as_ptr().cast(), msg.len());
        _exit(98)
    }
}

// ---- a pool, for counting instructions --------------------------------------------------------
//
// What glibc does for one call depends on everything before it; a free list per power of two costs
// the same every time. Only one thread uses it.

const POOL: usize = 4 << 30;
static POOL_START: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static mut POOL_NEXT: usize = 0;
static mut POOL_FREE: [usize; 40] = [0; 40];

thread_local! {
    static POOLED: Cell<bool> = const { Cell::new(false) };
}

/// From now on this thread's new blocks come from the pool.
pub fn use_pool() {
    unsafe {
        let p = System.alloc(Layout::from_size_align(POOL, 4096).unwrap());
        assert!(!p.is_null(), "pool");
        POOL_NEXT = p as usize;
        POOL_START.store(p as usize, Ordering::SeqCst);
    }
    POOLED.with(|p| p.set(true));
}

fn class(l: Layout) -> usize {
    l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() as usize
}

unsafe fn pool_alloc(l: Layout) -> *mut u8 {
    unsafe {
        let c = class(l);
        let head = POOL_FREE[c];
        if head != 0 {
            POOL_FREE[c] = *(head as *const usize);
            return head as *mut u8;
        }
        let at = POOL_NEXT.next_multiple_of((1 << c).min(4096));
        if at + (1 << c) > POOL_START.load(Ordering::Relaxed) + POOL {
            return std::ptr::null_mut();
        }
        POOL_NEXT = at + (1 << c);
        at as *mut u8
    }
}

fn in_pool(p: *mut u8) -> bool {
    let start = POOL_START.load(Ordering::Relaxed);
    start != 0 && (p as usize).wrapping_sub(start) < POOL
}

unsafe fn get(l: Layout) -> *mut u8 {
    unsafe {
        if POOL_START.load(Ordering::Relaxed) != 0 && POOLED.try_with(Cell::get).unwrap_or(false) && l.align() <= 4096 {
            pool_alloc(l)
        } else {
            System.alloc(l)
        }
    }
}

unsafe fn put(p: *mut u8, l: Layout) {
    unsafe {
        if in_pool(p) {
            let c = class(l);
            *(p as *mut usize) = POOL_FREE[c];
            POOL_FREE[c] = p as usize;
        } else {
            System.dealloc(p, l)
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1, l.size() as u64);
        unsafe { get(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1, 0);
        unsafe { put(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1, l.size() as u64);
        if POOL_START.load(Ordering::Relaxed) != 0 {
            let p = unsafe { get(l) };
            if !p.is_null() {
                unsafe { p.write_bytes(0, l.size()) }
            }
            return p;
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64, 0, n as u64);
        if in_pool(p) {
            let new = Layout::from_size_align(n, l.align()).unwrap();
            if class(new) == class(l) {
                return p;
            }
            unsafe {
                let q = get(new);
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    put(p, l);
                }
                return q;
            }
        }
        unsafe { System.realloc(p, l, n) }
    }
}

pub fn stat() -> Stat {
    STAT.with(Cell::get)
}

/// Restart peak measurement from the current level.
pub fn reset_peak() {
    STAT.with(|s| {
        let mut v = s.get();
        v.peak = v.live;
        s.set(v);
    });
}

/// End the process with code 98 if this thread ever holds more than `extra` bytes beyond now.
pub fn set_limit(extra: Option<i64>) {
    let live = stat().live;
    LIMIT.with(|l| l.set(extra.map_or(i64::MAX, |e| live.saturating_add(e))));
}
