//! A checking allocator: every block carries a header, so that double frees, frees with the wrong
//! layout and frees of foreign pointers abort the worker (which the runner reports), fresh memory
//! is filled with 0xAA, freed memory with 0xDD, and the number of live blocks and bytes is known.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Checked;

static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static TOTAL_BYTES: AtomicU64 = AtomicU64::new(0);

// The deepest place on one watched stack at which a block was made or freed.
static STACK_LOW: AtomicUsize = AtomicUsize::new(0);
static STACK_FROM: AtomicUsize = AtomicUsize::new(0);

#[inline(always)]
fn watch() {
    let here = 0u8;
    let at = std::hint::black_box(&here) as *const u8 as usize;
    if at < STACK_LOW.load(Relaxed) && at >= STACK_FROM.load(Relaxed) {
        STACK_LOW.store(at, Relaxed);
    }
}
/// Watches the `size` bytes of the stack below the caller.
pub fn stack_watch(size: usize) {
    let here = 0u8;
    let at = std::hint::black_box(&here) as *const u8 as usize;
    STACK_FROM.store(at.saturating_sub(size), Relaxed);
    STACK_LOW.store(at, Relaxed);
}
/// The lowest address seen since.
pub fn stack_low() -> usize {
    STACK_LOW.load(Relaxed)
}

const LIVE: u64 = 0x4c49_5645_b10c_4b00;
const DEAD: u64 = 0xdead_dead_b10c_4b00;

fn pad(align: usize) -> usize {
    align.max(16)
}

#[cold]
fn die(msg: &str) -> ! {
    // No allocation here.
    use std::io::Write;
    let _ = std::io::stderr().write_all(msg.as_bytes());
    std::process::abort()
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        watch();
        let p = pad(l.align());
        let Some(n) = l.size().checked_add(p) else { return std::ptr::null_mut() };
        let Ok(real) = Layout::from_size_align(n, p) else { return std::ptr::null_mut() };
        let base = System.alloc(real);
        if base.is_null() {
            return base;
        }
        let user = base.add(p);
        let h = user.sub(16) as *mut u64;
        h.write(LIVE);
        h.add(1).write(l.size() as u64);
        std::ptr::write_bytes(user, 0xAA, l.size());
        BLOCKS.fetch_add(1, Relaxed);
        let b = BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        if b > PEAK.load(Relaxed) {
            PEAK.store(b, Relaxed);
        }
        TOTAL.fetch_add(1, Relaxed);
        TOTAL_BYTES.fetch_add(l.size() as u64, Relaxed);
        user
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        watch();
        let h = user.sub(16) as *mut u64;
        if h.read() != LIVE {
            die("checked allocator: free of a block that is not live\n");
        }
        if h.add(1).read() != l.size() as u64 {
            die("checked allocator: free with a different size\n");
        }
        h.write(DEAD);
        std::ptr::write_bytes(user, 0xDD, l.size());
        BLOCKS.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        let p = pad(l.align());
        System.dealloc(user.sub(p), Layout::from_size_align_unchecked(l.size() + p, p));
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Mark {
    pub blocks: i64,
    pub bytes: i64,
}

pub fn mark() -> Mark {
    Mark { blocks: BLOCKS.load(Relaxed), bytes: BYTES.load(Relaxed) }
}
pub fn total_allocs() -> u64 {
    TOTAL.load(Relaxed)
}
pub fn total_bytes() -> u64 {
    TOTAL_BYTES.load(Relaxed)
}
/// Resets the peak to the current level and returns that level.
pub fn reset_peak() -> i64 {
    let b = BYTES.load(Relaxed);
    PEAK.store(b, Relaxed);
    b
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
