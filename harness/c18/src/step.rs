//! Preemption at every instruction: one thread is single-stepped by the processor's trap flag, and
//! at chosen instructions another thread runs a whole call while the first one is stopped in the
//! middle of whatever it was doing.

use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, Ordering::*};

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn syscall(n: i64, ...) -> i64;
}
const SIGTRAP: i32 = 5;

/// 0 idle, 1 asked, 2 done, 3 quit.
static TURN: AtomicU32 = AtomicU32::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
/// The other thread runs at steps FIRST, FIRST + EVERY, ... below LAST.
static FIRST: AtomicU64 = AtomicU64::new(0);
static EVERY: AtomicU64 = AtomicU64::new(1);
static LAST: AtomicU64 = AtomicU64::new(0);
static RUNS: AtomicU64 = AtomicU64::new(0);
static JOB: AtomicPtr<Job> = AtomicPtr::new(std::ptr::null_mut());

pub struct Job {
    /// Runs the call and says whether it behaved.
    pub run: Box<dyn FnMut() -> Result<(), String> + Send>,
    pub bad: Option<String>,
}

fn wait_while(v: u32) {
    for _ in 0..100 {
        if TURN.load(Acquire) != v {
            return;
        }
        std::hint::spin_loop();
    }
    while TURN.load(Acquire) == v {
        unsafe { syscall(202, &TURN as *const _, 128, v, std::ptr::null::<u8>()) };
    }
}
fn turn(v: u32) {
    TURN.store(v, Release);
    unsafe { syscall(202, &TURN as *const _, 129, i32::MAX) };
}

extern "C" fn on_step(_: i32, _: *mut u8, ctx: *mut u8) {
    let n = STEPS.fetch_add(1, Relaxed);
    if n >= LAST.load(Relaxed) {
        // Far enough: clear the trap flag of the interrupted context.
        unsafe {
            let efl = (ctx as *mut u64).add(5 + 17);
            *efl &= !0x100;
        }
        return;
    }
    let f = FIRST.load(Relaxed);
    if n >= f && (n - f) % EVERY.load(Relaxed) == 0 {
        RUNS.fetch_add(1, Relaxed);
        turn(1);
        wait_while(1);
    }
}

pub fn install() {
    unsafe {
        let a = SigAction { handler: on_step as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        assert!(sigaction(SIGTRAP, &a, std::ptr::null_mut()) == 0);
    }
}

/// The thread the other calls run on. Returns when told to quit.
pub fn other() {
    loop {
        wait_while(0);
        wait_while(2);
        match TURN.load(Acquire) {
            1 => {
                let j = unsafe { &mut *JOB.load(Acquire) };
                if let Err(e) = (j.run)() {
                    if j.bad.is_none() {
                        j.bad = Some(e);
                    }
                }
                turn(2);
            }
            3 => return,
            _ => {}
        }
    }
}
pub fn quit() {
    turn(3)
}

#[inline(never)]
fn trap(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq");
        }
    }
}

/// Runs `f` single-stepped with the job at the chosen steps. Returns its result, the number of
/// instructions it took and the number of times the job ran.
pub fn stepped<R>(first: u64, every: u64, last: u64, job: &mut Job, f: impl FnOnce() -> R) -> (R, u64, u64) {
    STEPS.store(0, Relaxed);
    RUNS.store(0, Relaxed);
    FIRST.store(first, Relaxed);
    EVERY.store(every, Relaxed);
    LAST.store(last, Relaxed);
    JOB.store(job, Release);
    trap(true);
    let r = f();
    trap(false);
    (r, STEPS.load(Relaxed), RUNS.load(Relaxed))
}
