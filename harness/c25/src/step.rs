//! Counts machine instructions by single-stepping with the trap flag.

use std::sync::atomic::{AtomicU64, Ordering::*};

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}
static STEPS: AtomicU64 = AtomicU64::new(0);

extern "C" fn on_step(_: i32, _: *mut u8, _: *mut u8) {
    STEPS.store(STEPS.load(Relaxed) + 1, Relaxed);
}
pub fn install() {
    unsafe {
        let a = SigAction { handler: on_step as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        assert!(sigaction(5, &a, std::ptr::null_mut()) == 0);
    }
}
#[inline(never)]
fn trap(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq");
        }
    }
}
pub fn count(f: &mut dyn FnMut()) -> u64 {
    STEPS.store(0, Relaxed);
    trap(true);
    f();
    trap(false);
    STEPS.load(Relaxed)
}
