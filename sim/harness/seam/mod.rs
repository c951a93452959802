//! Seams: everything below the code under test that is nondeterministic or can fail.
//! The functions are interposed by symbol name in the harness binary; with the simulation inactive
//! they fall through to the kernel.
pub mod alloc;
pub mod fs;
pub mod hid;
pub mod pcsc;
pub mod sched;
pub mod sys;

use std::sync::atomic::{AtomicBool, Ordering};
static ON: AtomicBool = AtomicBool::new(false);
pub fn on() -> bool {
    ON.load(Ordering::Relaxed)
}
pub fn activate() {
    ON.store(true, Ordering::Relaxed);
}
pub fn deactivate() {
    ON.store(false, Ordering::Relaxed);
    alloc::deactivate();
}
