//! Allocator seam: watches blocks on their way back to the allocator, and accounts live bytes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;
const MAXW: usize = 1024;
pub struct Watch {
    pub ptr: usize,
    pub len: usize,
    /// 0 watching, 1 freed wiped, 2 freed with content
    pub state: u8,
    pub tag: u32,
}
static WATCHING: AtomicBool = AtomicBool::new(false);
static NW: AtomicUsize = AtomicUsize::new(0);
static mut WATCHES: [Watch; MAXW] = [const { Watch { ptr: 0, len: 0, state: 0, tag: 0 } }; MAXW];
pub static FREED_BLOCKS: AtomicUsize = AtomicUsize::new(0);

pub fn watch_reset() {
    NW.store(0, Relaxed);
    WATCHING.store(true, Relaxed);
}
pub fn deactivate() {
    WATCHING.store(false, Relaxed);
}
#[allow(static_mut_refs)]
pub fn watch(ptr: *const u8, len: usize, tag: u32) -> usize {
    let i = NW.load(Relaxed);
    assert!(i < MAXW);
    unsafe { WATCHES[i] = Watch { ptr: ptr as usize, len, state: 0, tag } };
    NW.store(i + 1, Relaxed);
    i
}
#[allow(static_mut_refs)]
pub fn watches() -> &'static [Watch] {
    unsafe { &WATCHES[..NW.load(Relaxed)] }
}
/// Secrets to look for in every block that is freed while SCANNING, whoever allocated it.
static SCANNING: AtomicBool = AtomicBool::new(false);
static mut SECRETS: Vec<Vec<u8>> = Vec::new();
/// Size of a freed block with a secret in it, and which
static LEAKED: AtomicUsize = AtomicUsize::new(0);
static LEAKED_WHICH: AtomicUsize = AtomicUsize::new(0);
/// Runs f and reports a block freed meanwhile that held one of the secrets: (block size, index of the secret).
#[allow(static_mut_refs)]
pub fn scan<T>(secrets: Vec<Vec<u8>>, f: impl FnOnce() -> T) -> (T, Option<(usize, usize)>) {
    unsafe { SECRETS = secrets };
    LEAKED.store(0, Relaxed);
    SCANNING.store(true, Relaxed);
    let r = f();
    SCANNING.store(false, Relaxed);
    unsafe { SECRETS = Vec::new() };
    let n = LEAKED.load(Relaxed);
    (r, (n > 0).then(|| (n, LEAKED_WHICH.load(Relaxed))))
}
#[allow(static_mut_refs)]
unsafe fn on_free(p: *mut u8, size: usize) {
    if SCANNING.load(Relaxed) && LEAKED.load(Relaxed) == 0 {
        for (i, s) in SECRETS.iter().enumerate() {
            if size >= s.len() && !libc::memmem(p as *const _, size, s.as_ptr() as *const _, s.len()).is_null() {
                LEAKED.store(size, Relaxed);
                LEAKED_WHICH.store(i, Relaxed);
            }
        }
    }
    let n = NW.load(Relaxed);
    for w in WATCHES[..n].iter_mut() {
        if w.state == 0 && w.ptr >= p as usize && w.ptr < p as usize + size {
            let s = std::slice::from_raw_parts(w.ptr as *const u8, w.len.min(p as usize + size - w.ptr));
            w.state = if s.iter().all(|b| *b == 0) { 1 } else { 2 };
            FREED_BLOCKS.fetch_add(1, Relaxed);
        }
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        super::sched::alloc_point();
        if WATCHING.load(Relaxed) {
            // no remains of earlier users in it
            return System.alloc_zeroed(l);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        super::sched::alloc_point();
        if WATCHING.load(Relaxed) {
            on_free(p, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        super::sched::alloc_point();
        if WATCHING.load(Relaxed) {
            on_free(p, l.size());
            let q = System.realloc(p, l, n);
            if !q.is_null() && n > l.size() {
                std::ptr::write_bytes(q.add(l.size()), 0, n - l.size());
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}
#[allow(static_mut_refs)]
pub fn unwatch(tag: u32) {
    unsafe {
        for w in WATCHES[..NW.load(Relaxed)].iter_mut() {
            if w.tag == tag && w.state == 0 {
                w.state = 3;
            }
        }
    }
}
