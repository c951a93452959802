//! Thread scheduler seam. While it is active exactly one simulated thread runs; every blocking primitive of the code
//! under test (futex, sleep, poll, device reads, joins) comes here, and every choice of who runs next is a recorded draw.
//! Time is simulated: it moves when nobody can run, or by a few microseconds per dispatch.
use super::sys::{raw, set_errno};
use crate::core::cx;
use libc::{c_int, c_long, c_void};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, Ordering::*};

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
    static NOPRE: Cell<u32> = const { Cell::new(0) };
}
static ACTIVE: AtomicBool = AtomicBool::new(false);
/// allocations until the next preemption; 0 or less: none planned
static COUNTDOWN: AtomicI64 = AtomicI64::new(0);

pub struct NoPre;
/// No preemption while harness code runs.
pub fn np() -> NoPre {
    NOPRE.with(|n| n.set(n.get() + 1));
    NoPre
}
impl Drop for NoPre {
    fn drop(&mut self) {
        NOPRE.with(|n| n.set(n.get() - 1));
    }
}
/// Preemption is allowed inside `f` (a call into the code under test made by the run's own thread).
pub fn preemptible<T>(f: impl FnOnce() -> T) -> T {
    if !ACTIVE.load(Relaxed) {
        return f();
    }
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            NOPRE.with(|n| n.set(n.get() + 1));
        }
    }
    NOPRE.with(|n| n.set(n.get() - 1));
    let _g = G;
    f()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Runnable,
    Futex { addr: usize, mask: u32 },
    Sleep,
    Join(usize),
    /// waiting for the world: a device report or a monitor event
    Io(u64),
    Done,
}
impl St {
    fn tell(&self) -> String {
        match self {
            St::Futex { .. } => "waiting for another thread".into(),
            St::Join(j) => format!("joining thread {j}"),
            St::Io(_) => "reading a device".into(),
            x => format!("{x:?}"),
        }
    }
}
struct Th {
    st: St,
    word: &'static AtomicU32,
    native: libc::pthread_t,
    deadline: Option<u64>,
    /// why it was woken: true = its deadline passed
    timed_out: bool,
    prio: u64,
}
#[derive(Default)]
pub struct S {
    th: Vec<Th>,
    rq: Vec<usize>,
    pub policy: u64,
    pub density: u64,
    pub spurious: bool,
    pub slow_budget_ns: u64,
    pub slow_max_ns: u64,
    pub fail_spawn_at: Option<u64>,
    pub spawns: u64,
    pub spawn_failed: bool,
    pub steps: u64,
    pub switches: u64,
    changes: Vec<u64>,
    low: u64,
    /// the run must be over before this simulated time
    pub time_limit: u64,
    pub what: String,
    /// the threads are the caller's own, inside `race`
    pub race: bool,
    pub max_threads: usize,
}
static mut SCHED: Option<S> = None;
#[allow(static_mut_refs)]
pub fn s() -> &'static mut S {
    unsafe { SCHED.get_or_insert_with(Default::default) }
}
pub fn active() -> bool {
    ACTIVE.load(Relaxed) && ME.with(|m| m.get()) != 0
}
pub fn racing() -> bool {
    active() && s().race
}
pub fn me() -> usize {
    ME.with(|m| m.get())
}

/// Grows whenever the running thread gets somewhere the harness can see.
static BEAT: AtomicI64 = AtomicI64::new(0);
static LAST: AtomicI64 = AtomicI64::new(-1);
static RUNNING: AtomicI64 = AtomicI64::new(0);
/// A thread that waits in a spin loop for one that lost the processor enters no seam. After a second of processor time
/// without one, the timer takes the processor away from it; what it does there has no effects, so the moment of the
/// timer makes no difference to the run.
extern "C" fn spinning(_: c_int) {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    let b = BEAT.load(Relaxed);
    if LAST.swap(b, Relaxed) != b {
        return;
    }
    let r = RUNNING.load(Relaxed);
    unsafe {
        let tid = raw(libc::SYS_gettid, [0; 6]);
        if r > 0 && r as c_long != tid {
            raw(libc::SYS_tgkill, [libc::getpid() as c_long, r as c_long, libc::SIGUSR2 as c_long, 0, 0, 0]);
            return;
        }
    }
    preempt_spinner();
}
extern "C" fn spinning_here(_: c_int) {
    if ACTIVE.load(Relaxed) && BEAT.load(Relaxed) == LAST.load(Relaxed) && unsafe { raw(libc::SYS_gettid, [0; 6]) } == RUNNING.load(Relaxed) as c_long {
        preempt_spinner();
    }
}
fn preempt_spinner() {
    if ME.with(|m| m.get()) == 0 || NOPRE.with(|n| n.get()) > 0 || s().rq.is_empty() {
        return;
    }
    let e = unsafe { *libc::__errno_location() };
    cx().stat("sched.spinning");
    yield_now();
    set_errno(e);
}
fn watch(on: bool) {
    unsafe {
        if on {
            for (sig, f) in [(libc::SIGVTALRM, spinning as extern "C" fn(c_int)), (libc::SIGUSR2, spinning_here)] {
                let mut a: libc::sigaction = std::mem::zeroed();
                a.sa_sigaction = f as usize;
                a.sa_flags = libc::SA_RESTART;
                libc::sigaction(sig, &a, std::ptr::null_mut());
            }
            RUNNING.store(raw(libc::SYS_gettid, [0; 6]) as i64, Relaxed);
        }
        let s = if on { 1 } else { 0 };
        let t = [s as i64, 0, s as i64, 0];
        raw(libc::SYS_setitimer, [1, t.as_ptr() as c_long, 0, 0, 0, 0]);
    }
}

/// Draws the scheduling regime of this run and makes the calling thread the first simulated thread.
pub fn start() {
    let c = cx();
    let sc = s();
    sc.policy = c.draw(4); // 0 first come first served, 1 random, 2 priorities with change points, 3 random + preemption
    sc.density = if sc.policy == 0 { 0 } else { [0u64, 4000, 400, 60][c.pick(4)] };
    sc.spurious = c.chance(1, 8);
    if c.chance(1, 4) {
        sc.slow_max_ns = [1_000_000u64, 30_000_000, 400_000_000][c.pick(3)];
        sc.slow_budget_ns = 3_000_000_000;
    }
    if sc.policy == 2 {
        for _ in 0..3 {
            let v = c.draw(400);
            sc.changes.push(v);
        }
    }
    c.stat(&format!("sched.policy_{}", sc.policy));
    go();
}
fn go() {
    let sc = s();
    sc.low = 1000;
    sc.time_limit = u64::MAX;
    sc.th.push(Th { st: St::Done, word: leak(), native: 0, deadline: None, timed_out: false, prio: 0 }); // 0 is "not simulated"
    let prio = prio(sc);
    sc.th.push(Th { st: St::Runnable, word: leak(), native: unsafe { libc::pthread_self() }, deadline: None, timed_out: false, prio });
    ME.with(|m| m.set(1));
    NOPRE.with(|n| n.set(1));
    ACTIVE.store(true, SeqCst);
    watch(true);
    plan_preempt();
}
/// Runs the jobs on threads of their own, all interleavings decided here; a panic of a job goes on in the caller.
pub fn race<'a, T: Send + 'a>(what: &str, jobs: Vec<Box<dyn FnOnce() -> T + Send + 'a>>) -> Vec<T> {
    let c = cx();
    assert!(!ACTIVE.load(SeqCst));
    *s() = S::default();
    let sc = s();
    sc.policy = [3u64, 1, 2, 0][c.pick(4)];
    sc.density = if sc.policy == 0 { 0 } else { [40u64, 3, 10, 200, 1000][c.pick(5)] };
    sc.spurious = c.chance(1, 8);
    if sc.policy == 2 {
        for _ in 0..3 {
            let v = c.draw(60);
            sc.changes.push(v);
        }
    }
    sc.what = what.to_string();
    sc.race = true;
    c.stat("sched.races");
    go();
    let r: Vec<std::thread::Result<T>> = std::thread::scope(|sc| {
        let h: Vec<_> = jobs
            .into_iter()
            .map(|j| {
                sc.spawn(move || {
                    let _g = np();
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(j))
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().and_then(|r| r)).collect()
    });
    stop();
    let mut out = vec![];
    for x in r {
        match x {
            Ok(v) => out.push(v),
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    out
}
/// Ends the simulation of threads (the run's own thread continues as an ordinary thread).
pub fn stop() {
    watch(false);
    ACTIVE.store(false, SeqCst);
    ME.with(|m| m.set(0));
    NOPRE.with(|n| n.set(0));
    let sc = s();
    let c = cx();
    c.stat_n("sched.dispatches", sc.steps);
    c.stat_n("sched.switches", sc.switches);
    c.stat_n("sched.threads", sc.th.len() as u64 - 1);
}
/// Threads other than the caller that have not ended.
pub fn alive_others() -> Vec<String> {
    let m = me();
    s().th.iter().enumerate().skip(1).filter(|(i, t)| *i != m && t.st != St::Done).map(|(i, t)| format!("thread {i}: {}", t.st.tell())).collect()
}
fn leak() -> &'static AtomicU32 {
    Box::leak(Box::new(AtomicU32::new(0)))
}
fn prio(sc: &S) -> u64 {
    if sc.policy == 2 {
        1000 + cx().draw(1000)
    } else {
        0
    }
}
fn plan_preempt() {
    let sc = s();
    let g = if sc.density == 0 {
        0
    } else {
        cx().draw(sc.density * 2) // 0: no more preemptions
    };
    COUNTDOWN.store(g as i64, Relaxed);
}
/// Called by the allocator.
#[inline]
pub fn alloc_point() {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    slow_alloc_point();
}
#[inline(never)]
fn slow_alloc_point() {
    if ME.with(|m| m.get()) == 0 || NOPRE.with(|n| n.get()) > 0 {
        return;
    }
    BEAT.store(BEAT.load(Relaxed) + 1, Relaxed);
    let c = COUNTDOWN.load(Relaxed);
    if c <= 0 {
        return;
    }
    COUNTDOWN.store(c - 1, Relaxed);
    if c == 1 {
        let _g = np();
        let e = unsafe { *libc::__errno_location() };
        cx().stat("sched.preemptions");
        plan_preempt();
        yield_now();
        set_errno(e);
    }
}

unsafe fn park(w: &AtomicU32) {
    while w.load(Acquire) == 0 {
        raw(libc::SYS_futex, [w as *const _ as c_long, (libc::FUTEX_WAIT | 128) as c_long, 0, 0, 0, 0]);
    }
    w.store(0, Release);
    RUNNING.store(raw(libc::SYS_gettid, [0; 6]) as i64, Relaxed);
}
unsafe fn unpark(w: &AtomicU32) {
    w.store(1, Release);
    raw(libc::SYS_futex, [w as *const _ as c_long, (libc::FUTEX_WAKE | 128) as c_long, 1, 0, 0, 0]);
}

fn make_runnable(i: usize, timed_out: bool) {
    let sc = s();
    let t = &mut sc.th[i];
    t.st = St::Runnable;
    t.deadline = None;
    t.timed_out = timed_out;
    sc.rq.push(i);
}
/// The world says: whoever waits for `key` can go on.
pub fn wake_io(key: u64) {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    for i in 1..s().th.len() {
        if s().th[i].st == St::Io(key) {
            make_runnable(i, false);
        }
    }
}
fn wake_timers(now: u64) {
    let sc = s();
    let mut due: Vec<(u64, usize)> = vec![];
    for (i, t) in sc.th.iter().enumerate() {
        if let Some(d) = t.deadline {
            if d <= now && t.st != St::Runnable && t.st != St::Done {
                due.push((d, i));
            }
        }
    }
    due.sort();
    for (_, i) in due {
        make_runnable(i, true);
    }
}
pub fn fatal(class: &str, msg: String) -> ! {
    let c = cx();
    if c.violation.is_none() {
        c.ev(format!("VIOLATION {class}: {msg}"));
        c.violation = Some((class.to_string(), msg));
    }
    crate::runner::emit_and_exit()
}
/// A situation the harness cannot judge: the run ends here without a verdict.
pub fn abandon(why: &str) -> ! {
    cx().stat(&format!("op.abandoned_{why}"));
    crate::runner::emit_and_exit()
}
fn choose() -> usize {
    let sc = s();
    let c = cx();
    let n = sc.rq.len();
    let i = if n == 1 {
        0
    } else {
        match sc.policy {
            0 => 0,
            2 => {
                let mut b = 0;
                for i in 1..n {
                    if sc.th[sc.rq[i]].prio > sc.th[sc.rq[b]].prio {
                        b = i;
                    }
                }
                b
            }
            _ => c.pick(n),
        }
    };
    sc.rq.remove(i)
}
/// Picks the next thread and hands over; returns when the caller is picked again.
fn dispatch() {
    let m = me();
    let sc = s();
    loop {
        sc.steps += 1;
        BEAT.store(BEAT.load(Relaxed) + 1, Relaxed);
        let c = cx();
        c.now_ns += 2_000;
        if sc.slow_budget_ns > 0 && sc.slow_max_ns > 0 && c.chance(1, 24) {
            let d = c.draw(sc.slow_max_ns / 1000) * 1000;
            let d = d.min(sc.slow_budget_ns);
            sc.slow_budget_ns -= d;
            c.now_ns += d;
            c.stat("fault.slow_machine");
        }
        super::hid::run_due(c.now_ns);
        wake_timers(c.now_ns);
        if !sc.rq.is_empty() {
            break;
        }
        let mut next = super::hid::next_event();
        for t in sc.th.iter() {
            if t.st != St::Runnable && t.st != St::Done {
                if let Some(d) = t.deadline {
                    next = Some(next.map_or(d, |n| n.min(d)));
                }
            }
        }
        match next {
            Some(t) => c.now_ns = c.now_ns.max(t),
            None => {
                let w: Vec<String> = sc.th.iter().enumerate().skip(1).filter(|(_, t)| t.st != St::Done).map(|(i, t)| format!("thread {i}: {}", t.st.tell())).collect();
                fatal("deadlock", format!("{} never returns: every thread waits for ever ({})", sc.what, w.join(", ")))
            }
        }
        if c.now_ns > sc.time_limit {
            let w = alive_others().join(", ");
            fatal("does not return", format!("{} has not returned after {} s of simulated time ({w})", sc.what, c.now_ns / 1_000_000_000));
        }
    }
    if sc.steps > 400_000 {
        fatal("does not return", format!("{} keeps running without getting anywhere ({} dispatches)", sc.what, sc.steps));
    }
    if sc.policy == 2 && sc.changes.contains(&sc.steps) {
        if let Some(t) = sc.rq.first().copied() {
            sc.low -= 1;
            let l = sc.low;
            sc.th[t].prio = l;
        }
    }
    let next = choose();
    if next != m {
        sc.switches += 1;
        cx().shape = crate::core::fnv(cx().shape, &[next as u8]);
        let w = sc.th[next].word;
        let mine = sc.th[m].word;
        let done = sc.th[m].st == St::Done;
        if done {
            ME.with(|x| x.set(0));
        }
        unsafe {
            unpark(w);
            if !done {
                park(mine);
            }
        }
    }
}
/// Blocks the calling thread; true if the deadline passed.
pub fn block(st: St, deadline: Option<u64>) -> bool {
    let _g = np();
    let m = me();
    let t = &mut s().th[m];
    t.st = st;
    t.deadline = deadline;
    t.timed_out = false;
    dispatch();
    s().th[m].timed_out
}
/// Lets others run.
pub fn yield_now() {
    let _g = np();
    let m = me();
    let sc = s();
    sc.rq.push(m);
    if sc.policy == 2 && sc.rq.len() > 1 {
        // a yielding thread must not starve the others
        let p = sc.th[m].prio;
        sc.th[m].prio = 0;
        dispatch();
        s().th[m].prio = p;
    } else {
        dispatch();
    }
}
/// A point where the running thread may lose the processor.
pub fn point() {
    if !active() {
        return;
    }
    let _g = np();
    let sc = s();
    if sc.policy == 1 || sc.policy == 3 {
        if cx().chance(1, 3) {
            yield_now();
        }
    }
}

const MONO_BASE: u64 = 1000;
fn mono(ts: &libc::timespec) -> u64 {
    (ts.tv_sec.max(0) as u64).saturating_sub(MONO_BASE).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as u64)
}
fn rel(ts: &libc::timespec) -> u64 {
    (ts.tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as u64)
}
pub fn syscall(n: c_long, a: [c_long; 6]) -> Option<c_long> {
    if !active() || n != libc::SYS_futex {
        return None;
    }
    let _g = np();
    let op = a[1] as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    let addr = a[0] as usize;
    match op {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let mask = if op == libc::FUTEX_WAIT_BITSET { a[5] as u32 } else { !0 };
            if unsafe { (*(addr as *const AtomicU32)).load(SeqCst) } != a[2] as u32 {
                set_errno(libc::EAGAIN);
                return Some(-1);
            }
            let ts = a[3] as *const libc::timespec;
            let deadline = if ts.is_null() {
                None
            } else {
                let ts = unsafe { &*ts };
                Some(if op == libc::FUTEX_WAIT { cx().now_ns.saturating_add(rel(ts)) } else { mono(ts) })
            };
            if s().spurious && cx().chance(1, 16) {
                cx().stat("fault.spurious_wakeup");
                yield_now();
                return Some(0);
            }
            if block(St::Futex { addr, mask }, deadline) {
                set_errno(libc::ETIMEDOUT);
                return Some(-1);
            }
            Some(0)
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mask = if op == libc::FUTEX_WAKE_BITSET { a[5] as u32 } else { !0 };
            let mut n = 0;
            for i in 1..s().th.len() {
                if n >= a[2] {
                    break;
                }
                if let St::Futex { addr: x, mask: k } = s().th[i].st {
                    if x == addr && k & mask != 0 {
                        make_runnable(i, false);
                        n += 1;
                    }
                }
            }
            if n > 0 {
                point();
            }
            Some(n)
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- libc thread functions
unsafe fn next(name: &'static [u8]) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _)
}
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot {
    id: usize,
    word: &'static AtomicU32,
    f: Start,
    arg: *mut c_void,
}
extern "C" {
    fn __cxa_thread_atexit_impl(d: unsafe extern "C" fn(*mut c_void), obj: *mut c_void, dso: *mut c_void) -> c_int;
    static __dso_handle: u8;
}
unsafe extern "C" fn at_exit(_: *mut c_void) {
    // last destructor of the thread: it is over for everybody else
    let _g = np();
    let m = me();
    if m == 0 || !ACTIVE.load(Relaxed) {
        return;
    }
    let sc = s();
    sc.th[m].st = St::Done;
    for i in 1..sc.th.len() {
        if sc.th[i].st == St::Join(m) {
            make_runnable(i, false);
        }
    }
    dispatch();
    ME.with(|x| x.set(0));
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let b = unsafe { &*(p as *const Boot) };
    let (id, f, arg, word) = (b.id, b.f, b.arg, b.word);
    ME.with(|m| m.set(id));
    unsafe {
        __cxa_thread_atexit_impl(at_exit, std::ptr::null_mut(), &raw const __dso_handle as *mut c_void);
        park(word);
    }
    f(arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;
    static mut REAL: Option<F> = None;
    let real = match REAL {
        Some(r) => r,
        None => {
            let r: F = std::mem::transmute(next(b"pthread_create\0"));
            REAL = Some(r);
            r
        }
    };
    if !active() {
        return real(out, attr, f, arg);
    }
    let _g = np();
    let sc = s();
    let i = sc.spawns;
    sc.spawns += 1;
    if sc.fail_spawn_at == Some(i) {
        sc.spawn_failed = true;
        cx().fault("thread_creation_failure");
        return libc::EAGAIN;
    }
    let id = sc.th.len();
    let prio = prio(sc);
    let word = leak();
    sc.th.push(Th { st: St::Runnable, word, native: 0, deadline: None, timed_out: false, prio });
    let b = Box::leak(Box::new(Boot { id, word, f, arg }));
    let r = real(out, attr, tramp, b as *mut Boot as *mut c_void);
    if r != 0 {
        sc.th[id].st = St::Done;
        return r;
    }
    sc.th[id].native = *out;
    sc.rq.push(id);
    point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
    static mut REAL: Option<F> = None;
    let real = match REAL {
        Some(r) => r,
        None => {
            let r: F = std::mem::transmute(next(b"pthread_join\0"));
            REAL = Some(r);
            r
        }
    };
    if active() {
        let _g = np();
        let j = s().th.iter().enumerate().skip(1).rev().find(|(_, x)| x.native == t).map(|(i, _)| i);
        if let Some(j) = j {
            if s().th[j].st != St::Done {
                block(St::Join(j), None);
            }
            s().th[j].native = 0;
        }
    }
    real(t, ret)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        yield_now();
        return 0;
    }
    raw(libc::SYS_sched_yield, [0; 6]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, rq: *const libc::timespec, rm: *mut libc::timespec) -> c_int {
    if active() {
        let abs = flags & libc::TIMER_ABSTIME != 0;
        let d = if abs && clk == libc::CLOCK_MONOTONIC { mono(&*rq) } else { cx().now_ns.saturating_add(rel(&*rq)) };
        block(St::Sleep, Some(d));
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, [clk as c_long, flags as c_long, rq as c_long, rm as c_long, 0, 0]) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(rq: *const libc::timespec, rm: *mut libc::timespec) -> c_int {
    if active() {
        let d = cx().now_ns.saturating_add(rel(&*rq));
        block(St::Sleep, Some(d));
        return 0;
    }
    super::sys::ret(raw(libc::SYS_nanosleep, [rq as c_long, rm as c_long, 0, 0, 0, 0])) as c_int
}
