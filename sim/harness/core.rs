//! Simulation core: one seed -> one run. Every decision (operation, fault, interleaving, delay) is a
//! recorded draw from a seeded PRNG; replaying the recorded draws replays the run.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Prng(pub [u64; 4]);
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Prng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Prng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub const FNV0: u64 = 0xcbf29ce484222325;

pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub struct Ctx {
    pub seed: u64,
    pub prop: String,
    pub replay: Option<Vec<u64>>,
    pub choices: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    open_spans: Vec<usize>,
    prng: Prng,
    pub ent: Prng,
    pub events: Vec<String>,
    pub evhash: u64,
    pub nevents: u64,
    pub shape: u64,
    pub stats: BTreeMap<String, u64>,
    pub now_ns: u64,
    pub violation: Option<(String, String)>,
    pub steps: u64,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();
/// The context of the current run (exactly one simulated thread executes at any instant).
#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Ctx {
    unsafe {
        assert!(!CTX.is_null(), "no simulation context");
        &mut *CTX
    }
}
pub fn active() -> bool {
    unsafe { !CTX.is_null() }
}
pub fn install(c: Ctx) {
    unsafe { CTX = Box::into_raw(Box::new(c)) }
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, replay: Option<Vec<u64>>) -> Ctx {
        let base = fnv(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ FNV0, prop.as_bytes());
        Ctx {
            seed,
            prop: prop.into(),
            replay,
            choices: vec![],
            spans: vec![],
            open_spans: vec![],
            prng: Prng::new(base),
            ent: Prng::new(base ^ 0xE27),
            events: vec![],
            evhash: FNV0,
            nevents: 0,
            shape: FNV0,
            stats: BTreeMap::new(),
            now_ns: 0,
            violation: None,
            steps: 0,
        }
    }
    /// A recorded draw in 0..n. By convention 0 is the simplest choice (no fault, first option).
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.choices.len()).copied().unwrap_or(0).min(n.saturating_sub(1)),
            None => self.prng.below(n),
        };
        self.choices.push(v);
        v
    }
    pub fn pick(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// true with probability num/den; recorded as 0 (false) or 1.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = match &self.replay {
            Some(r) => r.get(self.choices.len()).copied().unwrap_or(0).min(1),
            None => (self.prng.below(den) < num) as u64,
        };
        self.choices.push(v);
        v == 1
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    /// An independent data stream identified by a recorded draw (bulk content does not lengthen the choice list).
    pub fn stream(&mut self) -> Prng {
        let d = self.draw(1 << 32);
        Prng::new(self.seed.wrapping_mul(0xD6E8FEB86659FD93) ^ d.wrapping_mul(0xA0761D6478BD642F) ^ 0x5EED)
    }
    pub fn begin(&mut self, what: &str) {
        self.open_spans.push(self.choices.len());
        self.steps += 1;
        self.shape = fnv(self.shape, what.as_bytes());
        self.stat(&format!("op.{what}"));
    }
    pub fn end(&mut self) {
        if let Some(s) = self.open_spans.pop() {
            self.spans.push((s, self.choices.len()));
        }
    }
    pub fn ev(&mut self, s: String) {
        self.evhash = fnv(self.evhash, s.as_bytes());
        self.evhash = fnv(self.evhash, b"\n");
        self.nevents += 1;
        if self.events.len() < 4000 {
            self.events.push(s);
        }
    }
    pub fn stat(&mut self, k: &str) {
        self.stat_n(k, 1)
    }
    pub fn stat_n(&mut self, k: &str, n: u64) {
        match self.stats.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.stats.insert(k.to_string(), n);
            }
        }
    }
    /// A fault that really fired.
    pub fn fault(&mut self, k: &str) {
        self.shape = fnv(self.shape, k.as_bytes());
        let n = self.now_ns;
        self.stat(&format!("fault.{k}"));
        self.ev(format!("  [t={}us] FAULT {k}", n / 1000));
    }
    /// "this rare condition was hit"
    pub fn probe(&mut self, k: &str) {
        self.stat(&format!("probe.{k}"));
    }
    pub fn shape_add(&mut self, k: &str) {
        self.shape = fnv(self.shape, k.as_bytes());
    }
}

pub fn violate(class: &str, msg: String) -> ! {
    let c = cx();
    if c.violation.is_none() {
        c.ev(format!("VIOLATION {class}: {msg}"));
        c.violation = Some((class.to_string(), msg.clone()));
    }
    std::panic::panic_any(Violation { class: class.into(), msg })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => { if !$c { $crate::core::violate($class, format!($($a)*)) } }
}
#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => { $crate::core::cx().ev(format!($($a)*)) }
}

pub static mut LAST_PANIC: Option<(String, String)> = None;
#[allow(static_mut_refs)]
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _g = crate::seam::sched::np();
        if info.payload().downcast_ref::<Violation>().is_some() || info.payload().downcast_ref::<Deliberate>().is_some() {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if std::env::var("SIM_BT").is_ok() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if loc.starts_with("harness/") && crate::seam::sched::active() && crate::seam::sched::me() > 1 {
            crate::runner::emit_error(format!("{loc}: {msg}"));
        }
        unsafe { LAST_PANIC = Some((loc, msg)) };
    }));
}
#[allow(static_mut_refs)]
pub fn take_panic() -> (String, String) {
    unsafe { LAST_PANIC.take().unwrap_or(("?".into(), "?".into())) }
}

/// Marker for a panic the harness itself threw on purpose (for example a simulated crash or a panicking signer).
pub struct Deliberate(pub &'static str);

/// Calls into the code under test. A panic there is itself a violation (class "panic").
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match catch_unwind(AssertUnwindSafe(|| crate::seam::sched::preemptible(f))) {
        Ok(v) => v,
        Err(p) => {
            if p.downcast_ref::<Violation>().is_some() || p.downcast_ref::<Deliberate>().is_some() {
                std::panic::resume_unwind(p);
            }
            let (loc, msg) = take_panic();
            if loc.starts_with("harness/") {
                // a bug of the harness, not of the code under test
                std::panic::panic_any(format!("harness panic in {what} at {loc}: {msg}"));
            }
            let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
            violate(&format!("panic in {file}"), format!("{what} panicked at {loc}: {msg}"))
        }
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(64) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 64 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
