//! The simulated world: one tape of draws decides everything; faults, probes, the simulated clock
//! and the event log (hashed always, rendered only when asked for) are kept here.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Clone)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut n = || {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            mix(s)
        };
        Rng([n(), n(), n(), n()])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Anything a bounded choice can be taken from: the tape (`W`) or a bulk generator seeded from it.
pub trait Draw {
    fn draw(&mut self, n: u64) -> u64;
    fn upto(&mut self, max: usize) -> usize {
        self.draw(max as u64 + 1) as usize
    }
    fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo + 1) as u64) as usize
    }
    /// True with probability num/den; the simplest draw (0) is false.
    fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num.min(den)
    }
    fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64) as usize;
        &xs[i]
    }
    fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|&x| x as u64).sum();
        let mut v = self.draw(total);
        for (i, &x) in ws.iter().enumerate() {
            if v < x as u64 {
                return i;
            }
            v -= x as u64;
        }
        ws.len() - 1
    }
    /// A size at or near the boundaries code tends to have, at most `max`.
    fn size(&mut self, max: usize) -> usize {
        const S: &[usize] = &[
            0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 47, 48, 49,
            63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 999,
            1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193,
            16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000,
        ];
        let n = S.iter().take_while(|&&s| s <= max).count();
        S[self.draw(n as u64) as usize]
    }
}
impl Draw for Rng {
    fn draw(&mut self, n: u64) -> u64 {
        self.below(n)
    }
}

pub enum Source {
    Fresh(Rng),
    Replay(Vec<u64>),
}

pub struct World {
    src: Source,
    pub tape: Vec<u64>,
    hash: u64,
    /// Hash of the sequence of event kinds alone, repeats collapsed.
    shape: u64,
    last: u64,
    pub events: u64,
    pub trace: Option<Vec<String>>,
    pub clock_ns: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    /// The run exercised what its property is about (see each property's rule).
    pub nontrivial: bool,
    /// Every draw is also appended here, so that the tape survives a crash of the process.
    pub spill: Option<std::fs::File>,
    /// Columns of indent which the documents of the run afford, their text being so deep.
    pub columns: usize,
}

#[derive(Clone)]
pub struct W(Arc<Mutex<World>>);

impl Draw for W {
    fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let mut w = self.lock();
        let pos = w.tape.len();
        let v = match &mut w.src {
            Source::Fresh(r) => r.below(n),
            Source::Replay(t) => t.get(pos).copied().unwrap_or(0).min(n - 1),
        };
        w.tape.push(v);
        if let Some(f) = w.spill.as_mut() {
            use std::io::Write;
            let _ = f.write_all(format!("{} ", v).as_bytes());
        }
        w.hash = mix(w.hash ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ n);
        v
    }
}

impl W {
    pub fn fresh(seed: u64) -> W {
        W::with(Source::Fresh(Rng::new(seed)), false)
    }
    pub fn replay(tape: Vec<u64>, trace: bool) -> W {
        W::with(Source::Replay(tape), trace)
    }
    fn with(src: Source, trace: bool) -> W {
        W(Arc::new(Mutex::new(World {
            src,
            tape: Vec::new(),
            hash: 0x1234_5678,
            shape: 1,
            last: 0,
            events: 0,
            trace: if trace { Some(Vec::new()) } else { None },
            clock_ns: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            nontrivial: false,
            spill: None,
            columns: usize::MAX,
        })))
    }
    pub fn lock(&self) -> std::sync::MutexGuard<'_, World> {
        match self.0.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
    pub fn enable_trace(&self) {
        self.lock().trace = Some(Vec::new());
    }
    /// Records one event. `kind`, `a`, `b` are hashed; the text is only built when tracing.
    pub fn ev(&self, kind: &'static str, a: u64, b: u64) {
        let mut w = self.lock();
        let mut h = w.hash;
        for c in kind.bytes() {
            h = (h ^ c as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        let mut kh = 7u64;
        for c in kind.bytes() {
            kh = (kh ^ c as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        if kh != w.last {
            w.last = kh;
            w.shape = mix(w.shape ^ kh);
        }
        w.hash = mix(h ^ a.rotate_left(17) ^ b.rotate_left(41));
        w.events += 1;
        let t = w.clock_ns;
        if let Some(tr) = w.trace.as_mut() {
            if tr.len() < 4000 {
                tr.push(format!("t={}us {} {} {}", t / 1000, kind, a, b));
            }
        }
    }
    pub fn say(&self, f: impl FnOnce() -> String) {
        let mut w = self.lock();
        let t = w.clock_ns;
        if let Some(tr) = w.trace.as_mut() {
            if tr.len() < 4000 {
                let s = f();
                tr.push(format!("t={}us {}", t / 1000, s));
            }
        }
    }
    pub fn tracing(&self) -> bool {
        self.lock().trace.is_some()
    }
    pub fn tick(&self, ns: u64) {
        self.lock().clock_ns += ns;
    }
    /// A fault that really fired.
    pub fn fault(&self, kind: &'static str) {
        self.fault_n(kind, 1)
    }
    pub fn fault_n(&self, kind: &'static str, n: u64) {
        *self.lock().faults.entry(kind).or_insert(0) += n;
        self.ev(kind, n, 0);
    }
    /// A rare condition that was reached.
    pub fn probe(&self, name: &'static str) {
        *self.lock().probes.entry(name).or_insert(0) += 1;
    }
    pub fn mark(&self) {
        self.lock().nontrivial = true;
    }
    /// A document as deep as this, its joints' depths added up, is part of the run.
    pub fn deep(&self, sum: usize) {
        let mut w = self.lock();
        w.columns = w.columns.min((6_000_000 / (5 * sum + 1)).max(1));
    }
    pub fn columns(&self) -> usize {
        self.lock().columns
    }
    pub fn any_fault(&self) -> bool {
        !self.lock().faults.is_empty()
    }
    pub fn hash(&self) -> u64 {
        self.lock().hash
    }
    pub fn shape(&self) -> u64 {
        self.lock().shape
    }
    /// A bulk generator derived from one draw, for data too voluminous for the tape.
    pub fn sub(&mut self) -> Rng {
        let s = self.draw(1 << 40);
        Rng::new(s)
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub type Verdict = Result<(), Violation>;
pub fn violation<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($fmt:tt)+) => {
        if !($c) { return Err($crate::world::Violation { class: ($class).into(), detail: format!($($fmt)+) }); }
    };
}

/// Payload of panics the simulator itself throws through the library.
pub struct SimPanic(pub &'static str);

#[derive(Debug, Clone)]
pub enum Caught {
    /// The simulator threw (injected crash, or a step budget ran out).
    Sim(&'static str),
    /// The library panicked.
    Lib(String),
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Runs library code, catching panics.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => match e.downcast_ref::<SimPanic>() {
            Some(s) => Err(Caught::Sim(s.0)),
            None => Err(Caught::Lib(LAST_PANIC.with(|p| p.borrow().clone()))),
        },
    }
}
pub fn sim_panic(kind: &'static str) -> ! {
    std::panic::resume_unwind(Box::new(SimPanic(kind)))
}

/// `guard`, where no panic of any kind is expected.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    match guard(f) {
        Ok(v) => Ok(v),
        Err(Caught::Lib(m)) => violation(format!("panic:{}", what), format!("the library panicked: {}", m)),
        Err(Caught::Sim(k)) => violation(format!("{}:{}", k, what), format!("simulator budget: {}", k)),
    }
}
