//! Case generation, monitoring of executions (panics, hangs, aborts), recording.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};

// ------------------------------------------------------------------ random
#[derive(Clone)]
pub struct Rng(u64);
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0xD1B5_4A32_D192_ED03);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        splitmix(&mut self.0)
    }
    pub fn u32(&mut self) -> u32 {
        self.u64() as u32
    }
    pub fn u8(&mut self) -> u8 {
        self.u64() as u8
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() >> 33) as usize) % n
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den as usize) < num as usize
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    /// a word with a random style: uniform, sparse, all ones, zero
    pub fn word(&mut self) -> u32 {
        match self.below(8) {
            0 => 0,
            1 => 0xFFFF_FFFF,
            2 => 1 << self.below(32),
            3 => !(1 << self.below(32)),
            _ => self.u32(),
        }
    }
    /// value of `bits` bits, biased to the edges
    pub fn bits(&mut self, bits: u32) -> u64 {
        let m = mask(bits);
        match self.below(8) {
            0 => 0,
            1 => m,
            2 => 1u64 << self.below(bits.max(1) as usize),
            3 => m & !(1u64 << self.below(bits.max(1) as usize)),
            _ => self.u64() & m,
        }
    }
}
pub fn mask(bits: u32) -> u64 {
    if bits >= 64 {
        u64::MAX
    } else {
        (1u64 << bits) - 1
    }
}

pub struct Hash64(pub u64);
impl Hash64 {
    pub fn new() -> Self {
        Hash64(0xcbf2_9ce4_8422_2325)
    }
    pub fn add(&mut self, x: u64) -> &mut Self {
        let mut s = self.0 ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 = splitmix(&mut s);
        self
    }
    pub fn str(&mut self, s: &str) -> &mut Self {
        self.add(s.len() as u64);
        for b in s.as_bytes() {
            self.add(*b as u64);
        }
        self
    }
}
pub fn hash_str(s: &str) -> u64 {
    Hash64::new().str(s).0
}

// ------------------------------------------------------------------ case
#[derive(Default, Clone)]
pub struct Record {
    pub evals: u64,
    pub evs: BTreeMap<&'static str, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Record {
    pub fn merge(&mut self, o: Record) {
        self.evals += o.evals;
        for (k, v) in o.evs {
            *self.evs.entry(k).or_default() += v;
        }
        if self.sigs.len() < 8_000_000 {
            self.sigs.extend(o.sigs);
        }
        for s in o.samples {
            if self.samples.len() < 64 {
                self.samples.push(s);
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub sig: String,
    pub detail: String,
}

pub struct Case {
    pub unit: String,
    pub idx: u64,
    pub rng: Rng,
    pub rec: Record,
    pub fails: Vec<Failure>,
    pub dig: Hash64,
    pub verbose: bool,
    pub salt: u64,
}
thread_local! {
    static AT: RefCell<String> = const { RefCell::new(String::new()) };
    static IN: RefCell<String> = const { RefCell::new(String::new()) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static VERBOSE: Cell<bool> = const { Cell::new(false) };
}
/// Name the library operation about to run: a panic or hang is attributed to it.
pub fn at(s: &str) {
    AT.with(|a| {
        let mut a = a.borrow_mut();
        a.clear();
        a.push_str(s);
    })
}
/// Describe the input of the operation about to run (built only when a failure is replayed).
pub fn input(f: impl FnOnce() -> String) {
    if VERBOSE.with(|v| v.get()) {
        let s = f();
        IN.with(|a| *a.borrow_mut() = s)
    }
}
pub fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(hook)
}
fn hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let q = QUIET.with(|q| q.get());
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {loc}")));
        if !q {
            def(info)
        }
    }));
}
/// Run library code; Err = panic message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

impl Case {
    pub fn new(unit: &str, idx: u64, seed: u64, salt: u64) -> Case {
        let h = Hash64::new().add(seed).str(unit).add(idx).0;
        crate::bufs::set_fill(0);
        Case {
            unit: unit.to_string(),
            idx,
            rng: Rng::new(h),
            rec: Record::default(),
            fails: vec![],
            dig: Hash64::new(),
            verbose: false,
            salt,
        }
    }
    /// In some cases, buffers do not clear what they grow into.
    pub fn dirty_growth(&mut self) {
        if self.rng.chance(1, 4) {
            let x = self.rng.u32();
            crate::bufs::set_fill(x);
        }
    }
    pub fn fail(&mut self, sig: &str, mut detail: String) {
        if self.verbose {
            let i = IN.with(|a| a.borrow().clone());
            detail = format!("{detail}; input: {i}");
        }
        let sig = format!("{}:{}", self.unit, sig);
        if !self.fails.iter().any(|f| f.sig == sig) {
            self.fails.push(Failure { sig, detail });
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        *self.rec.evs.entry("oracle comparisons").or_default() += 1;
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
    pub fn ev(&mut self, name: &'static str) {
        *self.rec.evs.entry(name).or_default() += 1;
    }
    pub fn evn(&mut self, name: &'static str, n: u64) {
        *self.rec.evs.entry(name).or_default() += n;
    }
    /// Record a distinct non-trivial observation.
    pub fn seen(&mut self, h: u64) {
        let u = hash_str(&self.unit);
        self.rec.sigs.insert(Hash64::new().add(u).add(h).0);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if (self.idx == 1 && self.rec.samples.len() < 2) || self.verbose {
            let mut s = f();
            if !self.verbose && s.len() > 400 {
                let mut k = 400;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
            }
            self.rec.samples.push(format!("{}#{}: {}", self.unit, self.idx, s));
        }
    }
    /// Run library code under the panic monitor.
    pub fn lib<T>(&mut self, label: &str, f: impl FnOnce() -> T) -> Option<T> {
        at(label);
        match catch(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.fail(&format!("{label}:panic"), format!("{label} panicked: {m}"));
                None
            }
        }
    }
}

pub type RunFn = Box<dyn Fn(&mut Case) + Send + Sync>;
pub struct UnitDef {
    pub name: String,
    pub quick: u64,
    pub thorough: u64,
    pub run: RunFn,
}
pub fn unit(name: impl Into<String>, quick: u64, thorough: u64, run: impl Fn(&mut Case) + Send + Sync + 'static) -> UnitDef {
    UnitDef { name: name.into(), quick, thorough, run: Box::new(run) }
}
pub fn run_case(u: &UnitDef, idx: u64, seed: u64, salt: u64, verbose: bool) -> Case {
    let mut c = Case::new(&u.name, idx, seed, salt);
    c.verbose = verbose;
    VERBOSE.with(|v| v.set(verbose));
    c.rec.evals = 1;
    at("");
    IN.with(|a| a.borrow_mut().clear());
    let r = catch(|| (u.run)(&mut c));
    if let Err(m) = r {
        let a = AT.with(|a| a.borrow().clone());
        c.fail(&format!("{a}:panic"), format!("panicked during `{a}`: {m}"));
    }
    c
}

pub fn hexw(w: &[u32]) -> String {
    let v: Vec<String> = w.iter().map(|x| format!("{x:08X}")).collect();
    format!("[{}]", v.join(" "))
}
pub fn hexb(w: &[u8]) -> String {
    let v: Vec<String> = w.iter().map(|x| format!("{x:02X}")).collect();
    format!("[{}]", v.join(" "))
}
