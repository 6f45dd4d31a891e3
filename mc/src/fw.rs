//! Exploration framework: sections of integer-indexed cases (or sub-trees of an exploration),
//! executed exhaustively by a pool of threads, with crash isolation and replay.
use std::cell::Cell as StdCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::AssertUnwindSafe;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;

#[derive(Debug, Clone)]
pub struct V {
    pub key: String,
    pub detail: String,
}
pub type R<T = ()> = Result<T, V>;

#[macro_export]
macro_rules! bad {
    ($key:expr, $($arg:tt)*) => { return Err($crate::fw::V { key: ($key).to_string(), detail: format!($($arg)*) }) };
}
#[macro_export]
macro_rules! ck {
    ($cond:expr, $key:expr, $($arg:tt)*) => { if !($cond) { $crate::bad!($key, $($arg)*) } };
}
#[macro_export]
macro_rules! ckeq {
    ($a:expr, $b:expr, $key:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { $crate::bad!($key, "impl={:?} model={:?} :: {}", a, b, format!($($arg)*)) }
    }};
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

#[derive(Default, Clone)]
pub struct Counters {
    pub evals: u64,
    pub nontrivial: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
}

/// Per-case context.
pub struct L {
    pub c: Counters,
    pub idx: u64,
    pub section: &'static str,
    pub fails: Vec<V>,
    pub samples: Vec<String>,
    pub want_sample: bool,
    pub verbose: bool,
    pub extra: BTreeMap<&'static str, u64>,
}
impl L {
    pub fn ev(&mut self) { self.c.evals += 1 }
    pub fn evn(&mut self, n: u64) { self.c.evals += n }
    pub fn nt(&mut self) { self.c.nontrivial += 1 }
    pub fn ntn(&mut self, n: u64) { self.c.nontrivial += n }
    pub fn st(&mut self, n: u64) { self.c.states += n }
    pub fn tr(&mut self, n: u64) { self.c.transitions += n }
    pub fn traces(&mut self, n: u64) { self.c.traces += n }
    pub fn extra(&mut self, k: &'static str, n: u64) { *self.extra.entry(k).or_default() += n }
    pub fn fail(&mut self, v: V) {
        if self.fails.len() < 50 { self.fails.push(v) }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample { self.samples.push(f()); self.want_sample = false; }
    }
}

#[derive(Clone)]
pub struct Known { pub property: String, pub key: String, pub what: String }

pub struct Meta {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Run),
}

struct Failure { section: String, idx: u64, v: V }

pub struct Run {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    known: Vec<Known>,
    filter: Option<(String, u64)>,
    totals: Mutex<Counters>,
    extra: Mutex<BTreeMap<String, u64>>,
    sections: Mutex<Vec<(String, u64, f64)>>,
    samples: Mutex<Vec<String>>,
    failures: Mutex<Vec<Failure>>,
    known_seen: Mutex<BTreeMap<String, u64>>,
    start: Instant,
}

const SLOTS: usize = 256;
static CRUMB_SEC: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static CRUMB_IDX: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static CRUMB_T: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
thread_local! { static SLOT: StdCell<usize> = const { StdCell::new(usize::MAX) }; static LASTPANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; static QUIET: StdCell<bool> = const { StdCell::new(false) }; }
static SECTIONS: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
static SEC_PTRS: [AtomicUsize; 512] = [const { AtomicUsize::new(0) }; 512];
static SEC_LENS: [AtomicUsize; 512] = [const { AtomicUsize::new(0) }; 512];
static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
static IN_CASE: AtomicBool = AtomicBool::new(true);
pub static HANG_SECS: AtomicU64 = AtomicU64::new(240);

fn now_ms() -> u64 { T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1 }

extern "C" fn on_crash(sig: libc::c_int, _: *mut libc::siginfo_t, _: *mut libc::c_void) {
    // async-signal-safe: only write(2) and _exit(2)
    let slot = SLOT.with(|s| s.get());
    let mut buf = [0u8; 300];
    let mut n = 0;
    let put = |b: &[u8], buf: &mut [u8; 300], n: &mut usize| { for &x in b { if *n < 300 { buf[*n] = x; *n += 1 } } };
    let num = |mut v: u64, buf: &mut [u8; 300], n: &mut usize| {
        let mut t = [0u8; 20]; let mut i = 20;
        loop { i -= 1; t[i] = b'0' + (v % 10) as u8; v /= 10; if v == 0 { break } }
        for &x in &t[i..] { if *n < 300 { buf[*n] = x; *n += 1 } }
    };
    put(b"\nMC-CRASH ", &mut buf, &mut n);
    num(sig as u64, &mut buf, &mut n);
    put(b" ", &mut buf, &mut n);
    if slot < SLOTS {
        num(CRUMB_IDX[slot].load(Ordering::Relaxed), &mut buf, &mut n);
        put(b" ", &mut buf, &mut n);
        let s = CRUMB_SEC[slot].load(Ordering::Relaxed);
        let p = SEC_PTRS[s].load(Ordering::Relaxed) as *const u8;
        let len = SEC_LENS[s].load(Ordering::Relaxed);
        if !p.is_null() { put(unsafe { std::slice::from_raw_parts(p, len) }, &mut buf, &mut n); }
    } else {
        put(b"0 unknown", &mut buf, &mut n);
    }
    put(b"\n", &mut buf, &mut n);
    unsafe {
        libc::write(1, buf.as_ptr() as *const libc::c_void, n);
        libc::_exit(86);
    }
}

pub fn install_child_handlers() {
    T0.get_or_init(Instant::now);
    unsafe {
        // code that eats memory ends in a failed allocation, which is reported with its case
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_crash as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LASTPANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        if !IN_CASE.load(Ordering::Relaxed) { continue }
        let now = now_ms();
        for s in 0..SLOTS {
            let t = CRUMB_T[s].load(Ordering::Relaxed);
            if t != 0 && now.saturating_sub(t) > HANG_SECS.load(Ordering::Relaxed) * 1000 {
                let sec = CRUMB_SEC[s].load(Ordering::Relaxed);
                let name = SECTIONS.lock().unwrap().get(sec).copied().unwrap_or("?");
                println!("\nMC-CRASH 0 {} {}", CRUMB_IDX[s].load(Ordering::Relaxed), name);
                unsafe { libc::_exit(86) }
            }
        }
    });
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LASTPANIC.with(|p| p.borrow().clone())),
    }
}
/// Like `no_panic`, but the panic becomes a violation with the given key.
pub fn np<T>(key: &str, ctx: impl FnOnce() -> String, f: impl FnOnce() -> T) -> R<T> {
    no_panic(f).map_err(|e| V { key: key.to_string(), detail: format!("panic: {e} :: {}", ctx()) })
}

fn set_slot() -> usize {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    SLOT.with(|s| {
        if s.get() == usize::MAX { s.set(NEXT.fetch_add(1, Ordering::Relaxed) % SLOTS) }
        s.get()
    })
}

impl Run {
    pub fn new(id: &'static str, tier: Tier, seed: u64, known: Vec<Known>, filter: Option<(String, u64)>) -> Self {
        let threads = if filter.is_some() { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) };
        Run { id, tier, seed, threads, known, filter, totals: Default::default(), extra: Default::default(),
            sections: Default::default(), samples: Default::default(), failures: Default::default(),
            known_seen: Default::default(), start: Instant::now() }
    }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    pub fn pick<T>(&self, q: T, t: T) -> T { if self.quick() { q } else { t } }

    /// Explores cases `0..n` of a section exhaustively.
    pub fn section(&self, name: &str, n: u64, f: impl Fn(u64, &mut L) -> R + Sync) { self.section_(name, n, &f) }
    fn section_(&self, name: &str, n: u64, f: &(dyn Fn(u64, &mut L) -> R + Sync)) {
        let name: &'static str = Box::leak(name.to_string().into_boxed_str());
        let sec = {
            let mut s = SECTIONS.lock().unwrap();
            s.push(name);
            let i = s.len() - 1;
            SEC_LENS[i.min(511)].store(name.len(), Ordering::Relaxed);
            SEC_PTRS[i.min(511)].store(name.as_ptr() as usize, Ordering::Relaxed);
            i.min(511)
        };
        if let Some((fs, _)) = &self.filter { if fs != name { return } }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 4096);
        let stop = AtomicBool::new(false);
        let nfail = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..self.threads {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || {
                    let slot = set_slot();
                    let mut l = L { c: Default::default(), idx: 0, section: name, fails: vec![], samples: vec![], want_sample: false,
                        verbose: self.filter.is_some(), extra: Default::default() };
                    CRUMB_SEC[slot].store(sec, Ordering::Relaxed);
                    loop {
                        let (a, b) = match &self.filter {
                            Some((_, i)) => { if next.fetch_add(1, Ordering::Relaxed) > 0 { break } (*i, *i + 1) }
                            None => { let a = next.fetch_add(chunk, Ordering::Relaxed); (a, (a + chunk).min(n)) }
                        };
                        if a >= n || stop.load(Ordering::Relaxed) { break }
                        for i in a..b {
                            l.idx = i;
                            l.want_sample = i == n / 3 || i == (2 * n) / 3;
                            CRUMB_IDX[slot].store(i, Ordering::Relaxed);
                            CRUMB_T[slot].store(now_ms(), Ordering::Relaxed);
                            let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(i, &mut l)));
                            CRUMB_T[slot].store(0, Ordering::Relaxed);
                            l.c.traces += 1;
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(v)) => l.fails.push(v),
                                Err(_) => {
                                    let m = LASTPANIC.with(|p| p.borrow().clone());
                                    l.fails.push(V { key: "panic".into(), detail: m })
                                }
                            }
                            if !l.fails.is_empty() {
                                for v in l.fails.drain(..) {
                                    if let Some(k) = self.known.iter().find(|k| k.property == self.id && k.key == v.key) {
                                        *self.known_seen.lock().unwrap().entry(k.what.clone()).or_default() += 1;
                                        if l.verbose { println!("known: {} :: {}", v.key, v.detail) }
                                    } else {
                                        let mut fl = self.failures.lock().unwrap();
                                        if fl.len() < 200 { fl.push(Failure { section: name.into(), idx: i, v }) }
                                        if nfail.fetch_add(1, Ordering::Relaxed) > 60 { stop.store(true, Ordering::Relaxed) }
                                    }
                                }
                            }
                        }
                    }
                    let mut t = self.totals.lock().unwrap();
                    t.evals += l.c.evals; t.nontrivial += l.c.nontrivial; t.states += l.c.states;
                    t.transitions += l.c.transitions; t.traces += l.c.traces;
                    drop(t);
                    let mut e = self.extra.lock().unwrap();
                    for (k, v) in l.extra { *e.entry(k.to_string()).or_default() += v }
                    drop(e);
                    let mut s = self.samples.lock().unwrap();
                    for x in l.samples { s.push(format!("{name}: {x}")) }
                }).unwrap();
            }
        });
        let dt = t0.elapsed().as_secs_f64();
        self.sections.lock().unwrap().push((name.into(), n, dt));
        let t = self.totals.lock().unwrap().clone();
        eprintln!("[{}] section {name}: {n} cases, {dt:.1}s (total evals {} states {} transitions {})", self.id, t.evals, t.states, t.transitions);
    }

    pub fn fail_global(&self, section: &str, v: V) {
        if let Some(k) = self.known.iter().find(|k| k.property == self.id && k.key == v.key) {
            *self.known_seen.lock().unwrap().entry(k.what.clone()).or_default() += 1;
            return;
        }
        self.failures.lock().unwrap().push(Failure { section: section.into(), idx: 0, v })
    }

    pub fn add(&self, f: impl FnOnce(&mut Counters)) { f(&mut self.totals.lock().unwrap()) }
    pub fn add_extra(&self, k: &str, n: u64) { *self.extra.lock().unwrap().entry(k.into()).or_default() += n }
    pub fn add_sample(&self, s: String) { self.samples.lock().unwrap().push(s) }

    pub fn finish(self, meta: &Meta) -> i32 {
        IN_CASE.store(false, Ordering::Relaxed);
        let t = self.totals.into_inner().unwrap();
        let mut failures = self.failures.into_inner().unwrap();
        failures.sort_by(|a, b| (a.section.as_str(), a.idx).cmp(&(b.section.as_str(), b.idx)));
        for (w, n) in self.known_seen.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} ({} cases)", self.id, w, n);
        }
        let mut replays = vec![];
        if self.filter.is_none() && !failures.is_empty() {
            let _ = std::fs::create_dir_all("replays");
            let mut seen = std::collections::BTreeSet::new();
            for f in &failures {
                if !seen.insert(f.v.key.clone()) { continue }
                let sec: String = f.section.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
                let path = format!("replays/{}-{}-{}.json", self.id, sec, f.idx);
                let j = serde_json::json!({"property": self.id, "tier": format!("{:?}", self.tier).to_lowercase(), "section": f.section, "index": f.idx, "key": f.v.key, "detail": f.v.detail});
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
                replays.push(path);
            }
        }
        let mut shown = 0;
        let mut per_key: BTreeMap<String, usize> = Default::default();
        for f in &failures {
            let n = per_key.entry(format!("{}/{}", f.section, f.v.key)).or_default();
            *n += 1;
            if *n > 2 { continue }
            if shown < 24 {
                let mut d = f.v.detail.clone();
                if d.len() > 700 { let mut e = 700; while !d.is_char_boundary(e) { e -= 1 } d.truncate(e); d.push_str("...") }
                println!("failure: section={} index={} key={} :: {}", f.section, f.idx, f.v.key, d);
            }
            shown += 1;
        }
        let mut samples = self.samples.into_inner().unwrap();
        samples.sort();
        if samples.len() > 24 { let n = samples.len(); samples = (0..24).map(|i| samples[i * n / 24].clone()).collect() }
        let secs = self.sections.into_inner().unwrap();
        let mut cov = serde_json::Map::new();
        if t.evals > 0 { cov.insert("evaluations".into(), t.evals.into()); }
        if t.nontrivial > 0 { cov.insert("distinct_nontrivial".into(), t.nontrivial.into()); }
        if t.states > 0 || meta.level == "model_checking" {
            cov.insert("states".into(), t.states.into());
            cov.insert("transitions".into(), t.transitions.into());
            cov.insert("traces_validated_against_impl".into(), t.traces.into());
        }
        cov.insert("rule".into(), meta.rule.into());
        cov.insert("samples".into(), samples.into());
        cov.insert("exhaustive".into(), true.into());
        cov.insert("sections".into(), serde_json::Value::Array(secs.iter().map(|(n, c, s)| serde_json::json!({"name": n, "cases": c, "wall_s": (s * 100.0).round() / 100.0})).collect()));
        for (k, v) in self.extra.into_inner().unwrap() { cov.insert(k, v.into()); }
        let ev = serde_json::json!({
            "property": self.id, "tier": format!("{:?}", self.tier).to_lowercase(), "seed": self.seed, "level": meta.level,
            "coverage": cov, "assumptions": meta.assumptions, "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": failures.len(),
        });
        if self.filter.is_none() {
            let _ = std::fs::create_dir_all("evidence");
            std::fs::write(format!("evidence/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        }
        if failures.is_empty() {
            println!("OK property={} evals={} states={} transitions={} wall={:.1}s", self.id, t.evals, t.states, t.transitions, self.start.elapsed().as_secs_f64());
            0
        } else {
            let p = replays.first().cloned().unwrap_or_else(|| "-".into());
            println!("VIOLATION property={} replay={}", self.id, p);
            1
        }
    }
}

/// Mixed-radix index decoder.
pub struct Ix(pub u64);
impl Ix {
    pub fn take(&mut self, n: u64) -> u64 { let r = self.0 % n; self.0 /= n; r }
    pub fn us(&mut self, n: usize) -> usize { self.take(n as u64) as usize }
    pub fn of<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.us(s.len()); &s[i] }
    pub fn bit(&mut self) -> bool { self.take(2) == 1 }
}

pub fn hx(b: &[u8]) -> String { let mut s = String::new(); for x in b { let _ = write!(s, "{x:02x}"); } s }
