//! Property-based testing engine: choice-tape generation (every random choice of a case is
//! recorded on a tape, so a tape replays a case exactly), tape shrinking, parallel running,
//! evidence and known-findings bookkeeping.
use rand::{Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- choice tape

/// Source of every choice made while generating a case. `0` is always the simplest choice.
pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<ChaCha8Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: Vec::new(), pos: 0, rng: Some(ChaCha8Rng::seed_from_u64(seed)) }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None }
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos] % n
        } else {
            let v = match &mut self.rng {
                Some(r) => r.gen_range(0..n),
                None => 0,
            };
            self.tape.push(v);
            v
        };
        self.tape[self.pos] = v;
        self.pos += 1;
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    /// true with probability num/den; `false` is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// Weighted choice; index 0 is the simple choice.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let class = self.weighted(&[2, 3, 4, 1]);
        let len = match class {
            0 => 0,
            1 => 1 + self.idx(8.min(max.max(1))),
            2 => 1 + self.idx(64.min(max.max(1))),
            _ => 1 + self.idx(max.max(1)),
        };
        let mut out = vec![0u8; len];
        let s = self.u64();
        if s != 0 {
            ChaCha8Rng::seed_from_u64(s).fill_bytes(&mut out);
        }
        out
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        // Fisher-Yates; all-zero draws leave the order as it was.
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.idx(xs.len() - i);
            xs.swap(i, j);
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        self.shuffle(&mut v);
        v
    }
    pub fn into_tape(mut self) -> Vec<u64> {
        self.tape.truncate(self.pos);
        self.tape
    }
}

// ---------------------------------------------------------------- deterministic hash seeds

thread_local! {
    static ENTROPY: RefCell<Option<ChaCha8Rng>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

/// Interposes libc's getrandom so that std's per-thread HashMap keys (and anything else asking
/// the operating system for randomness) are a function of the case, not of the process.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let slice = unsafe { std::slice::from_raw_parts_mut(buf, len) };
    let done = ENTROPY.try_with(|e| {
        if let Ok(mut e) = e.try_borrow_mut() {
            if let Some(r) = e.as_mut() {
                r.fill_bytes(slice);
                return true;
            }
        }
        false
    });
    if done != Ok(true) {
        // Outside of a case: fixed, cheap filler (only used for the harness' own maps).
        static N: AtomicU64 = AtomicU64::new(0x9E3779B97F4A7C15);
        for c in slice.chunks_mut(8) {
            let v = N.fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed).to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    len as isize
}

// ---------------------------------------------------------------- allocation meter

struct Meter;
thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}
unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = LARGEST.try_with(|c| if l.size() > c.get() { c.set(l.size()) });
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = LARGEST.try_with(|c| if l.size() > c.get() { c.set(l.size()) });
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = LARGEST.try_with(|c| if n > c.get() { c.set(n) });
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static METER: Meter = Meter;

/// Largest single allocation this thread made since the last reset.
pub fn largest_alloc(reset: bool) -> usize {
    LARGEST.with(|c| {
        let v = c.get();
        if reset {
            c.set(0);
        }
        v
    })
}

// ---------------------------------------------------------------- executor

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// Single-threaded executor. Nothing outside the future can wake it, so `Pending` without a
/// wake-up is a deadlock, and is reported as one at once.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = pin!(f);
    loop {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return v,
            Poll::Pending => {
                if !flag.0.swap(false, Ordering::SeqCst) {
                    panic!("DEADLOCK: future pending with nothing left to wake it");
                }
            }
        }
    }
}

// ---------------------------------------------------------------- case results

#[derive(Debug, Clone)]
pub struct Failure {
    /// Stable class of failure; matched against the known-findings file.
    pub sig: String,
    pub msg: String,
}

pub type Check = Result<(), Failure>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::Failure { sig: ($sig).into(), msg: format!($($arg)*) });
        }
    };
}

/// What a case tells the runner about itself.
#[derive(Default, Debug, Clone)]
pub struct Case {
    /// Human-readable script of the case.
    pub log: Vec<String>,
    /// Set when the case exercised the property (by the rule in the evidence).
    pub nontrivial: bool,
    /// Label counters (distribution reporting).
    pub labels: BTreeMap<String, u64>,
    /// number of individual assertions evaluated
    pub asserts: u64,
    /// known findings met along the way (signature, what)
    pub known: BTreeSet<String>,
    pub known_filter: Option<Arc<BTreeSet<String>>>,
}

impl Case {
    pub fn note(&mut self, s: impl Into<String>) {
        self.log.push(s.into());
    }
    /// Note something about to be done (in case it never comes back), replaced by `done`.
    pub fn doing(&mut self, s: impl Into<String>) {
        self.log.push(format!("{} -> ...", s.into()));
    }
    pub fn done(&mut self, s: impl Into<String>) {
        self.log.pop();
        self.log.push(s.into());
    }
    pub fn label(&mut self, s: impl Into<String>) {
        *self.labels.entry(s.into()).or_default() += 1;
    }
    /// Report a failure, unless it is listed in the known-findings file for this property.
    pub fn raise(&mut self, sig: impl Into<String>, msg: impl Into<String>) -> Check {
        let sig = sig.into();
        if let Some(k) = &self.known_filter {
            if k.contains(&sig) {
                self.known.insert(sig);
                return Ok(());
            }
        }
        fail(sig, msg)
    }
}

pub type PropFn = fn(&mut Src, &mut Case) -> Check;

pub struct Prop {
    pub id: &'static str,
    pub run: PropFn,
    pub quick: u64,
    pub thorough: u64,
    /// Fixed cases that always run first (witnesses of known findings, corner cases).
    pub scripted: &'static [PropFn],
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub struct Outcome {
    pub case: Case,
    pub result: Check,
    pub tape: Vec<u64>,
}

fn install_panic_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if IN_CASE.with(|c| c.get()) {
                let loc = info
                    .location()
                    .map(|l| format!("{}:{}", l.file(), l.line()))
                    .unwrap_or_default();
                let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = info.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".into()
                };
                LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {loc}")));
            } else {
                default(info);
            }
        }));
    });
}

/// Take the message of the last panic caught on this thread.
pub fn take_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

fn panic_sig(msg: &str) -> String {
    // file name (no line numbers, so that moving code does not change the class)
    let file = msg.rsplit(" @ ").next().unwrap_or("");
    let file = file.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("");
    let head: String = msg
        .split(" @ ")
        .next()
        .unwrap_or("")
        .chars()
        .filter(|c| !c.is_ascii_digit())
        .take(60)
        .collect();
    format!("panic:{file}:{head}")
}

/// Run one case on a fresh thread, with its own hash seeds.
pub fn run_case(prop: PropFn, known: Arc<BTreeSet<String>>, src: Src) -> Outcome {
    install_panic_hook();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut src = src;
            let hseed = src.below(1 << 16);
            ENTROPY.with(|e| *e.borrow_mut() = Some(ChaCha8Rng::seed_from_u64(hseed)));
            IN_CASE.with(|c| c.set(true));
            let case = RefCell::new(Case { known_filter: Some(known), ..Default::default() });
            let srcc = RefCell::new(src);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                prop(&mut srcc.borrow_mut(), &mut case.borrow_mut())
            }));
            IN_CASE.with(|c| c.set(false));
            let mut case = case.into_inner();
            let result = match r {
                Ok(r) => r,
                Err(_) => {
                    let m = take_panic();
                    let s = panic_sig(&m);
                    case.raise(s, format!("panicked: {m}"))
                }
            };
            let out = Outcome { case, result, tape: srcc.into_inner().into_tape() };
            ENTROPY.with(|e| *e.borrow_mut() = None);
            out
        })
        .expect("spawn");
    h.join().expect("case thread")
}

// ---------------------------------------------------------------- shrinking

pub fn shrink(
    prop: PropFn,
    known: Arc<BTreeSet<String>>,
    tape: Vec<u64>,
    sig: &str,
    budget: Duration,
) -> (Vec<u64>, Outcome) {
    let start = Instant::now();
    let fails = |t: &[u64]| -> Option<Outcome> {
        let o = run_case(prop, known.clone(), Src::replay(t.to_vec()));
        match &o.result {
            Err(f) if f.sig == sig => Some(o),
            _ => None,
        }
    };
    let mut best = tape;
    let mut out = match fails(&best) {
        Some(o) => o,
        None => {
            // Not reproducible from the tape: hand back the original run.
            let o = run_case(prop, known.clone(), Src::replay(best.clone()));
            return (best, o);
        }
    };
    best = out.tape.clone();
    let mut improved = true;
    while improved && start.elapsed() < budget {
        improved = false;
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && start.elapsed() < budget {
            let mut i = best.len().saturating_sub(size);
            loop {
                if start.elapsed() >= budget {
                    break;
                }
                if i < best.len() {
                    let mut cand = best.clone();
                    let end = (i + size).min(cand.len());
                    cand.drain(i..end);
                    if let Some(o) = fails(&cand) {
                        if o.tape.len() < best.len() || o.tape < best {
                            best = o.tape.clone();
                            out = o;
                            improved = true;
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size.max(1));
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero / shrink values
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            let v = best[i];
            if v != 0 {
                for c in [0, v / 2, v - 1] {
                    if c >= v {
                        continue;
                    }
                    let mut cand = best.clone();
                    cand[i] = c;
                    if let Some(o) = fails(&cand) {
                        if o.tape.len() < best.len()
                            || (o.tape.len() == best.len() && o.tape < best)
                        {
                            best = o.tape.clone();
                            out = o;
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (best, out)
}

// ---------------------------------------------------------------- runner

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

pub fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut h = mix(seed);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ i)
}

pub struct Known {
    pub sig: String,
    pub what: String,
}

pub fn load_known(root: &str, id: &str) -> Vec<Known> {
    let p = format!("{root}/KNOWN_FINDINGS.json");
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("KNOWN_FINDINGS.json is valid JSON");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == id)
                .map(|e| Known {
                    sig: e["signature"].as_str().unwrap_or("").into(),
                    what: e["what"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

pub struct Opts {
    pub root: String,
    pub tier: String,
    pub seed: u64,
    pub cases: Option<u64>,
    pub verbose: bool,
    pub keep_going: bool,
}

fn fnv(tape: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for v in tape {
        h = mix(h ^ v);
    }
    h
}

pub fn run_prop(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let known_list = load_known(&o.root, p.id);
    let known: Arc<BTreeSet<String>> = Arc::new(known_list.iter().map(|k| k.sig.clone()).collect());
    let total = o.cases.unwrap_or(if o.tier == "thorough" { p.thorough } else { p.quick });
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    struct Agg {
        evals: u64,
        asserts: u64,
        distinct: std::collections::HashSet<u64>,
        labels: BTreeMap<String, u64>,
        samples: Vec<Value>,
        known_seen: BTreeMap<String, u64>,
        failures: Vec<(u64, Outcome)>,
        fail_sigs: BTreeMap<String, u64>,
    }
    let agg = Arc::new(Mutex::new(Agg {
        evals: 0,
        asserts: 0,
        distinct: Default::default(),
        labels: Default::default(),
        samples: vec![],
        known_seen: Default::default(),
        failures: vec![],
        fail_sigs: Default::default(),
    }));
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let slots: Arc<Vec<Mutex<Option<(u64, Instant)>>>> =
        Arc::new((0..nthreads).map(|_| Mutex::new(None)).collect());
    let live = Arc::new(AtomicUsize::new(nthreads));
    let mut hs = vec![];
    let (id, run, seed) = (p.id, p.run, o.seed);
    let scripted = p.scripted;
    let total = total + scripted.len() as u64;
    let pick = move |i: u64| -> PropFn { scripted.get(i as usize).copied().unwrap_or(run) };
    let keep_going = o.keep_going;
    // Soft wall-clock stop, so that a slow machine still gives an answer.
    let soft = Duration::from_secs(
        std::env::var("KH_SOFT_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(
            if o.tier == "thorough" { 7200 } else { 420 },
        ),
    );
    for w in 0..nthreads {
        let (next, stop, agg, known, slots, live) = (
            next.clone(),
            stop.clone(),
            agg.clone(),
            known.clone(),
            slots.clone(),
            live.clone(),
        );
        hs.push(std::thread::spawn(move || {
            loop {
                if stop.load(Ordering::Relaxed) || t0.elapsed() > soft {
                    break;
                }
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= total {
                    break;
                }
                *slots[w].lock().unwrap() = Some((i, Instant::now()));
                let out = run_case(pick(i), known.clone(), Src::random(case_seed(seed, id, i)));
                *slots[w].lock().unwrap() = None;
                let mut a = agg.lock().unwrap();
                a.evals += 1;
                a.asserts += out.case.asserts;
                for (k, v) in &out.case.labels {
                    *a.labels.entry(k.clone()).or_default() += v;
                }
                for k in &out.case.known {
                    *a.known_seen.entry(k.clone()).or_default() += 1;
                }
                if out.case.nontrivial {
                    let h = fnv(&out.tape[1.min(out.tape.len())..]);
                    if a.distinct.insert(h) && a.samples.len() < 4 {
                        let s = json!({"case": i, "script": out.case.log.iter().take(60).collect::<Vec<_>>()});
                        a.samples.push(s);
                    }
                }
                if let Err(f) = &out.result {
                    *a.fail_sigs.entry(f.sig.clone()).or_default() += 1;
                    let first = a.fail_sigs[&f.sig] == 1;
                    if first {
                        a.failures.push((i, out));
                    }
                    if !keep_going {
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            }
            live.fetch_sub(1, Ordering::SeqCst);
        }));
    }
    // Watchdog: a case that does not come back is a hang in the code under test.
    let hang_limit = Duration::from_secs(240);
    let mut hung: Option<u64> = None;
    while live.load(Ordering::SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(20));
        for s in slots.iter() {
            if let Some((i, t)) = *s.lock().unwrap() {
                if t.elapsed() > hang_limit {
                    hung = Some(i);
                }
            }
        }
        if hung.is_some() {
            break;
        }
    }
    if hung.is_none() {
        for h in hs {
            let _ = h.join();
        }
    }
    let mut a = agg.lock().unwrap();
    a.failures.sort_by_key(|f| f.0);
    let mut violations = 0;
    let mut code = 0;
    std::fs::create_dir_all(format!("{}/replays", o.root)).ok();
    if let Some(i) = hung {
        let path = format!("{}/replays/{}-hang.json", o.root, p.id);
        let v = json!({"property": p.id, "seed": o.seed, "index": i, "why": "case did not finish"});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok();
        println!("VIOLATION property={} replay={}", p.id, path);
        violations += 1;
        code = 1;
    }
    let fails: Vec<_> = a.failures.drain(..).collect();
    if keep_going {
        println!("{}: failure classes: {:?}", p.id, a.fail_sigs);
    }
    for (n, (i, out)) in fails.into_iter().enumerate() {
        if n >= 1 && !keep_going {
            break;
        }
        let f = out.result.clone().unwrap_err();
        println!("{}: case {} failed [{}]: {}", p.id, i, f.sig, f.msg);
        let (tape, small) = shrink(pick(i), known.clone(), out.tape.clone(), &f.sig, Duration::from_secs(60));
        let msg = match &small.result {
            Err(f) => format!("[{}] {}", f.sig, f.msg),
            Ok(()) => format!("[{}] {} (did not reproduce from its tape)", f.sig, f.msg),
        };
        let path = format!("{}/replays/{}-{}-{}.json", o.root, p.id, o.seed, i);
        let v = json!({"property": p.id, "seed": o.seed, "index": i, "tape": tape,
            "failure": msg, "script": small.case.log});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
        println!("minimal case ({} choices):", tape.len());
        for l in &small.case.log {
            println!("    {l}");
        }
        println!("    => {msg}");
        println!("VIOLATION property={} replay={}", p.id, path);
        violations += 1;
        code = 1;
    }
    for k in &known_list {
        if let Some(n) = a.known_seen.get(&k.sig) {
            println!("KNOWN-FINDING: property={} {} [{}] ({} cases)", p.id, k.what, k.sig, n);
        }
    }
    let ev = json!({
        "property": p.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": a.evals,
            "distinct_nontrivial": a.distinct.len(),
            "rule": p.rule,
            "assertions": a.asserts,
            "labels": a.labels,
            "known_findings_met": a.known_seen,
            "planned": total,
            "samples": a.samples,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    std::fs::create_dir_all(format!("{}/evidence", o.root)).ok();
    std::fs::write(
        format!("{}/evidence/{}.json", o.root, p.id),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("write evidence");
    println!(
        "{}: {} cases, {} distinct non-trivial, {} assertions, {:.1}s, {} violation(s)",
        p.id, a.evals, a.distinct.len(), a.asserts, t0.elapsed().as_secs_f64(), violations
    );
    if o.verbose {
        println!("labels: {:#?}", a.labels);
    }
    if hung.is_some() {
        std::process::exit(code);
    }
    code
}

pub fn replay(p: &Prop, root: &str, v: &Value) -> i32 {
    let known: Arc<BTreeSet<String>> =
        Arc::new(load_known(root, p.id).into_iter().map(|k| k.sig).collect());
    let src = match v["tape"].as_array() {
        Some(a) => Src::replay(a.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => Src::random(case_seed(v["seed"].as_u64().unwrap(), p.id, v["index"].as_u64().unwrap())),
    };
    let ix = v["index"].as_u64().unwrap_or(u64::MAX);
    let run = p.scripted.get(ix as usize).copied().unwrap_or(p.run);
    let out = run_case(run, known, src);
    for l in &out.case.log {
        println!("    {l}");
    }
    match out.result {
        Ok(()) => {
            println!("replay: property held (known findings met: {:?})", out.case.known);
            0
        }
        Err(f) => {
            println!("    => [{}] {}", f.sig, f.msg);
            1
        }
    }
}

#[allow(dead_code)]
pub fn hashmap_probe() -> Vec<u32> {
    let m: HashMap<u32, ()> = (0..20).map(|i| (i, ())).collect();
    m.keys().copied().collect()
}
