//! Shared by all checks: counting what was explored, reporting violations,
//! writing evidence, and reference models that do not use the code under test.

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod big;
pub mod refmpt;
pub mod rlp;

pub use ethereum_types::{Address, H160, H256, U256, U512};
pub use num_bigint::{BigInt, BigUint};
pub use rayon;
pub use serde_json::{json, Value};

pub fn keccak(bytes: &[u8]) -> H256 {
    use tiny_keccak::{Hasher as _, Keccak};
    let mut k = Keccak::v256();
    k.update(bytes);
    let mut out = [0u8; 32];
    k.finalize(&mut out);
    H256(out)
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

const SHARDS: usize = 64;

/// One run of one check.
pub struct Check {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: u64,
    level: &'static str,
    start: Instant,
    evals: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    states: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<BTreeMap<String, Vec<Value>>>,
    families: Mutex<BTreeMap<String, u64>>,
    notes: Mutex<BTreeMap<String, Value>>,
    violations: Mutex<Vec<(String, String)>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<HashSet<String>>,
    stop: AtomicBool,
    capped: Mutex<Vec<String>>,
}

fn fxhash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Check {
    pub fn new(id: &'static str, level: &'static str) -> Self {
        silence_panics();
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for l in s.lines() {
                // KNOWN property=<id> key=<key> | <what fails>
                if let Some(rest) = l.strip_prefix(&format!("KNOWN property={id} key=")) {
                    let (k, what) = rest.split_once(" | ").unwrap_or((rest, ""));
                    known.push((k.trim().to_string(), what.trim().to_string()));
                }
            }
        }
        Check {
            id,
            thorough,
            seed,
            level,
            start: Instant::now(),
            evals: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            states: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            samples: Mutex::default(),
            families: Mutex::default(),
            notes: Mutex::default(),
            violations: Mutex::default(),
            known,
            known_hit: Mutex::default(),
            stop: AtomicBool::new(false),
            capped: Mutex::default(),
        }
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// A case of `family` was executed on the implementation and compared.
    pub fn eval(&self, family: &str) {
        self.evals.fetch_add(1, Relaxed);
        *self.families.lock().unwrap().entry(family.into()).or_insert(0) += 1;
    }
    pub fn evals(&self, family: &str, n: u64) {
        self.evals.fetch_add(n, Relaxed);
        *self.families.lock().unwrap().entry(family.into()).or_insert(0) += n;
    }
    pub fn transition(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn trace(&self) {
        self.traces.fetch_add(1, Relaxed);
    }
    /// Records a state reached; true if it is new.
    pub fn state<T: Hash + ?Sized>(&self, t: &T) -> bool {
        let h = fxhash(t);
        self.states[(h as usize) % SHARDS].lock().unwrap().insert(h)
    }
    pub fn sample(&self, family: &str, v: impl FnOnce() -> Value) {
        let mut s = self.samples.lock().unwrap();
        let e = s.entry(family.into()).or_default();
        if e.len() < 3 {
            e.push(v());
        }
    }
    pub fn note(&self, k: &str, v: Value) {
        self.notes.lock().unwrap().insert(k.into(), v);
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }
    /// The bound was not completed because of a time cap: say so.
    pub fn capped(&self, what: &str) {
        self.capped.lock().unwrap().push(what.into());
    }
    /// `key` identifies the specific input, call site or history.
    pub fn violate(&self, key: &str, desc: impl Into<String>) {
        if let Some((_, _)) = self.known.iter().find(|(k, _)| k == key) {
            self.known_hit.lock().unwrap().insert(key.to_string());
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 20 {
            v.push((key.to_string(), desc.into()));
        }
        if v.len() >= 5 {
            self.stop.store(true, Relaxed);
        }
    }
    pub fn has_violation(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
    /// Runs `f`; a panic is a violation.
    pub fn guard(&self, key: &str, desc: impl FnOnce() -> String, f: impl FnOnce()) {
        if let Err(e) = catch(f) {
            self.violate(key, format!("panic: {e}\n{}", desc()));
        }
    }

    pub fn finish(self, rule: &str, bounds: Value, assumptions: &[&str]) -> ! {
        let states: u64 = self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        let violations = self.violations.into_inner().unwrap();
        let capped = self.capped.into_inner().unwrap();
        let samples: Vec<Value> = self
            .samples
            .into_inner()
            .unwrap()
            .into_iter()
            .flat_map(|(f, v)| v.into_iter().map(move |x| json!({"family": f, "case": x})))
            .collect();
        let evals = self.evals.load(Relaxed);
        let mut cov = json!({
            "states": states,
            "transitions": self.transitions.load(Relaxed),
            "traces_validated_against_impl": match self.traces.load(Relaxed) { 0 => evals, n => n },
            "evaluations": evals,
            "distinct_nontrivial": states,
            "rule": rule,
            "samples": samples,
            "families": self.families.into_inner().unwrap(),
            "bounds": bounds,
            "exhaustive": capped.is_empty() && violations.is_empty(),
        });
        if !capped.is_empty() {
            cov["caps_hit"] = json!(capped);
        }
        for (k, v) in self.notes.into_inner().unwrap() {
            cov[k] = v;
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations.len(),
        });
        let dir = verif_dir().join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        let replay = dir.join(format!("{}.replay.txt", self.id));
        let hit = self.known_hit.into_inner().unwrap();
        for (k, what) in &self.known {
            if hit.contains(k) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.id, what, k);
            }
        }
        eprintln!(
            "{}: {} evaluations, {} states, {} violation(s), {:.1}s{}",
            self.id,
            evals,
            states,
            violations.len(),
            self.start.elapsed().as_secs_f64(),
            if capped.is_empty() { String::new() } else { format!(", capped: {capped:?}") }
        );
        if violations.is_empty() {
            let _ = std::fs::remove_file(&replay);
            std::process::exit(0);
        }
        let text: String = violations.iter().map(|(k, d)| format!("## {k}\n{d}\n\n")).collect();
        std::fs::write(&replay, &text).unwrap();
        for (k, d) in violations.iter().take(3) {
            let mut d = d.clone();
            if d.len() > 1500 {
                let mut n = 1500;
                while !d.is_char_boundary(n) {
                    n -= 1;
                }
                d.truncate(n);
            }
            eprintln!("violation [{k}] {d}");
        }
        println!("VIOLATION property={} replay={}", self.id, replay.display());
        std::process::exit(1);
    }
}

thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn silence_panics() {
    if std::env::var("VERIF_SHOW_PANICS").is_ok() {
        return;
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let l = LAST.with(|l| l.borrow().clone());
        if !l.is_empty() {
            return l;
        }
        e.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into())
    })
}

/// Deterministic generator for places where a fixed, arbitrary value is needed.
#[derive(Clone)]
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn u256(&mut self) -> U256 {
        U256([self.next(), self.next(), self.next(), self.next()])
    }
}

/// Runs the check named by the first argument; a panic that nothing caught is
/// a violation, the code under test having panicked.
pub fn main(find: impl FnOnce(&str) -> Option<fn() -> !>) -> ! {
    let id = std::env::args().nth(1).unwrap_or_default();
    let Some(f) = find(&id) else {
        eprintln!("unknown check {id}");
        std::process::exit(2)
    };
    let e = match catch_unwind(AssertUnwindSafe(|| f())) {
        Ok(_) => unreachable!(),
        Err(e) => e,
    };
    let e: Result<(), _> = Err(e);
    let mut what = LAST.with(|l| l.borrow().clone());
    if what.is_empty() {
        if let Err(e) = e {
            what = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_default();
        }
    }
    eprintln!("{id}: panic: {what}");
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let replay = dir.join(format!("{id}.replay.txt"));
    let _ = std::fs::write(&replay, format!("## panic\n{what}\n"));
    println!("VIOLATION property={id} replay={}", replay.display());
    std::process::exit(1)
}
