use crate::seam;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seam::mix(seed ^ 0x5DEECE66D))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        seam::mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    /// inclusive
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.u64() % ((b - a + 1) as u64)) as i64
    }
    pub fn f01(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f01() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// a short decimal number with at most two decimals
    pub fn dec(&mut self, lo: i64, hi: i64) -> f64 {
        match self.below(4) {
            0 => self.range(lo * 10, hi * 10) as f64 / 10.0,
            1 => self.range(lo * 100, hi * 100) as f64 / 100.0,
            _ => self.range(lo, hi) as f64,
        }
    }
}

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub type Res = Result<(), Violation>;

#[macro_export]
macro_rules! bail {
    ($class:expr, $($t:tt)*) => {
        return Err($crate::core::Violation { class: $class.to_string(), detail: format!($($t)*) })
    };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($t:tt)*) => {
        if !($cond) { $crate::bail!($class, $($t)*); }
    };
}

/// One simulated run: the event log (hashed, kept only when replaying), fault and probe counters.
pub struct Run {
    pub keep: bool,
    pub log: Vec<String>,
    pub hash: u64,
    pub events: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub seed: u64,
    /// signature of the states reached, where the instrumented libraries are not what runs
    pub sig: Option<u64>,
}
impl Run {
    pub fn new(seed: u64, keep: bool) -> Run {
        Run {
            keep,
            log: vec![],
            hash: 0xcbf29ce484222325,
            events: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            nontrivial: false,
            seed,
            sig: None,
        }
    }
    pub fn ev(&mut self, s: impl AsRef<str>) {
        let s = s.as_ref();
        for b in s.bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.hash = (self.hash ^ 0x0a).wrapping_mul(0x100000001b3);
        self.events += 1;
        if self.keep && self.log.len() < 5000 {
            self.log.push(s.to_string());
        }
    }
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn probe_n(&mut self, k: &str, n: u64) {
        *self.probes.entry(k.to_string()).or_insert(0) += n;
    }
}

pub struct Meta {
    pub id: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// runs per worker process
    pub chunk: u64,
    /// basic-block budget of one run
    pub step_limit: u64,
    /// run the scenario in a fork()ed child (cold process state for each run)
    pub fork: bool,
}

pub trait Scenario: Sync + Send {
    type Plan: Serialize + DeserializeOwned + Clone + Send;
    fn meta(&self) -> Meta;
    fn gen(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Self::Plan;
    fn run(&self, plan: &Self::Plan, r: &mut Run) -> Res;
}
pub trait DynScenario: Sync + Send {
    fn meta(&self) -> Meta;
    fn gen_json(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value;
    fn gen_run(&self, rng: &mut Rng, idx: u64, thorough: bool, r: &mut Run) -> Res;
    /// None: the value is not a plan of this scenario
    fn run_json(&self, plan: &Value, r: &mut Run) -> Option<Res>;
}
/// The plan is made in a thread of its own, so that a replay, which makes none, starts out with
/// the same per-thread state (hash keys) as the original run.
fn gen_apart<S: Scenario>(s: &S, rng: &mut Rng, idx: u64, thorough: bool) -> S::Plan {
    let seed = rng.clone().u64();
    std::thread::scope(|sc| {
        sc.spawn(|| {
            seam::set_hash_seed(seed);
            s.gen(rng, idx, thorough)
        })
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}
impl<S: Scenario> DynScenario for S {
    fn meta(&self) -> Meta {
        Scenario::meta(self)
    }
    fn gen_json(&self, rng: &mut Rng, idx: u64, thorough: bool) -> Value {
        serde_json::to_value(gen_apart(self, rng, idx, thorough)).unwrap()
    }
    fn gen_run(&self, rng: &mut Rng, idx: u64, thorough: bool, r: &mut Run) -> Res {
        let p = gen_apart(self, rng, idx, thorough);
        self.run(&p, r)
    }
    fn run_json(&self, plan: &Value, r: &mut Run) -> Option<Res> {
        let p: S::Plan = serde_json::from_value(plan.clone()).ok()?;
        Some(self.run(&p, r))
    }
}

pub fn run_seed(verif_seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = seam::mix(verif_seed ^ 0xC0FFEE);
    for b in prop.bytes() {
        h = seam::mix(h ^ b as u64);
    }
    seam::mix(h ^ idx.wrapping_mul(0x9E3779B97F4A7C15))
}

// ---- panics -------------------------------------------------------------------------------
pub static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = Some((loc, msg));
        }
    }));
}
pub fn last_panic() -> (String, String) {
    LAST_PANIC.lock().ok().and_then(|g| g.clone()).unwrap_or_default()
}

/// Payload of panics raised by the simulator itself (injected faults).
pub struct Injected(pub u64);

/// Calls into the code under test: Ok(value), or Err(description) if it panicked.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if let Some(i) = p.downcast_ref::<Injected>() {
                Err(format!("injected#{}", i.0))
            } else {
                let (loc, msg) = last_panic();
                Err(format!("{msg} at {}", short_loc(&loc)))
            }
        }
    }
}
pub fn short_loc(loc: &str) -> String {
    loc.rsplit("/repo/").next().unwrap_or(loc).to_string()
}

/// a stable, short name for an f64 in event logs
pub fn fx(x: f64) -> String {
    if x.is_nan() {
        "nan".into()
    } else {
        format!("{:e}", x)
    }
}
