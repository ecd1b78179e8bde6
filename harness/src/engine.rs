//! Case generation, failure capture and shrinking around proptest strategies.
//!
//! Case `i` of a property is a pure function of (seed, property, i).  A worker process runs a
//! residue class of case numbers; a parent merges the reports.  A case that kills its worker is
//! attributed through a small progress file and shrunk with one subprocess per candidate.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Default, Clone, Debug)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
impl Info {
    pub fn new(nontrivial: bool) -> Info {
        Info { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, s: impl Into<String>) -> Info {
        self.labels.push(s.into());
        self
    }
}
pub type Outcome = Result<Info, String>;

pub trait Prop {
    const ID: &'static str;
    /// generated cases in the quick and in the thorough tier
    const CASES: (u64, u64);
    const RULE: &'static str;
    type Case: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn check(case: &Self::Case) -> Outcome;
    /// Restores process-wide state a case may change (instruction-set level, allocator mode).
    fn reset() {
        crate::isa::set_level(0);
        crate::guard::disable();
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Failure {
    pub index: u64,
    pub message: String,
    pub original_message: String,
    pub case: serde_json::Value,
    pub shrink_steps: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial_hashes: Vec<u64>,
    pub samples: Vec<serde_json::Value>,
    pub labels: BTreeMap<String, u64>,
    pub failures: Vec<Failure>,
    pub out_of_time: bool,
}

fn fnv(bytes: &[u8], mut h: u64) -> u64 {
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn runner(id: &str, seed: u64, index: u64) -> TestRunner {
    let mut s = [0u8; 32];
    let h = fnv(id.as_bytes(), 0xcbf29ce484222325);
    let mut m = crate::run::Mix(seed ^ h.rotate_left(17));
    m.0 = m.next() ^ index.wrapping_mul(0x9E3779B97F4A7C15);
    for c in s.chunks_mut(8) {
        c.copy_from_slice(&m.next().to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, max_local_rejects: 10_000, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s))
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Panics of the thread running a case are captured, not printed; rayon re-raises panics of its
/// workers in that thread.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.payload();
        let m = m
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| m.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if m.starts_with("unsafe precondition") {
            eprintln!("{}", m.lines().next().unwrap_or_default()); // the process ends here
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic: {m}{at}")));
    }));
}

pub fn run_case<P: Prop>(case: &P::Case) -> Outcome {
    let start = std::time::Instant::now();
    let r = catch_unwind(AssertUnwindSafe(|| P::check(case)));
    P::reset();
    if std::env::var("PSV_SLOW").is_ok_and(|v| v.parse::<f64>().is_ok_and(|v| start.elapsed().as_secs_f64() > v)) {
        eprintln!("{:.1} s: {}", start.elapsed().as_secs_f64(), serde_json::to_string(case).unwrap_or_default());
    }
    match r {
        Ok(o) => o,
        Err(e) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
                e.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into())
            });
            Err(m)
        }
    }
}

pub fn generate<P: Prop>(tier: Tier, seed: u64, index: u64) -> (Box<dyn ValueTree<Value = P::Case>>, P::Case) {
    let strat = P::strategy(tier);
    let mut r = runner(P::ID, seed, index);
    let tree: Box<dyn ValueTree<Value = P::Case>> = Box::new(strat.new_tree(&mut r).expect("strategy rejects too much"));
    let c = tree.current();
    (tree, c)
}

/// Shrinks with the given judge (None = passes).
pub fn shrink<C: Clone + std::fmt::Debug>(
    tree: &mut dyn ValueTree<Value = C>,
    first: String,
    limit: u64,
    deadline: Duration,
    mut judge: impl FnMut(&C) -> Option<String>,
) -> (C, String, u64) {
    let t0 = Instant::now();
    let mut best = (tree.current(), first);
    let mut steps = 0;
    let mut more = tree.simplify();
    while more && steps < limit && t0.elapsed() < deadline {
        steps += 1;
        let c = tree.current();
        more = match judge(&c) {
            Some(m) => {
                best = (c, m);
                tree.simplify()
            }
            None => tree.complicate(),
        };
    }
    (best.0, best.1, steps)
}

pub struct Job {
    pub tier: Tier,
    pub seed: u64,
    pub first: u64,
    pub step: u64,
    pub count: u64,
    pub seconds: f64,
    pub progress: String,
}

/// Runs cases `first, first+step, ...` below `count`; stops at the first failure.
pub fn work<P: Prop>(job: &Job) -> Report {
    let t0 = Instant::now();
    let mut rep = Report::default();
    let mut seen = HashSet::new();
    let mut progress = std::fs::File::create(&job.progress).expect("progress file");
    let strat = P::strategy(job.tier);
    let mut i = job.first;
    while i < job.count {
        if t0.elapsed().as_secs_f64() > job.seconds {
            rep.out_of_time = true;
            break;
        }
        progress.seek(SeekFrom::Start(0)).unwrap();
        progress.write_all(&i.to_le_bytes()).unwrap();
        let mut tree = strat.new_tree(&mut runner(P::ID, job.seed, i)).expect("strategy rejects too much");
        let case = tree.current();
        let out = run_case::<P>(&case);
        rep.evaluations += 1;
        match out {
            Ok(info) => {
                for l in info.labels {
                    *rep.labels.entry(l).or_insert(0) += 1;
                }
                if info.nontrivial {
                    let js = serde_json::to_vec(&case).unwrap();
                    if seen.insert(fnv(&js, 0xcbf29ce484222325)) && rep.samples.len() < 3 {
                        rep.samples.push(serde_json::to_value(&case).unwrap());
                    }
                }
            }
            Err(m) => {
                let (c, msg, steps) = shrink(&mut tree, m.clone(), 3000, Duration::from_secs(40), |c| {
                    progress.seek(SeekFrom::Start(0)).unwrap();
                    progress.write_all(&i.to_le_bytes()).unwrap();
                    run_case::<P>(c).err()
                });
                rep.failures.push(Failure {
                    index: i,
                    message: msg,
                    original_message: m,
                    case: serde_json::to_value(&c).unwrap(),
                    shrink_steps: steps,
                });
                break;
            }
        }
        i += job.step;
    }
    rep.nontrivial_hashes = seen.into_iter().collect();
    rep
}
