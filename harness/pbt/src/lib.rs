//! A small property-based testing driver on top of proptest's strategies.
//!
//! A property is decided by one or more facets. A facet is a strategy producing cases, which
//! are plain serializable data, and a check that runs a case against the code in /repo and an
//! oracle. The driver generates a fixed number of cases split into a fixed number of shards,
//! each with a generator seeded only from VERIF_SEED, the facet and the shard, shrinks the
//! failing case of the lowest failing shard, writes it as a replay file and reports it. The
//! outcome is a function of the code and the seed, whatever the number of threads.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use proptest;

/// What a check learnt about a case on which the property held.
#[derive(Default, Debug, Clone)]
pub struct Info {
    /// Whether the case is non-trivial by the rule of the facet.
    pub nontrivial: bool,
    /// Classes the case belongs to, counted in the evidence.
    pub labels: Vec<&'static str>,
}

impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info { nontrivial, labels: Vec::new() }
    }

    pub fn label(&mut self, on: bool, label: &'static str) -> &mut Self {
        if on && !self.labels.contains(&label) {
            self.labels.push(label);
        }
        self
    }
}

/// Err holds how the property was broken.
pub type Outcome = Result<Info, String>;

/// Fails the check with a message.
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

/// Fails the check with a message unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Report {
    evaluations: u64,
    distinct_nontrivial: u64,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    failure: Option<Failure>,
    truncated: bool,
}

struct Failure {
    case: Value,
    message: String,
    original_message: String,
    shard: usize,
    shrink_steps: u32,
}

pub struct Facet {
    pub property: &'static str,
    pub name: &'static str,
    pub rule: &'static str,
    quick: u64,
    thorough: u64,
    run: Box<dyn Fn(&Run) -> Report + Send + Sync>,
    replay: Box<dyn Fn(&Value) -> Result<Outcome, String> + Send + Sync>,
}

struct Run {
    property: &'static str,
    facet: &'static str,
    cases: u64,
    seed: u64,
    threads: usize,
    deadline: Instant,
}

const SHARDS: usize = 64;

/// Cases that are being checked right now: for the watchdog.
static CURRENT: Mutex<Vec<Option<Current>>> = Mutex::new(Vec::new());

struct Current {
    property: &'static str,
    facet: &'static str,
    case: Arc<String>,
    clock: libc::clockid_t,
    cpu_start: f64,
}

fn clock_now(clock: libc::clockid_t) -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

fn thread_clock() -> libc::clockid_t {
    let mut clock: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
    clock
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static SLOT: RefCell<Option<usize>> = const { RefCell::new(None) };
    static CATCHING: RefCell<bool> = const { RefCell::new(false) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let what = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or(info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let message = format!("panic at {at}: {what}");
        if !CATCHING.with(|c| *c.borrow()) {
            eprintln!("{message}");
        }
        PANIC.with(|p| {
            // The first panic is the cause.
            p.borrow_mut().get_or_insert(message);
        });
    }));
}

/// Runs a check on a case. Whatever panics while the case runs is a violation: the harness has
/// no assertions of its own.
fn guarded<C>(property: &'static str, facet: &'static str, case: &C, text: Option<Arc<String>>, check: fn(&C) -> Outcome) -> Outcome {
    let slot = SLOT.with(|s| *s.borrow());
    if let (Some(slot), Some(text)) = (slot, text) {
        let clock = thread_clock();
        CURRENT.lock().unwrap()[slot] =
            Some(Current { property, facet, case: text, clock, cpu_start: clock_now(clock) });
    }
    PANIC.with(|p| *p.borrow_mut() = None);
    CATCHING.with(|c| *c.borrow_mut() = true);
    let result = catch_unwind(AssertUnwindSafe(|| check(case)));
    CATCHING.with(|c| *c.borrow_mut() = false);
    if let Some(slot) = slot {
        CURRENT.lock().unwrap()[slot] = None;
    }
    match result {
        Ok(outcome) => outcome,
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or("panic".to_string())),
    }
}

fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for part in parts {
        for b in part.iter().chain(&[0xff]) {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}

fn runner_for(seed: u64, property: &str, facet: &str, shard: usize) -> TestRunner {
    let mut bytes = [0u8; 32];
    for (i, chunk) in bytes.chunks_mut(8).enumerate() {
        let h = fnv(&[&seed.to_le_bytes(), property.as_bytes(), facet.as_bytes(), &(shard as u64).to_le_bytes(), &[i as u8]]);
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    let config = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

/// A facet with the numbers of cases of the quick and the thorough tier.
pub fn facet<C, S>(
    property: &'static str,
    name: &'static str,
    rule: &'static str,
    quick: u64,
    thorough: u64,
    strategy: fn() -> S,
    check: fn(&C) -> Outcome,
) -> Facet
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Strategy<Value = C> + 'static,
{
    Facet {
        property,
        name,
        rule,
        quick,
        thorough,
        run: Box::new(move |run| run_facet(run, strategy, check)),
        replay: Box::new(move |value| {
            let case: C = serde_json::from_value(value.clone()).map_err(|e| e.to_string())?;
            let text = Arc::new(value.to_string());
            SLOT.with(|s| *s.borrow_mut() = Some(0));
            // See shrink.
            let mut outcome = Ok(Info::default());
            for _ in 0..20 {
                outcome = guarded(property, name, &case, Some(text.clone()), check);
                if outcome.is_err() {
                    break;
                }
            }
            Ok(outcome)
        }),
    }
}

fn run_facet<C, S>(run: &Run, strategy: fn() -> S, check: fn(&C) -> Outcome) -> Report
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Strategy<Value = C> + 'static,
{
    let next = AtomicUsize::new(0);
    let lowest_failure = AtomicUsize::new(usize::MAX);
    let truncated = AtomicUsize::new(0);
    let evaluations = AtomicU64::new(0);
    let labels: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<BTreeMap<(usize, u64), Value>> = Mutex::new(BTreeMap::new());
    let failure: Mutex<Option<Failure>> = Mutex::new(None);

    std::thread::scope(|scope| {
        for t in 0..run.threads {
            let (next, lowest_failure, truncated, evaluations) = (&next, &lowest_failure, &truncated, &evaluations);
            let (labels, distinct, samples, failure) = (&labels, &distinct, &samples, &failure);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || {
                    SLOT.with(|s| *s.borrow_mut() = Some(t));
                    let strategy: BoxedStrategy<C> = strategy().boxed();
                    let mut my_labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut my_distinct = Vec::new();
                    loop {
                        let shard = next.fetch_add(1, Ordering::SeqCst);
                        if shard >= SHARDS {
                            break;
                        }
                        let cases = run.cases / SHARDS as u64 + u64::from((shard as u64) < run.cases % SHARDS as u64);
                        let mut runner = runner_for(run.seed, run.property, run.facet, shard);
                        for i in 0..cases {
                            if shard > lowest_failure.load(Ordering::SeqCst) {
                                break;
                            }
                            if Instant::now() > run.deadline {
                                truncated.store(1, Ordering::SeqCst);
                                break;
                            }
                            let mut tree = strategy.new_tree(&mut runner).expect("strategy produces a case");
                            let case = tree.current();
                            let text = Arc::new(serde_json::to_string(&case).expect("case serializes"));
                            evaluations.fetch_add(1, Ordering::Relaxed);
                            match guarded(run.property, run.facet, &case, Some(text.clone()), check) {
                                Ok(info) => {
                                    for label in &info.labels {
                                        *my_labels.entry(label).or_insert(0) += 1;
                                    }
                                    if info.nontrivial {
                                        my_distinct.push(fnv(&[text.as_bytes()]));
                                        if i < 3 && text.len() < 6000 {
                                            let value = serde_json::from_str(&text).unwrap_or(Value::Null);
                                            samples.lock().unwrap().insert((shard, i), value);
                                        }
                                    }
                                }
                                Err(message) => {
                                    lowest_failure.fetch_min(shard, Ordering::SeqCst);
                                    let (shrunk, shrunk_message, steps) =
                                        shrink(run, &mut tree, case, message.clone(), check);
                                    let found = Failure {
                                        case: serde_json::to_value(&shrunk).expect("case serializes"),
                                        message: shrunk_message,
                                        original_message: message,
                                        shard,
                                        shrink_steps: steps,
                                    };
                                    let mut failure = failure.lock().unwrap();
                                    if failure.as_ref().is_none_or(|f| f.shard > shard) {
                                        *failure = Some(found);
                                    }
                                    break;
                                }
                            }
                        }
                    }
                    let mut labels = labels.lock().unwrap();
                    for (label, n) in my_labels {
                        *labels.entry(label).or_insert(0) += n;
                    }
                    distinct.lock().unwrap().extend(my_distinct);
                })
                .expect("thread starts");
        }
    });

    let distinct_nontrivial = distinct.lock().unwrap().len() as u64;
    let samples = samples.into_inner().unwrap().into_values().take(3).collect();
    Report {
        evaluations: evaluations.load(Ordering::SeqCst),
        distinct_nontrivial,
        labels: labels.into_inner().unwrap(),
        samples,
        failure: failure.into_inner().unwrap(),
        truncated: truncated.load(Ordering::SeqCst) != 0,
    }
}

fn shrink<C, T>(run: &Run, tree: &mut T, case: C, message: String, check: fn(&C) -> Outcome) -> (C, String, u32)
where
    C: Serialize + Debug + Clone + 'static,
    T: ValueTree<Value = C>,
{
    let start = Instant::now();
    let mut best = (case, message);
    let mut tries = 0;
    let mut steps = 0;
    if tree.simplify() {
        loop {
            tries += 1;
            if tries > 5000 || start.elapsed() > Duration::from_secs(60) || Instant::now() > run.deadline + Duration::from_secs(60) {
                break;
            }
            let candidate = tree.current();
            let text = Arc::new(serde_json::to_string(&candidate).expect("case serializes"));
            // The iteration order of the code's hash maps differs from run to run, a candidate
            // gets several chances to fail.
            let outcome = (0..4).map(|_| guarded(run.property, run.facet, &candidate, Some(text.clone()), check))
                .find(|o| o.is_err())
                .unwrap_or(Ok(Info::default()));
            match outcome {
                Err(message) => {
                    steps += 1;
                    best = (candidate, message);
                    if !tree.simplify() {
                        break;
                    }
                }
                Ok(_) => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    (best.0, best.1, steps)
}

/// Where a check keeps its files.
pub struct Paths {
    /// Holds evidence/, replays/, corpus/ and known_findings.json.
    pub root: PathBuf,
}

fn write_replay(root: &Path, property: &str, facet: &str, case: &Value, message: &str) -> String {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{property}-{facet}.json"));
    let body = json!({"property": property, "facet": facet, "message": message, "case": case});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap_or_default());
    path.display().to_string()
}

/// A case that burns this much processor time doesn't terminate: cases take milliseconds.
const MAX_CASE_CPU: f64 = 120.0;
const MAX_RSS_KB: u64 = 24 << 20;

fn start_watchdog(root: PathBuf, limit: Duration) {
    let start = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        if let Ok(current) = CURRENT.try_lock() {
            for c in current.iter().flatten() {
                if clock_now(c.clock) - c.cpu_start > MAX_CASE_CPU {
                    let case: Value = serde_json::from_str(&c.case).unwrap_or(Value::Null);
                    let message = format!("the case does not terminate within {MAX_CASE_CPU} s of processor time");
                    let replay = write_replay(&root, c.property, c.facet, &case, &message);
                    println!("{}/{}: {}", c.property, c.facet, message);
                    println!("VIOLATION property={} replay={}", c.property, replay);
                    std::process::exit(1);
                }
            }
        }
        let rss_kb = std::fs::read_to_string("/proc/self/statm")
            .ok()
            .and_then(|s| s.split(' ').nth(1).and_then(|p| p.parse::<u64>().ok()))
            .unwrap_or(0)
            * 4;
        if rss_kb > MAX_RSS_KB {
            println!("ERROR: out of memory: {rss_kb} kB in use");
            std::process::exit(3);
        }
        if start.elapsed() > limit {
            println!("ERROR: no result within {limit:?}");
            std::process::exit(3);
        }
    });
}

/// A genuine defect that is recorded and not repaired. Its case fails in a facet that exists
/// only to replay it, the generators of the other facets avoid it by construction.
#[derive(serde::Deserialize)]
struct KnownFinding {
    property: String,
    facet: String,
    what: String,
    case: Value,
}

#[derive(serde::Deserialize, Default)]
struct KnownFindings {
    #[serde(default)]
    findings: Vec<KnownFinding>,
}

pub struct PropertyNote {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
}

/// Main function of a checker: `check ID`, `replay FILE`, `list`.
pub fn main_with(paths: Paths, facets: Vec<Facet>, notes: &[PropertyNote]) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let threads = std::env::var("PBT_THREADS")
        .ok()
        .and_then(|t| t.parse().ok())
        .unwrap_or(std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    *CURRENT.lock().unwrap() = (0..threads.max(1)).map(|_| None).collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") if args.len() == 3 => check(&paths, &facets, notes, &args[2], threads),
        Some("replay") if args.len() == 3 => replay(&paths, &facets, &args[2]),
        Some("list") => {
            for f in &facets {
                println!("{} {} quick={} thorough={}: {}", f.property, f.name, f.quick, f.thorough, f.rule);
            }
            0
        }
        _ => {
            println!("usage: check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code)
}

fn replay(paths: &Paths, facets: &[Facet], file: &str) -> i32 {
    let Some(body) = std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) else {
        println!("ERROR: cannot read {file}");
        return 2;
    };
    let Some(facet) = facets.iter().find(|f| f.property == body["property"] && f.name == body["facet"]) else {
        println!("ERROR: no such facet");
        return 2;
    };
    start_watchdog(paths.root.clone(), Duration::from_secs(600));
    match (facet.replay)(&body["case"]) {
        Err(e) => {
            println!("ERROR: {e}");
            2
        }
        Ok(Ok(info)) => {
            println!("held: {info:?}");
            0
        }
        Ok(Err(message)) => {
            println!("{}/{}: {}", facet.property, facet.name, message);
            println!("VIOLATION property={} replay={}", facet.property, file);
            1
        }
    }
}

fn check(paths: &Paths, all: &[Facet], notes: &[PropertyNote], id: &str, threads: usize) -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let scale: f64 = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("PBT_FACET").ok();
    let facets: Vec<&Facet> = all
        .iter()
        .filter(|f| f.property == id && only.as_ref().is_none_or(|o| o == f.name))
        .collect();
    if facets.is_empty() {
        println!("ERROR: no check for {id}");
        return 2;
    }
    let budget = match tier {
        Tier::Quick => Duration::from_secs(420),
        Tier::Thorough => Duration::from_secs(3600),
    };
    start_watchdog(paths.root.clone(), budget + Duration::from_secs(200));

    let mut violations = 0;
    let mut evaluations = 0;
    let mut distinct = 0;
    let mut rules = Vec::new();
    let mut samples = Vec::new();
    let mut facet_reports = Vec::new();

    // Recorded defects that are still there.
    let known: KnownFindings = match std::fs::read_to_string(paths.root.join("known_findings.json")) {
        Ok(text) => match serde_json::from_str(&text) {
            Ok(known) => known,
            Err(e) => {
                println!("ERROR: known_findings.json: {e}");
                return 2;
            }
        },
        Err(_) => KnownFindings::default(),
    };
    for finding in known.findings.iter().filter(|f| f.property == id) {
        let Some(facet) = all.iter().find(|f| f.property == id && f.name == finding.facet) else {
            println!("ERROR: known finding of an unknown facet {}", finding.facet);
            return 2;
        };
        match (facet.replay)(&finding.case) {
            Err(e) => {
                println!("ERROR: known finding doesn't parse: {e}");
                return 2;
            }
            Ok(Ok(_)) => println!("known finding no longer occurs: property={} {}", id, finding.what),
            Ok(Err(_)) => println!("KNOWN-FINDING: property={} {}", id, finding.what),
        }
    }

    // Regression cases: shrunk failures of earlier versions of the code and of planted bugs.
    let mut regressions = 0;
    let mut files: Vec<PathBuf> = std::fs::read_dir(paths.root.join("corpus").join(id))
        .map(|d| d.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "json")).collect())
        .unwrap_or_default();
    files.sort();
    for file in files {
        let body: Value = std::fs::read_to_string(&file).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
        let Some(facet) = facets.iter().find(|f| f.name == body["facet"]) else { continue };
        match (facet.replay)(&body["case"]) {
            Err(e) => {
                println!("ERROR: {}: {e}", file.display());
                return 2;
            }
            Ok(Ok(_)) => regressions += 1,
            Ok(Err(message)) => {
                println!("{}/{}: {}", id, facet.name, message);
                println!("VIOLATION property={} replay={}", id, file.display());
                violations += 1;
            }
        }
    }

    // Facets share what is left of the time, which is only a safety net: they are sized to
    // finish long before.
    for (i, facet) in facets.iter().enumerate() {
        let left = budget.saturating_sub(start.elapsed());
        let share = left / (facets.len() - i) as u32;
        let cases = match tier {
            Tier::Quick => facet.quick,
            Tier::Thorough => facet.thorough,
        };
        let facet_start = Instant::now();
        let run = Run {
            property: facet.property,
            facet: facet.name,
            cases: ((cases as f64 * scale) as u64).max(1),
            seed,
            threads: threads.max(1),
            deadline: Instant::now() + share,
        };
        let report = (facet.run)(&run);
        evaluations += report.evaluations;
        distinct += report.distinct_nontrivial;
        rules.push(format!("{}: {}", facet.name, facet.rule));
        for sample in &report.samples {
            samples.push(json!({"facet": facet.name, "case": sample}));
        }
        println!(
            "{id}/{}: {} cases, {} distinct non-trivial, {:.1} s{}",
            facet.name,
            report.evaluations,
            report.distinct_nontrivial,
            facet_start.elapsed().as_secs_f64(),
            if report.truncated { " (cut short by the time limit)" } else { "" }
        );
        facet_reports.push(json!({
            "facet": facet.name,
            "evaluations": report.evaluations,
            "distinct_nontrivial": report.distinct_nontrivial,
            "classes": report.labels,
            "cut_short": report.truncated,
            "wall_s": facet_start.elapsed().as_secs_f64(),
        }));
        if let Some(failure) = &report.failure {
            violations += 1;
            let replay = write_replay(&paths.root, id, facet.name, &failure.case, &failure.message);
            println!("{id}/{}: {}", facet.name, failure.message);
            if failure.original_message != failure.message {
                println!("  (before {} steps of shrinking: {})", failure.shrink_steps, failure.original_message);
            }
            println!("VIOLATION property={id} replay={replay}");
        }
    }

    let assumptions = notes.iter().find(|n| n.id == id).map(|n| n.assumptions).unwrap_or(&[]);
    let evidence = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rules.join(" | "),
            "samples": samples,
            "facets": facet_reports,
            "regression_cases_replayed": regressions,
        },
        "assumptions": assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = paths.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap_or_default()) {
        println!("ERROR: cannot write evidence: {e}");
        return 2;
    }
    if violations > 0 { 1 } else { 0 }
}
