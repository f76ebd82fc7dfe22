//! The runner shared by all checks: generated-input search with proptest, shrinking, replay files,
//! known findings, and evidence.
//!
//! A check decides one property; it consists of one or more *facets*. A facet is a generator (a
//! proptest `Strategy`) plus an oracle (`test`). Every random choice is made inside the strategy,
//! from a seed that is a function of (VERIF_SEED, property, facet, shard): a run is a pure function
//! of the code under test and VERIF_SEED.

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use std::collections::{BTreeMap, HashSet, hash_map::DefaultHasher};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub use proptest;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    fn get() -> Tier {
        match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        }
    }
    fn name(self) -> &'static str {
        if self == Tier::Thorough { "thorough" } else { "quick" }
    }
}

/// What the oracle records about one case.
#[derive(Default)]
pub struct Case {
    nontrivial: bool,
    labels: Vec<&'static str>,
    known: Vec<String>,
}

impl Case {
    /// Marks the case as non-trivial (by the facet's stated rule).
    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial |= yes;
    }
    /// Counts the case in the class `l`.
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, yes: bool, l: &'static str) {
        if yes {
            self.label(l);
        }
    }
    /// The case shows a violation that has this exact signature. It is reported as a known finding if
    /// the signature is listed; otherwise the returned error makes the case a violation.
    pub fn finding(&mut self, signature: &str) -> Verdict {
        if known_signatures().iter().any(|(_, s)| s == signature) {
            self.known.push(signature.to_string());
            Ok(())
        } else {
            Err(signature.to_string())
        }
    }
}

pub type Verdict = Result<(), String>;

#[macro_export]
macro_rules! check {
    ($cond:expr, $($fmt:tt)+) => {
        if !$cond {
            return Err(format!($($fmt)+));
        }
    };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)+), a, b));
        }
    }};
}

/// Runs `f`; a panic becomes `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

struct Failure {
    facet: &'static str,
    case: serde_json::Value,
    reason: String,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    known: BTreeMap<String, u64>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        if self.samples.len() < 2 {
            self.samples.extend(o.samples);
            self.samples.truncate(2);
        }
    }
}

type RunFn = Box<dyn Fn(&Cfg) -> (Stats, Option<Failure>)>;
type ReplayFn = Box<dyn Fn(&serde_json::Value) -> Verdict>;

pub struct Facet {
    name: &'static str,
    rule: &'static str,
    run: RunFn,
    replay: ReplayFn,
}

struct Cfg {
    property: &'static str,
    seed: u64,
    tier: Tier,
    shards: usize,
}

fn shorten(v: serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v
    } else {
        let cut = (0..=1500).rev().find(|i| s.is_char_boundary(*i)).unwrap();
        serde_json::Value::String(format!("{}... ({} bytes)", &s[..cut], s.len()))
    }
}

/// A facet. `cases` is the number of cases of the quick and of the thorough tier.
pub fn facet<V, S>(
    name: &'static str,
    rule: &'static str,
    cases: (u32, u32),
    strategy: fn() -> S,
    test: fn(&V, &mut Case) -> Verdict,
) -> Facet
where
    V: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static,
    S: Strategy<Value = V> + 'static,
{
    let run: RunFn = Box::new(move |cfg| {
        let total = match cfg.tier {
            Tier::Quick => cases.0,
            Tier::Thorough => cases.1,
        };
        let first_bad = AtomicUsize::new(usize::MAX);
        let results: Mutex<Vec<(usize, Stats, Option<Failure>)>> = Mutex::new(Vec::new());
        std::thread::scope(|scope| {
            for shard in 0..cfg.shards {
                let (first_bad, results) = (&first_bad, &results);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(scope, move || {
                        let n = total / cfg.shards as u32
                            + u32::from((shard as u32) < total % cfg.shards as u32);
                        let current = Mutex::new(None);
                        let r = std::thread::scope(|s| {
                            let (done, watch) = std::sync::mpsc::channel::<()>();
                            let current = &current;
                            s.spawn(move || watchdog(cfg, name, current, watch));
                            let r = run_shard(cfg, name, shard, n, strategy().boxed(), test, first_bad, current);
                            drop(done);
                            r
                        });
                        results.lock().unwrap().push((shard, r.0, r.1));
                    })
                    .unwrap();
            }
        });
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let mut stats = Stats::default();
        let mut failure = None;
        for (_, s, f) in results {
            stats.merge(s);
            failure = failure.or(f);
        }
        (stats, failure)
    });
    let replay: ReplayFn = Box::new(move |v| {
        let run = || {
            let v: V = serde_json::from_value(v.clone()).expect("replay file does not fit this facet");
            let mut case = Case::default();
            match catch(|| test(&v, &mut case)) {
                Ok(r) => r,
                Err(p) => Err(format!("panic: {p}")),
            }
        };
        // as much room as the search has
        std::thread::scope(|s| {
            let t = std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, run).unwrap();
            t.join().unwrap_or_else(|_| {
                eprintln!("ERROR: the replay file does not fit");
                std::process::exit(2)
            })
        })
    });
    Facet { name, rule, run, replay }
}

/// A case that takes longer than this does not end.
fn patience() -> Duration {
    Duration::from_secs(std::env::var("VERIF_PATIENCE").ok().and_then(|s| s.parse().ok()).unwrap_or(240))
}
/// Reports a case that does not end as a violation.
fn watchdog<V: Serialize>(cfg: &Cfg, name: &'static str, current: &Mutex<Option<(Instant, Arc<V>)>>, done: std::sync::mpsc::Receiver<()>) {
    while done.recv_timeout(Duration::from_secs(1)) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
        let guard = current.lock().unwrap();
        let Some((since, v)) = &*guard else { continue };
        if since.elapsed() > patience() {
            let case = serde_json::to_value(&**v).unwrap();
            let reason = "the case does not end".to_string();
            write_evidence(cfg.property, cfg.seed, cfg.tier, "exploration", &reason, serde_json::json!({"facet": name, "case": shorten(case.clone())}));
            report(cfg.property, cfg.seed, &Failure { facet: name, case, reason });
            std::process::exit(1);
        }
    }
}
/// The evidence of a run that was broken off.
fn write_evidence(property: &str, seed: u64, tier: Tier, level: &str, reason: &str, sample: serde_json::Value) {
    let evidence = serde_json::json!({
        "property": property, "tier": tier.name(), "seed": seed, "level": level,
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": format!("the run was broken off: {reason}"), "samples": [sample]},
        "assumptions": [], "wall_s": 0.0, "violations": 1,
    });
    save_evidence(property, &evidence);
}
fn save_evidence(property: &str, evidence: &serde_json::Value) {
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{property}.json")), serde_json::to_string_pretty(evidence).unwrap() + "\n").unwrap();
}
/// The beginning and the end of a long message.
fn brief(s: &str) -> String {
    let n = s.chars().count();
    if n <= 4000 {
        return s.to_string();
    }
    let head: String = s.chars().take(2000).collect();
    let tail: String = s.chars().skip(n - 1000).collect();
    format!("{head} [...] {tail}")
}
/// Writes the replay file, and says so.
fn report(property: &str, seed: u64, f: &Failure) {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{property}-{}.json", f.facet));
    let reason = brief(&f.reason);
    let body = serde_json::json!({"property": property, "facet": f.facet, "seed": seed, "reason": reason, "case": f.case});
    std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n").unwrap();
    println!("{}: {reason}", f.facet);
    println!("VIOLATION property={property} replay={}", path.display());
}

/// Runs the check in a process of its own. If that process dies (an abort, a stack overflow), the run is
/// repeated with all cases written down, and the one that kills it is reported.
fn supervise(args: &[String], property: &'static str) -> ! {
    let me = std::env::current_exe().expect("path of this program");
    let child = |args: &[String], trace: Option<&std::path::Path>, quiet: bool| {
        let mut c = Command::new(&me);
        c.args(args).env("VERIF_CHILD", "1");
        if let Some(d) = trace {
            c.env("VERIF_TRACE", d);
        }
        if quiet {
            c.stdout(Stdio::null()).stderr(Stdio::null());
        }
        c.status().expect("this program can be started").code()
    };
    if let Some(code) = child(&args[1..], None, false) {
        std::process::exit(code);
    }
    let tier = Tier::get();
    if args.get(2).map(String::as_str) == Some("--replay") {
        println!("the program under test dies");
        println!("VIOLATION property={property} replay={}", args[3]);
        std::process::exit(1);
    }
    eprintln!("the check died; looking for the case");
    let dir = std::env::temp_dir().join(format!("trace-{property}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    child(&args[1..], Some(&dir), true);
    let mut found = None;
    let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().flatten().map(|e| e.path()).collect();
    files.sort();
    for f in files {
        let replay = [property.to_string(), "--replay".into(), f.to_string_lossy().into_owned()];
        if found.is_none() && child(&replay, None, true).is_none() {
            found = parse(&std::fs::read_to_string(&f).unwrap()).ok();
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let Some(v) = found else {
        eprintln!("ERROR: the check died, and no case does it again");
        std::process::exit(2);
    };
    let reason = "the program under test dies".to_string();
    let seed = v["seed"].as_u64().unwrap_or(1);
    write_evidence(property, seed, tier, "exploration", &reason, serde_json::json!({"facet": v["facet"], "case": shorten(v["case"].clone())}));
    let facet: &'static str = Box::leak(v["facet"].as_str().unwrap_or("").to_string().into_boxed_str());
    report(property, seed, &Failure { facet, case: v["case"].clone(), reason });
    std::process::exit(1);
}

#[allow(clippy::too_many_arguments)]
fn run_shard<V>(
    cfg: &Cfg,
    name: &'static str,
    shard: usize,
    cases: u32,
    strategy: BoxedStrategy<V>,
    test: fn(&V, &mut Case) -> Verdict,
    first_bad: &AtomicUsize,
    current: &Mutex<Option<(Instant, Arc<V>)>>,
) -> (Stats, Option<Failure>)
where
    V: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static,
{
    if cases == 0 {
        return (Stats::default(), None);
    }
    let mut h = DefaultHasher::new();
    (cfg.seed, cfg.property, name, shard as u64).hash(&mut h);
    let config = Config {
        cases,
        failure_persistence: None,
        rng_algorithm: RngAlgorithm::ChaCha,
        rng_seed: RngSeed::Fixed(h.finish()),
        max_shrink_iters: 20_000,
        max_shrink_time: if cfg.tier == Tier::Quick { 90_000 } else { 600_000 },
        max_global_rejects: u32::MAX,
        max_local_rejects: u32::MAX,
        verbose: 0,
        ..Config::default()
    };
    let mut runner = TestRunner::new(config);
    let trace = std::env::var_os("VERIF_TRACE").map(PathBuf::from);
    let stats = Mutex::new((Stats::default(), false));
    let result = runner.run(&strategy, |v| {
        // a shard with a smaller number has failed: the rest of this shard is not needed
        if first_bad.load(Ordering::Relaxed) < shard {
            return Ok(());
        }
        let mut case = Case::default();
        let v = Arc::new(v);
        *current.lock().unwrap() = Some((Instant::now(), v.clone()));
        if let Some(d) = &trace {
            let body = serde_json::json!({"property": cfg.property, "facet": name, "seed": cfg.seed, "case": &*v});
            std::fs::write(d.join(format!("{name}-{shard}.json")), body.to_string()).unwrap();
        }
        let verdict = match catch(|| test(&v, &mut case)) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {p}")),
        };
        *current.lock().unwrap() = None;
        let mut guard = stats.lock().unwrap();
        let (st, failed) = &mut *guard;
        if !*failed {
            st.evaluations += 1;
            for l in &case.labels {
                *st.labels.entry(l).or_default() += 1;
            }
            for k in case.known {
                *st.known.entry(k).or_default() += 1;
            }
            if case.nontrivial {
                let mut h = DefaultHasher::new();
                name.hash(&mut h);
                bincode::serialize(&*v).unwrap().hash(&mut h);
                if st.nontrivial.insert(h.finish()) && st.samples.len() < 2 && st.nontrivial.len() > 3 {
                    let json = serde_json::to_value(&*v).unwrap();
                    st.samples.push(shorten(json));
                }
            }
            if verdict.is_err() {
                *failed = true;
                first_bad.fetch_min(shard, Ordering::Relaxed);
            }
        }
        verdict.map_err(TestCaseError::fail)
    });
    let failure = match result {
        Ok(()) => None,
        Err(TestError::Fail(reason, v)) => Some(Failure {
            facet: name,
            case: serde_json::to_value(&v).unwrap(),
            reason: reason.message().to_string(),
        }),
        Err(TestError::Abort(reason)) => panic!("generator aborted: {}", reason.message()),
    };
    (stats.into_inner().unwrap().0, failure)
}

pub struct Check {
    pub property: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub facets: fn() -> Vec<Facet>,
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

/// `(property, signature)` of every listed finding that has not been repaired.
fn known_signatures() -> &'static Vec<(String, String)> {
    static KNOWN: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    KNOWN.get_or_init(|| {
        let Ok(text) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) else {
            return Vec::new();
        };
        text.lines()
            .filter_map(|l| l.strip_prefix("open: property="))
            .filter_map(|l| l.split_once(' '))
            .map(|(p, s)| (p.to_string(), s.trim().to_string()))
            .collect()
    })
}

/// The entry point of a check binary: `<bin> <property> [--replay FILE]`.
/// Cases may be nested deeper than a parser usually allows.
fn parse(text: &str) -> serde_json::Result<serde_json::Value> {
    use serde::Deserialize;
    let mut d = serde_json::Deserializer::from_str(text);
    d.disable_recursion_limit();
    serde_json::Value::deserialize(&mut d)
}

pub fn main_with(checks: &[Check]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let property = args.get(1).cloned().unwrap_or_default();
    let Some(check) = checks.iter().find(|c| c.property == property) else {
        eprintln!("unknown property {property}");
        std::process::exit(2);
    };
    if std::env::var_os("VERIF_CHILD").is_none() {
        supervise(&args, check.property);
    }
    if std::env::var_os("VERIF_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if args.get(2).map(String::as_str) == Some("--replay") {
        let text = std::fs::read_to_string(&args[3]).expect("replay file");
        let v = parse(&text).expect("replay file");
        let name = v["facet"].as_str().expect("facet").to_string();
        let facets = (check.facets)();
        let facet = facets.iter().find(|f| f.name == name).expect("unknown facet");
        let (path, id) = (args[3].clone(), check.property);
        std::thread::spawn(move || {
            std::thread::sleep(patience());
            println!("the case does not end");
            println!("VIOLATION property={id} replay={path}");
            std::process::exit(1)
        });
        match (facet.replay)(&v["case"]) {
            Ok(()) => {
                println!("OK property={property} facet={name}: the case passes");
                std::process::exit(0)
            }
            Err(e) => {
                println!("{name}: {e}");
                println!("VIOLATION property={property} replay={}", args[3]);
                std::process::exit(1)
            }
        }
    }
    std::process::exit(run_check(check));
}

fn run_check(check: &Check) -> i32 {
    let start = Instant::now();
    let tier = Tier::get();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    let cfg = Cfg { property: check.property, seed, tier, shards: 8 };
    let only = std::env::var("VERIF_FACET").ok();

    let mut evaluations = 0;
    let mut distinct = 0;
    let mut rules = Vec::new();
    let mut samples = Vec::new();
    let mut per_facet = serde_json::Map::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<Failure> = None;
    for f in (check.facets)() {
        if only.as_ref().is_some_and(|o| o != f.name) {
            continue;
        }
        let t = Instant::now();
        let (stats, failure) = (f.run)(&cfg);
        evaluations += stats.evaluations;
        distinct += stats.nontrivial.len() as u64;
        rules.push(format!("{}: {}", f.name, f.rule));
        for s in &stats.samples {
            samples.push(serde_json::json!({"facet": f.name, "case": s}));
        }
        for (k, n) in stats.known {
            *known.entry(k).or_default() += n;
        }
        per_facet.insert(
            f.name.to_string(),
            serde_json::json!({
                "evaluations": stats.evaluations,
                "distinct_nontrivial": stats.nontrivial.len(),
                "classes": stats.labels,
                "wall_s": t.elapsed().as_secs_f64(),
            }),
        );
        if let Some(f) = failure {
            violation = Some(f);
            break;
        }
    }
    let tier_name = if tier == Tier::Quick { "quick" } else { "thorough" };
    let evidence = serde_json::json!({
        "property": check.property,
        "tier": tier_name,
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rules.join(" | "),
            "samples": samples,
            "facets": per_facet,
            "known_findings_hit": known,
        },
        "assumptions": check.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": u64::from(violation.is_some()),
    });
    save_evidence(check.property, &evidence);

    for (p, s) in known_signatures().iter().filter(|(p, _)| p == check.property) {
        println!("KNOWN-FINDING: property={p} {s}");
    }
    match violation {
        None => {
            println!(
                "OK property={} tier={tier_name} seed={seed}: {evaluations} cases, {distinct} distinct non-trivial, {:.1}s",
                check.property,
                start.elapsed().as_secs_f64()
            );
            0
        }
        Some(f) => {
            report(check.property, seed, &f);
            1
        }
    }
}
