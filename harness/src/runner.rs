//! Drives the generated cases of a property: fixed numbers of cases, all randomness from proptest generators that
//! are seeded by (VERIF_SEED, property, part, shard), shrinking, replay, evidence.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;

/// What a case that holds reports about itself
#[derive(Default, Debug, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// signatures of violations; those that are not listed as known findings fail the case
    pub signatures: Vec<(String, String)>,
}

impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Self { nontrivial, ..Default::default() }
    }
    pub fn label(mut self, when: bool, label: &str) -> Self {
        if when {
            self.labels.push(label.to_string())
        }
        self
    }
    pub fn add_label(&mut self, when: bool, label: &str) {
        if when {
            self.labels.push(label.to_string())
        }
    }
}

pub type Outcome = Result<Info, String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    static SHARD: Cell<usize> = const { Cell::new(SHARDS) };
    static CURRENT: RefCell<Option<(String, String, String)>> = const { RefCell::new(None) };
}
static GLOBAL_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static HEARTBEAT: [AtomicU64; SHARDS + 1] = [const { AtomicU64::new(0) }; SHARDS + 1];
static START: Mutex<Option<Instant>> = Mutex::new(None);
/// Thread ids of the shards
static TIDS: [AtomicU64; SHARDS + 1] = [const { AtomicU64::new(0) }; SHARDS + 1];
/// Whether the shard is in virtual time, where nothing ever waits for real time to pass
static VIRTUAL: [AtomicBool; SHARDS + 1] = [const { AtomicBool::new(false) }; SHARDS + 1];
/// The running case of every shard: (property, part, case)
static RUNNING: [Mutex<Option<(String, String, String)>>; SHARDS + 1] = [const { Mutex::new(None) }; SHARDS + 1];

/// Panics whose message starts with this are part of a case
pub const EXPECTED_PANIC: &str = "bvt-expected";

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_text(info.payload());
        if msg.starts_with(EXPECTED_PANIC) {
            return;
        }
        let place = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{msg} at {place}");
        if IN_CASE.with(|c| c.get()) {
            PANICS.with(|p| p.borrow_mut().push(text));
        } else {
            GLOBAL_PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(text);
        }
    }));
}

pub fn stray_panics() -> Vec<String> {
    GLOBAL_PANICS.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Panics of library code that were recorded since the case began on this thread
pub fn panics_so_far() -> Vec<String> {
    PANICS.with(|p| p.borrow().clone())
}

pub fn fatal_violation(msg: &str) -> ! {
    let current = CURRENT.with(|c| c.borrow().clone());
    match current {
        Some((property, part, case)) => {
            let v: serde_json::Value = serde_json::from_str(&case).unwrap_or(serde_json::Value::Null);
            let path = write_replay(&property, &part, &v, msg);
            println!("FATAL-VIOLATION property={property} replay={path}");
            println!("  {msg}");
            let _ = std::io::stdout().flush();
            unsafe { libc_exit(1) }
        }
        None => {
            eprintln!("harness: {msg}");
            unsafe { libc_exit(3) }
        }
    }
}

unsafe fn libc_exit(code: i32) -> ! {
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    _exit(code)
}

pub fn out_dir() -> String {
    std::env::var("BVT_OUT").unwrap_or_else(|_| "/verif/evidence".to_string())
}

fn write_replay(property: &str, part: &str, case: &serde_json::Value, msg: &str) -> String {
    let dir = format!("{}/replay", out_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{property}-{part}.json");
    let doc = serde_json::json!({
        "property": property, "part": part, "variant": std::env::var("BVT_VARIANT").unwrap_or_default(),
        "message": msg, "case": case,
    });
    let _ = std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap());
    path
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub signature: String,
}

pub struct Runner {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    /// (part, case) to replay instead of generating
    pub replay: Option<(String, serde_json::Value)>,
    pub only: Option<String>,
    /// goes before the names of the parts
    pub prefix: String,
    pub known: Vec<Known>,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<serde_json::Value>,
    pub labels: BTreeMap<String, u64>,
    pub parts: Vec<serde_json::Value>,
    pub rules: Vec<String>,
    pub known_seen: BTreeMap<String, (u64, String)>,
    pub failures: Vec<(String, String, String)>,
    pub replayed: bool,
}

struct ShardResult {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<serde_json::Value>,
    labels: BTreeMap<String, u64>,
    known_seen: BTreeMap<String, (u64, String)>,
    failure: Option<(serde_json::Value, String)>,
    slowest: f64,
}

fn hash64<T: Hash>(v: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn seed_bytes(seed: u64, property: &str, part: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        out[i as usize * 8..][..8].copy_from_slice(&hash64(&(seed, property, part, shard as u64, i)).to_le_bytes());
    }
    out
}

fn shorten(v: serde_json::Value, limit: usize) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= limit {
        v
    } else {
        let mut end = limit;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        serde_json::Value::String(format!("{}...", &s[..end]))
    }
}

/// How a part is run
#[derive(Clone, Copy)]
pub struct Plan {
    pub quick: u32,
    pub thorough: u32,
    /// cases run one after the other because they use threads of their own or global resources
    pub shards: usize,
}

pub fn cases(quick: u32, thorough: u32) -> Plan {
    Plan { quick, thorough, shards: SHARDS }
}

pub fn serial(quick: u32, thorough: u32) -> Plan {
    Plan { quick, thorough, shards: 1 }
}

impl Runner {
    pub fn rule(&mut self, text: &str) {
        self.rules.push(text.to_string());
    }

    pub fn part<C, S>(
        &mut self,
        name: &str,
        plan: Plan,
        strategy: impl Fn() -> S + Sync,
        exec: impl Fn(&C) -> Outcome + Sync,
    ) where
        C: Debug + Clone + Serialize + DeserializeOwned + Send,
        S: Strategy<Value = C>,
    {
        let name = &format!("{}{name}", self.prefix);
        if let Some((part, case)) = &self.replay {
            if part == name {
                let case: C = serde_json::from_value(case.clone()).expect("the replay file does not fit this part");
                self.replayed = true;
                let known = self.known.clone();
                let property = self.property.clone();
                let r = run_case(&property, name, &case, &exec, &known, 0);
                match r {
                    Ok(info) => println!("replay: holds ({info:?})"),
                    Err(msg) => {
                        println!("replay: {msg}");
                        self.failures.push((name.to_string(), String::new(), msg));
                    }
                }
            }
            return;
        }
        if let Some(only) = &self.only {
            if only != name {
                return;
            }
        }
        let total = if self.thorough { plan.thorough } else { plan.quick };
        let total = ((total as f64) * self.scale).ceil().max(1.0) as u32;
        let shards = plan.shards.min(total as usize).max(1);
        let stop = AtomicBool::new(false);
        let started = Instant::now();
        let results: Vec<ShardResult> = std::thread::scope(|scope| {
            let handles: Vec<_> = (0..shards)
                .map(|shard| {
                    let (strategy, exec, stop, this) = (&strategy, &exec, &stop, &*self);
                    let n = total / shards as u32 + u32::from((shard as u32) < total % shards as u32);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(scope, move || run_shard(this, name, shard, n, strategy, exec, stop))
                        .unwrap()
                })
                .collect();
            handles.into_iter().map(|h| h.join().expect("shard")).collect()
        });
        let mut evaluations = 0;
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut nontrivial = HashSet::new();
        let mut failed = false;
        let mut samples = vec![];
        let mut slowest = 0f64;
        for r in results {
            slowest = slowest.max(r.slowest);
            evaluations += r.evaluations;
            nontrivial.extend(r.nontrivial);
            for (k, v) in r.labels {
                *labels.entry(k).or_default() += v;
            }
            for (k, (n, d)) in r.known_seen {
                let e = self.known_seen.entry(k).or_insert((0, d));
                e.0 += n;
            }
            samples.extend(r.samples);
            if let Some((case, msg)) = r.failure {
                if !failed {
                    failed = true;
                    let path = write_replay(&self.property, name, &case, &msg);
                    self.failures.push((name.to_string(), path, msg));
                }
            }
        }
        samples.truncate(2);
        for s in samples {
            self.samples.push(serde_json::json!({"part": name, "case": shorten(s, 700)}));
        }
        self.evaluations += evaluations;
        self.parts.push(serde_json::json!({
            "part": name, "evaluations": evaluations, "distinct_nontrivial": nontrivial.len(), "labels": labels,
            "wall_s": started.elapsed().as_secs_f64(), "slowest_case_s": (slowest * 1000.0).round() / 1000.0,
        }));
        for h in nontrivial {
            self.nontrivial.insert(hash64(&(name, h)));
        }
        for (k, v) in labels {
            *self.labels.entry(format!("{name}: {k}")).or_default() += v;
        }
    }
}

fn run_shard<C, S>(
    this: &Runner,
    name: &str,
    shard: usize,
    n: u32,
    strategy: &(impl Fn() -> S + Sync),
    exec: &(impl Fn(&C) -> Outcome + Sync),
    stop: &AtomicBool,
) -> ShardResult
where
    C: Debug + Clone + Serialize + DeserializeOwned + Send,
    S: Strategy<Value = C>,
{
    let config = Config {
        cases: n,
        failure_persistence: None,
        max_shrink_iters: 600,
        max_shrink_time: 60_000,
        source_file: None,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(this.seed, &this.property, name, shard));
    let mut runner = TestRunner::new_with_rng(config, rng);
    let res = RefCell::new(ShardResult {
        evaluations: 0,
        nontrivial: HashSet::new(),
        samples: vec![],
        labels: BTreeMap::new(),
        known_seen: BTreeMap::new(),
        failure: None,
        slowest: 0.0,
    });
    let shrinking = Cell::new(false);
    let journal = std::env::var("BVT_JOURNAL").ok();
    let outcome = runner.run(&strategy(), |case| {
        if stop.load(Ordering::Relaxed) && !shrinking.get() {
            return Ok(());
        }
        if let Some(dir) = &journal {
            let doc = serde_json::json!({"property": this.property, "part": name, "case": case});
            let _ = std::fs::write(format!("{dir}/shard{shard}.json"), doc.to_string());
        }
        let began = Instant::now();
        let r = run_case(&this.property, name, &case, exec, &this.known, shard);
        if !shrinking.get() {
            let mut s = res.borrow_mut();
            s.slowest = s.slowest.max(began.elapsed().as_secs_f64());
            s.evaluations += 1;
            if let Ok(info) = &r {
                for l in &info.labels {
                    *s.labels.entry(l.clone()).or_default() += 1;
                }
                for (k, d) in &info.signatures {
                    s.known_seen.entry(k.clone()).or_insert((0, d.clone())).0 += 1;
                }
                if info.nontrivial {
                    let json = serde_json::to_value(&case).unwrap();
                    let h = hash64(&json.to_string());
                    let new = s.nontrivial.insert(h);
                    if new && s.samples.len() < 2 {
                        s.samples.push(json);
                    }
                }
            }
        }
        match r {
            Ok(_) => Ok(()),
            Err(msg) => {
                shrinking.set(true);
                stop.store(true, Ordering::Relaxed);
                Err(TestCaseError::fail(msg))
            }
        }
    });
    HEARTBEAT[shard].store(0, Ordering::Relaxed);
    let mut res = res.into_inner();
    match outcome {
        Ok(()) => {}
        Err(TestError::Fail(reason, case)) => {
            res.failure = Some((serde_json::to_value(&case).unwrap(), reason.message().to_string()));
        }
        Err(TestError::Abort(reason)) => {
            eprintln!("harness: generation of {} {name} aborted: {reason}", this.property);
            std::process::exit(3);
        }
    }
    res
}

fn run_case<C: Serialize>(
    property: &str,
    part: &str,
    case: &C,
    exec: &impl Fn(&C) -> Outcome,
    known: &[Known],
    shard: usize,
) -> Outcome {
    let now = START.lock().unwrap().get_or_insert_with(Instant::now).elapsed().as_secs() + 1;
    HEARTBEAT[shard].store(now, Ordering::Relaxed);
    let current = (property.to_string(), part.to_string(), serde_json::to_string(case).unwrap());
    *RUNNING[shard].lock().unwrap() = Some(current.clone());
    SHARD.with(|s| s.set(shard));
    in_virtual_time(false);
    TIDS[shard].store(unsafe { gettid() } as u64, Ordering::Relaxed);
    CURRENT.with(|c| *c.borrow_mut() = Some(current));
    PANICS.with(|p| p.borrow_mut().clear());
    GLOBAL_PANICS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    crate::sim::reset_polls();
    crate::alloc::reset_max_request();
    IN_CASE.with(|c| c.set(true));
    crate::alloc::guard(true);
    let r = catch_unwind(AssertUnwindSafe(|| exec(case)));
    crate::alloc::guard(false);
    IN_CASE.with(|c| c.set(false));
    CURRENT.with(|c| *c.borrow_mut() = None);
    let panics: Vec<String> = PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()));
    // panics on threads that cases start themselves; such parts run in one shard
    let global: Vec<String> = std::mem::take(&mut *GLOBAL_PANICS.lock().unwrap_or_else(|e| e.into_inner()));
    HEARTBEAT[shard].store(0, Ordering::Relaxed);
    if let Some(p) = panics.first().or(global.first()) {
        return Err(format!("panic: {p}"));
    }
    let info = match r {
        Ok(r) => r?,
        Err(p) => return Err(format!("panic: {}", payload_text(&*p))),
    };
    for (sig, detail) in &info.signatures {
        if !known.iter().any(|k| k.property == property && k.signature == *sig) {
            return Err(format!("{detail} [signature {sig}]"));
        }
    }
    Ok(info)
}

extern "C" {
    fn gettid() -> i32;
}

/// What a thread is doing: (asleep, times it was switched out, CPU seconds it has used)
fn thread_state(tid: u64) -> Option<(bool, u64, f64)> {
    let status = std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).ok()?;
    let switches = status
        .lines()
        .filter(|l| l.contains("ctxt_switches"))
        .filter_map(|l| l.split_whitespace().last()?.parse::<u64>().ok())
        .sum();
    let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let fields: Vec<&str> = stat.rsplit_once(')')?.1.split_whitespace().collect();
    let ticks: u64 = fields.get(11)?.parse::<u64>().ok()? + fields.get(12)?.parse::<u64>().ok()?;
    Some((fields.first()? == &"S", switches, ticks as f64 / 100.0))
}

pub fn in_virtual_time(on: bool) {
    VIRTUAL[SHARD.with(|s| s.get())].store(on, Ordering::Relaxed);
}

/// A thread that has not run at all for so long is blocked; every real-time part has shorter timers
const BLOCKED_AFTER: Duration = Duration::from_secs(90);
const BLOCKED_AFTER_VIRTUAL: Duration = Duration::from_secs(30);
/// No case needs a fraction of this
const CPU_LIMIT: f64 = 150.0;

/// Ends the process when a case does not end. Exit code 4 names the case and says why it cannot end: its thread
/// sleeps without ever being woken, or has used far more computing time than any case needs. Exit code 3 (an error
/// of the check, no violation) is for everything else, such as a machine that is too slow.
pub fn start_watchdog(limit: Duration) {
    START.lock().unwrap().get_or_insert_with(Instant::now);
    std::thread::spawn(move || {
        // per shard: its heartbeat, its CPU time then, its switches and when they changed
        let mut seen = [(0u64, 0f64, 0u64, Instant::now()); SHARDS + 1];
        loop {
            std::thread::sleep(Duration::from_secs(2));
            let now = START.lock().unwrap().unwrap().elapsed().as_secs() + 1;
            for (shard, h) in HEARTBEAT.iter().enumerate() {
                let t = h.load(Ordering::Relaxed);
                if t == 0 {
                    seen[shard].0 = 0;
                    continue;
                }
                let why = match thread_state(TIDS[shard].load(Ordering::Relaxed)) {
                    None => None,
                    Some((asleep, switches, cpu)) => {
                        let s = &mut seen[shard];
                        if s.0 != t {
                            *s = (t, cpu, switches, Instant::now());
                        } else if !asleep || s.2 != switches {
                            s.2 = switches;
                            s.3 = Instant::now();
                        }
                        let limit = match VIRTUAL[shard].load(Ordering::Relaxed) {
                            true => BLOCKED_AFTER_VIRTUAL,
                            false => BLOCKED_AFTER,
                        };
                        if s.3.elapsed() > limit {
                            Some("the case blocks its thread for ever: it waits for itself")
                        } else if cpu - s.1 > CPU_LIMIT {
                            Some("the case does not come to an end: endless activity")
                        } else {
                            None
                        }
                    }
                };
                if let Some(why) = why {
                    if let Some((property, part, case)) = RUNNING[shard].lock().unwrap().clone() {
                        if h.load(Ordering::Relaxed) == t {
                            let v = serde_json::from_str(&case).unwrap_or(serde_json::Value::Null);
                            let path = write_replay(&property, &part, &v, why);
                            println!("STUCK property={property} replay={path}\n  {why}");
                            let _ = std::io::stdout().flush();
                            unsafe { libc_exit(4) }
                        }
                    }
                }
                if now > t + limit.as_secs() {
                    eprintln!("harness: watchdog: a case has been running for more than {} s", limit.as_secs());
                    unsafe { libc_exit(3) }
                }
            }
        }
    });
}

/// Whether nothing runs in this process any more: over ten seconds hardly ever a thread other than this is running
/// or wants to
pub async fn at_rest() -> bool {
    let mut busy = 0;
    for _ in 0..200 {
        tokio::time::sleep(Duration::from_millis(50)).await;
        let me = unsafe { gettid() } as u64;
        let tasks = std::fs::read_dir("/proc/self/task").into_iter().flatten().flatten();
        let others = tasks.filter_map(|d| d.file_name().to_str()?.parse::<u64>().ok()).filter(|t| *t != me);
        busy += others.filter_map(thread_state).any(|(asleep, ..)| !asleep) as u32;
    }
    busy < 20
}

/// Ends the process as an error of the check
pub fn give_up(msg: &str) -> ! {
    eprintln!("harness: {msg}");
    unsafe { libc_exit(3) }
}

pub fn load_known(path: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("known: ")?;
            let mut it = rest.split_whitespace();
            let property = it.next()?.strip_prefix("property=")?.to_string();
            let signature = it.next()?.strip_prefix("signature=")?.to_string();
            Some(Known { property, signature })
        })
        .collect()
}
