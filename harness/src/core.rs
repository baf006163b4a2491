//! Engine of the checks: case generation from sequences of draws produced by proptest, execution
//! on several threads, shrinking, replay files, evidence.
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Source of all the choices of a generator: a finite sequence of draws. Once it is exhausted all
/// the draws are 0, which every generator maps to its simplest choice.
pub struct Gen<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Gen<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Gen { data, pos: 0 }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }
    pub fn draw(&mut self) -> u32 {
        let v = self.data.get(self.pos).cloned().unwrap_or(0);
        self.pos += 1;
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw() as usize % n
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    /// true with a probability of `percent` / 100; shrinks towards false
    pub fn chance(&mut self, percent: usize) -> bool {
        self.draw() as usize % 100 >= 100 - percent.min(100)
    }
    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        &items[self.below(items.len())]
    }
    pub fn word<'b>(&mut self, items: &'b [&'b str]) -> String {
        self.pick(items).to_string()
    }
    pub fn vec<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let n = self.range(lo, hi);
        (0..n).map(|_| f(self)).collect()
    }
    /// a sub-sequence of distinct items
    pub fn subset<T: Clone>(&mut self, items: &[T], percent: usize) -> Vec<T> {
        items.iter().filter(|_| self.chance(percent)).cloned().collect()
    }
    /// any string, with a bias towards the characters that are usually mishandled
    pub fn string(&mut self, max: usize) -> String {
        const ODD: &[char] = &[
            ' ', '\t', '\n', '\r', '\u{0}', '\u{b}', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', '"', '\\', '\'',
            '/', '%', '{', '}', '<', '&', '_', '-', '.', ',', '?', 'é', 'É', 'ß', 'ẞ', 'İ', 'ı', 'ſ', 'K', 'Σ', 'ς',
            'ŉ', 'ǰ', 'ﬁ', '\u{301}', '\u{307}', '\u{200b}', '\u{2028}', '\u{feff}', '中', '文', 'カ', '가', '٣',
            '½', '€', '😀', '\u{1f468}', '\u{200d}', '\u{10ffff}', '\u{fffd}', '𝔸', 'Ǆ', 'Ⅷ', 'ⅷ',
        ];
        let n = self.range(0, max);
        let mut s = String::new();
        for _ in 0..n {
            let d = self.draw();
            let v = (d >> 4) as usize;
            s.push(match d % 8 {
                0..=3 => (b'a' + (v % 26) as u8) as char,
                4 => (0x20 + (v % 0x5f) as u8) as char,
                5 | 6 => ODD[v % ODD.len()],
                _ => std::char::from_u32((v as u32) % 0x11_0000).unwrap_or('x'),
            });
        }
        s
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = i - self.below(i + 1);
            items.swap(i, j);
        }
    }
}

#[derive(Default, Clone)]
pub struct Obs {
    pub nontrivial: bool,
    pub evals: u64,
    pub labels: BTreeMap<String, u64>,
}

impl Obs {
    pub fn label(&mut self, name: &str) {
        *self.labels.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn hit(&mut self, name: &str) {
        self.nontrivial = true;
        self.label(name);
    }
}

pub type Check = std::result::Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err(format!($($arg)*)); } };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, at));
    }));
}

/// Runs `f`, turning a panic into an error
pub fn no_panic<T>(f: impl FnOnce() -> T) -> std::result::Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

thread_local! {
    static WORKER: Cell<usize> = const { Cell::new(usize::max_value()) };
}

/// 0, or 1 + the worker that has received a fatal signal; ANYONE when it is another thread
static CRASHED: AtomicUsize = AtomicUsize::new(0);
static SIGNAL: AtomicUsize = AtomicUsize::new(0);
const ANYONE: usize = usize::max_value();

/// Called by the handler of fatal signals: the monitor of the section reports the case
pub fn crashed(signal: i32) {
    SIGNAL.store(signal as usize, Ordering::SeqCst);
    let worker = WORKER.try_with(|w| w.get()).unwrap_or(usize::max_value());
    CRASHED.store(if worker == usize::max_value() { ANYONE } else { worker + 1 }, Ordering::SeqCst);
}

/// What a worker is doing
#[derive(Default)]
struct Doing {
    since: Option<Instant>,
    data: Vec<u32>,
}

pub struct Violation {
    pub section: String,
    pub message: String,
    pub case: Value,
}

pub enum Mode {
    Explore,
    Replay { section: String, case: Value },
}

pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub mode: Mode,
    pub root: PathBuf,
    pub workers: usize,
    evaluations: u64,
    cases: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    rules: Vec<String>,
    samples: Vec<Value>,
    pub violation: Option<Violation>,
    known: Vec<(String, String)>,
    known_hits: BTreeMap<String, u64>,
    pub assumptions: Vec<String>,
    pub replayed: bool,
    start: Instant,
}

fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

struct Shared {
    evals: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(usize, Value)>,
    failure: Option<(usize, String, Value)>,
    known_hits: BTreeMap<String, u64>,
}

impl Run {
    pub fn new(id: &str, thorough: bool, seed: u64, mode: Mode, root: PathBuf) -> Run {
        let mut known = vec![];
        if let Ok(text) = std::fs::read_to_string(root.join("known-findings.json")) {
            let v: Value = serde_json::from_str(&text).expect("known-findings.json");
            for f in v["findings"].as_array().cloned().unwrap_or_default() {
                if f["property"] == id {
                    known.push((
                        f["signature"].as_str().unwrap().to_string(),
                        f["what"].as_str().unwrap_or("").to_string(),
                    ));
                }
            }
        }
        Run {
            id: id.to_string(),
            thorough,
            seed,
            mode,
            root,
            workers: std::env::var("VP_WORKERS").ok().and_then(|w| w.parse().ok()).unwrap_or(8),
            evaluations: 0,
            cases: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            rules: vec![],
            samples: vec![],
            violation: None,
            known,
            known_hits: BTreeMap::new(),
            assumptions: vec![],
            replayed: false,
            start: Instant::now(),
        }
    }

    /// Runs one family of cases of the property. `cases` is the amount of work of the quick and of
    /// the thorough tier. `gen` builds a case out of the draws, `check` is the oracle.
    pub fn section<C, G, F>(
        &mut self,
        name: &str,
        rule: &str,
        cases: (usize, usize),
        draws: usize,
        gen: G,
        check: F,
    ) where
        C: Serialize + DeserializeOwned + Clone + Debug + Send,
        G: Fn(&mut Gen) -> C + Sync,
        F: Fn(&C, &mut Obs) -> Check + Sync,
    {
        if self.violation.is_some() {
            return;
        }
        let eval = |case: &C, obs: &mut Obs| -> Check {
            match no_panic(|| check(case, obs)) {
                Ok(r) => r,
                Err(p) => Err(p),
            }
        };
        if let Mode::Replay { section, case } = &self.mode {
            if section != name {
                return;
            }
            self.replayed = true;
            let case: C = serde_json::from_value(case.clone()).expect("replay case");
            if let Err(message) = eval(&case, &mut Obs::default()) {
                self.violation = Some(Violation {
                    section: name.to_string(),
                    message,
                    case: serde_json::to_value(&case).unwrap(),
                });
            }
            return;
        }
        self.rules.push(format!("{}: {}", name, rule));
        // saved inputs first
        let saved = self.root.join("regressions").join(&self.id);
        if let Ok(dir) = std::fs::read_dir(&saved) {
            let mut files: Vec<PathBuf> = dir.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            files.sort();
            for file in files {
                let v: Value = match std::fs::read_to_string(&file)
                    .ok()
                    .and_then(|t| serde_json::from_str(&t).ok())
                {
                    Some(v) => v,
                    None => continue,
                };
                if v["section"] != name {
                    continue;
                }
                if let Ok(case) = serde_json::from_value::<C>(v["case"].clone()) {
                    let mut obs = Obs::default();
                    self.cases += 1;
                    *self.labels.entry(format!("{}/saved", name)).or_insert(0) += 1;
                    if let Err(message) = eval(&case, &mut obs) {
                        self.violation = Some(Violation {
                            section: name.to_string(),
                            message,
                            case: v["case"].clone(),
                        });
                        return;
                    }
                    self.evaluations += obs.evals.max(1);
                }
            }
        }
        let total = if self.thorough { cases.1 } else { cases.0 };
        let workers = self.workers.max(1).min(total.max(1));
        let stop = AtomicBool::new(false);
        let done = AtomicUsize::new(0);
        let shared = Mutex::new(Shared {
            evals: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            failure: None,
            known_hits: BTreeMap::new(),
        });
        let seed = self.seed;
        let known = &self.known;
        let doing: Vec<Mutex<Doing>> = (0..workers).map(|_| Mutex::new(Doing::default())).collect();
        let ended = AtomicBool::new(false);
        let running = AtomicUsize::new(workers);
        let patience = Duration::from_secs(if self.thorough { 900 } else { 150 });
        let (id, root, rules) = (self.id.clone(), self.root.clone(), self.rules.clone());
        let (thorough, start) = (self.thorough, self.start);
        std::thread::scope(|scope| {
            {
                // reports the case of a worker that crashes, or that is stuck
                let (doing, ended, gen, done) = (&doing, &ended, &gen, &done);
                scope.spawn(move || {
                    while !ended.load(Ordering::SeqCst) {
                        std::thread::sleep(Duration::from_millis(20));
                        let crashed = CRASHED.load(Ordering::SeqCst);
                        let stuck = (0..workers)
                            .filter_map(|w| doing[w].lock().unwrap().since.map(|s| (s.elapsed(), w)))
                            .max();
                        let (worker, message) = match (crashed, stuck) {
                            (0, Some((time, w))) if time > patience => {
                                (w, format!("no result after {} s", patience.as_secs()))
                            }
                            (0, _) => continue,
                            (ANYONE, None) => (0, "a thread crashed".to_string()),
                            (ANYONE, Some((_, w))) => (w, "a thread crashed".to_string()),
                            (w, _) => (w - 1, "the process crashed".to_string()),
                        };
                        let message = match SIGNAL.load(Ordering::SeqCst) {
                            0 => message,
                            n => format!("{} (signal {})", message, n),
                        };
                        let data = doing[worker].lock().unwrap().data.clone();
                        let mut case = gen(&mut Gen::new(&data));
                        if crashed != 0 {
                            // a smaller case, run in other processes, also ends with a signal
                            let run = Path::new(&root).join("replays").join(format!(".{}.json", id));
                            let _ = std::fs::create_dir_all(root.join("replays"));
                            let ends = |case: &C, _: &mut Obs| -> Check {
                                let body = json!({"property": id, "section": name, "case": case});
                                std::fs::write(&run, body.to_string()).unwrap();
                                match in_another_process(&id, &run) {
                                    true => Err("crashes".to_string()),
                                    false => Ok(()),
                                }
                            };
                            if ends(&case, &mut Obs::default()).is_err() {
                                case = shrink_for(data, case, String::new(), gen, &ends, &[], 40).0;
                            }
                            let _ = std::fs::remove_file(&run);
                        }
                        let mut run = Run::new(&id, thorough, seed, Mode::Explore, root);
                        run.cases = done.load(Ordering::Relaxed) as u64;
                        run.evaluations = run.cases;
                        run.rules = rules;
                        run.start = start;
                        run.violation = Some(Violation {
                            section: name.to_string(),
                            message,
                            case: serde_json::to_value(&case).unwrap(),
                        });
                        let code = run.finish();
                        std::process::exit(code);
                    }
                });
            }
            for worker in 0..workers {
                let (stop, shared, eval, gen, done) = (&stop, &shared, &eval, &gen, &done);
                let (doing, ended, running) = (&doing[worker], &ended, &running);
                let id = self.id.clone();
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                    WORKER.with(|w| w.set(worker));
                    let _last = Last(running, ended);
                    let mut seed_bytes = [0u8; 32];
                    for (i, chunk) in seed_bytes.chunks_mut(8).enumerate() {
                        chunk.copy_from_slice(
                            &hash64(&(seed, &id, name, worker, i, "vp")).to_le_bytes(),
                        );
                    }
                    let mut runner = TestRunner::new_with_rng(
                        Config {
                            failure_persistence: None,
                            ..Config::default()
                        },
                        TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes),
                    );
                    let strategy = proptest::collection::vec(any::<u32>(), draws);
                    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
                    let mut distinct = HashSet::new();
                    let mut evals = 0;
                    let mut samples = vec![];
                    let share = total / workers + usize::from(worker < total % workers);
                    for n in 0..share {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let data = strategy.new_tree(&mut runner).unwrap().current();
                        let mut g = Gen::new(&data);
                        let case = gen(&mut g);
                        let used = g.used();
                        let mut obs = Obs::default();
                        *doing.lock().unwrap() = Doing { since: Some(Instant::now()), data: data[..used].to_vec() };
                        let result = eval(&case, &mut obs);
                        doing.lock().unwrap().since = None;
                        done.fetch_add(1, Ordering::Relaxed);
                        evals += obs.evals.max(1);
                        for (k, v) in obs.labels {
                            *labels.entry(k).or_insert(0) += v;
                        }
                        if obs.nontrivial {
                            let text = serde_json::to_string(&case).unwrap();
                            distinct.insert(hash64(&text));
                            if samples.len() < 2 && (n >= 2 || share < 4) {
                                samples.push((worker, sample(&text)));
                            }
                        }
                        if let Err(message) = result {
                            if let Some((sig, _)) = known.iter().find(|(s, _)| message.contains(s.as_str())) {
                                *shared.lock().unwrap().known_hits.entry(sig.clone()).or_insert(0) += 1;
                                continue;
                            }
                            stop.store(true, Ordering::Relaxed);
                            let eval = |case: &C, obs: &mut Obs| -> Check {
                                doing.lock().unwrap().since = Some(Instant::now());
                                let r = eval(case, obs);
                                doing.lock().unwrap().since = None;
                                r
                            };
                            let (case, message) =
                                shrink_for(data[..used].to_vec(), case, message, gen, &eval, known, 45);
                            let mut s = shared.lock().unwrap();
                            if s.failure.as_ref().map(|(w, _, _)| worker < *w).unwrap_or(true) {
                                s.failure =
                                    Some((worker, message, serde_json::to_value(&case).unwrap()));
                            }
                            break;
                        }
                    }
                    let mut s = shared.lock().unwrap();
                    s.evals += evals;
                    s.distinct.extend(distinct);
                    for (k, v) in labels {
                        *s.labels.entry(k).or_insert(0) += v;
                    }
                    s.samples.extend(samples);
                }).unwrap();
            }
        });
        let mut s = shared.into_inner().unwrap();
        self.cases += done.load(Ordering::Relaxed) as u64;
        self.evaluations += s.evals;
        self.distinct.extend(s.distinct.iter().map(|h| hash64(&(name, h))));
        for (k, v) in s.labels {
            *self.labels.entry(format!("{}/{}", name, k)).or_insert(0) += v;
        }
        *self.labels.entry(format!("{}/cases", name)).or_insert(0) += done.load(Ordering::Relaxed) as u64;
        *self.labels.entry(format!("{}/distinct_nontrivial", name)).or_insert(0) += s.distinct.len() as u64;
        s.samples.sort_by_key(|(w, _)| *w);
        self.samples.extend(s.samples.into_iter().take(2).map(|(_, v)| json!({"section": name, "case": v})));
        for (k, v) in s.known_hits {
            *self.known_hits.entry(k).or_insert(0) += v;
        }
        if let Some((_, message, case)) = s.failure {
            self.violation = Some(Violation { section: name.to_string(), message, case });
        }
    }

    pub fn assume(&mut self, text: &str) {
        self.assumptions.push(text.to_string());
    }

    /// Writes the evidence and the replay file, returns the exit code
    pub fn finish(self) -> i32 {
        if let Mode::Replay { section, .. } = &self.mode {
            if !self.replayed {
                eprintln!("no section named {} in {}", section, self.id);
                return 2;
            }
            return match &self.violation {
                Some(v) => {
                    println!("{}", v.message);
                    1
                }
                None => {
                    println!("the case satisfies the property");
                    0
                }
            };
        }
        for (sig, what) in &self.known {
            println!("KNOWN-FINDING: property={} {} [{}] ({} generated cases)", self.id, what, sig,
                self.known_hits.get(sig).cloned().unwrap_or(0));
        }
        let mut evidence = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "generated_cases": self.cases,
                "distinct_nontrivial": self.distinct.len(),
                "rule": self.rules.join(" | "),
                "samples": self.samples,
                "distribution": self.labels,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": usize::from(self.violation.is_some()),
        });
        let dir = self.root.join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        // The second binary that runs cases of the same check completes the evidence of the first
        if std::env::var("VP_MERGE").is_ok() {
            if let Some(first) = std::fs::read_to_string(dir.join(format!("{}.json", self.id)))
                .ok()
                .and_then(|t| serde_json::from_str::<Value>(&t).ok())
            {
                let c = &first["coverage"];
                let e = &mut evidence["coverage"];
                for k in ["evaluations", "generated_cases", "distinct_nontrivial"] {
                    e[k] = json!(e[k].as_u64().unwrap_or(0) + c[k].as_u64().unwrap_or(0));
                }
                e["rule"] = json!(format!("{} | {}", c["rule"].as_str().unwrap_or(""), e["rule"].as_str().unwrap_or("")));
                let mut samples = c["samples"].as_array().cloned().unwrap_or_default();
                samples.extend(e["samples"].as_array().cloned().unwrap_or_default());
                e["samples"] = Value::Array(samples);
                if let (Some(a), Some(b)) = (c["distribution"].as_object(), e["distribution"].as_object_mut()) {
                    for (k, v) in a {
                        b.insert(k.clone(), v.clone());
                    }
                }
                evidence["wall_s"] = json!(evidence["wall_s"].as_f64().unwrap_or(0.) + first["wall_s"].as_f64().unwrap_or(0.));
            }
        }
        std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&evidence).unwrap(),
        )
        .unwrap();
        match &self.violation {
            None => {
                println!(
                    "{}: held on {} cases, {} evaluations, {} distinct non-trivial, {:.1} s",
                    self.id,
                    self.cases,
                    self.evaluations,
                    self.distinct.len(),
                    self.start.elapsed().as_secs_f64()
                );
                0
            }
            Some(v) => {
                let replays = self.root.join("replays");
                std::fs::create_dir_all(&replays).unwrap();
                let body = json!({
                    "property": self.id,
                    "section": v.section,
                    "message": v.message,
                    "case": v.case,
                });
                let path = replays.join(format!(
                    "{}-{:016x}.json",
                    self.id,
                    hash64(&body.to_string())
                ));
                std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
                println!("{}: section {}: {}", self.id, v.section, v.message);
                println!("VIOLATION property={} replay={}", self.id, path.display());
                1
            }
        }
    }
}

/// Tells the monitor when the last worker has ended
struct Last<'a>(&'a AtomicUsize, &'a AtomicBool);

impl<'a> Drop for Last<'a> {
    fn drop(&mut self) {
        if self.0.fetch_sub(1, Ordering::SeqCst) == 1 {
            self.1.store(true, Ordering::SeqCst);
        }
    }
}

/// Runs a replay file and tells whether it ends with a signal
fn in_another_process(id: &str, file: &Path) -> bool {
    let child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(&[id, "--replay"])
        .arg(file)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(_) => return false,
    };
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(status)) => return status.code().is_none(),
            Ok(None) if start.elapsed().as_secs() < 20 => std::thread::sleep(Duration::from_millis(2)),
            _ => {
                let _ = child.kill();
                let _ = child.wait();
                return false;
            }
        }
    }
}

fn sample(text: &str) -> Value {
    if text.len() <= 4000 {
        serde_json::from_str(text).unwrap()
    } else {
        let cut: String = text.chars().take(3000).collect();
        Value::String(format!("{}... ({} bytes)", cut, text.len()))
    }
}

/// Minimises a failing sequence of draws: deletion of blocks, then zeroing, then lowering.
fn shrink_for<C, G, F>(
    mut data: Vec<u32>,
    mut case: C,
    mut message: String,
    gen: &G,
    eval: &F,
    known: &[(String, String)],
    seconds: u64,
) -> (C, String)
where
    C: Clone + Serialize,
    G: Fn(&mut Gen) -> C,
    F: Fn(&C, &mut Obs) -> Check,
{
    let start = Instant::now();
    let mut budget = 4000usize;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut attempt = |candidate: &[u32], data: &mut Vec<u32>, case: &mut C, message: &mut String| -> bool {
        if budget == 0 || start.elapsed().as_secs() >= seconds {
            return false;
        }
        let mut g = Gen::new(candidate);
        let c = gen(&mut g);
        if !seen.insert(hash64(&serde_json::to_string(&c).unwrap())) {
            return false;
        }
        budget -= 1;
        match eval(&c, &mut Obs::default()) {
            Err(m) if !known.iter().any(|(s, _)| m.contains(s.as_str())) => {
                *data = candidate[..g.used()].to_vec();
                *case = c;
                *message = m;
                true
            }
            _ => false,
        }
    };
    loop {
        let before = data.clone();
        for size in [64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i < data.len() {
                let mut candidate = data.clone();
                candidate.drain(i..(i + size).min(data.len()));
                if !attempt(&candidate, &mut data, &mut case, &mut message) {
                    i += size;
                }
            }
        }
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < data.len() {
                let end = (i + size).min(data.len());
                if data[i..end].iter().any(|v| *v != 0) {
                    let mut candidate = data.clone();
                    candidate[i..end].iter_mut().for_each(|v| *v = 0);
                    attempt(&candidate, &mut data, &mut case, &mut message);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < data.len() {
            for small in [1u32, 2, 3, 5] {
                if i < data.len() && data[i] > small {
                    let mut candidate = data.clone();
                    candidate[i] = small;
                    if attempt(&candidate, &mut data, &mut case, &mut message) {
                        break;
                    }
                }
            }
            i += 1;
        }
        if data == before || data.is_empty() {
            break;
        }
    }
    (case, message)
}

pub fn load_replay(path: &Path) -> (String, Mode) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file"))
        .expect("replay file");
    (
        v["property"].as_str().unwrap().to_string(),
        Mode::Replay {
            section: v["section"].as_str().unwrap().to_string(),
            case: v["case"].clone(),
        },
    )
}

pub fn watchdog(seconds: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(seconds));
        eprintln!("inconclusive: the check did not end within {} s", seconds);
        std::process::exit(3);
    });
}
