//! Check runner: shard workers, seeds, statistics, shrinking, replays, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use serde_json::{Value, json};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default, Serialize, Deserialize, Debug)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub warnings: Vec<String>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.warnings.extend(o.warnings);
    }
}

/// What one execution reports about itself.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<(String, u64)>,
}

impl Case {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push((s.into(), 1));
    }
    pub fn count(&mut self, s: impl Into<String>, n: u64) {
        if n > 0 {
            self.labels.push((s.into(), n));
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub type CheckFn<T> = fn(&T, &mut Case) -> Result<(), String>;

pub trait DynSub {
    fn name(&self) -> &'static str;
    fn run(&self, ctx: &mut ShardCtx) -> Option<Failure>;
    fn replay(&self, input: &Value) -> Result<Result<(), String>, String>;
}

pub struct Sub<T> {
    name: &'static str,
    quick: u64,
    thorough: u64,
    strat: Box<dyn Fn(Tier) -> BoxedStrategy<T>>,
    check: CheckFn<T>,
}

pub fn sub<T, S, G>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    strat: G,
    check: CheckFn<T>,
) -> Box<dyn DynSub>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = T> + 'static,
    G: Fn(Tier) -> S + 'static,
{
    Box::new(Sub {
        name,
        quick,
        thorough,
        strat: Box::new(move |t| strat(t).boxed()),
        check,
    })
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// a case that burns this much cpu time is a violation (decode / hostile peer checks only)
    pub spin_secs: Option<u64>,
    pub subs: Vec<Box<dyn DynSub>>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Failure {
    pub sub: String,
    pub input: Value,
    pub message: String,
}

pub struct ShardCtx {
    pub tier: Tier,
    pub seed: u64,
    pub shard: u64,
    pub nshards: u64,
    pub prop: &'static str,
    pub deadline: Instant,
    pub stats: Stats,
}

// ---------------------------------------------------------------- panics

pub struct PanicRec {
    pub msg: String,
    pub harness: bool,
}

pub static PANICS: Mutex<Vec<PanicRec>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let payload = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let harness = if loc.starts_with("/repo/") || loc.contains("/sd/repo/") {
            false
        } else if loc.starts_with("src/") || loc.contains("/verif/harness/") {
            true
        } else {
            // a library frame: whose call was it?
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            let mut h = true;
            for l in bt.lines() {
                if l.contains("amqpv::runner::install_panic_hook") {
                    continue;
                }
                if l.contains("amqpv::") {
                    h = true;
                    break;
                }
                if l.contains("ntex_amqp") {
                    h = false;
                    break;
                }
            }
            h
        };
        let msg = format!("panic at {loc}: {payload}");
        if std::env::var_os("AMQPV_VERBOSE").is_some() {
            eprintln!("{msg}");
        }
        if let Ok(mut p) = PANICS.lock() {
            p.push(PanicRec { msg, harness });
        }
    }));
}

pub fn take_panics() -> Vec<PanicRec> {
    std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

pub fn fatal(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR {msg}");
    println!("HARNESS-ERROR {msg}");
    std::process::exit(2)
}

// ---------------------------------------------------------------- watchdog

static CASE_NO: AtomicU64 = AtomicU64::new(0);
static CASE_RUNNING: AtomicU64 = AtomicU64::new(0);

fn cpu_ms(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        libc::clock_gettime(clock, &mut ts);
    }
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

/// Watches the case thread.  `spin`: cpu seconds of one case that count as a violation.
pub fn start_watchdog(spin: Option<u64>, fail_file: Option<String>) {
    let mut clock: libc::clockid_t = 0;
    unsafe {
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock);
    }
    std::thread::spawn(move || {
        let mut last = 0;
        let mut started = Instant::now();
        let mut cpu0 = 0;
        loop {
            std::thread::sleep(Duration::from_millis(100));
            if CASE_RUNNING.load(Ordering::SeqCst) == 0 {
                last = 0;
                continue;
            }
            let no = CASE_NO.load(Ordering::SeqCst);
            if no != last {
                last = no;
                started = Instant::now();
                cpu0 = cpu_ms(clock);
                continue;
            }
            let cpu = cpu_ms(clock) - cpu0;
            if let Some(s) = spin {
                if cpu > s * 1000 {
                    if let Some(f) = &fail_file {
                        let _ = std::fs::write(f, b"spin");
                    }
                    std::process::exit(77);
                }
            }
            if started.elapsed() > Duration::from_secs(240) {
                eprintln!("HARNESS-ERROR watchdog: one case ran for 240 s");
                std::process::exit(2);
            }
        }
    });
}

// ---------------------------------------------------------------- running one case

thread_local! {
    static CUR: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
}

fn write_cur(sub: &str, input: &str) {
    CUR.with(|c| {
        if let Some(f) = c.borrow().as_ref() {
            use std::os::unix::fs::FileExt;
            let s = format!("{:010}{}\n{}", sub.len() + 1 + input.len(), sub, input);
            let _ = f.write_all_at(s.as_bytes(), 0);
        }
    });
}

fn read_cur(path: &str) -> Option<(String, Value)> {
    let s = std::fs::read(path).ok()?;
    let len: usize = std::str::from_utf8(s.get(..10)?).ok()?.parse().ok()?;
    let s = std::str::from_utf8(s.get(10..10 + len)?).ok()?;
    let (sub, input) = s.split_once('\n')?;
    Some((sub.to_string(), serde_json::from_str(input).ok()?))
}

pub fn exec<T: Serialize>(
    sub: &str,
    check: CheckFn<T>,
    input: &T,
    case: &mut Case,
) -> (Result<(), String>, String) {
    let js = serde_json::to_string(input).unwrap_or_else(|e| fatal(&format!("serialize: {e}")));
    write_cur(sub, &js);
    take_panics();
    CASE_NO.fetch_add(1, Ordering::SeqCst);
    CASE_RUNNING.store(1, Ordering::SeqCst);
    let res = catch_unwind(AssertUnwindSafe(|| check(input, case)));
    CASE_RUNNING.store(0, Ordering::SeqCst);
    let panics = take_panics();
    for p in &panics {
        if p.harness {
            let _ = std::fs::write("/tmp/amqpv-harness-panic.json", &js);
            fatal(&format!("{} (sub {sub}, input {:.2000})", p.msg, js));
        }
    }
    let res = if let Some(p) = panics.first() {
        Err(p.msg.clone())
    } else {
        match res {
            Ok(r) => r,
            Err(_) => fatal("unwound without a panic record"),
        }
    };
    (res, js)
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

impl<T> DynSub for Sub<T>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run(&self, ctx: &mut ShardCtx) -> Option<Failure> {
        let scale: f64 =
            std::env::var("AMQPV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let total = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = ((total as f64 * scale) as u64).max(1);
        let n = total / ctx.nshards + u64::from(ctx.shard < total % ctx.nshards);
        if n == 0 {
            return None;
        }
        let mut seed = [0u8; 32];
        seed[..8].copy_from_slice(&ctx.seed.to_le_bytes());
        seed[8..16].copy_from_slice(&hash_str(ctx.prop).to_le_bytes());
        seed[16..24].copy_from_slice(&hash_str(self.name).to_le_bytes());
        seed[24..32].copy_from_slice(&ctx.shard.to_le_bytes());
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
        let config = Config {
            cases: n as u32,
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: 90_000,
            max_global_rejects: 1_000_000,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strat = (self.strat)(ctx.tier);
        let deadline = ctx.deadline;
        let state = RefCell::new((&mut ctx.stats, false, 0u64));
        let res = runner.run(&strat, |input| {
            let mut st = state.borrow_mut();
            if !st.1 && Instant::now() > deadline {
                *st.0.labels.entry(format!("{}: skipped, out of time", self.name)).or_default() +=
                    1;
                return Ok(());
            }
            let mut case = Case::default();
            let (r, js) = exec(self.name, self.check, &input, &mut case);
            if !st.1 {
                st.0.evaluations += 1;
                for (k, v) in case.labels {
                    *st.0.labels.entry(format!("{}: {}", self.name, k)).or_default() += v;
                }
                if case.nontrivial {
                    let new = st.0.nontrivial.insert(hash_str(&js));
                    if new {
                        st.2 += 1;
                        if st.2 <= 2 {
                            let v = if js.len() < 1500 {
                                json!({"sub": self.name, "input": input_value(&js)})
                            } else {
                                json!({"sub": self.name, "input_prefix": js.chars().take(600).collect::<String>(), "input_bytes": js.len()})
                            };
                            st.0.samples.push(v);
                        }
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    st.1 = true;
                    Err(TestCaseError::fail(m))
                }
            }
        });
        drop(state);
        match res {
            Ok(()) => None,
            Err(TestError::Fail(reason, input)) => {
                let js = serde_json::to_value(&input).unwrap();
                // confirm
                let mut msg = None;
                for _ in 0..8 {
                    let mut case = Case::default();
                    if let (Err(m), _) = exec(self.name, self.check, &input, &mut case) {
                        msg = Some(m);
                        break;
                    }
                }
                match msg {
                    Some(m) => {
                        Some(Failure { sub: self.name.to_string(), input: js, message: m })
                    }
                    None => {
                        let w = format!(
                            "UNREPRODUCIBLE sub={} reason={} input={}",
                            self.name, reason, js
                        );
                        eprintln!("{w}");
                        ctx.stats.warnings.push(w.chars().take(3000).collect());
                        None
                    }
                }
            }
            Err(TestError::Abort(r)) => fatal(&format!("proptest abort in {}: {r}", self.name)),
        }
    }

    fn replay(&self, input: &Value) -> Result<Result<(), String>, String> {
        let t: T = serde_json::from_value(input.clone()).map_err(|e| e.to_string())?;
        let mut case = Case::default();
        let r = exec(self.name, self.check, &t, &mut case).0;
        if std::env::var_os("AMQPV_VERBOSE").is_some() {
            eprintln!("labels {:?}", case.labels);
        }
        Ok(r)
    }
}

fn input_value(js: &str) -> Value {
    serde_json::from_str(js).unwrap_or(Value::Null)
}

// ---------------------------------------------------------------- shard process

#[derive(Serialize, Deserialize, Default)]
struct ShardOut {
    stats: Stats,
    failures: Vec<Failure>,
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

pub fn shard_main(props: Vec<Prop>, args: &[String]) -> i32 {
    let id = arg(args, "--prop").unwrap();
    let p = props.into_iter().find(|p| p.id == id).unwrap_or_else(|| fatal("unknown property"));
    let tier =
        if arg(args, "--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let shard: u64 = arg(args, "--shard").unwrap().parse().unwrap();
    let nshards: u64 = arg(args, "--nshards").unwrap().parse().unwrap();
    let budget: u64 = arg(args, "--budget").unwrap().parse().unwrap();
    let base = arg(args, "--base").unwrap();
    let only = arg(args, "--sub");
    install_panic_hook();
    let f = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .read(true)
        .write(true)
        .open(format!("{base}.cur"))
        .unwrap();
    CUR.with(|c| *c.borrow_mut() = Some(f));
    start_watchdog(p.spin_secs, Some(format!("{base}.spin")));
    let mut ctx = ShardCtx {
        tier,
        seed,
        shard,
        nshards,
        prop: p.id,
        deadline: Instant::now() + Duration::from_secs(budget),
        stats: Stats::default(),
    };
    let mut failures = Vec::new();
    for s in &p.subs {
        if let Some(o) = &only {
            if o != s.name() {
                continue;
            }
        }
        let t = Instant::now();
        if let Some(f) = s.run(&mut ctx) {
            failures.push(f);
        }
        if std::env::var_os("AMQPV_TIMES").is_some() {
            eprintln!("shard {shard} sub {} took {:?}", s.name(), t.elapsed());
        }
        // what is known so far survives a crash in a later sub
        let out = serde_json::to_vec(&json!({"stats": ctx.stats, "failures": failures})).unwrap();
        std::fs::write(format!("{base}.out"), out).unwrap();
    }
    0
}

// ---------------------------------------------------------------- replay process

pub fn replay_main(props: Vec<Prop>, file: &str) -> i32 {
    let v: Value = serde_json::from_str(
        &std::fs::read_to_string(file).unwrap_or_else(|e| fatal(&format!("{file}: {e}"))),
    )
    .unwrap_or_else(|e| fatal(&format!("{file}: {e}")));
    let id = v["property"].as_str().unwrap_or("");
    let p = props.into_iter().find(|p| p.id == id).unwrap_or_else(|| fatal("unknown property"));
    let name = v["sub"].as_str().unwrap_or("");
    let s = p.subs.iter().find(|s| s.name() == name).unwrap_or_else(|| fatal("unknown sub"));
    install_panic_hook();
    start_watchdog(p.spin_secs, None);
    match s.replay(&v["input"]) {
        Ok(Ok(())) => {
            println!("REPLAY-OK property={id} sub={name}");
            0
        }
        Ok(Err(m)) => {
            println!("REPLAY-FAIL property={id} sub={name}: {m}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Err(e) => fatal(&format!("replay input: {e}")),
    }
}

enum ReplayRes {
    Ok,
    Fail(String),
    Error(String),
}

/// Runs one replay in a process of its own.
fn replay_child(file: &str) -> ReplayRes {
    let exe = std::env::current_exe().unwrap();
    let out = Command::new(exe).arg("replay").arg(file).stderr(Stdio::null()).output();
    let out = match out {
        Ok(o) => o,
        Err(e) => return ReplayRes::Error(e.to_string()),
    };
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    match out.status.code() {
        Some(0) => ReplayRes::Ok,
        Some(1) => ReplayRes::Fail(
            text.lines().find(|l| l.starts_with("REPLAY-FAIL")).unwrap_or("failed").to_string(),
        ),
        Some(77) => ReplayRes::Fail("does not come to an end (cpu time bound exceeded)".into()),
        Some(c) => ReplayRes::Error(format!("exit {c}: {text}")),
        None => {
            use std::os::unix::process::ExitStatusExt;
            match out.status.signal() {
                Some(s) if s == libc::SIGKILL || s == libc::SIGTERM || s == libc::SIGINT => {
                    ReplayRes::Error(format!("killed by signal {s}"))
                }
                s => ReplayRes::Fail(format!("process died with signal {s:?}")),
            }
        }
    }
}

/// Generic shrinking of a JSON input by running replays in child processes (for crashes).
fn shrink_json(prop: &str, sub: &str, input: Value, dir: &str) -> Value {
    let start = Instant::now();
    let mut best = input;
    let file = format!("{dir}/shrink.json");
    let mut tries = 0;
    let fails = |v: &Value, tries: &mut u32| {
        *tries += 1;
        std::fs::write(&file, serde_json::to_vec(&json!({"property": prop, "sub": sub, "input": v})).unwrap()).unwrap();
        matches!(replay_child(&file), ReplayRes::Fail(_))
    };
    fn paths(v: &Value, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        match v {
            Value::Array(a) => {
                out.push(cur.clone());
                for (i, x) in a.iter().enumerate() {
                    cur.push(i.to_string());
                    paths(x, cur, out);
                    cur.pop();
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    cur.push(k.clone());
                    paths(x, cur, out);
                    cur.pop();
                }
            }
            _ => {}
        }
    }
    fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
        let mut v = v;
        for k in p {
            v = match v {
                Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
                Value::Object(o) => o.get_mut(k)?,
                _ => return None,
            };
        }
        Some(v)
    }
    let mut progress = true;
    while progress && start.elapsed() < Duration::from_secs(40) && tries < 400 {
        progress = false;
        let mut ps = Vec::new();
        paths(&best, &mut Vec::new(), &mut ps);
        for p in ps {
            let len = match at(&mut best.clone(), &p) {
                Some(Value::Array(a)) => a.len(),
                _ => continue,
            };
            let mut chunk = len;
            while chunk >= 1 {
                let mut i = 0;
                loop {
                    if start.elapsed() > Duration::from_secs(40) || tries > 400 {
                        return best;
                    }
                    let mut cand = best.clone();
                    match at(&mut cand, &p) {
                        Some(Value::Array(a)) if i < a.len() => {
                            let e = (i + chunk).min(a.len());
                            a.drain(i..e);
                        }
                        _ => break,
                    }
                    if fails(&cand, &mut tries) {
                        best = cand;
                        progress = true;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
    }
    best
}

// ---------------------------------------------------------------- parent process

pub fn root() -> String {
    std::env::var("AMQPV_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub fn check_main(props: Vec<Prop>, args: &[String]) -> i32 {
    let start = Instant::now();
    let id = arg(args, "--prop").unwrap_or_else(|| fatal("--prop"));
    let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| fatal("unknown property"));
    let tier_s = arg(args, "--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let seed: u64 =
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = root();
    let nshards: u64 = arg(args, "--shards").and_then(|s| s.parse().ok()).unwrap_or(8);
    let budget: u64 = match std::env::var("AMQPV_BUDGET").ok().and_then(|s| s.parse().ok()) {
        Some(b) => b,
        None if tier_s == "thorough" => 3000,
        None => 420,
    };
    let dir = format!("{root}/replays/run-{id}-{}", std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let mut violations: Vec<(String, Value, String)> = Vec::new(); // sub, input, message
    let mut known_lines = Vec::new();
    let mut stats = Stats::default();
    let mut notes: Vec<String> = Vec::new();

    // 1. regression corpus and known findings
    let corpus = format!("{root}/corpus/{id}");
    let mut files: Vec<_> = std::fs::read_dir(&corpus)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    let only = arg(args, "--sub");
    let known = load_known(&root);
    for f in files {
        let path = f.to_string_lossy().to_string();
        if !path.ends_with(".json") || only.is_some() {
            continue;
        }
        let v: Value = match std::fs::read_to_string(&f).ok().and_then(|s| serde_json::from_str(&s).ok()) {
            Some(v) => v,
            None => fatal(&format!("corpus file {path} unreadable")),
        };
        stats.evaluations += 1;
        let rel = path.strip_prefix(&format!("{root}/")).unwrap_or(&path).to_string();
        let kf = known.iter().find(|k| k.property == id && k.replay == rel);
        match replay_child(&path) {
            ReplayRes::Ok => {
                if kf.is_some() {
                    notes.push(format!("listed finding {rel} does not fail any more"));
                }
            }
            ReplayRes::Fail(m) => {
                if let Some(k) = kf {
                    // the finding is identified by its input and by how it fails
                    if m.contains(&k.signature) {
                        known_lines.push(format!("KNOWN-FINDING: property={id} {} ({rel})", k.what));
                        continue;
                    }
                }
                violations.push((
                    v["sub"].as_str().unwrap_or("").to_string(),
                    v["input"].clone(),
                    format!("corpus {rel}: {m}"),
                ));
            }
            ReplayRes::Error(e) => fatal(&format!("corpus {rel}: {e}")),
        }
    }

    // 2. generated cases
    let exe = std::env::current_exe().unwrap();
    let mut kids = Vec::new();
    for shard in 0..nshards {
        let base = format!("{dir}/shard{shard}");
        let mut c = Command::new(&exe);
        c.arg("shard")
            .args(["--prop", &id, "--tier", &tier_s, "--seed", &seed.to_string()])
            .args(["--shard", &shard.to_string(), "--nshards", &nshards.to_string()])
            .args(["--budget", &budget.to_string(), "--base", &base]);
        if let Some(s) = &only {
            c.args(["--sub", s]);
        }
        kids.push((base, c.spawn().unwrap_or_else(|e| fatal(&format!("spawn: {e}")))));
    }
    let mut err = None;
    for (base, mut kid) in kids {
        let st = kid.wait().unwrap();
        let out: ShardOut = std::fs::read(format!("{base}.out"))
            .ok()
            .and_then(|b| serde_json::from_slice(&b).ok())
            .unwrap_or_default();
        stats.merge(out.stats);
        for f in out.failures {
            violations.push((f.sub, f.input, f.message));
        }
        use std::os::unix::process::ExitStatusExt;
        let crash = match (st.code(), st.signal()) {
            (Some(0), _) => None,
            (Some(77), _) => {
                Some("does not come to an end (cpu time bound for one input exceeded)".to_string())
            }
            (Some(c), _) => {
                err = Some(format!("shard exited with {c}"));
                None
            }
            (None, Some(s))
                if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE]
                    .contains(&s) =>
            {
                Some(format!("process died with signal {s} (stack overflow, abort or memory bound)"))
            }
            (None, s) => {
                err = Some(format!("shard killed by {s:?}"));
                None
            }
        };
        if let Some(m) = crash {
            match read_cur(&format!("{base}.cur")) {
                Some((sub, input)) => {
                    let confirm = format!("{dir}/confirm.json");
                    std::fs::write(&confirm, serde_json::to_vec(&json!({"property": id, "sub": sub, "input": input})).unwrap()).unwrap();
                    match replay_child(&confirm) {
                        ReplayRes::Fail(_) => {
                            let input =
                                if violations.is_empty() { shrink_json(&id, &sub, input, &dir) } else { input };
                            violations.push((sub, input, m));
                        }
                        _ => err = Some(format!("a shard crashed ({m}) but its input does not reproduce it")),
                    }
                }
                None => err = Some(format!("{m}, and no current input")),
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    // 3. report
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    let mut samples = stats.samples.clone();
    // a spread over the subs, bounded
    samples.sort_by_key(|s| s.to_string().len());
    let mut picked: Vec<Value> = Vec::new();
    for s in &p.subs {
        let all: Vec<_> = samples.iter().filter(|v| v["sub"] == s.name()).collect();
        for i in [all.len() / 2, all.len().saturating_sub(1)] {
            if let Some(v) = all.get(i) {
                if !picked.contains(v) {
                    picked.push((*v).clone());
                }
            }
        }
    }
    for k in &known_lines {
        println!("{k}");
    }
    for n in &notes {
        println!("note: {n}");
    }
    let ev = json!({
        "property": id,
        "tier": tier_s,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": stats.nontrivial.len(),
            "rule": p.rule,
            "samples": picked,
            "labels": stats.labels,
            "known_findings_seen": known_lines,
            "warnings": stats.warnings,
        },
        "assumptions": p.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations.len(),
    });
    let evf = format!("{root}/evidence/{id}.json");
    std::fs::write(&evf, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{id} {tier_s} seed={seed}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
        stats.evaluations,
        stats.nontrivial.len(),
        violations.len(),
        start.elapsed().as_secs_f64()
    );
    let mut seen = HashSet::new();
    for (sub, input, message) in &violations {
        if !seen.insert(sub.clone()) {
            continue;
        }
        let body = json!({"property": id, "sub": sub, "message": message, "input": input});
        let h = hash_str(&body.to_string());
        let path = format!("{root}/replays/{id}-{sub}-{h:016x}.json");
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        println!("failure in {sub}: {}", message.chars().take(2000).collect::<String>());
        println!("VIOLATION property={id} replay={path}");
    }
    if !violations.is_empty() {
        return 1;
    }
    if let Some(e) = err {
        fatal(&e);
    }
    0
}

pub struct Known {
    pub property: String,
    pub replay: String,
    pub signature: String,
    pub what: String,
}

fn load_known(root: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{root}/KNOWN_FINDINGS.json")).unwrap_or_default();
    let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|k| Known {
                    property: k["property"].as_str().unwrap_or("").into(),
                    replay: k["replay"].as_str().unwrap_or("").into(),
                    signature: k["signature"].as_str().unwrap_or("").into(),
                    what: k["what"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}
