//! Runner: generated cases in isolated worker processes, shrinking, replay files, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// Per-case context: classification and scratch space.
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub known: BTreeMap<String, (u64, String)>,
    pub nontrivial: bool,
    pub scratch: PathBuf,
    listed: Vec<(String, String)>,
}

impl Ctx {
    pub fn label(&mut self, s: &str) {
        *self.labels.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.label(s)
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    /// A divergence whose exact signature the caller has established. It is tolerated only when
    /// KNOWN_FINDINGS.txt lists the key for this property.
    pub fn known_finding(&mut self, key: &str, detail: impl FnOnce() -> String) -> R {
        if self.listed.iter().any(|(k, _)| k == key) {
            let e = self.known.entry(key.to_string()).or_insert_with(|| (0, String::new()));
            e.0 += 1;
            if e.1.is_empty() {
                e.1 = detail();
            }
            Ok(())
        } else {
            Err(format!("[{key}] {}", detail()))
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static PANIC_TEXT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}").replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
        if let Ok(mut g) = PANIC_TEXT.lock() {
            *g = s;
        }
    }));
}

fn panic_text(_e: &Box<dyn Any + Send>) -> String {
    let s = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
    if !s.is_empty() {
        return s;
    }
    PANIC_TEXT.lock().map(|g| g.clone()).unwrap_or_default()
}

/// Runs code under test; a panic in it is a violation, not a harness error.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("{what} panicked: {}", panic_text(&e)))
}

pub struct Sub<T> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strategy: fn() -> BoxedStrategy<T>,
    pub check: fn(&T, &mut Ctx) -> R,
}

pub enum Outcome {
    Pass,
    Fail(String),
    HarnessError(String),
}

pub trait AnySub: Sync {
    fn name(&self) -> &'static str;
    fn count(&self, tier: &str) -> u64;
    fn run(&self, seed: u64, idx: u64, ctx: &mut Ctx) -> (Outcome, Option<(u64, String)>);
    fn run_json(&self, case: &Value, ctx: &mut Ctx) -> Outcome;
    fn case_json(&self, seed: u64, idx: u64) -> Value;
    fn shrink(&self, seed: u64, idx: u64, budget: Duration, max: usize, fails: &mut dyn FnMut(&Value) -> Option<String>) -> (Value, usize);
}

fn rng_for(seed: u64, name: &str, idx: u64) -> TestRng {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ h.rotate_left(17) ^ idx.wrapping_mul(0xD1B54A32D192ED03);
    let mut bytes = [0u8; 32];
    for c in bytes.chunks_mut(8) {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

thread_local! { static INDEX: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }

/// The index of the case being generated, for checks that enumerate.
pub fn case_index() -> u64 {
    INDEX.with(|i| i.get())
}

fn runner_for(seed: u64, name: &str, idx: u64) -> TestRunner {
    INDEX.with(|i| i.set(idx));
    let cfg = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(cfg, rng_for(seed, name, idx))
}

thread_local! { static STRAT: RefCell<std::collections::HashMap<&'static str, Box<dyn Any>>> = RefCell::new(Default::default()); }

impl<T: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static> Sub<T> {
    fn strat<O>(&self, f: impl FnOnce(&BoxedStrategy<T>) -> O) -> O {
        STRAT.with(|m| {
            let mut m = m.borrow_mut();
            let s = m.entry(self.name).or_insert_with(|| Box::new((self.strategy)()) as Box<dyn Any>);
            f(s.downcast_ref::<BoxedStrategy<T>>().expect("unique sub names"))
        })
    }
    fn exec(&self, case: &T, ctx: &mut Ctx) -> Outcome {
        match catch_unwind(AssertUnwindSafe(|| (self.check)(case, ctx))) {
            Ok(Ok(())) => Outcome::Pass,
            Ok(Err(m)) => {
                if let Some(h) = m.strip_prefix("HARNESS:") {
                    Outcome::HarnessError(h.to_string())
                } else {
                    Outcome::Fail(m)
                }
            }
            Err(e) => Outcome::HarnessError(format!("panic outside the code under test: {}", panic_text(&e))),
        }
    }
}

impl<T: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static> AnySub for Sub<T> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn count(&self, tier: &str) -> u64 {
        if tier == "thorough" {
            self.thorough
        } else {
            self.quick
        }
    }
    fn run(&self, seed: u64, idx: u64, ctx: &mut Ctx) -> (Outcome, Option<(u64, String)>) {
        let mut runner = runner_for(seed, self.name, idx);
        let tree = self.strat(|s| s.new_tree(&mut runner)).expect("strategy rejected");
        let case = tree.current();
        ctx.nontrivial = false;
        let o = self.exec(&case, ctx);
        let h = if ctx.nontrivial {
            let s = serde_json::to_string(&case).unwrap();
            let mut h: u64 = 0xcbf29ce484222325;
            for b in s.bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            Some((h, s))
        } else {
            None
        };
        (o, h)
    }
    fn run_json(&self, case: &Value, ctx: &mut Ctx) -> Outcome {
        match serde_json::from_value::<T>(case.clone()) {
            Ok(c) => self.exec(&c, ctx),
            Err(e) => Outcome::HarnessError(format!("cannot read case: {e}")),
        }
    }
    fn case_json(&self, seed: u64, idx: u64) -> Value {
        let mut runner = runner_for(seed, self.name, idx);
        let tree = self.strat(|s| s.new_tree(&mut runner)).expect("strategy rejected");
        serde_json::to_value(tree.current()).unwrap()
    }
    fn shrink(&self, seed: u64, idx: u64, budget: Duration, max: usize, fails: &mut dyn FnMut(&Value) -> Option<String>) -> (Value, usize) {
        let mut runner = runner_for(seed, self.name, idx);
        let mut tree = self.strat(|s| s.new_tree(&mut runner)).expect("strategy rejected");
        let start = Instant::now();
        let mut best = serde_json::to_value(tree.current()).unwrap();
        let mut tries = 0;
        'outer: while tree.simplify() {
            loop {
                if start.elapsed() > budget || tries >= max {
                    break 'outer;
                }
                tries += 1;
                let cur = serde_json::to_value(tree.current()).unwrap();
                if fails(&cur).is_some() {
                    best = cur;
                    break;
                }
                if !tree.complicate() {
                    break 'outer;
                }
            }
        }
        (best, tries)
    }
}

pub struct PropDef {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn AnySub>>,
}

pub fn sub<T: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    strategy: fn() -> BoxedStrategy<T>,
    check: fn(&T, &mut Ctx) -> R,
) -> Box<dyn AnySub> {
    Box::new(Sub { name, quick, thorough, strategy, check })
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("TGX_VERIF").unwrap_or_else(|_| "/verif".into()))
}

fn listed_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.trim().strip_prefix("finding: ")?;
            let l = l.strip_prefix(&format!("property={id} "))?;
            let l = l.strip_prefix("key=")?;
            let (k, w) = l.split_once(' ')?;
            Some((k.to_string(), w.to_string()))
        })
        .collect()
}

fn new_ctx(id: &str, scratch: &Path) -> Ctx {
    Ctx { labels: BTreeMap::new(), known: BTreeMap::new(), nontrivial: false, scratch: scratch.to_path_buf(), listed: listed_findings(id) }
}

/// Lowers the soft limit only, so that children can have another one.
pub fn set_limit(res: libc::__rlimit_resource_t, v: u64) {
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(res, &mut l);
        l.rlim_cur = v.min(l.rlim_max);
        libc::setrlimit(res, &l);
    }
}

const WORKERS: u64 = 8;
const HANG_CPU_S: f64 = 40.0;
const HANG_WALL_S: f64 = 150.0;

/// Ends process `pid` after `s` seconds unless the returned guard is dropped first; true in the flag when it did.
pub struct Watch {
    stop: std::sync::mpsc::Sender<()>,
    pub fired: std::sync::Arc<std::sync::atomic::AtomicBool>,
}
pub fn watch(pid: u32, s: u64) -> Watch {
    let (stop, rx) = std::sync::mpsc::channel::<()>();
    let fired = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let f = fired.clone();
    std::thread::spawn(move || {
        if let Err(std::sync::mpsc::RecvTimeoutError::Timeout) = rx.recv_timeout(Duration::from_secs(s)) {
            f.store(true, std::sync::atomic::Ordering::SeqCst);
            unsafe {
                libc::kill(pid as i32, libc::SIGKILL);
            }
        }
    });
    Watch { stop, fired }
}
impl Drop for Watch {
    fn drop(&mut self) {
        let _ = self.stop.send(());
    }
}
const MEM: u64 = 3 << 30;

/// `tgx worker ID seed tier w progress_file result_file scratch`
pub fn worker(prop: &PropDef, seed: u64, tier: &str, w: u64, progress: &str, result: &str, scratch: &str) -> i32 {
    use std::os::unix::fs::FileExt;
    set_limit(libc::RLIMIT_CORE, 0);
    set_limit(libc::RLIMIT_AS, MEM);
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let pf = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(progress).unwrap();
    std::fs::create_dir_all(scratch).unwrap();
    let mut ctx = new_ctx(prop.id, Path::new(scratch));
    let mut per_sub = vec![];
    let mut hashes: Vec<u64> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut failure = Value::Null;
    'all: for (si, s) in prop.subs.iter().enumerate() {
        let n = s.count(tier);
        let (mut evals, mut nontrivial, mut taken) = (0u64, 0u64, 0);
        let mut idx = w;
        while idx < n {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(si as u64).to_le_bytes());
            b[8..].copy_from_slice(&idx.to_le_bytes());
            pf.write_all_at(&b, 0).unwrap();
            let (o, h) = s.run(seed, idx, &mut ctx);
            evals += 1;
            if let Some((h, text)) = h {
                nontrivial += 1;
                hashes.push(h ^ (si as u64).wrapping_mul(0x9E3779B97F4A7C15));
                if taken < 2 && w < 2 && text.len() < 1500 {
                    taken += 1;
                    samples.push(json!({"check": s.name(), "case": serde_json::from_str::<Value>(&text).unwrap()}));
                }
            }
            match o {
                Outcome::Pass => {}
                Outcome::Fail(m) => {
                    failure = json!({"kind": "fail", "sub": si, "idx": idx, "msg": m});
                    per_sub.push(json!({"sub": s.name(), "evals": evals, "nontrivial": nontrivial}));
                    break 'all;
                }
                Outcome::HarnessError(m) => {
                    failure = json!({"kind": "harness", "sub": si, "idx": idx, "msg": m});
                    per_sub.push(json!({"sub": s.name(), "evals": evals, "nontrivial": nontrivial}));
                    break 'all;
                }
            }
            idx += WORKERS;
        }
        if evals > 0 {
            per_sub.push(json!({"sub": s.name(), "evals": evals, "nontrivial": nontrivial}));
        }
    }
    let mut raw = Vec::with_capacity(hashes.len() * 8);
    for h in hashes {
        raw.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{result}.h"), raw).unwrap();
    let out = json!({"per_sub": per_sub, "labels": ctx.labels, "known": ctx.known, "samples": samples, "failure": failure});
    std::fs::write(result, out.to_string()).unwrap();
    let _ = std::fs::remove_dir_all(scratch);
    0
}

/// `tgx probe ID sub case_file scratch`: exit 0 pass, 1 fail (message on stdout), 3 harness error.
pub fn probe(prop: &PropDef, sub: &str, file: &str, scratch: &str) -> i32 {
    set_limit(libc::RLIMIT_CORE, 0);
    set_limit(libc::RLIMIT_AS, MEM);
    let Some(s) = prop.subs.iter().find(|s| s.name() == sub) else {
        println!("no such check: {sub}");
        return 3;
    };
    let case: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    std::fs::create_dir_all(scratch).unwrap();
    let mut ctx = new_ctx(prop.id, Path::new(scratch));
    let o = s.run_json(&case, &mut ctx);
    let _ = std::fs::remove_dir_all(scratch);
    for (k, (_, d)) in &ctx.known {
        println!("known finding {k}: {d}");
    }
    match o {
        Outcome::Pass => 0,
        Outcome::Fail(m) => {
            println!("{m}");
            1
        }
        Outcome::HarnessError(m) => {
            println!("{m}");
            3
        }
    }
}

enum Probe {
    Pass,
    Fail(String),
    Harness(String),
}

fn run_probe(id: &str, sub: &str, case: &Value, dir: &Path, cpu_s: u64) -> Probe {
    let f = dir.join("probe.json");
    std::fs::write(&f, case.to_string()).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["probe", id, sub]).arg(&f).arg(dir.join("probe-scratch"));
    c.stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null());
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let mut ch = c.spawn().unwrap();
    let guard = watch(ch.id(), HANG_WALL_S as u64 - 10);
    let mut out = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut out);
    let st = ch.wait().unwrap();
    drop(guard);
    let _ = std::fs::remove_dir_all(dir.join("probe-scratch"));
    match st.code() {
        Some(0) => Probe::Pass,
        Some(1) => Probe::Fail(out.trim().to_string()),
        Some(_) => Probe::Harness(out.trim().to_string()),
        None => Probe::Fail(describe_signal(st.signal().unwrap_or(0), cpu_s)),
    }
}

fn describe_signal(sig: i32, cpu_s: u64) -> String {
    match sig {
        libc::SIGXCPU | libc::SIGKILL => format!("does not terminate: no result after {cpu_s} s of processor time"),
        libc::SIGSEGV => "crashed with SIGSEGV (stack overflow?)".into(),
        libc::SIGABRT => "aborted (allocation failure beyond 3 GB, or stack overflow)".into(),
        s => format!("killed by signal {s}"),
    }
}

fn cpu_of(pid: u32) -> f64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0.0 };
    let Some(p) = s.rfind(')') else { return 0.0 };
    let f: Vec<&str> = s[p + 2..].split(' ').collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64
}

pub fn write_replay(id: &str, sub: &str, case: &Value, msg: &str, seed: u64, tier: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let text = case.to_string();
    let mut h: u64 = 0xcbf29ce484222325;
    for b in text.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let path = dir.join(format!("{id}-{sub}-{:08x}.json", h as u32));
    let doc = json!({"property": id, "check": sub, "message": msg, "seed": seed, "tier": tier, "case": case});
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
    path
}

pub fn run(prop: &PropDef, seed: u64, tier: &str) -> i32 {
    let start = Instant::now();
    let id = prop.id;
    let base = std::env::temp_dir().join(format!("tgx-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    let code = run_in(prop, seed, tier, &base, start);
    let _ = std::fs::remove_dir_all(&base);
    code
}

fn run_in(prop: &PropDef, seed: u64, tier: &str, base: &Path, start: Instant) -> i32 {
    let id = prop.id;
    let exe = std::env::current_exe().unwrap();
    struct W {
        child: std::process::Child,
        progress: PathBuf,
        result: PathBuf,
        last: (u64, u64),
        cpu_at: f64,
        wall_at: Instant,
        done: bool,
    }
    let mut ws: Vec<W> = (0..WORKERS)
        .map(|w| {
            let progress = base.join(format!("p{w}"));
            let result = base.join(format!("r{w}"));
            let mut c = Command::new(&exe);
            c.args(["worker", id, &seed.to_string(), tier, &w.to_string()])
                .arg(&progress)
                .arg(&result)
                .arg(base.join(format!("s{w}")))
                .stdin(Stdio::null())
                .stdout(Stdio::inherit())
                .stderr(Stdio::inherit());
            W { child: c.spawn().unwrap(), progress, result, last: (u64::MAX, 0), cpu_at: 0.0, wall_at: Instant::now(), done: false }
        })
        .collect();
    let read_progress = |p: &Path| -> Option<(u64, u64)> {
        let b = std::fs::read(p).ok()?;
        if b.len() < 16 {
            return None;
        }
        Some((u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..16].try_into().unwrap())))
    };
    // (sub, idx, kind, msg)
    let mut failures: Vec<(u64, u64, String, String)> = vec![];
    loop {
        let mut alive = false;
        for w in ws.iter_mut().filter(|w| !w.done) {
            match w.child.try_wait().unwrap() {
                Some(st) => {
                    w.done = true;
                    if !(st.success() && w.result.exists()) {
                        let at = read_progress(&w.progress).unwrap_or((0, 0));
                        let msg = match st.signal() {
                            Some(s) => describe_signal(s, HANG_CPU_S as u64),
                            None => format!("worker ended with {st}"),
                        };
                        failures.push((at.0, at.1, if st.signal().is_some() { "crash".into() } else { "harness".into() }, msg));
                    }
                }
                None => {
                    alive = true;
                    let cpu = cpu_of(w.child.id());
                    let at = read_progress(&w.progress).unwrap_or((u64::MAX, 0));
                    if at != w.last {
                        w.last = at;
                        w.cpu_at = cpu;
                        w.wall_at = Instant::now();
                    } else if (cpu - w.cpu_at > HANG_CPU_S || w.wall_at.elapsed().as_secs_f64() > HANG_WALL_S) && at.0 != u64::MAX {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        failures.push((at.0, at.1, "crash".into(), format!("does not terminate: no result after {HANG_CPU_S} s of processor time or {HANG_WALL_S} s")));
                    }
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(25));
    }
    // Gather.
    let mut evals = 0u64;
    let mut per: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut samples = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    for w in &ws {
        let Ok(t) = std::fs::read_to_string(&w.result) else { continue };
        let v: Value = serde_json::from_str(&t).unwrap();
        for p in v["per_sub"].as_array().unwrap() {
            let e = per.entry(p["sub"].as_str().unwrap().into()).or_default();
            e.0 += p["evals"].as_u64().unwrap();
            e.1 += p["nontrivial"].as_u64().unwrap();
            evals += p["evals"].as_u64().unwrap();
        }
        for (k, n) in v["labels"].as_object().unwrap() {
            *labels.entry(k.clone()).or_default() += n.as_u64().unwrap();
        }
        for (k, n) in v["known"].as_object().unwrap() {
            let e = known.entry(k.clone()).or_insert((0, n[1].as_str().unwrap().into()));
            e.0 += n[0].as_u64().unwrap();
        }
        samples.extend(v["samples"].as_array().unwrap().iter().cloned());
        for c in std::fs::read(format!("{}.h", w.result.display())).unwrap_or_default().chunks(8) {
            distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let f = &v["failure"];
        if !f.is_null() {
            failures.push((f["sub"].as_u64().unwrap(), f["idx"].as_u64().unwrap(), f["kind"].as_str().unwrap().into(), f["msg"].as_str().unwrap().into()));
        }
    }
    let rank = |k: &str| ["fail", "crash", "harness"].iter().position(|x| *x == k).unwrap_or(3);
    failures.sort_by(|a, b| (rank(&a.2), a.0, a.1).cmp(&(rank(&b.2), b.0, b.1)));
    let mut code = 0;
    let mut violations = 0;
    let mut unconfirmed = 0;
    if let Some((si, idx, kind, msg)) = failures.first().cloned() {
        let s = &prop.subs[si as usize];
        if kind == "harness" {
            println!("ERROR property={id} check={} case {idx}: {msg}", s.name());
            println!("{}", s.case_json(seed, idx));
            code = 2;
        } else {
            // Confirm in a fresh process, then shrink there too.
            let orig = s.case_json(seed, idx);
            match run_probe(id, s.name(), &orig, base, 90) {
                Probe::Fail(m) => {
                    let crash = kind == "crash";
                    let budget = Duration::from_secs(if crash { 45 } else { 30 });
                    let cpu = if crash { 8 } else { 20 };
                    let (mut best, tries) = if m.starts_with("does not terminate") && crash {
                        (orig.clone(), 0)
                    } else {
                        s.shrink(seed, idx, budget, 4000, &mut |v| match run_probe(id, s.name(), v, base, cpu) {
                            Probe::Fail(m) => Some(m),
                            _ => None,
                        })
                    };
                    let m2 = match run_probe(id, s.name(), &best, base, 60) {
                        Probe::Fail(x) => x,
                        _ => {
                            best = orig;
                            m
                        }
                    };
                    let path = write_replay(id, s.name(), &best, &m2, seed, tier);
                    let show = |t: &str| t.chars().take(1500).collect::<String>();
                    println!("check {} failed on generated case {idx} (seed {seed}); shrunk in {tries} steps to:", s.name());
                    println!("{}", show(&best.to_string()));
                    println!("{}", show(&m2));
                    println!("VIOLATION property={id} replay={}", path.display());
                    violations = 1;
                    code = 1;
                }
                Probe::Pass => {
                    // Chance or scheduling decides: try again, then believe what was seen. Only a
                    // run that was ended from outside, or for lack of time, may be the machine's doing.
                    let outside = ["does not terminate", "killed by signal", "aborted"].iter().any(|x| msg.contains(x));
                    let mut again = None;
                    let since = Instant::now();
                    for _ in 0..30 {
                        if let Probe::Fail(m) = run_probe(id, s.name(), &orig, base, 90) {
                            again = Some(m);
                            break;
                        }
                        if since.elapsed() > Duration::from_secs(120) {
                            break;
                        }
                    }
                    if again.is_some() || !outside {
                        let m = again.unwrap_or(msg);
                        let path = write_replay(id, s.name(), &orig, &m, seed, tier);
                        println!("check {} failed on generated case {idx} (seed {seed}), not on every run:", s.name());
                        println!("{}", m.chars().take(1500).collect::<String>());
                        println!("VIOLATION property={id} replay={}", path.display());
                        violations = 1;
                        code = 1;
                    } else {
                        println!("note: check {} did not finish case {idx} once and passed it when repeated: {msg}", s.name());
                        unconfirmed = 1;
                    }
                }
                Probe::Harness(m) => {
                    println!("ERROR property={id} check={} case {idx}: {m}", s.name());
                    code = 2;
                }
            }
        }
    }
    let listed = listed_findings(id);
    for (k, w) in &listed {
        if let Some((n, d)) = known.get(k) {
            println!("KNOWN-FINDING: property={id} key={k} {w} ({n} cases this run, e.g. {})", d.chars().take(200).collect::<String>());
        }
    }
    samples.truncate(10);
    if samples.is_empty() {
        samples.push(json!("none non-trivial before the run stopped"));
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "rule": prop.rule,
            "samples": samples,
            "checks": per.iter().map(|(k, (e, n))| (k.clone(), json!({"evaluations": e, "nontrivial": n}))).collect::<serde_json::Map<_, _>>(),
            "classes": labels,
            "unconfirmed": unconfirmed,
            "known_findings_seen": known.iter().map(|(k, (n, d))| (k.clone(), json!({"cases": n, "example": d}))).collect::<serde_json::Map<_, _>>(),
        },
        "assumptions": prop.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{id}: {evals} cases, {} distinct non-trivial, {:.1} s, exit {code}", distinct.len(), start.elapsed().as_secs_f64());
    let _ = std::io::stdout().flush();
    code
}

pub fn replay(props: &dyn Fn(&str) -> Option<PropDef>, file: &str) -> i32 {
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay JSON");
    let id = doc["property"].as_str().unwrap();
    let sub = doc["check"].as_str().unwrap();
    if props(id).is_none() {
        println!("unknown property {id}");
        return 2;
    }
    let base = std::env::temp_dir().join(format!("tgx-replay-{}", std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    let r = run_probe(id, sub, &doc["case"], &base, 90);
    let _ = std::fs::remove_dir_all(&base);
    match r {
        Probe::Pass => {
            println!("replay passes: {id} {sub}");
            0
        }
        Probe::Fail(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Probe::Harness(m) => {
            println!("ERROR {m}");
            2
        }
    }
}
