//! Batch runner: generates, executes, supervises, minimises, replays and reports simulated runs.
//!
//! A run is a pure function of its script, and a script is a pure function of (VERIF_SEED, property, run number).
use crate::rng::{mix, mix_str, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// One scheduling decision: at simulated time `t` (microseconds) caller or node `task` does `op`.
#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub t: u64,
    pub task: u64,
    pub op: usize,
    pub a: Vec<u64>,
}

/// Everything a run depends on.
#[derive(Clone, Debug, PartialEq)]
pub struct Script {
    /// The enum (or the enums of the nodes, comma separated) the run is about.
    pub shape: String,
    pub cfg: Vec<u64>,
    pub ev: Vec<Ev>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
impl Violation {
    pub fn new<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
        Err(Violation { class: class.into(), detail: detail.into() })
    }
}

/// What one run did; summed over the batch.
pub struct Stats {
    pub faults: Vec<u64>,
    pub probes: Vec<u64>,
    pub ops: Vec<u64>,
    pub events: u64,
    pub checks: u64,
    pub sim_us: u64,
    pub digest: u64,
    pub nontrivial: bool,
    pub states: Vec<u64>,
}
impl Stats {
    fn new(e: &dyn Engine) -> Self {
        Stats {
            faults: vec![0; e.faults().len()],
            probes: vec![0; e.probes().len()],
            ops: vec![0; e.ops().len()],
            events: 0,
            checks: 0,
            sim_us: 0,
            digest: 0,
            nontrivial: false,
            states: Vec::new(),
        }
    }
    /// Records an observed value, so that two executions of one script can be compared.
    pub fn observe(&mut self, v: u64) {
        self.digest = mix(self.digest, v);
    }
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
        self.digest = mix(self.digest, h);
    }
    pub fn fault(&mut self, i: usize) {
        self.faults[i] += 1;
    }
    pub fn probe(&mut self, i: usize) {
        self.probes[i] += 1;
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Engine {
    fn id(&self) -> &'static str;
    fn ops(&self) -> &'static [&'static str];
    fn faults(&self) -> &'static [&'static str];
    fn probes(&self) -> &'static [&'static str];
    /// Runs in a quick and in a thorough batch.
    fn runs(&self, tier: Tier) -> u64;
    fn generate(&self, rng: &mut Rng, run: u64, tier: Tier) -> Script;
    fn execute(&self, s: &Script, st: &mut Stats) -> Result<(), Violation>;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static [&'static str];
    fn stub(&self) -> &'static [&'static str];
    fn assumptions(&self) -> &'static [&'static str];
    fn state_measure(&self) -> &'static str;
}

//---------------------------------------------------------------------------------- panic capture

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<crate::Injected>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{msg} at {loc}");
        if std::env::var_os("SIM_DEBUG").is_some() {
            eprintln!("{text}\n{}", std::backtrace::Backtrace::force_capture());
        }
        // A failed non-unwinding panic (undefined behaviour caught by a debug check) aborts: leave a trace of it.
        if text.contains("unsafe precondition") || text.contains("trying to construct an enum") {
            eprintln!("aborting panic: {text}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// How a guarded call into the code under test ended.
#[derive(Debug, PartialEq)]
pub enum Caught<T> {
    Done(T),
    /// The panic the simulator injected came through.
    Injected,
    /// The code under test panicked by itself.
    Panicked(String),
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Caught<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Caught::Done(x),
        Err(p) if p.is::<crate::Injected>() => Caught::Injected,
        Err(_) => Caught::Panicked(last_panic()),
    }
}

fn execute(e: &dyn Engine, s: &Script) -> (Result<(), Violation>, Stats) {
    let mut st = Stats::new(e);
    let r = match guard(|| e.execute(s, &mut st)) {
        Caught::Done(r) => r,
        Caught::Injected => Violation::new("panic:injected", "an injected panic escaped from where it belongs"),
        Caught::Panicked(m) => Violation::new("panic", m),
    };
    st.events += s.ev.len() as u64;
    st.sim_us += s.ev.iter().map(|e| e.t).max().unwrap_or(0);
    (r, st)
}

//---------------------------------------------------------------------------------- scripts as JSON

pub fn to_json(e: &dyn Engine, s: &Script) -> Value {
    let ev: Vec<Value> = s
        .ev
        .iter()
        .map(|x| json!({"t": x.t, "task": x.task, "op": e.ops()[x.op], "a": x.a}))
        .collect();
    json!({"shape": s.shape, "cfg": s.cfg, "events": ev})
}
pub fn from_json(e: &dyn Engine, v: &Value) -> Option<Script> {
    let nums = |v: &Value| -> Option<Vec<u64>> { v.as_array()?.iter().map(|x| x.as_u64()).collect() };
    let mut ev = Vec::new();
    for x in v["events"].as_array()? {
        let name = x["op"].as_str()?;
        ev.push(Ev {
            t: x["t"].as_u64()?,
            task: x["task"].as_u64()?,
            op: e.ops().iter().position(|o| *o == name)?,
            a: nums(&x["a"])?,
        });
    }
    Some(Script { shape: v["shape"].as_str()?.to_string(), cfg: nums(&v["cfg"])?, ev })
}

fn script_for(e: &dyn Engine, seed: u64, run: u64, tier: Tier) -> Script {
    let mut rng = Rng::new(mix(mix_str(mix(1, seed), e.id()), run));
    e.generate(&mut rng, run, tier)
}
fn script_hash(s: &Script) -> u64 {
    let mut h = mix_str(7, &s.shape);
    for c in &s.cfg {
        h = mix(h, *c);
    }
    for e in &s.ev {
        h = mix(mix(h, e.task), e.op as u64);
        for a in &e.a {
            h = mix(h, *a);
        }
    }
    h
}
/// Who ran what kind of step in which order, arguments aside.
fn interleaving_hash(s: &Script) -> u64 {
    s.ev.iter().fold(3, |h, e| mix(mix(h, e.task), e.op as u64))
}

//---------------------------------------------------------------------------------- watchdog

static CURRENT: AtomicU64 = AtomicU64::new(0);
const HANG: i32 = 77;

/// CPU seconds this process has used.
fn cpu_seconds() -> Option<f64> {
    let s = std::fs::read_to_string("/proc/self/stat").ok()?;
    let rest = &s[s.rfind(')')? + 1..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}
/// Ends the process with code 77 when one run has burnt more than `limit` CPU seconds (or ten times that of wall
/// clock where the CPU time cannot be read). Runs take milliseconds; the limit never decides anything but a hang.
fn watchdog(limit: f64) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let (mut cpu0, mut wall0) = (0.0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let cur = CURRENT.load(Ordering::Relaxed);
            let cpu = cpu_seconds();
            if cur != last {
                last = cur;
                cpu0 = cpu.unwrap_or(0.0);
                wall0 = Instant::now();
            } else {
                let over = match cpu {
                    Some(c) => c - cpu0 > limit,
                    None => wall0.elapsed().as_secs_f64() > 10.0 * limit,
                };
                if over {
                    std::process::exit(HANG);
                }
            }
        }
    });
}

//---------------------------------------------------------------------------------- entry point

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn harness_error(msg: &str) -> ! {
    eprintln!("harness error: {msg}");
    std::process::exit(2)
}

pub fn main(e: &dyn Engine) -> ! {
    install_hook();
    let tier = match arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = match arg("--seed").or_else(|| std::env::var("VERIF_SEED").ok()) {
        Some(s) => s.trim().parse().unwrap_or_else(|_| mix_str(0, &s)),
        None => 1,
    };
    if let Some(d) = arg("--worker") {
        worker(e, seed, tier, Path::new(&d));
    }
    if std::env::args().any(|a| a == "--exec-stream") {
        exec_stream(e);
    }
    if let Some(f) = arg("--replay") {
        replay(e, Path::new(&f));
    }
    if let Some(n) = arg("--show") {
        let s = script_for(e, seed, n.parse().unwrap_or(0), tier);
        println!("{}", serde_json::to_string_pretty(&to_json(e, &s)).unwrap());
        let (r, st) = execute(e, &s);
        println!("digest {:016x} {:?}", st.digest, r.err());
        std::process::exit(0);
    }
    batch(e, seed, tier)
}

/// Which build of the simulator executes a run: 0 with debug assertions and overflow checks, 1 without them, as
/// shipped programs run. The second is the executable given by `--alt`.
fn build_of(run: u64, builds: u64) -> u64 {
    (builds > 1 && mix(0xb41d, run) % 4 == 0) as u64
}
fn build_exe(build: u64) -> PathBuf {
    match arg("--alt") {
        Some(p) if build == 1 => PathBuf::from(p),
        _ => std::env::current_exe().unwrap(),
    }
}
const BUILDS: [&str; 2] = ["with debug assertions", "without debug assertions"];
/// The build that child executors use.
static BUILD: AtomicU64 = AtomicU64::new(0);
/// The runs of one worker: every `n`-th of those that its build executes, from the `w`-th on.
fn runs_of(build: u64, builds: u64, w: u64, n: u64, total: u64) -> impl Iterator<Item = u64> {
    (0..total).filter(move |i| build_of(*i, builds) == build).skip(w as usize).step_by(n as usize)
}

fn verif_dir() -> PathBuf {
    arg("--verif").map(PathBuf::from).unwrap_or_else(|| std::env::current_dir().unwrap_or_else(|_| ".".into()))
}

//---------------------------------------------------------------------------------- worker

/// Whether the run is executed a second time.
fn executed_again(run: u64, tier: Tier) -> bool {
    (run / 8) % if tier == Tier::Quick { 4 } else { 16 } == 0
}
fn unrepeatable() -> Violation {
    Violation {
        class: "unrepeatable".into(),
        detail: "the same steps, executed a second time, had a different outcome".into(),
    }
}

fn worker(e: &dyn Engine, seed: u64, tier: Tier, dir: &Path) -> ! {
    let num = |name: &str, or: u64| arg(name).and_then(|x| x.parse().ok()).unwrap_or(or);
    let (w, total) = (num("--slot", 0), num("--runs", 0));
    let (build, builds) = (num("--build", 0), num("--builds", 1));
    let (index, n) = (num("--index", 0), num("--workers", 1));
    let cap: u64 = arg("--cap").and_then(|x| x.parse().ok()).unwrap_or(600);
    watchdog(20.0);
    let progress = std::fs::File::create(dir.join(format!("{w}.progress"))).unwrap();
    let start = Instant::now();
    let mut sum = Stats::new(e);
    let (mut runs, mut nontrivial, mut rechecked) = (0u64, 0u64, 0u64);
    let (mut scripts, mut inter, mut states) = (Vec::new(), Vec::new(), Vec::new());
    let mut digests = Vec::new();
    let mut failure = Value::Null;
    let mut capped = false;
    for i in runs_of(build, builds, index, n, total) {
        if start.elapsed().as_secs() >= cap {
            capped = true;
            break;
        }
        CURRENT.store(i + 1, Ordering::Relaxed);
        let _ = progress.write_at(&(i + 1).to_le_bytes(), 0);
        let s = script_for(e, seed, i, tier);
        let (r, mut st) = execute(e, &s);
        runs += 1;
        digests.push((i, st.digest));
        if let Err(v) = r {
            failure = json!({"run": i, "class": v.class, "detail": v.detail});
            break;
        }
        // Prove determinism on a sample: generate and execute once more, everything observed must agree.
        if executed_again(i, tier) {
            let s2 = script_for(e, seed, i, tier);
            if s2 != s {
                failure = json!({"run": i, "nondeterministic": true});
                break;
            }
            let (r2, st2) = execute(e, &s2);
            if let Err(v) = r2 {
                failure = json!({"run": i, "class": v.class, "detail": v.detail, "again": true});
                break;
            }
            if st2.digest != st.digest {
                let v = unrepeatable();
                failure = json!({"run": i, "class": v.class, "detail": v.detail, "again": true});
                break;
            }
            rechecked += 1;
        }
        if st.nontrivial {
            nontrivial += 1;
            scripts.push(script_hash(&s));
        }
        inter.push(interleaving_hash(&s));
        if states.len() < 4_000_000 {
            states.append(&mut st.states);
        }
        for (a, b) in sum.faults.iter_mut().zip(&st.faults) {
            *a += b;
        }
        for (a, b) in sum.probes.iter_mut().zip(&st.probes) {
            *a += b;
        }
        for (a, b) in sum.ops.iter_mut().zip(&st.ops) {
            *a += b;
        }
        sum.events += st.events;
        sum.checks += st.checks;
        sum.sim_us += st.sim_us;
    }
    let dump = |name: &str, v: &mut Vec<u64>| {
        v.sort_unstable();
        v.dedup();
        let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(dir.join(format!("{w}.{name}")), b).unwrap();
    };
    dump("scripts", &mut scripts);
    dump("inter", &mut inter);
    dump("states", &mut states);
    // Order-independent over runs, so that it does not depend on the number of workers.
    let digest = digests.iter().fold(0u64, |h, (i, d)| h.wrapping_add(mix(*i + 1, *d)));
    let out = json!({
        "runs": runs, "nontrivial": nontrivial, "rechecked": rechecked, "capped": capped, "failure": failure,
        "faults": sum.faults, "probes": sum.probes, "ops": sum.ops, "events": sum.events, "checks": sum.checks,
        "sim_us": sum.sim_us, "digest": digest,
    });
    std::fs::write(dir.join(format!("{w}.json")), out.to_string()).unwrap();
    std::process::exit(0)
}

//---------------------------------------------------------------------------------- child executor

/// Executes scripts from stdin, one JSON line each, and answers one JSON line each.
fn exec_stream(e: &dyn Engine) -> ! {
    watchdog(arg("--hang").and_then(|x| x.parse().ok()).unwrap_or(6.0));
    let mut n = 0;
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let parsed: Vec<Script> = serde_json::from_str::<Value>(&line)
            .ok()
            .and_then(|v| v.as_array()?.iter().map(|x| from_json(e, x)).collect())
            .unwrap_or_default();
        let Some((last, before)) = parsed.split_last() else {
            println!("{}", json!({"bad": true}));
            continue;
        };
        let mut previous = None;
        for s in before {
            n += 1;
            CURRENT.store(n, Ordering::Relaxed);
            previous = Some((s, execute(e, s)));
        }
        n += 1;
        CURRENT.store(n, Ordering::Relaxed);
        let (mut r, st) = execute(e, last);
        if let (Ok(()), Some((s, (Ok(()), st0)))) = (&r, &previous) {
            if *s == last && st0.digest != st.digest {
                r = Err(unrepeatable());
            }
        }
        let v = match r {
            Ok(()) => json!({"ok": true, "digest": st.digest}),
            Err(v) => json!({"class": v.class, "detail": v.detail, "digest": st.digest}),
        };
        println!("{v}");
        let _ = std::io::stdout().flush();
        // Wait for the next script without counting as one.
        CURRENT.store(u64::MAX - n, Ordering::Relaxed);
    }
    std::process::exit(0)
}

struct Exec {
    child: Option<(Child, BufReader<std::process::ChildStdout>)>,
    count: u64,
    /// One process per execution, for failures that depend on what the process did before.
    fresh: bool,
}
impl Exec {
    fn new() -> Self {
        Exec { child: None, count: 0, fresh: false }
    }
    fn spawn(&mut self) {
        let mut c = Command::new(build_exe(BUILD.load(Ordering::Relaxed)))
            .args(["--exec-stream", "--hang", "6"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|x| harness_error(&format!("cannot start a child: {x}")));
        let out = BufReader::new(c.stdout.take().unwrap());
        self.child = Some((c, out));
    }
    fn stop(&mut self) {
        if let Some((mut c, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    /// The violation the script leads to, if any, once the process has executed the scripts `before`.
    fn run(&mut self, e: &dyn Engine, before: &[Script], s: &Script) -> Option<Violation> {
        self.count += 1;
        if self.fresh {
            self.stop();
        }
        if self.child.is_none() {
            self.spawn();
        }
        let all: Vec<Value> = before.iter().chain([s]).map(|s| to_json(e, s)).collect();
        let line = format!("{}\n", Value::Array(all));
        let (c, out) = self.child.as_mut().unwrap();
        let sent = c.stdin.as_mut().unwrap().write_all(line.as_bytes()).is_ok();
        let mut answer = String::new();
        let got = sent && out.read_line(&mut answer).map(|n| n > 0).unwrap_or(false);
        if !got {
            let (mut c, _) = self.child.take().unwrap();
            drop(c.stdin.take());
            let status = c.wait().unwrap();
            return Some(ended(status));
        }
        let v: Value = serde_json::from_str(&answer).unwrap_or(Value::Null);
        v["class"].as_str().map(|c| Violation {
            class: c.to_string(),
            detail: v["detail"].as_str().unwrap_or("").to_string(),
        })
    }
}
impl Drop for Exec {
    fn drop(&mut self) {
        self.stop();
    }
}
fn ended(status: std::process::ExitStatus) -> Violation {
    if status.code() == Some(HANG) {
        Violation { class: "hang".into(), detail: "an operation did not end".into() }
    } else {
        Violation {
            class: "abort".into(),
            detail: format!("the process was ended inside an operation ({status})"),
        }
    }
}

//---------------------------------------------------------------------------------- minimiser

struct Minimised {
    /// What the process has to execute first; empty unless state leaks from one run into another.
    before: Vec<Script>,
    script: Script,
    tries: u64,
    /// Whether a process of its own reproduced it in the end.
    confirmed: Option<Violation>,
}

/// `history`: the runs the failing worker had executed before, most recent last.
fn minimise(e: &dyn Engine, s: &Script, v: &Violation, history: &dyn Fn(usize) -> Vec<Script>) -> Minimised {
    let secs = Duration::from_secs;
    let mut tries = 0;
    let fresh = |before: &[Script], s: &Script| Exec::new().run(e, before, s);
    let matches = |r: &Option<Violation>| r.as_ref().is_some_and(|r| r.class == v.class);
    if matches(&fresh(&[], s)) {
        for alone in [false, true] {
            let (script, n) = shrink(e, &[], s, v, alone, secs(60));
            tries += n;
            let confirmed = fresh(&[], &script);
            if matches(&confirmed) {
                return Minimised { before: vec![], script, tries, confirmed };
            }
        }
        return Minimised { before: vec![], script: s.clone(), tries, confirmed: fresh(&[], s) };
    }
    // The script alone does not fail: go back through what the worker did before.
    let start = Instant::now();
    let mut n = 1;
    while start.elapsed() < secs(120) {
        let mut before = history(n);
        tries += 1;
        if matches(&fresh(&before, s)) {
            let mut chunk = before.len().div_ceil(2).max(1);
            loop {
                let mut i = 0;
                while i < before.len() && start.elapsed() < secs(120) {
                    let mut c = before.clone();
                    c.drain(i..(i + chunk).min(c.len()));
                    tries += 1;
                    if matches(&fresh(&c, s)) {
                        before = c;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = chunk.div_ceil(2);
            }
            // An outcome that differs from the one before needs both executions as they are.
            let mut script = s.clone();
            if v.class != "unrepeatable" {
                let (m, n) = shrink(e, &before, s, v, true, secs(40));
                script = m;
                tries += n;
                for i in 0..before.len() {
                    let (m, n) = shrink_first(e, &before, i, &script, v, secs(20));
                    before[i] = m;
                    tries += n;
                }
            }
            let confirmed = fresh(&before, &script);
            return Minimised { before, script, tries, confirmed };
        }
        if before.len() < n {
            break;
        }
        n *= 2;
    }
    Minimised { before: vec![], script: s.clone(), tries, confirmed: None }
}

/// Shortens one of the scripts that come before the failing one.
fn shrink_first(e: &dyn Engine, before: &[Script], at: usize, s: &Script, v: &Violation, budget: Duration) -> (Script, u64) {
    let start = Instant::now();
    let mut b = before.to_vec();
    let mut tries = 0;
    let mut chunk = b[at].ev.len().div_ceil(2).max(1);
    loop {
        let mut i = 0;
        while i < b[at].ev.len() && start.elapsed() < budget {
            let mut c = b.clone();
            let end = (i + chunk).min(c[at].ev.len());
            c[at].ev.drain(i..end);
            tries += 1;
            if Exec::new().run(e, &c, s).is_some_and(|r| r.class == v.class) {
                b = c;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 || start.elapsed() >= budget {
            break;
        }
        chunk = chunk.div_ceil(2);
    }
    (b.swap_remove(at), tries)
}

fn shrink(e: &dyn Engine, first: &[Script], s: &Script, v: &Violation, alone: bool, budget: Duration) -> (Script, u64) {
    let mut x = Exec::new();
    x.fresh = alone;
    let start = Instant::now();
    let mut best = s.clone();
    let same = |x: &mut Exec, c: &Script| x.run(e, first, c).is_some_and(|r| r.class == v.class);
    if !same(&mut x, &best) {
        return (best, x.count);
    }
    loop {
        let before = best.clone();
        // Drop events, in ever smaller chunks.
        let mut chunk = best.ev.len().div_ceil(2).max(1);
        while !best.ev.is_empty() {
            let mut i = 0;
            while i < best.ev.len() && start.elapsed() < budget {
                let mut c = best.clone();
                c.ev.drain(i..(i + chunk).min(c.ev.len()));
                if same(&mut x, &c) {
                    best = c;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        // Shorten argument lists, then make arguments smaller.
        for i in 0..best.ev.len() {
            while best.ev[i].a.len() > 1 && start.elapsed() < budget {
                let mut c = best.clone();
                c.ev[i].a.pop();
                if !same(&mut x, &c) {
                    break;
                }
                best = c;
            }
            for k in 0..best.ev[i].a.len() {
                let mut cand = vec![0, 1];
                let cur = best.ev[i].a[k];
                let mut d = cur / 2;
                while d > 1 {
                    cand.push(cur - d);
                    d /= 2;
                }
                cand.push(cur.wrapping_sub(1));
                for y in cand {
                    if y < best.ev[i].a[k] && start.elapsed() < budget {
                        let mut c = best.clone();
                        c.ev[i].a[k] = y;
                        if same(&mut x, &c) {
                            best = c;
                        }
                    }
                }
            }
        }
        if best == before || start.elapsed() >= budget {
            break;
        }
    }
    (best, x.count)
}

//---------------------------------------------------------------------------------- batch

fn read_u64s(p: &Path) -> Vec<u64> {
    std::fs::read(p)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

fn batch(e: &dyn Engine, seed: u64, tier: Tier) -> ! {
    let start = Instant::now();
    let verif = verif_dir();
    let tier_name = if tier == Tier::Quick { "quick" } else { "thorough" };
    let runs: u64 = arg("--runs").and_then(|x| x.parse().ok()).unwrap_or_else(|| e.runs(tier));
    let cap: u64 = arg("--cap").and_then(|x| x.parse().ok()).unwrap_or(if tier == Tier::Quick { 240 } else { 7200 });
    let workers: u64 = arg("--workers").and_then(|x| x.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(1, 64)
    });
    println!("{} seed={seed} tier={tier_name} runs={runs} workers={workers}", e.id());
    let dir = std::env::temp_dir().join(format!("enumset-sim-{}-{}", e.id(), std::process::id()));
    if let Err(x) = std::fs::create_dir_all(&dir) {
        harness_error(&format!("scratch folder: {x}"));
    }
    let builds = 1 + arg("--alt").is_some() as u64;
    // A quarter of the runs, and of the workers, go to the second build.
    let second = if builds > 1 { (workers / 4).max(1) } else { 0 };
    let first_n = workers.saturating_sub(second).max(1);
    // Build, index within the build, workers of the build.
    let slots: Vec<(u64, u64, u64)> =
        (0..first_n).map(|i| (0, i, first_n)).chain((0..second).map(|i| (1, i, second))).collect();
    let mut kids = Vec::new();
    for (w, (build, index, n)) in slots.iter().enumerate() {
        let log = std::fs::File::create(dir.join(format!("{w}.err"))).unwrap();
        let mut c = Command::new(build_exe(*build));
        c.args(["--worker", dir.to_str().unwrap(), "--slot", &w.to_string(), "--index", &index.to_string()]);
        c.args(["--workers", &n.to_string(), "--build", &build.to_string(), "--builds", &builds.to_string()]);
        c.args(["--runs", &runs.to_string(), "--seed", &seed.to_string(), "--tier", tier_name, "--cap", &cap.to_string()]);
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::from(log));
        kids.push(c.spawn().unwrap_or_else(|x| harness_error(&format!("cannot start a worker: {x}"))));
    }
    let mut sum = Stats::new(e);
    let (mut done, mut nontrivial, mut rechecked, mut capped, mut digest) = (0, 0, 0, false, 0u64);
    let (mut scripts, mut inter, mut states) = (Vec::new(), Vec::new(), Vec::new());
    let mut first: Option<(u64, Violation)> = None;
    let mut again = false;
    let mut nondet = None;
    for (w, mut k) in kids.into_iter().enumerate() {
        let status = k.wait().unwrap();
        let p = |n: &str| dir.join(format!("{w}.{n}"));
        let Some(v) = std::fs::read_to_string(p("json")).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok())
        else {
            // The worker died: the run it was in is to blame.
            let run = read_u64s(&p("progress")).first().copied().unwrap_or(0);
            let err = std::fs::read_to_string(p("err")).unwrap_or_default();
            if run == 0 {
                harness_error(&format!("worker {w} died before its first run: {status} {err}"));
            }
            let mut v = ended(status);
            if let Some(l) = err.lines().find(|l| l.contains("aborting panic") || l.contains("memory allocation")) {
                v.detail = format!("{}: {l}", v.detail);
            }
            if first.as_ref().is_none_or(|f| run - 1 < f.0) {
                first = Some((run - 1, v));
                again = false;
            }
            done += run.div_ceil(slots.len() as u64);
            continue;
        };
        let f = &v["failure"];
        if !f.is_null() {
            let run = f["run"].as_u64().unwrap();
            if f["nondeterministic"].as_bool() == Some(true) {
                nondet = Some(run);
            } else if first.as_ref().is_none_or(|x| run < x.0) {
                again = f["again"].as_bool().unwrap_or(false);
                first = Some((
                    run,
                    Violation {
                        class: f["class"].as_str().unwrap_or("?").into(),
                        detail: f["detail"].as_str().unwrap_or("").into(),
                    },
                ));
            }
        }
        let num = |k: &str| v[k].as_u64().unwrap_or(0);
        done += num("runs");
        nontrivial += num("nontrivial");
        rechecked += num("rechecked");
        sum.events += num("events");
        sum.checks += num("checks");
        sum.sim_us += num("sim_us");
        digest = digest.wrapping_add(num("digest"));
        capped |= v["capped"].as_bool().unwrap_or(false);
        let add = |a: &mut Vec<u64>, k: &str| {
            for (x, y) in a.iter_mut().zip(v[k].as_array().unwrap()) {
                *x += y.as_u64().unwrap();
            }
        };
        add(&mut sum.faults, "faults");
        add(&mut sum.probes, "probes");
        add(&mut sum.ops, "ops");
        scripts.append(&mut read_u64s(&p("scripts")));
        inter.append(&mut read_u64s(&p("inter")));
        states.append(&mut read_u64s(&p("states")));
    }
    let _ = std::fs::remove_dir_all(&dir);
    let distinct = |v: &mut Vec<u64>| {
        v.sort_unstable();
        v.dedup();
        v.len() as u64
    };
    let search_s = start.elapsed().as_secs_f64();

    let mut replay_path = None;
    if let Some((run, v)) = &first {
        let s = script_for(e, seed, *run, tier);
        println!("run {run} fails ({}): {}; minimising", v.class, v.detail);
        let build = build_of(*run, builds);
        BUILD.store(build, Ordering::Relaxed);
        let history = |n: usize| -> Vec<Script> {
            // The runs of the worker that failed, up to the failing one.
            let workers = slots.iter().filter(|s| s.0 == build).count() as u64;
            let mine = (0..workers)
                .map(|i| runs_of(build, builds, i, workers, *run + 1).collect::<Vec<_>>())
                .find(|v| v.last() == Some(run))
                .unwrap_or_default();
            let mut ids = Vec::new();
            if again {
                ids.push(*run);
            }
            for i in mine.iter().rev().skip(1) {
                if ids.len() >= n {
                    break;
                }
                ids.push(*i);
                if executed_again(*i, tier) {
                    ids.push(*i);
                }
            }
            ids.iter().rev().map(|i| script_for(e, seed, *i, tier)).collect()
        };
        let Minimised { before, script: m, tries, confirmed } = minimise(e, &s, v, &history);
        if confirmed.is_none() {
            println!("the failure was not reproduced by a process of its own");
        }
        let last = confirmed.unwrap_or_else(|| v.clone());
        let rd = verif.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let path = rd.join(format!("{}-seed{}-run{}.json", e.id(), seed, run));
        let rel = format!("replays/{}-seed{}-run{}.json", e.id(), seed, run);
        let doc = json!({
            "property": e.id(), "seed": seed, "run": run, "tier": tier_name, "build": BUILDS[build as usize],
            "class": last.class, "detail": last.detail,
            "before": before.iter().map(|s| to_json(e, s)).collect::<Vec<_>>(),
            "script": to_json(e, &m), "original_events": s.ev.len(), "minimiser_executions": tries,
            "how": format!("sim/run.sh {} --replay {rel}", e.id().to_lowercase()),
        });
        if let Err(x) = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()) {
            harness_error(&format!("cannot write the replay file: {x}"));
        }
        println!("minimised from {} to {} events in {} executions:", s.ev.len(), m.ev.len(), tries);
        if !before.is_empty() {
            println!("  after {} other run(s) in the same process (see the replay file)", before.len());
        }
        println!("  enum {} cfg {:?}", m.shape, m.cfg);
        for x in &m.ev {
            println!("  t={}us task {} {} {:?}", x.t, x.task, e.ops()[x.op], x.a);
        }
        println!("  => {}: {}", last.class, last.detail);
        replay_path = Some(rel);
    }

    let named = |names: &[&str], v: &[u64]| -> Value {
        Value::Object(names.iter().zip(v).map(|(n, c)| (n.to_string(), json!(c))).collect())
    };
    let mut samples = Vec::new();
    for i in 0..3.min(runs) {
        let mut s = script_for(e, seed, i, tier);
        s.ev.truncate(12);
        for x in &mut s.ev {
            x.a.truncate(24);
        }
        samples.push(json!({"run": i, "first_events": to_json(e, &s)}));
    }
    let ev = json!({
        "property": e.id(), "tier": tier_name, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": distinct(&mut scripts),
            "nontrivial_runs": nontrivial,
            "rule": e.rule(),
            "samples": samples,
            "events_executed": sum.events,
            "oracle_comparisons": sum.checks,
            "runs_per_hour": (done as f64 / search_s.max(0.001) * 3600.0) as u64,
            "simulated_seconds": sum.sim_us as f64 / 1e6,
            "faults_injected": named(e.faults(), &sum.faults),
            "probes_hit": named(e.probes(), &sum.probes),
            "steps_executed": named(e.ops(), &sum.ops),
            "distinct_interleavings": distinct(&mut inter),
            "interleaving_measure": "sequence of (caller or node, kind of step) of a run",
            "distinct_states": distinct(&mut states),
            "state_measure": e.state_measure(),
            "determinism": {"runs_executed_twice": rechecked, "differences": nondet.is_some() as u64},
            "batch_digest": format!("{digest:016x}"),
            "stopped_by_time_cap": capped,
            "workers": slots.len(),
            "builds": BUILDS[..builds as usize],
            "runs_of_the_second_build": (0..runs).filter(|i| build_of(*i, builds) == 1).count(),
            "real_components": e.real(),
            "stub_components": e.stub(),
        },
        "assumptions": e.assumptions(),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": first.is_some() as u64,
    });
    let ep = verif.join("evidence");
    let _ = std::fs::create_dir_all(&ep);
    if let Err(x) = std::fs::write(
        ep.join(format!("{}.json", e.id())),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    ) {
        harness_error(&format!("cannot write the evidence file: {x}"));
    }
    if let Some(p) = replay_path {
        println!("VIOLATION property={} replay={p}", e.id());
        std::process::exit(1);
    }
    if let Some(run) = nondet {
        harness_error(&format!("run {run} is not deterministic"));
    }
    println!(
        "{}: {done} runs, {} events, {} comparisons, digest {digest:016x}, {:.1}s: held",
        e.id(),
        sum.events,
        sum.checks,
        start.elapsed().as_secs_f64()
    );
    std::process::exit(0)
}

fn replay(e: &dyn Engine, f: &Path) -> ! {
    let doc: Value = match std::fs::read_to_string(f).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => harness_error("unreadable replay file"),
    };
    let Some(s) = from_json(e, &doc["script"]) else { harness_error("bad script in the replay file") };
    let before: Option<Vec<Script>> =
        doc["before"].as_array().map_or(Some(vec![]), |v| v.iter().map(|x| from_json(e, x)).collect());
    let Some(before) = before else { harness_error("bad script in the replay file") };
    BUILD.store((doc["build"].as_str() == Some(BUILDS[1])) as u64, Ordering::Relaxed);
    match Exec::new().run(e, &before, &s) {
        None => {
            println!("the violation does not occur");
            std::process::exit(0)
        }
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            if doc["class"].as_str() != Some(&v.class) || doc["detail"].as_str() != Some(&v.detail) {
                println!("(recorded as {}: {})", doc["class"], doc["detail"]);
            }
            println!("VIOLATION property={} replay={}", e.id(), f.display());
            std::process::exit(1)
        }
    }
}
