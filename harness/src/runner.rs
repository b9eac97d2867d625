//! Runs the cases of a property in worker processes (a crash, abort or hang of the code under test is a
//! result, not the end of the run), collects evidence and writes replay files.

use crate::src::{Src, hash64, shrink, splitmix};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// Per-case observations.
#[derive(Default)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: BTreeSet<&'static str>,
    pub desc: String,
    pub counts: BTreeMap<&'static str, u64>,
}

impl Info {
    pub fn label(&mut self, l: &'static str) {
        self.labels.insert(l);
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        *self.counts.entry(l).or_default() += n;
    }
    pub fn desc(&mut self, d: impl std::fmt::Display) {
        self.desc.push_str(&d.to_string());
        self.desc.push('\n');
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// Short class of the failure; shrinking keeps it, known findings match on it.
    pub sig: String,
    pub msg: String,
}

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::runner::fail($sig, format!($($arg)*));
        }
    };
}

pub type CaseFn = fn(&mut Src, &mut Info) -> Result<(), Fail>;

pub struct Arm {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Every case index is one fixed case; the tape is not needed to reproduce it.
    pub run: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    /// The rule by which a case counts as non-trivial.
    pub rule: &'static str,
    pub arms: Vec<Arm>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

static LAST_PANIC_ANY: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let s = format!("{m} at {loc}");
        if std::env::var_os("VERIF_BACKTRACE").is_some() {
            eprintln!("{s}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
        if let Ok(mut g) = LAST_PANIC_ANY.lock() {
            *g = s;
        }
    }));
}

/// Run `f`, turning a panic into Err(message with location).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    if let Ok(mut g) = LAST_PANIC_ANY.lock() {
        g.clear();
    }
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let own = LAST_PANIC.with(|p| p.borrow().clone());
            if own.is_empty() { Err(LAST_PANIC_ANY.lock().map(|g| g.clone()).unwrap_or_default()) } else { Err(own) }
        }
    }
}

fn run_case(f: CaseFn, src: &mut Src, info: &mut Info) -> Result<(), Fail> {
    match guarded(|| f(src, info)) {
        Ok(r) => r,
        Err(p) => Err(Fail { sig: "panic".to_string(), msg: format!("panic: {p}") }),
    }
}

fn case_seed(seed: u64, id: &str, arm: &str, i: u64) -> u64 {
    let mut x = seed ^ hash64(id.as_bytes()) ^ hash64(arm.as_bytes()).rotate_left(17) ^ i.wrapping_mul(0xD134_2543_DE82_EF95);
    splitmix(&mut x)
}

/// A folder that goes when it is dropped.
pub struct Scratch(PathBuf);

impl std::ops::Deref for Scratch {
    type Target = PathBuf;
    fn deref(&self) -> &PathBuf {
        &self.0
    }
}

impl AsRef<Path> for Scratch {
    fn as_ref(&self) -> &Path {
        &self.0
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn scratch_dir(tag: &str) -> Scratch {
    let d = std::env::temp_dir().join(format!("pywr-verif-{}-{}", std::process::id(), tag));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch dir");
    Scratch(d)
}

/// Worker entry: run cases lo..hi of one arm, append JSON lines to `log`.
/// What a process says when HiGHS could not start one of its own threads
const NO_THREAD: [&str; 2] = ["terminate called without an active exception", "Rust cannot catch foreign exceptions"];

/// Keeps this process on two processors. HiGHS starts threads for half of the processors it may use in every thread that
/// solves, and there is nothing it would do with them here.
fn two_processors() {
    unsafe extern "C" {
        fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
        fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    }
    let mut mask = [0u64; 16];
    let size = std::mem::size_of_val(&mask);
    if unsafe { sched_getaffinity(0, size, mask.as_mut_ptr()) } < 0 {
        return;
    }
    let cpus: Vec<usize> = (0..size * 8).filter(|k| mask[k / 64] >> (k % 64) & 1 == 1).collect();
    if cpus.len() > 2 {
        let mut few = [0u64; 16];
        for d in 0..2 {
            let k = cpus[(std::process::id() as usize + d) % cpus.len()];
            few[k / 64] |= 1 << (k % 64);
        }
        unsafe { sched_setaffinity(0, size, few.as_ptr()) };
    }
}

pub fn worker(props: &[Prop], id: &str, arm: &str, seed: u64, lo: u64, hi: u64, step: u64, log: &Path) {
    install_panic_hook();
    if matches!(id, "C28" | "C29") {
        two_processors();
    }
    let prop = props.iter().find(|p| p.id == id).expect("property");
    let arm = prop.arms.iter().find(|a| a.name == arm).expect("arm");
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(log).expect("log");
    let known_sigs: Vec<String> = std::env::var("VERIF_KNOWN").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut i = lo;
    let mut found: BTreeSet<String> = BTreeSet::new();
    let mut failures = 0;
    while i < hi && failures < 3 {
        writeln!(out, "S {i}").unwrap();
        let mut src = Src::random(case_seed(seed, id, arm.name, i), i);
        let mut info = Info::default();
        let r = run_case(arm.run, &mut src, &mut info);
        let line = match r {
            Ok(()) => {
                let tape: Vec<u8> = src.used().iter().flat_map(|v| v.to_le_bytes()).collect();
                let h = hash64(&tape) ^ i.wrapping_mul(if tape.is_empty() { 0x9E37 } else { 0 });
                let mut desc = info.desc.clone();
                if desc.len() > 1500 {
                    let mut n = 1500;
                    while !desc.is_char_boundary(n) {
                        n -= 1;
                    }
                    desc.truncate(n);
                }
                json!({"i": i, "ok": true, "nt": info.nontrivial, "h": h, "l": info.labels, "c": info.counts,
                       "d": if i < 40 || i % 64 == 0 { desc } else { String::new() }})
            }
            Err(f) => {
                let tape = src.used();
                let sig = f.sig.clone();
                let first = json!({"i": i, "ok": false, "sig": sig, "msg": f.msg, "tape": tape, "d": info.desc});
                if known_sigs.contains(&sig) {
                    writeln!(out, "{first}").unwrap();
                    i += step;
                    continue;
                }
                failures += 1;
                if !found.insert(sig.clone()) {
                    writeln!(out, "{first}").unwrap();
                    i += step;
                    continue;
                }
                writeln!(out, "F {first}").unwrap();
                let mut best_fail = f;
                let mut best_desc = info.desc;
                let deadline = Instant::now() + Duration::from_secs(25);
                let best = shrink(tape, deadline, &mut |t| {
                    let mut s = Src::replay(t.to_vec(), i);
                    let mut inf = Info::default();
                    match run_case(arm.run, &mut s, &mut inf) {
                        Err(f) if f.sig == sig => Some(s.used()),
                        _ => None,
                    }
                });
                let mut s = Src::replay(best.clone(), i);
                let mut inf = Info::default();
                if let Err(f) = run_case(arm.run, &mut s, &mut inf) {
                    best_fail = f;
                    best_desc = inf.desc;
                }
                json!({"i": i, "ok": false, "sig": sig, "msg": best_fail.msg, "tape": best, "d": best_desc})
            }
        };
        writeln!(out, "{line}").unwrap();
        i += step;
    }
}

struct Running {
    child: Child,
    log: PathBuf,
    dir: PathBuf,
    arm: usize,
    started_case: Option<u64>,
    cpu_at_change: f64,
    last_change: Instant,
    last_len: u64,
    batch: (u64, u64, u64),
}

pub struct KnownFinding {
    pub property: String,
    pub sig: String,
    pub line: String,
}

pub fn known_findings(root: &Path) -> Vec<KnownFinding> {
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")) {
        for line in t.lines() {
            if let Some(rest) = line.strip_prefix("KNOWN-FINDING: ") {
                let mut property = String::new();
                let mut sig = String::new();
                for w in rest.split_whitespace() {
                    if let Some(p) = w.strip_prefix("property=") {
                        property = p.to_string();
                    }
                    if let Some(s) = w.strip_prefix("sig=") {
                        sig = s.to_string();
                    }
                }
                v.push(KnownFinding { property, sig, line: line.to_string() });
            }
        }
    }
    v
}

/// Run all cases; returns the process exit code.
pub fn run(props: &[Prop], root: &Path, id: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let prop = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let budget = Duration::from_secs(if tier == "thorough" { 780 } else { 300 });
    // A case may use this much processor time; waiting for a busy machine does not count against it.
    let case_cpu = 60.0;
    let case_wall = Duration::from_secs(420);
    let known = known_findings(root);
    let known_sigs: Vec<String> = known.iter().filter(|k| k.property == id).map(|k| k.sig.clone()).collect();
    let is_known = |v: &Value| known_sigs.iter().any(|k| Some(k.as_str()) == v["sig"].as_str());
    let mut no_answer: Vec<String> = Vec::new();
    let mut retried: BTreeMap<(usize, u64), u32> = BTreeMap::new();
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8);
    let scratch = scratch_dir(id);
    let exe = std::env::current_exe().unwrap();

    // Interleave the batches of all arms so that a budget stop starves none of them.
    let mut per_arm: Vec<Vec<(usize, u64, u64, u64)>> = Vec::new();
    for (ai, arm) in prop.arms.iter().enumerate() {
        let n = if tier == "thorough" { arm.thorough } else { arm.quick };
        let n = ((n as f64 * scale).ceil() as u64).max(1);
        let bsz = (n / (workers as u64 * 3)).clamp(1, 400);
        let mut v = Vec::new();
        let mut lo = 0;
        while lo < n {
            v.push((ai, lo, (lo + bsz).min(n), 1u64));
            lo += bsz;
        }
        per_arm.push(v);
    }
    let mut queue: Vec<(usize, u64, u64, u64)> = Vec::new();
    let max_len = per_arm.iter().map(|v| v.len()).max().unwrap_or(0);
    // position each batch proportionally
    let mut keyed: Vec<(f64, (usize, u64, u64, u64))> = Vec::new();
    for v in &per_arm {
        for (k, b) in v.iter().enumerate() {
            keyed.push(((k as f64 + 0.5) / v.len() as f64 * max_len as f64, *b));
        }
    }
    keyed.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
    queue.extend(keyed.into_iter().map(|k| k.1));
    queue.reverse();

    let mut running: Vec<Running> = Vec::new();
    let mut serial = 0usize;
    let mut evaluations = 0u64;
    let mut nontrivial = 0u64;
    let mut distinct: HashSet<(usize, u64)> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut arm_evals: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut samples_per_arm: BTreeMap<usize, usize> = BTreeMap::new();
    let mut failures: Vec<(usize, u64, Value)> = Vec::new();
    let mut stopped_early = false;

    loop {
        while running.len() < workers && !queue.is_empty() {
            if t0.elapsed() > budget || failures.iter().filter(|f| !is_known(&f.2)).count() >= 6 {
                stopped_early = t0.elapsed() > budget;
                queue.clear();
                break;
            }
            let (ai, lo, hi, step) = queue.pop().unwrap();
            serial += 1;
            let dir = scratch.join(format!("w{serial}"));
            std::fs::create_dir_all(&dir).unwrap();
            let log = dir.join("log.txt");
            let errf = std::fs::File::create(dir.join("stderr.txt")).unwrap();
            let child = Command::new(&exe)
                .args([
                    "worker",
                    id,
                    prop.arms[ai].name,
                    &seed.to_string(),
                    &lo.to_string(),
                    &hi.to_string(),
                    &step.to_string(),
                    log.to_str().unwrap(),
                ])
                .current_dir(&dir)
                .env("VERIF_TIER", tier)
                .env("VERIF_KNOWN", known_sigs.join(","))
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(errf)
                .spawn()
                .expect("spawn worker");
            running.push(Running {
                child,
                log,
                dir,
                arm: ai,
                started_case: None,
                cpu_at_change: 0.0,
                last_change: Instant::now(),
                last_len: 0,
                batch: (lo, hi, step),
            });
        }
        if running.is_empty() && queue.is_empty() {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
        let mut k = 0;
        while k < running.len() {
            let r = &mut running[k];
            let status = r.child.try_wait().unwrap();
            let len = std::fs::metadata(&r.log).map(|m| m.len()).unwrap_or(0);
            if len != r.last_len {
                r.last_len = len;
                r.last_change = Instant::now();
                r.cpu_at_change = cpu_seconds(r.child.id());
            }
            let spinning = status.is_none()
                && r.last_change.elapsed().as_secs_f64() > case_cpu / 8.0
                && cpu_seconds(r.child.id()) - r.cpu_at_change > case_cpu;
            let stuck = status.is_none() && r.last_change.elapsed() > case_wall;
            let hung = spinning || stuck;
            if hung {
                let _ = r.child.kill();
                let _ = r.child.wait();
            }
            if status.is_none() && !hung {
                k += 1;
                continue;
            }
            let text = std::fs::read_to_string(&r.log).unwrap_or_default();
            let mut unshrunk: Option<Value> = None;
            for line in text.lines() {
                if let Some(n) = line.strip_prefix("S ") {
                    r.started_case = n.parse().ok();
                    unshrunk = None;
                    continue;
                }
                if let Some(f) = line.strip_prefix("F ") {
                    unshrunk = serde_json::from_str(f).ok();
                    continue;
                }
                let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
                let i = v["i"].as_u64().unwrap_or(0);
                r.started_case = None;
                evaluations += 1;
                *arm_evals.entry(prop.arms[r.arm].name).or_default() += 1;
                if v["ok"].as_bool() == Some(true) {
                    if v["nt"].as_bool() == Some(true) {
                        nontrivial += 1;
                        distinct.insert((r.arm, v["h"].as_u64().unwrap_or(0)));
                        let d = v["d"].as_str().unwrap_or("");
                        let n = samples_per_arm.entry(r.arm).or_default();
                        if !d.is_empty() && *n < 2 {
                            *n += 1;
                            samples.push(json!({"arm": prop.arms[r.arm].name, "case": i, "input": d}));
                        }
                    }
                    for l in v["l"].as_array().into_iter().flatten() {
                        *labels.entry(l.as_str().unwrap_or("").to_string()).or_default() += 1;
                    }
                    for (l, n) in v["c"].as_object().into_iter().flatten() {
                        *counts.entry(l.to_string()).or_default() += n.as_u64().unwrap_or(0);
                    }
                } else {
                    failures.push((r.arm, i, v));
                }
            }
            let ok = status.map(|s| s.success()).unwrap_or(false);
            if !ok {
                let i = r.started_case.unwrap_or(r.batch.0);
                let mut running_again = false;
                let err = std::fs::read_to_string(r.dir.join("stderr.txt")).unwrap_or_default();
                let tail: String = err.chars().rev().take(600).collect::<String>().chars().rev().collect();
                evaluations += 1;
                use std::os::unix::process::ExitStatusExt;
                let signal = status.and_then(|s| s.signal());
                if let Some(f) = unshrunk.take() {
                    // The failure was found; only its reduction was cut short.
                    failures.push((r.arm, i, f));
                } else if spinning {
                    failures.push((
                        r.arm,
                        i,
                        json!({"i": i, "ok": false, "sig": "hang",
                               "msg": format!("case {i} did not finish within {case_cpu} s of processor time: {tail}"),
                               "tape": Value::Null, "d": ""}),
                    ));
                } else if signal == Some(6) && NO_THREAD.iter().any(|m| tail.contains(m)) && *retried.entry((r.arm, i)).or_default() < 3 {
                    // Not the code under test: the case is run again, and reported if it happens every time.
                    *retried.get_mut(&(r.arm, i)).unwrap() += 1;
                    evaluations -= 1;
                    queue.push((r.arm, i, r.batch.1, r.batch.2));
                    running_again = true;
                } else if signal.is_some() && signal != Some(9) && signal != Some(15) {
                    failures.push((
                        r.arm,
                        i,
                        json!({"i": i, "ok": false, "sig": "crash",
                               "msg": format!("the process ended with signal {signal:?} in case {i}: {tail}"),
                               "tape": Value::Null, "d": ""}),
                    ));
                } else {
                    no_answer.push(format!("{}/{i}: worker ended with {status:?} (stuck={stuck}): {tail}", prop.arms[r.arm].name));
                }
                if !running_again && i + r.batch.2 < r.batch.1 {
                    queue.push((r.arm, i + r.batch.2, r.batch.1, r.batch.2));
                }
            }
            let dir = r.dir.clone();
            running.remove(k);
            let _ = std::fs::remove_dir_all(dir);
        }
    }
    drop(scratch);

    failures.sort_by_key(|f| (f.0, f.1));
    let mut seen_known: BTreeSet<String> = BTreeSet::new();
    let mut seen_sig: BTreeSet<(usize, String)> = BTreeSet::new();
    let mut violations: Vec<Value> = Vec::new();
    for (ai, i, v) in &failures {
        let sig = v["sig"].as_str().unwrap_or("").to_string();
        if let Some(kf) = known.iter().find(|k| k.property == id && !k.sig.is_empty() && k.sig == sig) {
            if seen_known.insert(sig.clone()) {
                println!("{}", kf.line);
            }
            continue;
        }
        if !seen_sig.insert((*ai, sig.clone())) {
            continue;
        }
        let arm = prop.arms[*ai].name;
        let rdir = root.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{id}-{arm}-{i}.json"));
        let rep = json!({"property": id, "arm": arm, "seed": seed, "case": i, "sig": sig,
            "message": v["msg"], "tape": v["tape"], "input": v["d"]});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
        println!("--- {id}/{arm} case {i} [{sig}]: {}", v["msg"].as_str().unwrap_or(""));
        println!("{}", v["d"].as_str().unwrap_or(""));
        println!("VIOLATION property={id} replay={}", path.display());
        violations.push(json!({"replay": path.to_string_lossy(), "what": format!("[{sig}] {}", v["msg"].as_str().unwrap_or(""))}));
    }

    let level = "exploration";
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": evaluations,
            "nontrivial": nontrivial,
            "distinct_nontrivial": distinct.len(),
            "rule": prop.rule,
            "arms": arm_evals,
            "labels": labels,
            "counts": counts,
            "stopped_by_time_budget": stopped_early,
            "known_findings_seen": seen_known,
            "samples": samples,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let evdir = root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "{id} [{tier}] seed={seed}: {evaluations} cases, {} distinct non-trivial, {} violation(s), {:.1}s",
        distinct.len(),
        violations.len(),
        t0.elapsed().as_secs_f64()
    );
    for n in &no_answer {
        println!("no answer: {n}");
    }
    if !violations.is_empty() {
        1
    } else if !no_answer.is_empty() {
        2
    } else {
        0
    }
}

/// Processor time used so far by our own child process.
fn cpu_seconds(pid: u32) -> f64 {
    let Ok(t) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0.0 };
    let Some(k) = t.rfind(')') else { return 0.0 };
    let f: Vec<&str> = t[k + 1..].split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / 100.0
}

pub fn replay(props: &[Prop], path: &Path) -> i32 {
    install_panic_hook();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let prop = props.iter().find(|p| p.id == id).expect("property");
    let arm = prop.arms.iter().find(|a| a.name == v["arm"].as_str().unwrap()).expect("arm");
    let i = v["case"].as_u64().unwrap();
    let mut src = match v["tape"].as_array() {
        Some(t) => Src::replay(t.iter().map(|x| x.as_u64().unwrap()).collect(), i),
        None => Src::random(case_seed(v["seed"].as_u64().unwrap(), id, arm.name, i), i),
    };
    let dir = scratch_dir("replay");
    std::env::set_current_dir(&*dir).unwrap();
    let mut info = Info::default();
    let r = run_case(arm.run, &mut src, &mut info);
    std::env::set_current_dir("/").unwrap();
    drop(dir);
    println!("{}", info.desc);
    match r {
        Ok(()) => {
            println!("replay: property holds on this case");
            0
        }
        Err(f) => {
            println!("replay: [{}] {}", f.sig, f.msg);
            1
        }
    }
}
