//! Sharded proptest driver: fixed work, seeded by VERIF_SEED, shrinks failures
//! to a replay file and writes the evidence file.

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn get() -> Tier {
        match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

/// Raised (by panic) for trouble in the harness or the machine, never for the code under test.
pub struct Infra(pub String);
pub fn infra(msg: impl Into<String>) -> ! {
    std::panic::panic_any(Infra(msg.into()))
}

/// Per case context: classification, scratch space.
pub struct Cx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub findings: Vec<(String, String)>,
    dir: Option<PathBuf>,
    scratch_root: PathBuf,
    known: Vec<(String, String)>,
    id: &'static str,
}
/// A case that takes milliseconds to seconds is taken to hang if it has not come to an end
/// after this time, among the others and then once more on its own.
const STALL: Duration = Duration::from_secs(200);
static CASE_NO: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl Cx {
    fn new(scratch_root: &Path, id: &'static str, known: &[(String, String)]) -> Cx {
        Cx {
            labels: BTreeMap::new(),
            nontrivial: false,
            findings: vec![],
            dir: None,
            scratch_root: scratch_root.to_path_buf(),
            known: known.to_vec(),
            id,
        }
    }
    pub fn label(&mut self, s: impl Into<String>) {
        *self.labels.entry(s.into()).or_insert(0) += 1;
    }
    pub fn count(&mut self, s: impl Into<String>, n: u64) {
        *self.labels.entry(s.into()).or_insert(0) += n;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// A failure that may be listed in known_findings.json. Unlisted: a violation.
    pub fn finding(&mut self, sig: &str, detail: impl Into<String>) -> Result<(), String> {
        let detail = detail.into();
        if self.known.iter().any(|(p, s)| p == self.id && s == sig) {
            self.findings.push((sig.to_string(), detail));
            Ok(())
        } else {
            Err(format!("[{}] {}", sig, detail))
        }
    }
    /// fresh directory of this case
    pub fn dir(&mut self) -> PathBuf {
        if self.dir.is_none() {
            let n = CASE_NO.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let d = self.scratch_root.join(format!("case{}", n));
            if let Err(e) = std::fs::create_dir_all(&d) {
                infra(format!("scratch {:?}: {}", d, e));
            }
            self.dir = Some(d);
        }
        self.dir.clone().unwrap()
    }
}
impl Drop for Cx {
    fn drop(&mut self) {
        if let Some(d) = &self.dir {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}

pub trait Prop: 'static {
    const ID: &'static str;
    const RULE: &'static str;
    type Case: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    /// total number of generated cases over all shards
    fn cases(tier: Tier) -> u32;
    fn check(c: &Self::Case, cx: &mut Cx) -> Result<(), String>;
    /// hand written cases that always run (shard 0 .. n, round robin)
    fn fixed(_tier: Tier) -> Vec<Self::Case> {
        vec![]
    }
    fn assumptions() -> Vec<String> {
        vec![]
    }
    fn rayon_threads() -> usize {
        2
    }
    fn shards() -> usize {
        8
    }
    fn shrink_iters() -> u32 {
        1500
    }
}

#[derive(Serialize, Deserialize, Default)]
struct ShardOut {
    evaluations: u64,
    fixed: u64,
    nontrivial: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    hashes: Vec<u64>,
    failure: Option<Failure>,
    findings: BTreeMap<String, String>,
    infra: Option<String>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Failure {
    case: Value,
    msg: String,
    original: Option<String>,
}

fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    crate::model::fin(h)
}

pub fn verif_root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1)
}

fn known_findings() -> Vec<(String, String)> {
    let p = verif_root().join("known_findings.json");
    let Ok(t) = std::fs::read_to_string(&p) else { return vec![] };
    let v: Value = match serde_json::from_str(&t) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("known_findings.json: {}", e);
            std::process::exit(2)
        }
    };
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|f| {
                    (
                        f["property"].as_str().unwrap_or("").to_string(),
                        f["signature"].as_str().unwrap_or("").to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> Result<String, String> {
    match e.downcast::<Infra>() {
        Ok(i) => Err(i.0),
        Err(e) => Ok(if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }),
    }
}

/// Runs code under test, turning a panic into Err(text). Infra panics pass through.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => match panic_text(e) {
            Ok(t) => Err(t),
            Err(i) => infra(i),
        },
    }
}

enum Ran {
    Ok,
    Fail(String),
    Infra(String),
}
fn exec<P: Prop>(c: &P::Case, cx: &mut Cx) -> Ran {
    match catch_unwind(AssertUnwindSafe(|| P::check(c, cx))) {
        Ok(Ok(())) => Ran::Ok,
        Ok(Err(m)) => Ran::Fail(m),
        Err(e) => match panic_text(e) {
            Ok(t) => Ran::Fail(format!("panic: {}", t)),
            Err(i) => Ran::Infra(i),
        },
    }
}

fn scratch_base() -> PathBuf {
    for p in ["/dev/shm", "/tmp"] {
        let c = std::ffi::CString::new(p).unwrap();
        let mut st: libc::statvfs = unsafe { std::mem::zeroed() };
        if unsafe { libc::statvfs(c.as_ptr(), &mut st) } == 0 {
            let free = st.f_bavail as u64 * st.f_frsize as u64;
            if free >= 6 << 30 && std::fs::create_dir_all(format!("{}/.mtv{}", p, std::process::id())).is_ok() {
                let _ = std::fs::remove_dir(format!("{}/.mtv{}", p, std::process::id()));
                return PathBuf::from(p);
            }
        }
    }
    std::env::temp_dir()
}

/// Code under test that never stops allocating ends this process, not others.
fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_DATA, &l) };
}

fn worker<P: Prop>(shard: usize, of: usize, out: &Path, scratch: &Path) {
    std::panic::set_hook(Box::new(|_| {}));
    limit_memory();
    let tier = Tier::get();
    let known = known_findings();
    let total = P::cases(tier);
    let n = total / of as u32 + u32::from((total % of as u32) > shard as u32);
    let mut seed_bytes = [0u8; 32];
    for k in 0..4 {
        let w = fnv(format!("{}/{}/{}/{}/{}", seed(), P::ID, shard, of, k).as_bytes());
        seed_bytes[k * 8..k * 8 + 8].copy_from_slice(&w.to_le_bytes());
    }
    let st = RefCell::new(ShardOut::default());
    let seen = RefCell::new(HashSet::<u64>::new());
    let first_fail = RefCell::new(None::<String>);
    let cur = out.with_extension("cur");
    let run_one = |c: &P::Case, fixed: bool| -> Result<(), String> {
        let js = serde_json::to_string(c).expect("case serializes");
        if std::fs::write(&cur, &js).is_err() {
            infra("cannot write journal");
        }
        let mut cx = Cx::new(scratch, P::ID, &known);
        let r = exec::<P>(c, &mut cx);
        let mut s = st.borrow_mut();
        if first_fail.borrow().is_none() {
            if fixed {
                s.fixed += 1;
            }
            s.evaluations += 1;
            for (k, v) in &cx.labels {
                *s.labels.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in &cx.findings {
                s.findings.entry(k.clone()).or_insert(v.clone());
            }
            if cx.nontrivial {
                s.nontrivial += 1;
                let h = fnv(js.as_bytes());
                if seen.borrow_mut().insert(h) {
                    s.hashes.push(h);
                }
                if s.samples.len() < 3 && js.len() < 3000 {
                    s.samples.push(serde_json::from_str(&js).unwrap());
                }
            }
        }
        match r {
            Ran::Ok => Ok(()),
            Ran::Fail(m) => {
                if first_fail.borrow().is_none() {
                    *first_fail.borrow_mut() = Some(js.chars().take(4000).collect());
                    // in case that shrinking does not come to an end
                    let _ = std::fs::write(out.with_extension("first"), &js);
                }
                Err(m)
            }
            Ran::Infra(i) => {
                s.infra = Some(i);
                let _ = std::fs::write(out, serde_json::to_vec(&*s).unwrap());
                std::process::exit(3);
            }
        }
    };
    let mut failed = false;
    for (k, c) in P::fixed(tier).into_iter().enumerate() {
        if k % of != shard {
            continue;
        }
        if let Err(m) = run_one(&c, true) {
            st.borrow_mut().failure =
                Some(Failure { case: serde_json::to_value(&c).unwrap(), msg: m, original: None });
            failed = true;
            break;
        }
    }
    if !failed && n > 0 {
        let cfg = Config {
            cases: n,
            failure_persistence: None,
            max_shrink_iters: P::shrink_iters(),
            max_shrink_time: 60_000,
            max_global_rejects: 1 << 20,
            ..Config::default()
        };
        let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes));
        let strat = P::strategy(tier);
        let res = r.run(&strat, |c| run_one(&c, false).map_err(TestCaseError::fail));
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, c)) => {
                st.borrow_mut().failure = Some(Failure {
                    case: serde_json::to_value(&c).unwrap(),
                    msg: reason.message().to_string(),
                    original: first_fail.borrow().clone(),
                });
            }
            Err(TestError::Abort(reason)) => {
                st.borrow_mut().infra = Some(format!("generator aborted: {}", reason.message()));
            }
        }
    }
    let s = st.borrow();
    std::fs::write(out, serde_json::to_vec(&*s).unwrap()).expect("write shard result");
    std::process::exit(if s.infra.is_some() { 3 } else { 0 });
}

struct Cleanup(PathBuf);
impl Drop for Cleanup {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn spawn(scratch: &Path, threads: usize, args: &[String]) -> std::process::Child {
    let tmp = scratch.join("tmp");
    let _ = std::fs::create_dir_all(&tmp);
    Command::new(std::env::current_exe().expect("exe"))
        .args(args)
        .env("TMPDIR", &tmp)
        .env("RAYON_NUM_THREADS", threads.to_string())
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::inherit())
        .spawn()
        .unwrap_or_else(|e| {
            eprintln!("spawn: {}", e);
            std::process::exit(2)
        })
}

/// Outcome of a single case in a process of its own.
fn one_case<P: Prop>(scratch: &Path, case: &Value, n: usize) -> Result<(), String> {
    use std::os::unix::process::ExitStatusExt;
    let f = scratch.join(format!("one{}.json", n));
    let o = scratch.join(format!("one{}.out", n));
    std::fs::write(&f, serde_json::to_vec(case).unwrap()).unwrap();
    let mut ch = spawn(
        scratch,
        P::rayon_threads(),
        &["--one".into(), f.display().to_string(), o.display().to_string(), scratch.display().to_string()],
    );
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                if let Some(sig) = st.signal() {
                    return Err(format!("signal {}", sig));
                }
                return match st.code() {
                    Some(0) => Ok(()),
                    Some(1) => Err(std::fs::read_to_string(&o).unwrap_or_default()),
                    c => Err(format!("INFRA exit {:?}", c)),
                };
            }
            Ok(None) => {
                if t0.elapsed() > STALL {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Err(format!("does not come to an end ({} s)", STALL.as_secs()));
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            Err(e) => return Err(format!("INFRA {}", e)),
        }
    }
}

pub fn main<P: Prop>() -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("--worker") => {
            worker::<P>(args[1].parse().unwrap(), args[2].parse().unwrap(), Path::new(&args[3]), Path::new(&args[4]));
            unreachable!()
        }
        Some("--one") => {
            std::panic::set_hook(Box::new(|_| {}));
            limit_memory();
            let v: Value = serde_json::from_slice(&std::fs::read(&args[1]).unwrap()).unwrap();
            let c: P::Case = serde_json::from_value(v).expect("case");
            let mut cx = Cx::new(Path::new(&args[3]), P::ID, &known_findings());
            let r = exec::<P>(&c, &mut cx);
            drop(cx);
            match r {
                Ran::Ok => std::process::exit(0),
                Ran::Fail(m) => {
                    let _ = std::fs::write(&args[2], &m);
                    std::process::exit(1)
                }
                Ran::Infra(m) => {
                    let _ = std::fs::write(&args[2], &m);
                    std::process::exit(3)
                }
            }
        }
        Some("--replay") => {
            let v: Value = serde_json::from_slice(&std::fs::read(&args[1]).expect("replay file")).expect("json");
            let scratch = scratch_base().join(format!("mtverif-{}-replay-{}", P::ID, std::process::id()));
            std::fs::create_dir_all(&scratch).expect("scratch");
            let _c = Cleanup(scratch.clone());
            let r = one_case::<P>(&scratch, &v["case"], 0);
            drop(_c);
            match r {
                Ok(()) => {
                    println!("replay of {} passes", args[1]);
                    std::process::exit(0)
                }
                Err(m) if m.starts_with("INFRA") => {
                    eprintln!("{}", m);
                    std::process::exit(2)
                }
                Err(m) => {
                    println!("{}", m);
                    println!("VIOLATION property={} replay={}", P::ID, args[1]);
                    std::process::exit(1)
                }
            }
        }
        _ => parent::<P>(),
    }
}

fn has_failure(out: &Path) -> bool {
    std::fs::read(out)
        .ok()
        .and_then(|b| serde_json::from_slice::<ShardOut>(&b).ok())
        .map_or(false, |s| s.failure.is_some())
}

fn parent<P: Prop>() -> ! {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let tier = Tier::get();
    let scratch = scratch_base().join(format!("mtverif-{}-{}", P::ID, std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&scratch) {
        eprintln!("scratch {:?}: {}", scratch, e);
        std::process::exit(2);
    }
    let clean = Cleanup(scratch.clone());
    let n = P::shards();
    let limit = Duration::from_secs(tier.pick(640, 6 * 3600));
    let mut kids = vec![];
    for k in 0..n {
        let sd = scratch.join(format!("s{}", k));
        std::fs::create_dir_all(&sd).expect("scratch");
        let out = scratch.join(format!("out{}.json", k));
        let ch = spawn(
            &sd,
            P::rayon_threads(),
            &["--worker".into(), k.to_string(), n.to_string(), out.display().to_string(), sd.display().to_string()],
        );
        kids.push((ch, out, None::<std::process::ExitStatus>));
    }
    let mut hung: Option<Failure> = None;
    let mut progress = vec![(Instant::now(), None::<std::time::SystemTime>); n];
    let mut next_look = Instant::now() + Duration::from_secs(5);
    let mut timed_out = false;
    let mut failed_at: Option<Instant> = None;
    loop {
        let mut live = false;
        for (ch, _, st) in kids.iter_mut() {
            if st.is_none() {
                match ch.try_wait() {
                    Ok(Some(s)) => *st = Some(s),
                    Ok(None) => live = true,
                    Err(e) => {
                        eprintln!("wait: {}", e);
                        std::process::exit(2)
                    }
                }
            }
        }
        if !live {
            break;
        }
        // a shard that stays with one case: look at that case alone
        if Instant::now() > next_look && hung.is_none() && failed_at.is_none() {
            next_look = Instant::now() + Duration::from_secs(5);
            for (k, (ch, out, st)) in kids.iter_mut().enumerate() {
                if st.is_some() {
                    continue;
                }
                let cur = out.with_extension("cur");
                let m = std::fs::metadata(&cur).and_then(|m| m.modified()).ok();
                if m != progress[k].1 {
                    progress[k] = (Instant::now(), m);
                    continue;
                }
                if progress[k].0.elapsed() < STALL {
                    continue;
                }
                let case = std::fs::read(&cur).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok());
                if let Some(case) = case {
                    let _ = ch.kill();
                    *st = ch.wait().ok();
                    match one_case::<P>(&scratch, &case, 900 + k) {
                        Err(m) if !m.starts_with("INFRA") => {
                            hung = Some(Failure { case, msg: m, original: None });
                            failed_at = Some(Instant::now());
                        }
                        _ => {}
                    }
                    break;
                }
            }
        }
        // one counterexample is enough: do not wait long for the other shards
        if failed_at.is_none() {
            for (_, out, st) in kids.iter() {
                if st.is_some() && has_failure(out) {
                    failed_at = Some(Instant::now());
                }
            }
        }
        if t0.elapsed() > limit || failed_at.map_or(false, |f: Instant| f.elapsed() > Duration::from_secs(15)) {
            timed_out = true;
            for (ch, _, st) in kids.iter_mut() {
                if st.is_none() {
                    let _ = ch.kill();
                    *st = ch.wait().ok();
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let mut tot = ShardOut::default();
    let mut hashes = HashSet::new();
    let mut fail: Option<Failure> = hung;
    let mut errors: Vec<String> = vec![];
    for (k, (_, out, st)) in kids.iter().enumerate() {
        let st = st.unwrap();
        let parsed = std::fs::read(out).ok().and_then(|b| serde_json::from_slice::<ShardOut>(&b).ok());
        match parsed {
            Some(s) => {
                tot.evaluations += s.evaluations;
                tot.fixed += s.fixed;
                tot.nontrivial += s.nontrivial;
                for (a, b) in s.labels {
                    *tot.labels.entry(a).or_insert(0) += b;
                }
                for (a, b) in s.findings {
                    tot.findings.entry(a).or_insert(b);
                }
                hashes.extend(s.hashes);
                if tot.samples.len() < 8 {
                    tot.samples.extend(s.samples.into_iter().take(2));
                }
                if let Some(i) = s.infra {
                    errors.push(format!("shard {}: {}", k, i));
                }
                if fail.is_none() {
                    fail = s.failure;
                }
            }
            None => {
                let sig = st.signal();
                let crash = matches!(sig, Some(libc::SIGSEGV) | Some(libc::SIGBUS) | Some(libc::SIGABRT) | Some(libc::SIGILL) | Some(libc::SIGFPE));
                let cur = std::fs::read(out.with_extension("cur"))
                    .ok()
                    .and_then(|b| serde_json::from_slice::<Value>(&b).ok());
                let first = std::fs::read(out.with_extension("first"))
                    .ok()
                    .and_then(|b| serde_json::from_slice::<Value>(&b).ok());
                if fail.is_some() {
                    continue;
                }
                if let Some(first) = first {
                    // it failed, but shrinking did not come to an end
                    match one_case::<P>(&scratch, &first, k * 10 + 5) {
                        Err(m) if !m.starts_with("INFRA") => {
                            fail = Some(Failure { case: first, msg: m, original: None });
                            continue;
                        }
                        _ => {}
                    }
                }
                if let (true, Some(cur), false) = (crash, cur, timed_out) {
                    // the code under test took the process down: confirm on that case alone
                    let mut seen = false;
                    for a in 0..3 {
                        if let Err(m) = one_case::<P>(&scratch, &cur, k * 10 + a) {
                            if !m.starts_with("INFRA") {
                                seen = true;
                                if fail.is_none() {
                                    fail = Some(Failure { case: cur.clone(), msg: format!("process ended by {}", m), original: None });
                                }
                                break;
                            }
                        }
                    }
                    if !seen {
                        errors.push(format!("shard {} died by signal {:?}, not reproduced", k, sig));
                    }
                } else {
                    errors.push(format!("shard {} gave no result ({:?}, timeout {})", k, st, timed_out));
                }
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": P::ID,
        "tier": tier.name(),
        "seed": seed() as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": tot.evaluations,
            "distinct_nontrivial": hashes.len(),
            "nontrivial": tot.nontrivial,
            "hand_written_cases": tot.fixed,
            "rule": P::RULE,
            "samples": tot.samples,
            "classes": tot.labels,
        },
        "assumptions": P::assumptions(),
        "wall_s": wall,
        "violations": u32::from(fail.is_some()),
    });
    let evd = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    if let Err(e) = std::fs::write(evd.join(format!("{}.json", P::ID)), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("evidence: {}", e);
        std::process::exit(2);
    }
    let mut code = 0;
    if let Some(f) = fail {
        let rd = verif_root().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let body = json!({"property": P::ID, "case": f.case, "message": f.msg, "first_seen_as": f.original, "seed": seed() as i64});
        let h = fnv(serde_json::to_string(&body["case"]).unwrap().as_bytes());
        let p = rd.join(format!("{}-{:016x}.json", P::ID, h));
        let _ = std::fs::write(&p, serde_json::to_vec_pretty(&body).unwrap());
        println!("{}: {}", P::ID, f.msg);
        let cs = serde_json::to_string(&f.case).unwrap();
        println!("minimal case: {}", cs.chars().take(2000).collect::<String>());
        println!("VIOLATION property={} replay={}", P::ID, p.display());
        code = 1;
    } else if !errors.is_empty() || tot.evaluations == 0 {
        for e in &errors {
            eprintln!("ERROR {}: {}", P::ID, e);
        }
        code = 2;
    } else {
        for (s, d) in &tot.findings {
            println!("KNOWN-FINDING: property={} {}: {}", P::ID, s, d);
        }
        println!(
            "{} held: {} cases, {} distinct non-trivial, {:.1}s",
            P::ID,
            tot.evaluations,
            hashes.len(),
            wall
        );
    }
    drop(clean);
    std::process::exit(code)
}

pub fn boxed<S>(s: S) -> BoxedStrategy<S::Value>
where
    S: Strategy + 'static,
{
    s.boxed()
}
