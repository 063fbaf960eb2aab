//! The explorer: shares the tasks of a property's spaces between threads, runs the property on every case,
//! and survives crashes and hangs of the code under test by doing so in a child process.

use crate::imp::{self, Caught};
use crate::space::Space;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Check = fn(&str, &mut Stats) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    /// how a case is judged, in one sentence
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(thorough: bool) -> Vec<Box<dyn Space>>,
    pub check: Check,
    /// single cases that each get a process of their own
    pub named: fn(thorough: bool) -> Vec<String>,
    pub named_check: Check,
}

pub fn no_named(_: bool) -> Vec<String> {
    vec![]
}
pub fn no_named_check(c: &str, _: &mut Stats) -> Result<(), String> {
    panic!("no case named {c}")
}

/// What one run covered. All of it is counted while it runs.
#[derive(Default)]
pub struct Stats {
    /// fingerprints of the distinct states reached
    states: HashSet<u64, std::hash::BuildHasherDefault<Id>>,
    capped: bool,
    /// steps taken between states: tokens, events or operations consumed
    pub transitions: u64,
    /// cases whose outcome on the real code was compared with the specification
    pub validated: u64,
    /// cases outside the property's domain
    pub skipped: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
}

const MAX_STATES: usize = 3_000_000;

#[derive(Default)]
pub struct Id(u64);
impl std::hash::Hasher for Id {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}

impl Stats {
    pub fn state(&mut self, h: u64) {
        if self.states.len() < MAX_STATES {
            self.states.insert(h);
        } else if !self.capped && !self.states.contains(&h) {
            self.capped = true;
        }
    }
    pub fn count(&mut self, what: &'static str) {
        *self.outcomes.entry(what).or_insert(0) += 1;
    }
    /// One case compared, reaching state `h` after `steps` steps.
    pub fn case(&mut self, h: u64, steps: usize) {
        self.state(h);
        self.transitions += steps as u64;
        self.validated += 1;
    }
    pub fn skip(&mut self) {
        self.skipped += 1;
    }
    fn merge(&mut self, o: Stats) {
        for s in o.states {
            self.state(s);
        }
        self.capped |= o.capped;
        self.transitions += o.transitions;
        self.validated += o.validated;
        self.skipped += o.skipped;
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
    }
}

/// A hash that is the same in every run.
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl Default for H {
    fn default() -> Self {
        H(0xcbf29ce484222325)
    }
}
impl std::hash::Hasher for H {
    fn finish(&self) -> u64 {
        let x = self.0;
        (x ^ (x >> 29)).wrapping_mul(0xbf58476d1ce4e5b9)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    let mut h = H::default();
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

const SLOT: usize = 4 << 20;
/// One case that keeps its thread computing for `HANG`, or without an answer for `STUCK`, hangs.
const HANG: Duration = Duration::from_secs(20);
const STUCK: Duration = Duration::from_secs(75);
const STACK: usize = 32 << 20;
const EXIT_HANG: i32 = 77;

pub fn threads() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(1, 8)
}

fn limit_memory(bytes: u64) {
    let l = libc::rlimit {
        rlim_cur: bytes,
        rlim_max: bytes,
    };
    let z = libc::rlimit {
        rlim_cur: 0,
        rlim_max: 0,
    };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

/// Judges one case, turning a panic of the code under test into a violation.
pub fn judge(check: Check, case: &str, st: &mut Stats) -> Result<Result<(), String>, String> {
    match imp::catch(|| check(case, st)) {
        Ok(r) => Ok(r),
        Err(Caught::Impl(m)) => Ok(Err(format!("panicked: {m}"))),
        Err(Caught::Harness(m)) => Err(format!("harness panic on {case:?}: {m}")),
    }
}

/// The clock of the processor time of the calling thread.
fn own_clock() -> i64 {
    let mut c: libc::clockid_t = 0;
    match unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) } {
        0 => c as i64,
        _ => i64::MIN,
    }
}

/// The processor time a thread has used; none when the thread is gone.
fn used(clock: i64) -> Option<Duration> {
    let mut t = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    match unsafe { libc::clock_gettime(clock as libc::clockid_t, &mut t) } {
        0 => Some(Duration::new(t.tv_sec as u64, t.tv_nsec as u32)),
        _ => None,
    }
}

struct Slots {
    base: *mut u8,
}
unsafe impl Sync for Slots {}
impl Slots {
    fn map(path: &Path, n: usize) -> Slots {
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .expect("slot file");
        f.set_len((n * SLOT) as u64).expect("slot file size");
        use std::os::fd::AsRawFd;
        let base = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n * SLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(base != libc::MAP_FAILED, "cannot map the slot file");
        Slots { base: base.cast() }
    }
    fn put(&self, i: usize, case: &str) {
        assert!(case.len() + 8 <= SLOT, "a case does not fit its slot");
        unsafe {
            let p = self.base.add(i * SLOT);
            p.cast::<u64>().write_volatile(case.len() as u64 + 1);
            std::ptr::copy_nonoverlapping(case.as_ptr(), p.add(8), case.len());
        }
    }
    fn busy(&self, i: usize) -> bool {
        unsafe { self.base.add(i * SLOT).cast::<u64>().read_volatile() != 0 }
    }
    fn clear(&self, i: usize) {
        unsafe { self.base.add(i * SLOT).cast::<u64>().write_volatile(0) }
    }
}

fn read_slots(path: &Path) -> Vec<String> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks(SLOT)
        .filter_map(|c| {
            let n = u64::from_le_bytes(c.get(..8)?.try_into().ok()?) as usize;
            if n == 0 {
                return None;
            }
            Some(String::from_utf8_lossy(c.get(8..8 + n - 1)?).into_owned())
        })
        .collect()
}

/// The exploring process. Leaves its findings in `dir/result.json`.
pub fn worker(prop: &Prop, thorough: bool, dir: &Path, seconds: u64) -> ! {
    limit_memory(20 << 30);
    imp::install_hook();
    let start = Instant::now();
    let n = threads();
    let slots = Slots::map(&dir.join("slots"), n);
    let spaces = (prop.spaces)(thorough);
    let tasks: Vec<(usize, usize)> = spaces
        .iter()
        .enumerate()
        .flat_map(|(i, s)| (0..s.tasks()).map(move |t| (i, t)))
        .collect();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let out_of_time = AtomicBool::new(false);
    let done: Vec<AtomicU64> = spaces.iter().map(|_| AtomicU64::new(0)).collect();
    let cases: Vec<AtomicU64> = spaces.iter().map(|_| AtomicU64::new(0)).collect();
    let seq: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let clocks: Vec<AtomicI64> = (0..n).map(|_| AtomicI64::new(i64::MIN)).collect();
    let bad: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let error: Mutex<Option<String>> = Mutex::new(None);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let samples: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let live = AtomicUsize::new(n);
    std::thread::scope(|sc| {
        for me in 0..n {
            let (slots, spaces, tasks, next, stop, out_of_time) =
                (&slots, &spaces, &tasks, &next, &stop, &out_of_time);
            let (done, cases, seq, bad, error, total, samples, live, clocks) = (
                &done, &cases, &seq, &bad, &error, &total, &samples, &live, &clocks,
            );
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    clocks[me].store(own_clock(), Relaxed);
                    let mut st = Stats::default();
                    loop {
                        let t = next.fetch_add(1, Relaxed);
                        if t >= tasks.len() || stop.load(Relaxed) {
                            break;
                        }
                        if start.elapsed().as_secs() >= seconds {
                            out_of_time.store(true, Relaxed);
                            stop.store(true, Relaxed);
                            break;
                        }
                        let (s, task) = tasks[t];
                        let mut n = 0u64;
                        let sample_at = if task % 7 == 0 {
                            1 + (task as u64 * 31) % 101
                        } else {
                            0
                        };
                        let whole = spaces[s].run(task, &mut |case| {
                            n += 1;
                            if n & 0xf == 0 && start.elapsed().as_secs() >= seconds {
                                out_of_time.store(true, Relaxed);
                                stop.store(true, Relaxed);
                            }
                            if stop.load(Relaxed) {
                                return false;
                            }
                            slots.put(me, case);
                            seq[me].fetch_add(1, Relaxed);
                            match judge(prop.check, case, &mut st) {
                                Ok(Ok(())) => {
                                    if n == sample_at && case.len() < 300 {
                                        samples.lock().unwrap().push((s, case.to_owned()));
                                    }
                                }
                                Ok(Err(why)) => {
                                    let mut b = bad.lock().unwrap();
                                    b.push((case.to_owned(), why));
                                    if b.len() >= 40 {
                                        stop.store(true, Relaxed);
                                    }
                                }
                                Err(m) => {
                                    error.lock().unwrap().get_or_insert(m);
                                    stop.store(true, Relaxed);
                                }
                            }
                            true
                        });
                        cases[s].fetch_add(n, Relaxed);
                        if whole {
                            done[s].fetch_add(1, Relaxed);
                        }
                        if !bad.lock().unwrap().is_empty() {
                            stop.store(true, Relaxed);
                        }
                    }
                    slots.clear(me);
                    total.lock().unwrap().merge(st);
                    live.fetch_sub(1, Relaxed);
                })
                .expect("a thread");
        }
        // watchdog
        let (seq, live, slots, clocks) = (&seq, &live, &slots, &clocks);
        sc.spawn(move || {
            let time = |i: usize| used(clocks[i].load(Relaxed)).unwrap_or_default();
            let mut last: Vec<(u64, Instant, Duration)> = (0..n)
                .map(|_| (0, Instant::now(), Duration::ZERO))
                .collect();
            while live.load(Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for i in 0..n {
                    let s = seq[i].load(Relaxed);
                    // threads without work have cleared their slots
                    if s != last[i].0 || !slots.busy(i) {
                        last[i] = (s, Instant::now(), time(i));
                        continue;
                    }
                    let wall = last[i].1.elapsed();
                    if wall > STUCK || wall > HANG && time(i).saturating_sub(last[i].2) > HANG {
                        std::process::exit(EXIT_HANG);
                    }
                }
            }
        });
    });
    let st = total.into_inner().unwrap();
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|(c, _)| (c.len(), c.clone()));
    let mut samples = samples.into_inner().unwrap();
    samples.sort();
    let mut per_space: BTreeMap<usize, usize> = BTreeMap::new();
    samples.retain(|(s, _)| {
        let n = per_space.entry(*s).or_insert(0);
        *n += 1;
        *n <= 2
    });
    let r = json!({
        "states": st.states.len(),
        "states_capped": st.capped,
        "transitions": st.transitions,
        "validated": st.validated,
        "skipped": st.skipped,
        "outcomes": st.outcomes,
        "spaces": spaces.iter().enumerate().map(|(i, s)| json!({
            "space": s.name(),
            "cases": cases[i].load(Relaxed),
            "complete": done[i].load(Relaxed) as usize == s.tasks(),
        })).collect::<Vec<_>>(),
        "samples": samples.into_iter().map(|(_, c)| c).take(24).collect::<Vec<_>>(),
        "out_of_time": out_of_time.load(Relaxed),
        "violations": bad,
        "error": error.into_inner().unwrap(),
    });
    std::fs::write(dir.join("result.json"), r.to_string()).expect("result file");
    std::process::exit(0)
}

/// Judges the single case in `file` (`{"kind": "case"|"named", "case": ...}`): exit 0, or 1 and the reason.
pub fn one(prop: &Prop, file: &Path) -> ! {
    limit_memory(4 << 30);
    imp::install_hook();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("case file"))
        .expect("case file JSON");
    let case = v["case"].as_str().expect("a case").to_owned();
    let check = if v["kind"] == "named" {
        prop.named_check
    } else {
        prop.check
    };
    let mut st = Stats::default();
    // the usual size of a main thread's stack, whatever this sandbox sets
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || judge(check, &case, &mut st))
            .expect("a thread")
            .join()
            .expect("a judged case")
    });
    match r {
        Ok(Ok(())) => {
            println!(
                "{}",
                json!({"states": st.states.len(), "transitions": st.transitions, "validated": st.validated})
            );
            std::process::exit(0)
        }
        Ok(Err(why)) => {
            println!("{why}");
            std::process::exit(1)
        }
        Err(m) => {
            eprintln!("{m}");
            std::process::exit(2)
        }
    }
}

fn wait(mut c: Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let start = Instant::now();
    let mut nap = 1;
    loop {
        if let Some(s) = c.try_wait().expect("wait") {
            return Some(s);
        }
        if start.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
    }
}

pub enum Single {
    Held(Value),
    Violated(String),
    Error(String),
}

/// Judges one case in a fresh process.
pub fn single(id: &str, kind: &str, case: &str, dir: &Path, limit: Duration) -> Single {
    static N: AtomicUsize = AtomicUsize::new(0);
    let n = N.fetch_add(1, Relaxed);
    let file = dir.join(format!("one{n}.json"));
    let out = dir.join(format!("one{n}.out"));
    std::fs::write(&file, json!({"kind": kind, "case": case}).to_string()).expect("case file");
    let c = Command::new(std::env::current_exe().expect("own path"))
        .args(["one", id])
        .arg(&file)
        .stdout(std::fs::File::create(&out).expect("output file"))
        .stderr(Stdio::inherit())
        .spawn()
        .expect("a child process");
    let status = wait(c, limit);
    let mut text = String::new();
    let _ = std::fs::File::open(&out).and_then(|mut f| f.read_to_string(&mut text));
    match status {
        None => Single::Violated(format!("no answer within {} s", limit.as_secs())),
        Some(s) => match s.code() {
            Some(0) => Single::Held(serde_json::from_str(&text).unwrap_or(Value::Null)),
            Some(1) => Single::Violated(text.trim().to_owned()),
            Some(c) => Single::Error(format!("case process exited with {c}: {case:.200?}")),
            None => {
                use std::os::unix::process::ExitStatusExt;
                Single::Violated(format!(
                    "the process was ended by signal {} (stack overflow, abort or memory limit)",
                    s.signal().unwrap_or(0)
                ))
            }
        },
    }
}

struct TempDir(PathBuf);
impl TempDir {
    fn new(id: &str) -> TempDir {
        let d = std::env::temp_dir().join(format!("yamd-mc-{id}-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("a temporary directory");
        TempDir(d)
    }
}
impl Drop for TempDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Named cases listed as known findings of a property, from the committed file.
fn known(root: &Path, id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("known: property={id} case="))?;
            let (case, what) = l.split_once(' ')?;
            Some((case.to_owned(), what.to_owned()))
        })
        .collect()
}

/// Runs the exploring process once; its result, null when it left none.
fn explore(
    prop: &Prop,
    tier: &str,
    dir: &Path,
    seconds: u64,
) -> (Option<std::process::ExitStatus>, String, Value) {
    let file = dir.join("result.json");
    let _ = std::fs::remove_file(&file);
    let mut c = Command::new(std::env::current_exe().expect("own path"))
        .args(["worker", prop.id, tier])
        .arg(dir)
        .arg(seconds.to_string())
        .stderr(Stdio::piped())
        .spawn()
        .expect("a worker process");
    let mut err_pipe = c.stderr.take().expect("worker stderr");
    let err_text = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = err_pipe.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let status = wait(c, Duration::from_secs(seconds + 90));
    let err_text = err_text.join().unwrap_or_default();
    let result = match status {
        Some(s) if s.success() => std::fs::read_to_string(&file)
            .ok()
            .and_then(|t| serde_json::from_str(&t).ok())
            .unwrap_or(Value::Null),
        _ => Value::Null,
    };
    (status, err_text, result)
}

/// Runs a property; the exit code of the check.
pub fn check(prop: &Prop, thorough: bool, root: &Path) -> i32 {
    let start = Instant::now();
    let tmp = TempDir::new(prop.id);
    let dir = &tmp.0;
    let seconds: u64 = if thorough { 780 } else { 240 };
    let tier = if thorough { "thorough" } else { "quick" };
    let mut found: Vec<(&str, String, String)> = vec![];
    let mut errors: Vec<String> = vec![];

    // cases with a process of their own
    let list = (prop.named)(thorough);
    let next = AtomicUsize::new(0);
    let named: Mutex<Vec<(String, Single)>> = Mutex::new(vec![]);
    let known = known(root, prop.id);
    std::thread::scope(|sc| {
        for _ in 0..threads().min(list.len()) {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                let Some(c) = list.get(i) else { break };
                let r = single(prop.id, "named", c, dir, Duration::from_secs(100));
                if matches!(r, Single::Violated(_)) && !known.iter().any(|k| k.0 == *c) {
                    // one is enough
                    next.store(list.len(), Relaxed);
                }
                named.lock().unwrap().push((c.clone(), r));
            });
        }
    });
    let mut named_held = 0u64;
    let (mut extra_steps, mut extra_valid) = (0, 0);
    let mut named = named.into_inner().unwrap();
    named.sort_by(|a, b| a.0.cmp(&b.0));
    for (case, r) in named {
        match r {
            Single::Held(v) => {
                named_held += 1;
                extra_steps += v["transitions"].as_u64().unwrap_or(0);
                extra_valid += v["validated"].as_u64().unwrap_or(0);
            }
            Single::Violated(why) => match known.iter().find(|k| k.0 == case) {
                Some(k) => println!("KNOWN-FINDING: property={} {} [{why}]", prop.id, k.1),
                None => found.push(("named", case, why)),
            },
            Single::Error(e) => errors.push(e),
        }
    }

    // A process that ends early, though no case under way ends another one, was ended from outside: once more.
    let mut result = Value::Null;
    for last in [false, true] {
        if !found.is_empty() {
            break;
        }
        let (status, err_text);
        let left = seconds.saturating_sub(start.elapsed().as_secs()).max(60);
        (status, err_text, result) = explore(prop, tier, dir, left);
        if !result.is_null() {
            if let Some(e) = result["error"].as_str() {
                errors.push(e.to_owned());
            }
            for v in result["violations"].as_array().into_iter().flatten() {
                found.push((
                    "case",
                    v[0].as_str().unwrap_or_default().to_owned(),
                    v[1].as_str().unwrap_or_default().to_owned(),
                ));
            }
            break;
        }
        // the worker died or hung: one of the cases under way did it
        let mut cases = read_slots(&dir.join("slots"));
        cases.sort_by_key(|c| c.len());
        for case in cases {
            match single(prop.id, "case", &case, dir, Duration::from_secs(30)) {
                Single::Violated(why) => found.push(("case", case, why)),
                Single::Held(_) => {}
                Single::Error(e) => errors.push(e),
            }
        }
        if !found.is_empty() || !errors.is_empty() {
            break;
        }
        if last {
            errors.push(format!(
                "the exploring process ended with {status:?} and no case under way reproduces it: {err_text:.400}"
            ));
        }
    }

    let exhaustive = result["spaces"]
        .as_array()
        .is_some_and(|s| s.iter().all(|s| s["complete"] == true));
    let u = |k: &str| result[k].as_u64().unwrap_or(0);
    let mut samples = result["samples"].clone();
    if !samples.as_array().is_some_and(|s| !s.is_empty()) {
        samples = json!(list.iter().take(5).collect::<Vec<_>>());
    }
    let evidence = json!({
        "property": prop.id,
        "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": u("states"),
            "states_note": "distinct abstract outcomes reached (shape of the token sequence, event stream or document, without its text)",
            "states_capped": result["states_capped"],
            "transitions": u("transitions") + extra_steps,
            "transitions_note": "tokens, events, nodes or operations stepped through",
            "traces_validated_against_impl": u("validated") + extra_valid,
            "traces_note": "enumerated cases run on the real code and compared with the specification",
            "outside_domain": u("skipped"),
            "outcomes": result["outcomes"],
            "spaces": result["spaces"],
            "single_process_cases": named_held,
            "rule": prop.rule,
            "samples": samples,
            "exhaustive": exhaustive,
            "out_of_time": result["out_of_time"],
        },
        "assumptions": prop.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": found.len(),
    });
    let ev = root.join("evidence");
    std::fs::create_dir_all(&ev).expect("evidence directory");
    std::fs::write(
        ev.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("evidence file");

    // a violation is reported when a fresh process sees it too
    found.sort_by_key(|f| f.1.len());
    let mut unstable: Vec<(&str, &String, &String)> = vec![];
    let report = |kind: &str, case: &str, why: &str| {
        let replays = ev.join("replays");
        std::fs::create_dir_all(&replays).expect("replay directory");
        let path = replays.join(format!("{}.json", prop.id));
        std::fs::write(
            &path,
            serde_json::to_string_pretty(&json!({
                "property": prop.id, "kind": kind, "case": case, "reason": why,
            }))
            .unwrap()
                + "\n",
        )
        .expect("replay file");
        println!("case: {case:.2000?}");
        println!("why: {why:.4000}");
        println!("VIOLATION property={} replay={}", prop.id, path.display());
    };
    for (kind, case, why) in &found {
        let again = match single(prop.id, kind, case, dir, Duration::from_secs(60)) {
            Single::Violated(w) => w,
            Single::Held(_) => {
                unstable.push((kind, case, why));
                continue;
            }
            Single::Error(e) => {
                errors.push(e);
                continue;
            }
        };
        report(kind, case, &again);
        return 1;
    }
    // The harness judges a case from the case alone, so an outcome that depends on what the process did before is
    // the code's: the property failed, after some history.
    if let Some((kind, case, why)) = unstable.first() {
        report(
            kind,
            case,
            &format!("in a process that had handled other inputs before, though not in a fresh one: {why}"),
        );
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("error: {e}");
        }
        return 2;
    }
    println!(
        "ok property={} tier={tier} states={} transitions={} validated={} exhaustive={exhaustive} wall={:.1}s",
        prop.id,
        u("states"),
        u("transitions") + extra_steps,
        u("validated") + extra_valid,
        start.elapsed().as_secs_f64()
    );
    0
}
