//! The exploration engine shared by every check.
//!
//! A check is an *enumerator* of cases plus an *oracle* on one case.  A case is
//! a byte string that determines one execution completely (an input, a token
//! sequence, an operation history), so every violation is a replayable file.
//!
//! The engine runs the enumeration in a child process, with a memory limit,
//! over 8 threads.  Each thread publishes the case it is executing in a shared
//! mapping; when the child dies (stack overflow, abort, out of memory) or a case
//! makes no progress, the parent replays the published cases one by one, each
//! in a process of its own, and reports those that really fail.  A crash that
//! no published case reproduces is an error of the check (exit 2), never a
//! verdict.

use std::cell::Cell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- properties

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Prop {
    pub id: &'static str,
    /// What was enumerated, for the evidence file.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// The exploration.
    pub run: fn(&Run),
    /// The oracle on one case (the replay entry point).
    pub check: fn(&[u8], &mut Acc) -> Result<(), Fail>,
}

/// A failed case: `key` identifies the defect (for the known-findings file).
#[derive(Clone, Debug)]
pub struct Fail { pub key: String, pub msg: String }

impl Fail {
    pub fn new<M: Into<String>>(key: &str, msg: M) -> Fail { Fail { key: key.to_string(), msg: msg.into() } }
}

// ---------------------------------------------------------------- accumulators

pub struct Acc {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    slot: usize,
    seq: u64,
}

pub const OUTCOME_CAP: usize = 2_000_000;

impl Acc {
    pub fn new(slot: usize) -> Acc {
        Acc { states: 0, transitions: 0, traces: 0, outcomes: HashSet::new(), samples: vec![], slot, seq: 0 }
    }
    /// Records one observed outcome (behaviour class) of the implementation.
    pub fn outcome<H: Hash>(&mut self, h: H) {
        if self.outcomes.len() < OUTCOME_CAP {
            let mut s = std::collections::hash_map::DefaultHasher::new();
            h.hash(&mut s);
            self.outcomes.insert(s.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // The 1st, 2nd, 4th, 8th ... case this thread meets.
        if self.traces.is_power_of_two() && self.samples.len() < 24 { self.samples.push(f()); }
    }
}

thread_local!(static IN_CASE: Cell<bool> = Cell::new(false));
static PANIC_MSG: Mutex<String> = Mutex::new(String::new());
thread_local!(static MY_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_CASE.with(|c| c.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            MY_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        } else {
            *PANIC_MSG.lock().unwrap() = info.to_string();
            default(info);
        }
    }));
}

/// Runs implementation code; a panic becomes `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(outer));
    r.map_err(|_| MY_PANIC.with(|p| p.borrow().clone()))
}

// ---------------------------------------------------------------- shared slots

pub const SLOTS: usize = 8;
const SLOT_SIZE: usize = 1 << 16;

struct Shared { base: *mut u8 }
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

impl Shared {
    fn open(path: &Path, create: bool) -> Shared {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).expect("slot file");
        if create { f.set_len((SLOTS * SLOT_SIZE) as u64).unwrap(); }
        let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * SLOT_SIZE, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Shared { base: p }
    }
    /// word 0: sequence number of the running case (0 = idle); word 1: length.
    unsafe fn words(&self, slot: usize) -> *mut u64 { self.base.add(slot * SLOT_SIZE) as *mut u64 }
    fn publish(&self, slot: usize, seq: u64, case: &[u8]) {
        unsafe {
            let w = self.words(slot);
            let n = case.len().min(SLOT_SIZE - 16);
            std::ptr::write_volatile(w, 0);
            std::ptr::copy_nonoverlapping(case.as_ptr(), (w as *mut u8).add(16), n);
            std::ptr::write_volatile(w.add(1), n as u64);
            std::ptr::write_volatile(w, seq);
        }
    }
    fn clear(&self, slot: usize) { unsafe { std::ptr::write_volatile(self.words(slot), 0) } }
    fn read(&self, slot: usize) -> Option<(u64, Vec<u8>)> {
        unsafe {
            let w = self.words(slot);
            let seq = std::ptr::read_volatile(w);
            if seq == 0 { return None; }
            let n = (std::ptr::read_volatile(w.add(1)) as usize).min(SLOT_SIZE - 16);
            let mut v = vec![0u8; n];
            std::ptr::copy_nonoverlapping((w as *mut u8).add(16), v.as_mut_ptr(), n);
            Some((seq, v))
        }
    }
}

// ---------------------------------------------------------------- the run

pub struct Run {
    pub tier: Tier,
    pub prop: &'static Prop,
    shared: Option<Shared>,
    total: Mutex<Acc>,
    fails: Mutex<Vec<(Vec<u8>, Fail)>>,
    nfails: AtomicUsize,
    stop: AtomicBool,
    pub notes: Mutex<Vec<(String, u64)>>,
    pub exhaustive: AtomicBool,
    next_slot: AtomicUsize,
    pub seq: AtomicU64,
}

const MAX_FAILS: usize = 400;
/// With MC_STOP set, the first failure ends the run with this code (used to run many changed trees).
const STOPPED: i32 = 77;
fn stop_at_first() -> bool { std::env::var_os("MC_STOP").is_some() }

impl Run {
    fn new(prop: &'static Prop, tier: Tier, shared: Option<Shared>) -> Run {
        Run {
            tier, prop, shared,
            total: Mutex::new(Acc::new(0)),
            fails: Mutex::new(vec![]),
            nfails: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            notes: Mutex::new(vec![]),
            exhaustive: AtomicBool::new(true),
            next_slot: AtomicUsize::new(0),
            seq: AtomicU64::new(1),
        }
    }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    /// Picks a bound by tier.
    pub fn bound(&self, quick: usize, thorough: usize) -> usize { if self.small() { quick - (quick > 1) as usize } else if self.quick() { quick } else { thorough } }
    /// MC_STOP=small: smaller bounds, to find most failures of a changed tree soon.
    pub fn small(&self) -> bool { std::env::var_os("MC_STOP").map_or(false, |v| v == "small") || std::env::var_os("MC_PLAIN").map_or(false, |v| v == "small") }
    pub fn note(&self, k: &str, v: u64) { self.notes.lock().unwrap().push((k.to_string(), v)); }

    /// Checks one case: publishes it, runs the oracle, records a failure.
    pub fn case(&self, case: &[u8], acc: &mut Acc) {
        if self.stop.load(Relaxed) { return; }
        acc.seq += 1;
        if let Some(ref s) = self.shared { s.publish(acc.slot, acc.seq, case); }
        acc.traces += 1;
        let r = (self.prop.check)(case, acc);
        if let Some(ref s) = self.shared { s.clear(acc.slot); }
        if let Err(f) = r {
            if stop_at_first() { std::process::exit(STOPPED); }
            let n = self.nfails.fetch_add(1, Relaxed);
            let mut v = self.fails.lock().unwrap();
            // Keep the shortest case of each defect key.
            match v.iter_mut().find(|(_, g)| g.key == f.key) {
                Some(e) => if (case.len(), case) < (e.0.len(), &e.0[..]) { *e = (case.to_vec(), f); },
                None => v.push((case.to_vec(), f)),
            }
            if n > MAX_FAILS * 50 || v.len() > MAX_FAILS { self.stop.store(true, Relaxed); }
        }
    }

    /// Runs `f(i)` for every i in 0..n over all threads.
    pub fn par(&self, n: usize, f: impl Fn(usize, &mut Acc) + Sync) {
        let next = AtomicUsize::new(0);
        self.next_slot.store(0, Relaxed);
        let crashed = AtomicBool::new(false);
        std::thread::scope(|s| {
            for _ in 0..SLOTS {
                std::thread::Builder::new().stack_size(STACK.load(Relaxed)).spawn_scoped(s, || {
                    let mut acc = Acc::new(self.next_slot.fetch_add(1, Relaxed));
                    acc.seq = self.seq.fetch_add(1 << 32, Relaxed);
                    let r = catch_unwind(AssertUnwindSafe(|| loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n || self.stop.load(Relaxed) || crashed.load(Relaxed) { break; }
                        f(i, &mut acc);
                    }));
                    if r.is_err() { crashed.store(true, Relaxed); }
                    self.merge(acc);
                }).unwrap();
            }
        });
        if crashed.load(Relaxed) {
            eprintln!("mc: the harness itself panicked: {}", PANIC_MSG.lock().unwrap());
            std::process::exit(2);
        }
    }

    fn merge(&self, acc: Acc) {
        let mut t = self.total.lock().unwrap();
        t.states += acc.states;
        t.transitions += acc.transitions;
        t.traces += acc.traces;
        t.outcomes.extend(acc.outcomes);
        t.samples.extend(acc.samples);
    }

    /// Every string over `alphabet` of length `min..=max`, each passed through `emit`.
    pub fn strings(&self, alphabet: &[&str], min: usize, max: usize, emit: impl Fn(&[usize], &mut Acc) + Sync) {
        let k = alphabet.len();
        for len in min..=max {
            // Split on the first (up to) two letters.
            let split = len.min(2);
            let jobs = k.pow(split as u32);
            self.par(jobs, |job, acc| {
                let mut idx = vec![0usize; len];
                let mut j = job;
                for d in (0..split).rev() { idx[d] = j % k; j /= k; }
                loop {
                    emit(&idx, acc);
                    let mut p = len;
                    loop {
                        if p == split { return; }
                        p -= 1;
                        idx[p] += 1;
                        if idx[p] < k { break; }
                        idx[p] = 0;
                    }
                    if self.stop.load(Relaxed) { return; }
                }
            });
        }
    }
}

// ---------------------------------------------------------------- known findings

/// /verif/known_findings.txt: lines `known: property=<id> key=<key> :: <text>`
/// (an open finding) or `fixed: property=<id> <commit> <text>` (suppresses nothing).
fn known_findings(root: &Path) -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    text.lines().filter_map(|l| {
        let l = l.trim().strip_prefix("known: property=")?;
        let (head, what) = l.split_once(" :: ")?;
        let (prop, key) = head.split_once(" key=")?;
        Some((prop.to_string(), key.to_string(), what.to_string()))
    }).collect()
}

// ---------------------------------------------------------------- main

fn root() -> PathBuf { PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())) }

fn find(props: &'static [Prop], id: &str) -> &'static Prop {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("mc: no such property: {}", id); std::process::exit(2) })
}

pub fn escape(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || c == '\u{2028}' || c == '\u{2029}' || c == '\u{feff}' =>
                o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

const CASE_TIMEOUT: Duration = Duration::from_secs(20);

/// The stack of the threads that run the code, in bytes.
pub static STACK: AtomicUsize = AtomicUsize::new(64 << 20);

pub fn main(props: &'static [Prop]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| &s[..]) {
        Some("run") => parent(find(props, &args[2]), if args.get(3).map(|s| &s[..]) == Some("thorough") { Tier::Thorough } else { Tier::Quick }),
        Some("child") => child(find(props, &args[2]), if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick }, Path::new(&args[4])),
        Some("replay") => replay_cmd(props, Path::new(&args[2])),
        Some("list") => { for p in props { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: run <id> [quick|thorough] | replay <file> | list"); 2 }
    };
    std::process::exit(code)
}

fn read_replay(path: &Path) -> (String, Vec<u8>) {
    let data = std::fs::read(path).unwrap_or_else(|e| { eprintln!("mc: {}: {}", path.display(), e); std::process::exit(2) });
    let nl = data.iter().position(|&b| b == b'\n').unwrap_or(data.len());
    (String::from_utf8_lossy(&data[..nl]).into_owned(), data[(nl + 1).min(data.len())..].to_vec())
}

/// `replay <file>`: runs the oracle on one recorded case. Exit 0 holds, 1 fails.
fn replay_cmd(props: &'static [Prop], path: &Path) -> i32 {
    install_panic_hook();
    let (id, case) = read_replay(path);
    let prop = find(props, id.split(' ').next().unwrap());
    let r = std::thread::Builder::new().stack_size(STACK.load(Relaxed)).spawn(move || {
        let mut acc = Acc::new(0);
        (prop.check)(&case, &mut acc)
    }).unwrap().join();
    match r {
        Ok(Ok(())) => { println!("holds: {}", path.display()); 0 }
        Ok(Err(f)) => { println!("FAILS [{}] {}", f.key, f.msg); 1 }
        Err(_) => 2,
    }
}

fn limit_memory() { unsafe { setrlimit(9 /* RLIMIT_AS */, &[16 << 30, 16 << 30]); } }

fn child(prop: &'static Prop, tier: Tier, dir: &Path) -> i32 {
    limit_memory();
    install_panic_hook();
    let run = Run::new(prop, tier, Some(Shared::open(&dir.join("slots"), false)));
    (prop.run)(&run);
    let t = run.total.lock().unwrap();
    let mut o = String::new();
    o += &format!("states {}\ntransitions {}\ntraces {}\noutcomes {}\n", t.states, t.transitions, t.traces, t.outcomes.len());
    o += &format!("exhaustive {}\n", run.exhaustive.load(Relaxed) && !run.stop.load(Relaxed));
    for (k, v) in run.notes.lock().unwrap().iter() { o += &format!("note {} {}\n", v, k); }
    // A spread of samples: longest-running threads first is arbitrary; take evenly.
    let step = (t.samples.len() / 12).max(1);
    for s in t.samples.iter().step_by(step).take(14) { o += &format!("sample {}\n", escape(s.as_bytes())); }
    let mut fails = run.fails.lock().unwrap();
    fails.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
    o += &format!("nfails {}\n", run.nfails.load(Relaxed));
    for (i, (case, f)) in fails.iter().enumerate() {
        std::fs::write(dir.join(format!("fail{}", i)), case).unwrap();
        o += &format!("fail {} {}\t{}\n", i, f.key.replace(['\n', '\t'], " "), escape(f.msg.as_bytes()));
    }
    std::fs::write(dir.join("result"), o).unwrap();
    0
}

struct Tmp(PathBuf);
impl Drop for Tmp { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn spawn_self(args: &[&str]) -> Child {
    Command::new(std::env::current_exe().unwrap()).args(args).stdout(Stdio::inherit()).spawn().expect("spawn")
}

/// A replay file: the property (and the build, if it is the plain one), the case.
fn recorded(prop: &Prop, case: &[u8]) -> Vec<u8> {
    let mut data = prop.id.as_bytes().to_vec();
    if plain() { data.extend_from_slice(b" plain"); }
    data.push(b'\n');
    data.extend_from_slice(case);
    data
}

/// Replays one case in a process of its own; Some(reason) if it fails there.
fn confirm(prop: &Prop, case: &[u8], dir: &Path) -> Option<String> {
    let f = dir.join("confirm");
    std::fs::write(&f, recorded(prop, case)).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&f)
        .stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            use std::os::unix::process::ExitStatusExt;
            return match (st.code(), st.signal()) {
                (Some(0), _) => None,
                (Some(1), _) => Some("the case fails".into()),
                (Some(c), _) => Some(format!("the process exits with {}", c)),
                (None, sig) => Some(format!("the process dies from signal {:?}", sig)),
            };
        }
        if t.elapsed() > CASE_TIMEOUT {
            let _ = c.kill();
            let _ = c.wait();
            return Some("the case does not terminate".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// This is the build without debug assertions and overflow checks.
fn plain() -> bool { std::env::var_os("MC_PLAIN").is_some() }

fn parent(prop: &'static Prop, tier: Tier) -> i32 {
    let start = Instant::now();
    let root = root();
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let dir = Tmp(root.join("target").join(format!("run-{}-{}", prop.id, std::process::id())));
    std::fs::create_dir_all(&dir.0).unwrap();
    let shared = Shared::open(&dir.0.join("slots"), true);
    let mut c = spawn_self(&["child", prop.id, tier_s, dir.0.to_str().unwrap()]);

    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); SLOTS];
    let mut hung = false;
    let status = loop {
        if let Some(st) = c.try_wait().unwrap() { break st; }
        std::thread::sleep(Duration::from_millis(if start.elapsed().as_secs() < 5 { 5 } else { 50 }));
        for s in 0..SLOTS {
            let seq = shared.read(s).map(|(q, _)| q).unwrap_or(0);
            if seq == 0 || seq != last[s].0 { last[s] = (seq, Instant::now()); }
            else if last[s].1.elapsed() > CASE_TIMEOUT { hung = true; }
        }
        if hung { let _ = c.kill(); break c.wait().unwrap(); }
    };

    if stop_at_first() && status.code() == Some(STOPPED) { return 1; }
    let mut fails: Vec<(Vec<u8>, Fail)> = vec![];
    let mut res = String::new();
    if status.success() {
        res = std::fs::read_to_string(dir.0.join("result")).unwrap_or_default();
        for l in res.lines() {
            if let Some(r) = l.strip_prefix("fail ") {
                let (i, r) = r.split_once(' ').unwrap();
                let (key, msg) = r.split_once('\t').unwrap();
                fails.push((std::fs::read(dir.0.join(format!("fail{}", i))).unwrap(), Fail::new(key, msg)));
            }
        }
    } else {
        // The exploration did not finish: look for the culprit among the published cases.
        for s in 0..SLOTS {
            if let Some((_, case)) = shared.read(s) {
                if let Some(why) = confirm(prop, &case, &dir.0) {
                    let key = if why.contains("terminate") { "hang" } else { "crash" };
                    fails.push((case, Fail::new(key, why)));
                }
            }
        }
        if fails.is_empty() {
            eprintln!("mc: exploration of {} ended abnormally ({:?}) and no running case reproduces it", prop.id, status);
            return 2;
        }
        fails.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
    }

    // Findings.
    let known = known_findings(&root);
    let mut violations = 0;
    let mut printed_known = HashSet::new();
    let rdir = root.join("replays");
    let name = format!("{}{}", prop.id, if plain() { "p" } else { "" });
    let stale = std::fs::read_dir(&rdir).into_iter().flatten().flatten();
    for e in stale {
        if e.file_name().to_string_lossy().starts_with(&format!("{}-", name)) { let _ = std::fs::remove_file(e.path()); }
    }
    for (case, f) in &fails {
        if let Some((_, key, what)) = known.iter().find(|(p, k, _)| p == prop.id && *k == f.key) {
            if printed_known.insert(key.clone()) && !plain() { println!("KNOWN-FINDING: property={} {}", prop.id, what); }
            continue;
        }
        violations += 1;
        if violations <= 10 {
            let _ = std::fs::create_dir_all(&rdir);
            let path = rdir.join(format!("{}-{}.case", name, violations));
            std::fs::write(&path, recorded(prop, case)).unwrap();
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            println!("  case: \"{}\"", escape(case));
            println!("  [{}] {}", f.key, f.msg);
        }
    }
    if violations > 10 { println!("  ... and {} more distinct failures", violations - 10); }

    // Evidence.
    let get = |k: &str| -> u64 {
        res.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' '))).and_then(|v| v.parse().ok()).unwrap_or(0)
    };
    let exhaustive = res.lines().any(|l| l == "exhaustive true");
    let samples: Vec<String> = res.lines().filter_map(|l| l.strip_prefix("sample ")).map(|s| format!("\"{}\"", s.replace('\\', "\\").to_string())).collect();
    let mut notes: Vec<String> = res.lines().filter_map(|l| l.strip_prefix("note ")).filter_map(|l| l.split_once(' '))
        .map(|(v, k)| format!("\"{}\": {}", escape(k.as_bytes()), v)).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let wall = start.elapsed().as_secs_f64();
    // The run of the plain build leaves its figures for the evidence of the main one.
    let side = root.join("target").join(format!("plain-{}.res", prop.id));
    if plain() {
        let _ = std::fs::write(&side, format!("states {}\ntransitions {}\ntraces {}\nviolations {}\n", get("states"), get("transitions"), get("traces"), violations));
        println!("{} without debug assertions, lower bounds: states={} traces={} violations={} in {:.1}s", prop.id, get("states"), get("traces"), violations, wall);
        return if violations > 0 { 1 } else { 0 };
    }
    if std::env::var_os("MC_WITH_PLAIN").is_some() {
        for l in std::fs::read_to_string(&side).unwrap_or_default().lines() {
            if let Some((k, v)) = l.split_once(' ') { notes.push(format!("\"again without debug assertions, at lower bounds: {}\": {}", k, v)); }
        }
    }
    let ev = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n  \"rule\": \"{}\",\n  \"bounds\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        prop.id, tier_s, seed, get("states"), get("transitions"), get("traces"), get("outcomes"), exhaustive,
        escape(prop.rule.as_bytes()), notes.join(", "), samples.join(", "),
        prop.assumptions.iter().map(|a| format!("\"{}\"", escape(a.as_bytes()))).collect::<Vec<_>>().join(", "),
        wall, violations);
    let edir = root.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    let mut f = std::fs::File::create(edir.join(format!("{}.json", prop.id))).expect("evidence file");
    f.write_all(ev.as_bytes()).unwrap();
    println!("{} {}: states={} transitions={} traces={} distinct_outcomes={} exhaustive={} known={} violations={} in {:.1}s",
        prop.id, tier_s, get("states"), get("transitions"), get("traces"), get("outcomes"), exhaustive, printed_known.len(), violations, wall);
    if violations > 0 { 1 } else { 0 }
}
