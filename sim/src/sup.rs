//! Supervision: running simulations in processes of their own, surviving their
//! crashes and hangs, minimising and replaying violations, and reporting.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

use crate::props;
use crate::world::{self, Res, Viol};

pub const EXIT_VIOLATION: i32 = 1;
pub const EXIT_ERROR: i32 = 2;

extern "C" {
    fn fork() -> i32;
    fn dup2(old: i32, new: i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}

// ------------------------------------------------------------- shared memory

const MAX_CHOICES: usize = 1 << 22;

/// What a process tells its supervisor, even when it dies
#[repr(C)]
pub struct Shm {
    /// Number of the run in progress
    current: AtomicU64,
    /// Only runs below this one are of interest
    limit: AtomicU64,
    /// 0: still running, 1: held, 2: violation, 3: error of the machinery
    status: AtomicU64,
    done: AtomicU64,
    log_hash: AtomicU64,
    nchoices: AtomicU64,
    class: [u8; 256],
    detail: [u8; 8192],
    choices: [u64; MAX_CHOICES],
}

static SHM: AtomicUsize = AtomicUsize::new(0);
static REC: AtomicUsize = AtomicUsize::new(0);

fn map_shared(file: Option<&fs::File>) -> *mut Shm {
    use std::os::fd::AsRawFd;
    let len = std::mem::size_of::<Shm>();
    let (flags, fd) = match file {
        Some(f) => {
            f.set_len(len as u64).expect("could not create a shared file");
            (1, f.as_raw_fd())
        }
        None => (1 | 0x20 | 0x4000, -1),
    };
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, flags, fd, 0) };
    assert!(p as isize != -1, "could not map shared memory");
    p as *mut Shm
}

fn put_text(to: &mut [u8], s: &str) {
    let mut n = s.len().min(to.len() - 1);
    while !s.is_char_boundary(n) { n -= 1 }
    to[..n].copy_from_slice(&s.as_bytes()[..n]);
    to[n] = 0;
}

fn get_text(from: &[u8]) -> String {
    let n = from.iter().position(|b| *b == 0).unwrap_or(0);
    String::from_utf8_lossy(&from[..n]).into_owned()
}

/// Record a choice where the supervisor sees it
#[inline]
pub fn record(v: u64) {
    let p = REC.load(std::sync::atomic::Ordering::Relaxed) as *mut Shm;
    if !p.is_null() {
        unsafe {
            let n = (*p).nchoices.load(SeqCst) as usize;
            if n < MAX_CHOICES {
                (*p).choices[n] = v;
                (*p).nchoices.store(n as u64 + 1, SeqCst);
            }
        }
    }
}

fn tell(status: u64, class: &str, detail: &str) {
    let p = SHM.load(SeqCst) as *mut Shm;
    if !p.is_null() {
        unsafe {
            put_text(&mut (*p).class, class);
            put_text(&mut (*p).detail, detail);
            (*p).status.store(status, SeqCst);
        }
    } else {
        eprintln!("{class}: {detail}");
    }
}

/// End this process because of a violation which cannot be recovered from
pub fn fatal(class: &str, detail: &str) -> ! {
    tell(2, class, detail);
    unsafe { _exit(EXIT_VIOLATION) }
}

/// End this process because of a defect of the machinery
pub fn broken(detail: &str) -> ! {
    tell(3, "machinery", detail);
    eprintln!("fsim: {detail}");
    unsafe { _exit(EXIT_ERROR) }
}

// -------------------------------------------------------------- single runs

struct PanicNote {
    lib: bool,
    at: String,
    message: String,
}

static PANIC: std::sync::Mutex<Option<PanicNote>> = std::sync::Mutex::new(None);

/// Last path components of a source location, without the checkout's position
fn place(l: &std::panic::Location) -> String {
    let f = l.file();
    let f = f.rsplit_once("/src/").map(|(_, f)| f).unwrap_or(f);
    format!("{}:{}", f, l.line())
}

pub fn hook() {
    std::panic::set_hook(Box::new(|info| {
        // The harness' own files have relative paths, the library's absolute ones
        let own = info.location().is_some_and(|l| l.file().starts_with("src/"));
        let lib = world::in_lib() && !own;
        world::callback(|| {
            let message = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".to_string());
            let at = info.location().map(place).unwrap_or_default();
            if !lib && !world::in_task() {
                eprintln!("fsim: panic at {at}: {message}");
            }
            *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(PanicNote { lib, at, message });
        })
    }));
}

/// Tell the violation a panic caught amounts to
pub fn panic_violation() -> Viol {
    match PANIC.lock().unwrap_or_else(|e| e.into_inner()).take() {
        Some(n) if n.lib => Viol {
            class: format!("panic at {}", n.at),
            detail: format!("the library panicked: {}", n.message),
        },
        Some(n) => broken(&format!("the harness panicked at {}: {}", n.at, n.message)),
        None => broken("a panic of unknown origin"),
    }
}

/// Result of one simulated run
pub struct Outcome {
    pub viol: Option<Viol>,
    pub world: world::World,
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    world::mix(world::mix(seed, world::fnv(world::FNV, prop.as_bytes())), idx)
}

/// Run one simulation in this process
pub fn run(prop: &'static props::Prop, seed: u64, choices: Option<Vec<u64>>, verbose: bool) -> Outcome {
    run_fn(prop.run, seed, choices, verbose)
}

fn run_fn(f: fn() -> Res, seed: u64, choices: Option<Vec<u64>>, verbose: bool) -> Outcome {
    world::init(seed, choices, verbose);
    let res = world::simulate(f);
    let viol = match res {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(p) => {
            if p.downcast_ref::<crate::io::Injected>().is_some() || p.downcast_ref::<crate::io::Crash>().is_some() {
                broken("an injected panic was not expected to get here");
            }
            Some(panic_violation())
        }
    };
    *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    Outcome { viol, world: world::take() }
}

// ------------------------------------------------------------------- workers

fn limit_of(p: *mut Shm) -> u64 {
    unsafe { (*p).limit.load(SeqCst) }
}

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub logs: HashSet<u64>,
    pub states: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub edges: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub sim_us: u64,
    pub switches: u64,
    pub events: u64,
    pub reruns: u64,
    pub diverged: u64,
}

impl Stats {
    fn add(&mut self, w: &world::World) {
        self.runs += 1;
        self.logs.insert(w.log_hash);
        self.states.insert(w.state_hash);
        let fault = w.counters.keys().any(|k| k.starts_with("fault_"));
        if (fault || w.switches > 0) && w.events > 0 {
            self.nontrivial.insert(w.log_hash);
        }
        for (k, v) in &w.counters {
            *self.counters.entry(k.to_string()).or_insert(0) += v;
        }
        self.sim_us += w.now;
        self.switches += w.switches;
        self.events += w.events;
    }

    fn save(&self, dir: &Path, k: u64) {
        let mut o = String::new();
        for (n, v) in [
            ("runs", self.runs), ("sim_us", self.sim_us), ("switches", self.switches), ("events", self.events),
            ("reruns", self.reruns), ("diverged", self.diverged),
        ] {
            writeln!(o, "{n} {v}").unwrap();
        }
        for (n, v) in &self.counters {
            writeln!(o, "c {n} {v}").unwrap();
        }
        for e in crate::points::reached() {
            writeln!(o, "e {e:x}").unwrap();
        }
        for (t, set) in [("l", &self.logs), ("s", &self.states), ("n", &self.nontrivial)] {
            for h in set {
                writeln!(o, "{t} {h:x}").unwrap();
            }
        }
        fs::write(dir.join(format!("stats{k}")), o).expect("could not write statistics");
    }

    fn load(&mut self, path: &Path) {
        let Ok(text) = fs::read_to_string(path) else { return };
        for l in text.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            let n = |i: usize| f[i].parse::<u64>().unwrap_or(0);
            let h = |i: usize| u64::from_str_radix(f[i], 16).unwrap_or(0);
            match f[0] {
                "runs" => self.runs += n(1),
                "sim_us" => self.sim_us += n(1),
                "switches" => self.switches += n(1),
                "events" => self.events += n(1),
                "reruns" => self.reruns += n(1),
                "diverged" => self.diverged += n(1),
                "c" => *self.counters.entry(f[1].to_string()).or_insert(0) += n(2),
                "l" => { self.logs.insert(h(1)); }
                "s" => { self.states.insert(h(1)); }
                "e" => { self.edges.insert(h(1)); }
                "n" => { self.nontrivial.insert(h(1)); }
                _ => (),
            }
        }
    }
}

/// Process running every `stride`-th simulation, starting with the `first`
pub fn worker(prop: &'static props::Prop, seed: u64, first: u64, stride: u64, end: u64, secs: f64, dir: &Path, k: u64) -> i32 {
    let shm_file = fs::OpenOptions::new().read(true).write(true).open(dir.join(format!("shm{k}"))).expect("no shared file");
    let limit_file = fs::OpenOptions::new().read(true).write(true).open(dir.join("limit")).expect("no limit file");
    let shm = map_shared(Some(&shm_file));
    let limit = map_shared(Some(&limit_file));
    SHM.store(shm as usize, SeqCst);
    crate::alloc::setup();
    hook();
    let start = Instant::now();
    let mut stats = Stats::default();
    let mut idx = first;
    let mut status = 1;
    while idx < end && idx < limit_of(limit) && start.elapsed().as_secs_f64() < secs {
        unsafe { (*shm).current.store(idx, SeqCst) }
        let s = run_seed(seed, prop.id, idx);
        let out = run(prop, s, None, false);
        stats.add(&out.world);
        if let Some(v) = out.viol {
            tell(2, &v.class, &v.detail);
            unsafe { (*limit).limit.fetch_min(idx, SeqCst); }
            status = 2;
            break;
        }
        // Sample the repeatability of runs
        if (idx / stride) % 64 == 0 {
            let again = run(prop, s, None, false);
            stats.reruns += 1;
            if again.world.log_hash != out.world.log_hash || again.viol.is_some() {
                stats.diverged += 1;
                eprintln!("fsim: {} run {idx} is not repeatable", prop.id);
            }
        }
        idx += stride;
        unsafe { (*shm).done.fetch_add(1, SeqCst); }
    }
    stats.save(dir, k);
    if status == 1 {
        unsafe { (*shm).status.store(1, SeqCst) }
        0
    } else {
        EXIT_VIOLATION
    }
}

// ------------------------------------------------- runs in processes of their own

#[derive(Clone, Debug)]
pub enum Verdict {
    Held,
    Violated(Viol),
    Broken(String),
}

pub struct Forked {
    pub verdict: Verdict,
    pub choices: Vec<u64>,
    pub log_hash: u64,
}

/// Which runs to do in one process, only the last one of which matters
#[derive(Clone)]
pub enum Job {
    Choices(Vec<u64>),
    Seeds(Vec<u64>),
    Case(&'static props::Case),
}

/// Do a job in a child of this process (which must be single-threaded)
pub fn forked(prop: &'static props::Prop, job: &Job, timeout: Duration, log: Option<&Path>) -> Forked {
    let shm = map_shared(None);
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        SHM.store(shm as usize, SeqCst);
        crate::alloc::setup();
        hook();
        let out = match job {
            Job::Choices(c) => {
                REC.store(shm as usize, SeqCst);
                run(prop, 0, Some(c.clone()), log.is_some())
            }
            Job::Seeds(s) => {
                for x in &s[..s.len() - 1] {
                    run(prop, *x, None, false);
                }
                REC.store(shm as usize, SeqCst);
                run(prop, s[s.len() - 1], None, log.is_some())
            }
            Job::Case(c) => {
                // What dies of exhausting the stack says so
                if let Ok(null) = fs::OpenOptions::new().write(true).open("/dev/null") {
                    unsafe { dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 2); }
                }
                run_fn(c.run, 0, Some(Vec::new()), log.is_some())
            }
        };
        unsafe { (*shm).log_hash.store(out.world.log_hash, SeqCst) }
        if let Some(p) = log {
            let _ = fs::write(p, out.world.log.join("\n"));
        }
        match out.viol {
            None => unsafe { (*shm).status.store(1, SeqCst) },
            Some(v) => tell(2, &v.class, &v.detail),
        }
        unsafe { _exit(0) }
    }
    let start = Instant::now();
    let mut status = 0;
    let mut hung = false;
    let mut nap = 20;
    loop {
        let r = unsafe { waitpid(pid, &mut status, 1) };
        if r != 0 {
            break;
        }
        if start.elapsed() > timeout {
            unsafe { kill(pid, 9); }
            unsafe { waitpid(pid, &mut status, 0); }
            hung = true;
            break;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 5 / 4).min(5_000);
    }
    let s = unsafe { &*shm };
    let choices = s.choices[..s.nchoices.load(SeqCst) as usize].to_vec();
    let verdict = if hung {
        Verdict::Violated(Viol { class: "hang".into(), detail: format!("no end after {} s", timeout.as_secs()) })
    } else {
        match s.status.load(SeqCst) {
            1 => Verdict::Held,
            2 => Verdict::Violated(Viol { class: get_text(&s.class), detail: get_text(&s.detail) }),
            3 => Verdict::Broken(get_text(&s.detail)),
            _ => Verdict::Violated(death(status)),
        }
    };
    let log_hash = s.log_hash.load(SeqCst);
    unsafe { munmap(shm as *mut u8, std::mem::size_of::<Shm>()); }
    Forked { verdict, choices, log_hash }
}

fn death(status: i32) -> Viol {
    let sig = status & 0x7f;
    let what = match sig {
        0 => format!("exit code {}", (status >> 8) & 0xff),
        4 => "illegal instruction".into(),
        6 => "abort (panic while panicking, failed allocation or stack overflow)".into(),
        11 => "segmentation fault (e.g. stack overflow)".into(),
        n => format!("signal {n}"),
    };
    Viol { class: format!("process died: signal {sig}"), detail: format!("the process died: {what}") }
}

// ------------------------------------------------------------------ shrinking

struct Shrinker {
    prop: &'static props::Prop,
    class: String,
    best: Vec<u64>,
    detail: String,
    tries: u64,
    deadline: Instant,
    timeout: Duration,
}

impl Shrinker {
    fn over(&self) -> bool {
        Instant::now() > self.deadline
    }

    fn attempt(&mut self, cand: Vec<u64>) -> bool {
        if self.over() || cand == self.best {
            return false;
        }
        self.tries += 1;
        let r = forked(self.prop, &Job::Choices(cand.clone()), self.timeout, None);
        match r.verdict {
            Verdict::Violated(v) if v.class == self.class => {
                // Keep what was actually used
                let mut used = if r.choices.is_empty() { cand } else { r.choices };
                while used.last() == Some(&0) { used.pop(); }
                let key = |c: &Vec<u64>| (c.len(), c.iter().filter(|x| **x != 0).count(), c.iter().fold(0u64, |a, x| a.saturating_add(*x)));
                if key(&used) < key(&self.best) {
                    self.best = used;
                    self.detail = v.detail;
                    true
                } else {
                    false
                }
            }
            _ => false,
        }
    }

    fn shrink(&mut self) {
        while self.best.last() == Some(&0) { self.best.pop(); }
        loop {
            let before = self.best.clone();
            // Cut the tail
            let mut n = self.best.len() / 2;
            while n > 0 && !self.over() {
                let keep = self.best.len().saturating_sub(n);
                if !self.attempt(self.best[..keep].to_vec()) { n /= 2 }
                n = n.min(self.best.len());
            }
            // Remove or clear chunks
            let mut n = (self.best.len() / 2).max(1);
            loop {
                let mut at = 0;
                while at < self.best.len() && !self.over() {
                    let end = (at + n).min(self.best.len());
                    let mut cand = self.best.clone();
                    cand.drain(at..end);
                    if self.attempt(cand) {
                        continue;
                    }
                    if self.best[at..end].iter().any(|x| *x != 0) {
                        let mut cand = self.best.clone();
                        cand[at..end].fill(0);
                        self.attempt(cand);
                    }
                    at += n;
                }
                if n == 1 || self.over() { break }
                n /= 2;
            }
            // Lower single values
            let mut i = 0;
            while i < self.best.len() && !self.over() {
                let v = self.best[i];
                if v > 0 {
                    for c in [0, 1, v / 2, v - 1] {
                        if c < v && i < self.best.len() {
                            let mut cand = self.best.clone();
                            cand[i] = c;
                            if self.attempt(cand) { break }
                        }
                    }
                }
                i += 1;
            }
            if self.best == before || self.over() { break }
        }
    }
}

// --------------------------------------------------------------------- replay

fn write_replay(path: &Path, prop: &str, v: &Viol, job: &Job, seed: u64, idx: u64, notes: &str, log: &str) {
    let mut o = String::new();
    writeln!(o, "fsim-replay 1").unwrap();
    writeln!(o, "property {prop}").unwrap();
    writeln!(o, "class {}", v.class.replace('\n', " ")).unwrap();
    writeln!(o, "seed {seed} run {idx}").unwrap();
    let list = |c: &[u64]| c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    match job {
        Job::Choices(c) => writeln!(o, "choices {}", list(c)).unwrap(),
        Job::Seeds(s) => writeln!(o, "seeds {}", list(s)).unwrap(),
        Job::Case(c) => writeln!(o, "case {}", c.name).unwrap(),
    }
    writeln!(o, "notes {notes}").unwrap();
    writeln!(o, "detail:").unwrap();
    for l in v.detail.lines() { writeln!(o, "  {l}").unwrap() }
    writeln!(o, "history:").unwrap();
    for l in log.lines() { writeln!(o, "  {l}").unwrap() }
    if let Some(d) = path.parent() { let _ = fs::create_dir_all(d); }
    fs::write(path, o).expect("could not write the replay file");
}

/// Replay a file in this (fresh) process' child, return the exit code
pub fn replay(path: &Path, quiet: bool) -> i32 {
    let text = match fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => { eprintln!("fsim: {}: {e}", path.display()); return EXIT_ERROR }
    };
    let field = |n: &str| text.lines().find_map(|l| l.strip_prefix(n).and_then(|l| l.strip_prefix(' ').or(Some("")).filter(|_| l.is_empty() || l.starts_with(' '))));
    let Some(prop) = field("property").and_then(props::find) else { eprintln!("fsim: unknown property"); return EXIT_ERROR };
    let nums = |s: &str| s.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect::<Vec<u64>>();
    let case = field("case").and_then(|n| prop.cases.iter().find(|c| c.name == n));
    let job = match (field("choices"), field("seeds"), case) {
        (Some(c), _, _) => Job::Choices(nums(c)),
        (_, Some(s), _) => Job::Seeds(nums(s)),
        (_, _, Some(c)) => Job::Case(c),
        _ => { eprintln!("fsim: neither choices nor seeds"); return EXIT_ERROR }
    };
    let class = field("class").unwrap_or("");
    let log = std::env::temp_dir().join(format!("fsim-replay-{}", std::process::id()));
    let r = forked(prop, &job, Duration::from_secs(120), Some(&log));
    let history = fs::read_to_string(&log).unwrap_or_default();
    let _ = fs::remove_file(&log);
    if !quiet {
        println!("{history}");
    }
    match r.verdict {
        Verdict::Violated(v) => {
            println!("class: {}", v.class);
            println!("detail: {}", v.detail);
            println!("{}", if v.class == class { "reproduced the recorded violation" } else { "a different violation than the recorded one" });
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            if v.class == class { EXIT_VIOLATION } else { 3 }
        }
        Verdict::Held => { println!("property {} held", prop.id); 0 }
        Verdict::Broken(e) => { eprintln!("fsim: {e}"); EXIT_ERROR }
    }
}

// ---------------------------------------------------------------------- check

struct Worker {
    child: Child,
    shm: *mut Shm,
    first: u64,
    seen: u64,
    since: Instant,
    over: bool,
}

fn start_worker(exe: &Path, prop: &str, seed: u64, first: u64, stride: u64, end: u64, secs: f64, dir: &Path, k: usize) -> Worker {
    let f = fs::OpenOptions::new().create(true).truncate(true).read(true).write(true)
        .open(dir.join(format!("shm{k}"))).expect("could not create a shared file");
    let shm = map_shared(Some(&f));
    let child = Command::new(exe)
        .args(["worker", prop, &seed.to_string(), &first.to_string(), &stride.to_string(), &end.to_string(), &secs.to_string()])
        .arg(dir)
        .arg(k.to_string())
        .stdin(Stdio::null())
        .spawn()
        .expect("could not start a worker");
    Worker { child, shm, first, seen: u64::MAX, since: Instant::now(), over: false }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Tier {
    pub name: &'static str,
    pub runs: u64,
    pub secs: f64,
}

/// Check a property, return the exit code
pub fn check(prop: &'static props::Prop, tier: Tier, root: &Path) -> i32 {
    let started = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let nworkers = std::env::var("FSIM_WORKERS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)) as u64;
    let exe = std::env::current_exe().expect("unknown executable");
    let dir = std::env::temp_dir().join(format!("fsim-{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&dir).expect("could not create a scratch directory");
    let limit_file = fs::OpenOptions::new().create(true).truncate(true).read(true).write(true)
        .open(dir.join("limit")).expect("could not create the limit file");
    let limit = map_shared(Some(&limit_file));
    unsafe { (*limit).limit.store(u64::MAX, SeqCst) }

    // Runs
    let mut ws: Vec<Worker> = (0..nworkers)
        .map(|k| start_worker(&exe, prop.id, seed, k, nworkers, tier.runs, tier.secs, &dir, k as usize))
        .collect();
    let mut found: Vec<(u64, u64, Viol)> = Vec::new();
    let mut error: Option<String> = None;
    loop {
        let mut busy = false;
        for w in ws.iter_mut().filter(|w| !w.over) {
            let s = unsafe { &*w.shm };
            let cur = s.current.load(SeqCst);
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    use std::os::unix::process::ExitStatusExt;
                    w.over = true;
                    match s.status.load(SeqCst) {
                        1 => (),
                        2 => {
                            found.push((cur, w.first, Viol { class: get_text(&s.class), detail: get_text(&s.detail) }));
                            unsafe { (*limit).limit.fetch_min(cur, SeqCst); }
                        }
                        3 => error = Some(get_text(&s.detail)),
                        _ => {
                            found.push((cur, w.first, death(st.into_raw())));
                            unsafe { (*limit).limit.fetch_min(cur, SeqCst); }
                        }
                    }
                }
                Ok(None) => {
                    busy = true;
                    if w.seen != cur {
                        w.seen = cur;
                        w.since = Instant::now();
                    } else if w.since.elapsed() > Duration::from_secs(60) {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.over = true;
                        found.push((cur, w.first, Viol { class: "hang".into(), detail: "no end after 60 s".into() }));
                        unsafe { (*limit).limit.fetch_min(cur, SeqCst); }
                    }
                }
                Err(e) => { w.over = true; error = Some(e.to_string()) }
            }
        }
        if !busy { break }
        std::thread::sleep(Duration::from_millis(5));
    }
    let searched = started.elapsed().as_secs_f64();
    let mut stats = Stats::default();
    for k in 0..nworkers {
        stats.load(&dir.join(format!("stats{k}")));
    }
    for w in &ws {
        unsafe { munmap(w.shm as *mut u8, std::mem::size_of::<Shm>()); }
    }
    // Runs which ended a worker's life did not make it into its statistics
    found.sort_by_key(|f| f.0);

    // Violations
    let mut code = 0;
    let mut reported = Vec::new();
    if let Some(e) = &error {
        eprintln!("fsim: {e}");
        code = EXIT_ERROR;
    }
    if let Some((idx, first, v)) = found.first().cloned() {
        let path = root.join("replays").join(format!("{}-{}-{}.replay", prop.id, seed, idx));
        println!("run {idx} of seed {seed}: {}: {}", v.class, v.detail);
        let (v, job, notes) = investigate(prop, seed, idx, first, nworkers, v);
        let log = dir.join("log");
        let r = forked(prop, &job, Duration::from_secs(120), Some(&log));
        let again = matches!(&r.verdict, Verdict::Violated(x) if x.class == v.class);
        let notes = format!("{notes}; replayed in a process of its own: {}", if again { "reproduced" } else { "NOT reproduced" });
        write_replay(&path, prop.id, &v, &job, seed, idx, &notes, &fs::read_to_string(&log).unwrap_or_default());
        if v.class == "hang" && !again {
            eprintln!("fsim: a run which took too long did not do so again");
            code = EXIT_ERROR;
        } else {
            println!("{}: {}", v.class, v.detail);
            println!("({notes})");
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            code = EXIT_VIOLATION;
            reported.push(format!("{}: {}", v.class, v.detail));
        }
    }

    // Particular histories, some of which are known to fail
    let listed = fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut known = Vec::new();
    for c in prop.cases {
        match forked(prop, &Job::Case(c), Duration::from_secs(60), None).verdict {
            Verdict::Held => (),
            Verdict::Broken(e) => {
                eprintln!("fsim: case {}: {e}", c.name);
                code = EXIT_ERROR;
            }
            Verdict::Violated(v) => {
                let entry = format!("KNOWN-FINDING: property={} case={} class={}:", prop.id, c.name, v.class.split(':').next().unwrap_or("").replace(' ', "-"));
                if listed.lines().any(|l| l.starts_with(&entry)) {
                    println!("KNOWN-FINDING: property={} {} ({})", prop.id, c.what, v.class);
                    known.push(c.what);
                } else {
                    let path = root.join("replays").join(format!("{}-{}.replay", prop.id, c.name));
                    write_replay(&path, prop.id, &v, &Job::Case(c), seed, 0, "a case of its own", "");
                    println!("case {}: {}: {}", c.name, v.class, v.detail);
                    println!("VIOLATION property={} replay={}", prop.id, path.display());
                    code = EXIT_VIOLATION;
                    reported.push(format!("{}: {}", v.class, v.detail));
                }
            }
        }
    }

    // Samples are written out by processes of their own
    let mut samples = Vec::new();
    for idx in 0..2u64.min(tier.runs) {
        let log = dir.join(format!("sample{idx}"));
        forked(prop, &Job::Seeds(vec![run_seed(seed, prop.id, idx)]), Duration::from_secs(60), Some(&log));
        let text = fs::read_to_string(&log).unwrap_or_default();
        let lines: Vec<&str> = text.lines().collect();
        let mut s = format!("run {idx} of seed {seed}, {} events\n", lines.len());
        for l in lines.iter().take(60) {
            s.push_str(&crate::spec::cut(l));
            s.push('\n');
        }
        samples.push(s);
    }
    let _ = fs::remove_dir_all(&dir);

    let wall = started.elapsed().as_secs_f64();
    evidence(prop, &tier, seed, nworkers, &stats, &samples, searched, wall, &reported, &known, root);
    println!(
        "{} {}: {} runs, {} distinct histories ({} with faults or switches), {} states, {} switches, {} of {} edges, {:.1} s",
        prop.id, tier.name, stats.runs, stats.logs.len(), stats.nontrivial.len(), stats.states.len(), stats.switches, stats.edges.len(), crate::points::edges(), wall,
    );
    code
}

/// Reproduce and minimise
fn investigate(prop: &'static props::Prop, seed: u64, idx: u64, first: u64, stride: u64, v: Viol) -> (Viol, Job, String) {
    let slow = v.class == "hang";
    let timeout = Duration::from_secs(if slow { 20 } else { 60 });
    let own = run_seed(seed, prop.id, idx);
    let alone = forked(prop, &Job::Seeds(vec![own]), if slow { Duration::from_secs(60) } else { timeout }, None);
    if let Verdict::Violated(w) = &alone.verdict {
        let class = w.class.clone();
        let mut s = Shrinker {
            prop,
            class: class.clone(),
            best: alone.choices.clone(),
            detail: w.detail.clone(),
            tries: 0,
            deadline: Instant::now() + Duration::from_secs(45),
            timeout,
        };
        let len = s.best.len();
        // The recorded choices must do the same as the seed
        let r = forked(prop, &Job::Choices(s.best.clone()), timeout, None);
        if matches!(&r.verdict, Verdict::Violated(x) if x.class == class) {
            s.shrink();
            let notes = format!("{} choices minimised to {} in {} runs", len, s.best.len(), s.tries);
            return (Viol { class, detail: s.detail }, Job::Choices(s.best), notes);
        }
        return (w.clone(), Job::Seeds(vec![own]), "reproduced from its seed only, not minimised".into());
    }
    // The violation depends on what happened in the process before
    let all: Vec<u64> = (0..).map(|i| first + i * stride).take_while(|i| *i <= idx).map(|i| run_seed(seed, prop.id, i)).collect();
    // Repeated runs of the worker are part of the history, too
    let mut hist = Vec::new();
    for (i, s) in all.iter().enumerate() {
        hist.push(*s);
        if (first / stride + i as u64) % 64 == 0 && i + 1 < all.len() { hist.push(*s) }
    }
    let deadline = Instant::now() + Duration::from_secs(240);
    let mut best: Option<(Vec<u64>, Viol)> = None;
    let mut n = 1;
    while n <= hist.len() && Instant::now() < deadline {
        n = (n * 4).min(hist.len());
        let cand = hist[hist.len() - n..].to_vec();
        let r = forked(prop, &Job::Seeds(cand.clone()), Duration::from_secs(200), None);
        if let Verdict::Violated(w) = r.verdict {
            best = Some((cand, w));
            break;
        }
        if n == hist.len() { break }
    }
    match best {
        Some((mut cand, mut w)) => {
            // Fewer preceding runs
            let end = Instant::now() + Duration::from_secs(45);
            let mut k = cand.len() / 2;
            while k > 0 && Instant::now() < end {
                let mut at = 0;
                while at + 1 < cand.len() && Instant::now() < end {
                    let to = (at + k).min(cand.len() - 1);
                    let mut c = cand.clone();
                    c.drain(at..to);
                    match forked(prop, &Job::Seeds(c.clone()), Duration::from_secs(60), None).verdict {
                        Verdict::Violated(x) if x.class == w.class => { cand = c; w = x }
                        _ => at = to,
                    }
                }
                k /= 2;
            }
            let notes = format!("needs {} preceding run(s) in the same process", cand.len() - 1);
            (w, Job::Seeds(cand), notes)
        }
        None => (v, Job::Seeds(vec![own]), "observed once, could not be reproduced".into()),
    }
}

fn evidence(
    prop: &props::Prop, tier: &Tier, seed: u64, nworkers: u64, st: &Stats, samples: &[String], searched: f64, wall: f64,
    reported: &[String], known: &[&str], root: &Path,
) {
    let mut o = String::new();
    let per_hour = |n: u64| (n as f64 / searched.max(0.001) * 3600.0) as u64;
    let counters = |f: &dyn Fn(&str) -> bool| {
        let v: Vec<String> = st.counters.iter().filter(|(k, _)| f(k)).map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let list = |v: &[&str]| format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    writeln!(o, "{{").unwrap();
    writeln!(o, "  \"property\": {},", json_str(prop.id)).unwrap();
    writeln!(o, "  \"tier\": {},", json_str(tier.name)).unwrap();
    writeln!(o, "  \"seed\": {seed},").unwrap();
    writeln!(o, "  \"level\": {},", json_str(prop.level)).unwrap();
    writeln!(o, "  \"coverage\": {{").unwrap();
    writeln!(o, "    \"evaluations\": {},", st.runs).unwrap();
    writeln!(o, "    \"distinct_nontrivial\": {},", st.nontrivial.len()).unwrap();
    writeln!(o, "    \"rule\": {},", json_str(&format!(
        "{} One run is one seed; it counts as non-trivial if at least one fault or disturbance was injected or at least one context switch between tasks took place, and as distinct by the hash of its whole event history (transfers, faults, switches, states reached).",
        prop.rule))).unwrap();
    writeln!(o, "    \"samples\": [{}],", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")).unwrap();
    writeln!(o, "    \"simulated_runs_per_hour\": {},", per_hour(st.runs)).unwrap();
    writeln!(o, "    \"seeds_per_hour\": {},", per_hour(st.runs)).unwrap();
    writeln!(o, "    \"simulated_time_s\": {:.3},", st.sim_us as f64 / 1e6).unwrap();
    writeln!(o, "    \"workers\": {nworkers},").unwrap();
    writeln!(o, "    \"distinct_histories\": {},", st.logs.len()).unwrap();
    writeln!(o, "    \"distinct_states\": {},", st.states.len()).unwrap();
    writeln!(o, "    \"library_edges_reached\": {}, \"library_edges\": {},", st.edges.len(), crate::points::edges()).unwrap();
    writeln!(o, "    \"context_switches\": {},", st.switches).unwrap();
    writeln!(o, "    \"events\": {},", st.events).unwrap();
    writeln!(o, "    \"runs_repeated_for_determinism\": {},", st.reruns).unwrap();
    writeln!(o, "    \"runs_which_diverged\": {},", st.diverged).unwrap();
    writeln!(o, "    \"faults_injected\": {},", counters(&|k| k.starts_with("fault_"))).unwrap();
    writeln!(o, "    \"probes\": {},", counters(&|k| !k.starts_with("fault_"))).unwrap();
    writeln!(o, "    \"real_components\": {},", list(&[
        "all of firrtl-ast (parsers, formatters, AST, contexts, iterators), built from /repo's working tree",
        "its dependencies (nom, num-bigint, transiter)", "Rust's standard library (formatting, io adapters, Arc, HashMap, locks)",
    ])).unwrap();
    writeln!(o, "    \"simulated_components\": {},", list(&[
        "byte sources and sinks, pipe, disk", "scheduler of all threads", "futex calls", "clock", "getrandom (hash seeds)",
        "heap addresses", "preemption points (allocations, and by compiler instrumentation the library's atomic operations and control flow edges)", "module sources and look-ups of the caller",
    ])).unwrap();
    writeln!(o, "    \"cases\": {}, \"known_findings\": {},", prop.cases.len(), list(known)).unwrap();
    writeln!(o, "    \"violations_found\": [{}]", reported.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")).unwrap();
    writeln!(o, "  }},").unwrap();
    writeln!(o, "  \"assumptions\": {},", list(prop.assumptions)).unwrap();
    writeln!(o, "  \"wall_s\": {wall:.2},").unwrap();
    writeln!(o, "  \"violations\": {}", reported.len()).unwrap();
    writeln!(o, "}}").unwrap();
    let dir = root.join("evidence");
    let _ = fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{}.tmp", prop.id));
    let mut f = fs::File::create(&tmp).expect("could not write the evidence");
    f.write_all(o.as_bytes()).expect("could not write the evidence");
    drop(f);
    fs::rename(&tmp, dir.join(format!("{}.json", prop.id))).expect("could not write the evidence");
}

// ---------------------------------------------------------------------- extras

/// Print the history hashes of some runs, for comparison between processes
pub fn selfcheck(prop: &'static props::Prop, seed: u64, first: u64, stride: u64, n: u64) -> i32 {
    crate::alloc::setup();
    hook();
    let mut idx = first;
    while idx < n {
        let out = run(prop, run_seed(seed, prop.id, idx), None, false);
        println!("{} {idx} {:x} {:x} {} {}", prop.id, out.world.log_hash, out.world.state_hash, out.world.events,
            out.viol.map(|v| v.class).unwrap_or_default());
        idx += stride;
    }
    0
}

/// Do a single run and print its history
pub fn one(prop: &'static props::Prop, seed: u64, idx: u64) -> i32 {
    let log: PathBuf = std::env::temp_dir().join(format!("fsim-one-{}", std::process::id()));
    let r = forked(prop, &Job::Seeds(vec![run_seed(seed, prop.id, idx)]), Duration::from_secs(120), Some(&log));
    println!("{}", fs::read_to_string(&log).unwrap_or_default());
    let _ = fs::remove_file(&log);
    match r.verdict {
        Verdict::Held => { println!("held, {} choices", r.choices.len()); 0 }
        Verdict::Violated(v) => { println!("{}: {}", v.class, v.detail); EXIT_VIOLATION }
        Verdict::Broken(e) => { println!("broken: {e}"); EXIT_ERROR }
    }
}
