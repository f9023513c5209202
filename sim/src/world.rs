//! The simulated world: choices, clock, scheduler and event log.
//!
//! Exactly one thread runs at any time: either the driver (outside of
//! simulated tasks) or the one task holding the baton. All state is global and
//! accessed only by whoever runs, so it needs no locks (which would themselves
//! be scheduling points).

use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::{Relaxed, SeqCst}};
use std::sync::Arc;

use crate::sys;

/// A violation of a property
#[derive(Clone, Debug)]
pub struct Viol {
    /// Class of the violation, stable across minimisation
    pub class: String,
    /// What happened in detail
    pub detail: String,
}

pub type Res<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, detail: impl Into<String>) -> Res<T> {
    Err(Viol { class: class.to_string(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($fmt:tt)+) => {
        if !($cond) { return $crate::world::viol($class, format!($($fmt)+)); }
    };
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Status {
    Runnable,
    Sleeping(u64),
    Blocked(u64),
    Done,
}

struct Task {
    status: Status,
    gate: Arc<AtomicU32>,
    handle: Option<std::thread::JoinHandle<()>>,
    rng: u64,
    prio: i64,
}

pub struct World {
    rng: [u64; 4],
    replay: Option<Vec<u64>>,
    pub choices: Vec<u64>,
    tape: Tape,
    tasks: Vec<Task>,
    current: usize,
    driver: AtomicU32,
    pub now: u64,
    hash_seed: u64,
    preempt: u64,
    /// Whether tasks have priorities, and the lowest one in use
    starve: bool,
    lowest: i64,
    pub log: Vec<String>,
    pub verbose: bool,
    pub log_hash: u64,
    pub state_hash: u64,
    pub events: u64,
    pub switches: u64,
    pub counters: BTreeMap<&'static str, u64>,
    /// What is being measured
    metered: String,
}

struct Global(UnsafeCell<Option<World>>);
unsafe impl Sync for Global {}
static WORLD: Global = Global(UnsafeCell::new(None));

thread_local! {
    static TASK: Cell<usize> = const { Cell::new(0) };
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static SPINS: Cell<u32> = const { Cell::new(0) };
    static PREEMPT: Cell<u64> = const { Cell::new(0) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static MAX_STEPS: Cell<u64> = const { Cell::new(0) };
}

/// Access the world. Only whoever runs may call this.
#[allow(clippy::mut_from_ref)]
fn w() -> &'static mut World {
    unsafe { (*WORLD.0.get()).as_mut().expect("no world") }
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93);
    splitmix(&mut x);
    splitmix(&mut x)
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    bytes.iter().fold(h, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3))
}

pub const FNV: u64 = 0xcbf2_9ce4_8422_2325;

/// Set up a new world from a seed or a recorded list of choices
pub fn init(seed: u64, replay: Option<Vec<u64>>, verbose: bool) {
    let mut s = seed;
    let rng = [splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)];
    let world = World {
        rng,
        replay,
        choices: Vec::new(),
        tape: Tape::Off,
        tasks: Vec::new(),
        current: 0,
        driver: AtomicU32::new(0),
        now: 0,
        hash_seed: 0,
        preempt: 0,
        starve: false,
        lowest: 0,
        log: Vec::new(),
        verbose,
        log_hash: FNV,
        state_hash: FNV,
        events: 0,
        switches: 0,
        counters: BTreeMap::new(),
        metered: String::new(),
    };
    POINTS.store(0, Relaxed);
    unsafe { *WORLD.0.get() = Some(world) }
}

pub fn take() -> World {
    unsafe { (*WORLD.0.get()).take().expect("no world") }
}

fn next_u64(s: &mut [u64; 4]) -> u64 {
    let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = s[3].rotate_left(45);
    r
}

/// Draw a number below `n`. Zero is always the simplest choice.
pub fn draw(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    let _r = Restore(IN_LIB.replace(false));
    let w = w();
    if let Tape::Play(t, at) = &mut w.tape {
        let v = t.get(*at).copied().unwrap_or(0).min(n - 1);
        *at += 1;
        return v;
    }
    let v = match &w.replay {
        Some(r) => r.get(w.choices.len()).copied().unwrap_or(0).min(n - 1),
        None => ((next_u64(&mut w.rng) as u128 * n as u128) >> 64) as u64,
    };
    w.choices.push(v);
    crate::sup::record(v);
    if let Tape::Record(t) = &mut w.tape { t.push(v) }
    v
}

/// Choices made once and used repeatedly
enum Tape {
    Off,
    Record(Vec<u64>),
    Play(Vec<u64>, usize),
}

/// Remember the choices made from now on
pub fn tape_record() {
    w().tape = Tape::Record(Vec::new());
}

/// Make no choices from now on, but use the ones remembered
pub fn tape_play() {
    let w = w();
    w.tape = match std::mem::replace(&mut w.tape, Tape::Off) {
        Tape::Record(t) | Tape::Play(t, _) => Tape::Play(t, 0),
        Tape::Off => Tape::Off,
    }
}

/// Make choices as usual again
pub fn tape_off() {
    w().tape = Tape::Off;
}

pub fn below(n: usize) -> usize {
    draw(n as u64) as usize
}

/// Number in the given (inclusive) range
pub fn range(lo: usize, hi: usize) -> usize {
    lo + below(hi - lo + 1)
}

/// True with a chance of `num` in `den`; false is the simpler choice
pub fn chance(num: u64, den: u64) -> bool {
    draw(den) >= den - num
}

pub fn pick<T: Clone>(items: &[T]) -> T {
    items[below(items.len())].clone()
}

/// A size with many small and few large values, at most `max`
pub fn size(max: usize) -> usize {
    match draw(8) {
        0..=3 => below(max.min(2) + 1),
        4..=6 => below(max.min(6) + 1),
        _ => below(max + 1),
    }
}

/// Log an event. Must not draw.
pub fn ev(kind: &'static str, a: u64, b: u64) {
    let _r = Restore(IN_LIB.replace(false));
    let w = w();
    w.events += 1;
    let t = TASK.get() as u64;
    let mut h = fnv(w.log_hash, kind.as_bytes());
    h = fnv(h, &t.to_le_bytes());
    h = fnv(h, &a.to_le_bytes());
    h = fnv(h, &b.to_le_bytes());
    w.log_hash = h;
    if w.verbose && w.log.len() < 20_000 {
        let line = format!("t={:>8} task={} {} {} {}", w.now, t, kind, a, b);
        w.log.push(line);
    }
}

/// Log a remark which is not part of the hashed event history
pub fn note(text: impl FnOnce() -> String) {
    let _r = Restore(IN_LIB.replace(false));
    let w = w();
    if w.verbose {
        let line = format!("t={:>8} task={} # {}", w.now, TASK.get(), text());
        w.log.push(line);
    }
}

pub fn verbose() -> bool {
    w().verbose
}

/// Contribute to the hash identifying the state reached
pub fn state(bytes: &[u8]) {
    let _r = Restore(IN_LIB.replace(false));
    let w = w();
    w.state_hash = fnv(w.state_hash, bytes);
    w.log_hash = fnv(w.log_hash, &w.state_hash.to_le_bytes());
}

pub fn count(name: &'static str) {
    let _r = Restore(IN_LIB.replace(false));
    *w().counters.entry(name).or_insert(0) += 1;
}

pub fn count_n(name: &'static str, n: u64) {
    let _r = Restore(IN_LIB.replace(false));
    *w().counters.entry(name).or_insert(0) += n;
}

pub fn now() -> u64 {
    w().now
}

pub fn in_task() -> bool {
    TASK.get() != 0
}

/// Kinds of points at which tasks may be preempted
const ALLOC: u8 = 1;
const ATOMIC: u8 = 2;
const EDGE: u8 = 4;
/// Edges are counted
const METER: u8 = 8;

static POINTS: AtomicU8 = AtomicU8::new(0);

/// Leave the preemption of tasks to chance, with a given mean distance between
/// the preemptions, measured in allocations, or disable it
pub fn set_preemption(mean: u64) {
    let (points, mean) = match mean {
        0 => (0, 0),
        m => match draw(6) {
            0 | 1 => (ALLOC, m),
            2 => (ATOMIC, m.div_ceil(10)),
            3 => (ALLOC | ATOMIC, m),
            4 => (ALLOC | ATOMIC | EDGE, m * 10),
            _ => (ALLOC | ATOMIC | EDGE, m * 100),
        }
    };
    POINTS.store(points, Relaxed);
    // Preempted tasks may have to wait for a long time
    w().starve = mean > 0 && draw(3) == 2;
    w().preempt = mean;
    PREEMPT.set(gap());
}

fn gap() -> u64 {
    let mean = w().preempt;
    if mean == 0 {
        return u64::MAX;
    }
    // 0, i.e. the simplest choice, is "never again"
    match draw(2 * mean) {
        0 => u64::MAX,
        n => n,
    }
}

/// Hook for the allocator, returns whether the library allocates
pub fn on_alloc() -> bool {
    if !IN_LIB.get() {
        return false;
    }
    point(ALLOC, "preempt_at_alloc");
    true
}

/// Hook for atomic operations of the library
pub fn on_atomic() {
    if IN_LIB.get() {
        point(ATOMIC, "preempt_at_atomic");
        // Who waits by trying again and again has to let others run
        let n = SPINS.get() + 1;
        SPINS.set(n);
        if n % 5000 == 0 && TASK.get() != 0 {
            IN_LIB.set(false);
            demote();
            yield_now("preempt");
            IN_LIB.set(true);
        }
    }
}

/// Hook for the edges of the library's control flow graph
#[inline]
pub fn on_edge() {
    let p = POINTS.load(Relaxed);
    if p & (EDGE | METER) != 0 && IN_LIB.get() {
        if p & METER != 0 {
            let n = STEPS.get() + 1;
            STEPS.set(n);
            if n > MAX_STEPS.get() {
                IN_LIB.set(false);
                let what = w().metered.clone();
                crate::sup::fatal("effort", &format!("{what} took more than {} steps", n - 1));
            }
        }
        point(EDGE, "preempt_at_edge");
    }
}

/// What library code took to do something
#[derive(Clone, Copy, Debug)]
pub struct Effort {
    /// Edges of the control flow graph passed
    pub steps: u64,
    /// Memory allocated in the meantime on top of what was held before, at most
    pub peak: u64,
    /// Allocations
    pub allocs: u64,
    /// Bytes allocated, including those freed since and those moved
    pub volume: u64,
}

/// Measure an operation, which must not take more than the given number of steps
///
/// For a single task.
pub fn metered<R>(what: &str, max_steps: u64, f: impl FnOnce() -> R) -> (R, Effort) {
    use crate::alloc::{LIVE_BYTES, PEAK, TOTAL, VOLUME};
    w().metered = what.to_string();
    STEPS.set(0);
    MAX_STEPS.set(max_steps);
    let held = LIVE_BYTES.load(Relaxed);
    PEAK.store(held, Relaxed);
    let (allocs, volume) = (TOTAL.load(Relaxed), VOLUME.load(Relaxed));
    let points = POINTS.fetch_or(METER, Relaxed);
    let r = f();
    POINTS.store(points, Relaxed);
    let e = Effort { steps: STEPS.get(), peak: (PEAK.load(Relaxed) - held) as u64, allocs: TOTAL.load(Relaxed) - allocs, volume: VOLUME.load(Relaxed) - volume };
    (r, e)
}

#[inline]
fn point(kind: u8, name: &'static str) {
    let p = PREEMPT.get();
    if p != u64::MAX && POINTS.load(Relaxed) & kind != 0 && TASK.get() != 0 {
        if p == 0 {
            IN_LIB.set(false);
            count(name);
            PREEMPT.set(gap());
            demote();
            yield_now("preempt");
            IN_LIB.set(true);
        } else {
            PREEMPT.set(p - 1);
        }
    }
}

struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        IN_LIB.set(self.0)
    }
}

/// Run library code
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(IN_LIB.replace(true));
    f()
}

/// Run harness code called back from library code
pub fn callback<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(IN_LIB.replace(false));
    f()
}

pub fn in_lib() -> bool {
    IN_LIB.get()
}

pub fn set_lib(v: bool) {
    IN_LIB.set(v)
}

pub fn random_bytes(out: &mut [u8]) {
    let me = TASK.get();
    let rng = &mut w().tasks[me - 1].rng;
    for chunk in out.chunks_mut(8) {
        let v = splitmix(rng).to_le_bytes();
        chunk.copy_from_slice(&v[..chunk.len()]);
    }
}

/// What the current task's environment has under the given name
pub fn environment(name: &[u8]) -> u64 {
    let mut s = mix(w().hash_seed, TASK.get() as u64);
    for b in name {
        s = mix(s, *b as u64);
    }
    splitmix(&mut s)
}

/// Hand the baton to some runnable task
fn switch(kind: &'static str) {
    let me = TASK.get();
    let w = w();
    let my_gate = w.tasks[me - 1].gate.clone();
    let next = choose(me);
    if next == me {
        return;
    }
    w.switches += 1;
    if w.switches > 20_000_000 {
        crate::sup::fatal("livelock", "more than 20 million context switches in one run");
    }
    ev(kind, me as u64, next as u64);
    w.current = next;
    let done = w.tasks[me - 1].status == Status::Done;
    let gate = w.tasks[next - 1].gate.clone();
    gate.store(1, SeqCst);
    sys::gate_wake(&gate);
    if !done {
        wait_gate(&my_gate);
    }
}

fn wait_gate(gate: &AtomicU32) {
    let mut spins = 0;
    while gate.load(SeqCst) == 0 {
        spins += 1;
        if spins < 200 {
            std::hint::spin_loop();
        } else {
            sys::gate_wait(gate, 0);
        }
    }
    gate.store(0, SeqCst);
}

fn choose(me: usize) -> usize {
    let w = w();
    loop {
        let mut cand: Vec<usize> = Vec::new();
        if w.tasks[me - 1].status == Status::Runnable {
            cand.push(me);
        }
        for (i, t) in w.tasks.iter().enumerate() {
            if i + 1 != me && t.status == Status::Runnable {
                cand.push(i + 1);
            }
        }
        if !cand.is_empty() && w.starve {
            return *cand.iter().max_by_key(|i| w.tasks[**i - 1].prio).unwrap();
        }
        if !cand.is_empty() {
            return cand[below(cand.len())];
        }
        // Nothing runnable: let the time pass
        let next = w.tasks.iter().filter_map(|t| match t.status {
            Status::Sleeping(t) => Some(t),
            _ => None,
        }).min();
        match next {
            Some(t) => {
                w.now = w.now.max(t);
                for task in w.tasks.iter_mut() {
                    if task.status == Status::Sleeping(t) {
                        task.status = Status::Runnable;
                    }
                }
            }
            None => crate::sup::fatal(
                "deadlock",
                &format!("all tasks blocked: {:?}", w.tasks.iter().map(|t| t.status).collect::<Vec<_>>()),
            ),
        }
    }
}

/// Let all others go first
fn demote() {
    let w = w();
    if w.starve {
        w.lowest -= 1;
        w.tasks[TASK.get() - 1].prio = w.lowest;
    }
}

/// Scheduling point
pub fn yield_now(kind: &'static str) {
    if TASK.get() != 0 {
        if w().tasks.iter().filter(|t| t.status != Status::Done).count() > 1 {
            if w().starve && kind != "preempt" && (kind == "sched_yield" || draw(8) == 7) {
                demote()
            }
            switch(kind)
        }
    }
}

/// Pass simulated time
pub fn sleep(dt: u64) {
    let me = TASK.get();
    if me == 0 || dt == 0 {
        return;
    }
    let w = w();
    w.tasks[me - 1].status = Status::Sleeping(w.now + dt);
    switch("sleep");
}

pub fn block_on(chan: u64) {
    let me = TASK.get();
    w().tasks[me - 1].status = Status::Blocked(chan);
    switch("block");
}

/// Wake up to `n` tasks blocked on a channel
pub fn notify(chan: u64, n: u64) -> u64 {
    let mut woken = 0;
    for t in w().tasks.iter_mut() {
        if woken < n && t.status == Status::Blocked(chan) {
            t.status = Status::Runnable;
            woken += 1;
        }
    }
    woken
}

pub fn futex_wait(addr: u64) {
    let lib = IN_LIB.replace(false);
    count("futex_wait");
    block_on(addr);
    IN_LIB.set(lib);
}

pub fn futex_wake(addr: u64, n: u64) -> u64 {
    let lib = IN_LIB.replace(false);
    let r = notify(addr, n);
    if r > 0 {
        yield_now("futex_wake");
    }
    IN_LIB.set(lib);
    r
}

fn task_chan(id: usize) -> u64 {
    0xffff_0000_0000_0000 | id as u64
}

pub type Payload = Box<dyn Any + Send>;

/// Result slot of a task
pub struct Slot<T>(Arc<UnsafeCell<Option<Result<T, Payload>>>>, usize);
unsafe impl<T> Send for Slot<T> {}

/// What is handed to another task
///
/// Only one task runs at any time. Whether the library's types may be shared
/// between threads is checked elsewhere.
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}

impl<T> Carry<T> {
    fn get(self) -> T {
        self.0
    }
}

impl<T> Slot<T> {
    /// Wait for the task to end and take its result
    pub fn join(self) -> Result<T, Payload> {
        loop {
            if w().tasks[self.1 - 1].status == Status::Done {
                break;
            }
            block_on(task_chan(self.1));
        }
        unsafe { (*self.0.get()).take().expect("task without result") }
    }
}

/// Start a new task
pub fn spawn<T: 'static>(f: impl FnOnce() -> T + 'static) -> Slot<T> {
    let w = w();
    let id = w.tasks.len() + 1;
    let gate = Arc::new(AtomicU32::new(0));
    let slot = Arc::new(UnsafeCell::new(None));
    let out = Carry(slot.clone());
    let f = Carry(f);
    let g = gate.clone();
    let rng = mix(w.hash_seed, id as u64);
    let prio = if w.starve { draw(1 << 16) as i64 } else { 0 };
    let handle = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let out = out.get();
            let f = f.get();
            wait_gate(&g);
            TASK.set(id);
            PREEMPT.set(gap());
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            IN_LIB.set(false);
            unsafe { *out.get() = Some(res) }
            drop(out);
            let w = crate::world::w();
            w.tasks[id - 1].status = Status::Done;
            notify(task_chan(id), u64::MAX);
            ev("end", id as u64, 0);
            if w.tasks.iter().all(|t| t.status == Status::Done) {
                TASK.set(0);
                w.driver.store(1, SeqCst);
                sys::gate_wake(&w.driver);
            } else {
                let next = choose(id);
                w.current = next;
                w.switches += 1;
                ev("switch", id as u64, next as u64);
                let gate = w.tasks[next - 1].gate.clone();
                TASK.set(0);
                gate.store(1, SeqCst);
                sys::gate_wake(&gate);
            }
        })
        .expect("could not start a thread");
    w.tasks.push(Task { status: Status::Runnable, gate, handle: Some(handle), rng, prio });
    ev("spawn", id as u64, 0);
    Slot(slot, id)
}

/// Run a closure as first task of the simulation and wait for all tasks
///
/// To be called by the driver, i.e. outside of tasks.
pub fn simulate<T: 'static>(f: impl FnOnce() -> T + 'static) -> Result<T, Payload> {
    {
        let w = w();
        w.hash_seed = draw(1 << 32);
        // Placement of the library's objects in memory
        let place = draw(1 << 16);
        let reuse = draw(4) != 3;
        if !crate::alloc::reset(place.wrapping_mul(0x9e37_79b9_7f4a_7c15), reuse) {
            count("memory_carried_over");
        }
    }
    let slot = spawn(f);
    let w = w();
    w.current = 1;
    let gate = w.tasks[0].gate.clone();
    gate.store(1, SeqCst);
    sys::gate_wake(&gate);
    while w.driver.load(SeqCst) == 0 {
        sys::gate_wait(&w.driver, 0);
    }
    let mut i = 0;
    while i < w.tasks.len() {
        if let Some(h) = w.tasks[i].handle.take() {
            let _ = h.join();
        }
        i += 1;
    }
    unsafe { (*slot.0.get()).take().expect("no result") }
}
