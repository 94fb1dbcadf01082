//! The simulated machine: one baton, virtual time, and every thread a parked pthread.
use crate::{choice::*, heap, raw, shared, sys, tsan};
use std::{
    collections::{BTreeMap, BinaryHeap},
    sync::atomic::{AtomicU32, Ordering},
};

pub const MAX_THREADS: usize = 64;
const STACK_BASE: usize = 0x2000_0000_0000;
const STACK_SIZE: usize = 4 << 20;
pub const NEVER: u64 = u64::MAX;

pub static mut ACTIVE: bool = false;
pub static mut CURRENT: usize = 0;
/// Nonzero while simulator code runs (its allocations do not go to the simulated heap).
pub static mut DEPTH: u32 = 0;
static mut SIM: *mut Sim = core::ptr::null_mut();
static WORDS: [AtomicU32; MAX_THREADS] = [const { AtomicU32::new(0) }; MAX_THREADS];
static mut EXIT_KEY: libc::pthread_key_t = 0;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State {
    Ready,
    Blocked,
    Done,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wake {
    Woken,
    Timeout,
}

#[derive(Clone, Debug)]
pub enum Cond {
    None,
    Futex(usize),
    Join(usize),
    Sleep,
    Fd(i32, i16),
    Poll(Vec<(i32, i16)>),
    Epoll(i32),
    Child(i32),
    FlockQueue,
    Mutex(usize),
    CondVar(usize),
}

pub struct Thread {
    pub state: State,
    pub cond: Cond,
    pub woken: bool,
    pub deadline: u64,
    pub generation: u64,
    pub wake: Wake,
    pub ops: u64,
    pub blocks: u64,
    pub depth: u32,
    pub pthread: libc::pthread_t,
    pub result: usize,
    pub detached: bool,
    start: Option<extern "C" fn(*mut libc::c_void) -> *mut libc::c_void>,
    argument: usize,
    exit_passes: u32,
    pub in_handler: bool,
    pub interrupted: bool,
    pub uncancellable: u32,
    /// The step at which the thread became ready or was preempted.
    waiting_since: u64,
}

type Action = Box<dyn FnOnce()>;

struct Event {
    at: u64,
    seq: u64,
    kind: EventKind,
}

enum EventKind {
    Timeout(usize, u64),
    Call(Action),
}

impl PartialEq for Event {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Event {}
impl PartialOrd for Event {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Event {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

#[derive(Clone, Copy, Default)]
pub struct Strategy {
    pub kind: u64,
    pub shift: u64,
    pub victim: usize,
    pub window: u64,
}

pub struct Sim {
    pub now: u64,
    pub steps: u64,
    pub step_limit: u64,
    pub switches: u64,
    pub threads: Vec<Thread>,
    pub choices: Choices,
    events: BinaryHeap<Event>,
    next_event: u64,
    seq: u64,
    pub dirty: bool,
    run_length: u64,
    pub strategy: Strategy,
    pub history_hash: u64,
    pub log: Vec<String>,
    pub verbose: bool,
    pub faults: BTreeMap<&'static str, (u64, u64, u64)>, // (rate per 1024, opportunities, fired)
    pub fault_budget: u64,
    pub faults_on: bool,
    pub probes: BTreeMap<&'static str, u64>,
    pub components: u64,
    pub os: sys::Os,
    pub expected_panics: Vec<String>,
    pub panics: Vec<String>,
    pub point_cost: u64,
    pub stopped: bool,
    pub tsan: tsan::Tsan,
    pub leak_marker: u64,
}

#[inline(always)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

#[inline(always)]
pub fn active() -> bool {
    unsafe { ACTIVE }
}

#[inline(always)]
pub fn in_kernel() -> bool {
    unsafe { DEPTH > 0 }
}

#[inline(always)]
pub fn me() -> usize {
    unsafe { CURRENT }
}

/// Runs simulator code.
#[inline(always)]
pub fn kernel<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        DEPTH += 1;
        let r = f();
        DEPTH -= 1;
        r
    }
}

extern "C" fn on_thread_exit(_: *mut libc::c_void) {
    unsafe {
        let t = me();
        sim().threads[t].exit_passes += 1;
        if sim().threads[t].exit_passes < 3 {
            libc::pthread_setspecific(EXIT_KEY, 1 as _);
            return;
        }
        DEPTH = 1;
        finish_thread();
    }
}

unsafe fn finish_thread() {
    let t = me();
    let s = sim();
    s.threads[t].state = State::Done;
    tsan::release(thread_key(t));
    for i in 0..s.threads.len() {
        if let Cond::Join(j) = s.threads[i].cond {
            if j == t {
                wake_thread(i);
            }
        }
    }
    let next = pick_next();
    hand_over(next);
    // The pthread ends for real here; no simulated code runs on it any more.
}

fn thread_key(t: usize) -> usize {
    1 + t
}

pub unsafe fn boot(seed: u64, replay: Option<&Trace>, step_limit: u64, verbose: bool, body: fn()) -> ! {
    libc::pthread_key_create(&raw mut EXIT_KEY, Some(on_thread_exit));
    let sim = Box::new(Sim {
        now: 0,
        steps: 0,
        step_limit,
        switches: 0,
        threads: vec![],
        choices: Choices::new(seed, replay),
        events: Default::default(),
        next_event: NEVER,
        seq: 0,
        dirty: false,
        run_length: 0,
        strategy: Default::default(),
        history_hash: 0,
        log: vec![],
        verbose,
        faults: Default::default(),
        fault_budget: 0,
        faults_on: true,
        probes: Default::default(),
        components: 0,
        os: sys::Os::new(),
        expected_panics: vec![],
        panics: vec![],
        point_cost: 20,
        stopped: false,
        tsan: tsan::Tsan::new(),
        leak_marker: 0,
    });
    SIM = Box::into_raw(sim);
    heap::init();
    DEPTH = 1;
    choose_strategy();
    let body_pointer = body as usize;
    extern "C" fn root(p: *mut libc::c_void) -> *mut libc::c_void {
        let body: fn() = unsafe { core::mem::transmute(p) };
        body();
        finish_run();
    }
    let t = new_thread(root, body_pointer as _);
    assert_eq!(t, 0);
    ACTIVE = true;
    CURRENT = 0;
    sim_threads_start(0);
    // Wait for ever: the run ends the process.
    let word = AtomicU32::new(0);
    loop {
        raw::futex_wait(word.as_ptr(), 0);
    }
}

unsafe fn sim_threads_start(t: usize) {
    WORDS[t].store(1, Ordering::SeqCst);
    raw::futex_wake(WORDS[t].as_ptr(), 1);
}

fn choose_strategy() {
    let s = sim();
    let kind = s.choices.next(CONFIG, 8, |h| [0, 1, 1, 1, 2, 2, 3, 3][(h % 8) as usize]);
    let shift = s.choices.next(CONFIG, 16, |h| 1 + h % 11);
    let victim = s.choices.next(CONFIG, 16, |h| h % 6) as usize;
    let window = s.choices.next(CONFIG, 1 << 20, |h| 16 << (h % 10));
    s.strategy = Strategy { kind, shift, victim, window };
}

/// Ends the run successfully.
pub fn finish_run() -> ! {
    unsafe {
        DEPTH += 1;
    }
    shared::publish(shared::Status::Ok, "", "");
    raw::exit_group(0)
}

/// Ends the run with a violation.
pub fn violate(class: &str, message: &str) -> ! {
    unsafe {
        DEPTH += 1;
    }
    if active() {
        log(format!("VIOLATION {class}: {message}"));
        shared::publish(shared::Status::Violation, class, message);
    } else {
        raw::write_all(2, format!("violation outside simulation: {class}: {message}\n").as_bytes());
    }
    raw::exit_group(0)
}

/// Ends the run as an error of the harness itself (never reported as a violation).
pub fn harness_error(message: &str) -> ! {
    unsafe {
        DEPTH += 1;
    }
    if active() {
        shared::publish(shared::Status::HarnessError, "harness", message);
    } else {
        raw::write_all(2, format!("harness error: {message}\n").as_bytes());
    }
    raw::exit_group(0)
}

pub fn log(message: String) {
    let s = sim();
    for b in message.bytes() {
        s.history_hash = s.history_hash.wrapping_mul(0x100_0000_01b3) ^ b as u64;
    }
    s.history_hash = mix(s.history_hash ^ s.now);
    let line = format!("[{:>12.6}ms t{} #{}] {}", s.now as f64 / 1e6, me(), s.steps, message);
    if s.verbose {
        raw::write_all(shared::real_stderr(), line.as_bytes());
        raw::write_all(shared::real_stderr(), b"\n");
    }
    if s.log.len() < 4000 {
        s.log.push(line);
    }
}

// --- threads

pub unsafe fn new_thread(
    start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    argument: *mut libc::c_void,
) -> usize {
    let s = sim();
    let t = s.threads.len();
    if t >= MAX_THREADS {
        harness_error("too many simulated threads");
    }
    s.threads.push(Thread {
        state: State::Ready,
        cond: Cond::None,
        woken: false,
        deadline: NEVER,
        generation: 0,
        wake: Wake::Woken,
        ops: 0,
        blocks: 0,
        depth: 0,
        pthread: 0,
        result: 0,
        detached: false,
        start: Some(start),
        argument: argument as usize,
        exit_passes: 0,
        in_handler: false,
        interrupted: false,
        uncancellable: 0,
        waiting_since: s.steps,
    });
    s.tsan.fork(me(), t);
    let process = s.os.process();
    s.os.set_process(t, process);
    let base = STACK_BASE + t * (STACK_SIZE + 65536);
    let p = libc::mmap(
        base as _,
        STACK_SIZE,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE | libc::MAP_NORESERVE,
        -1,
        0,
    );
    if p as usize != base {
        harness_error("cannot map a simulated stack");
    }
    let mut attr: libc::pthread_attr_t = core::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    pthread_attr_setstack(&mut attr, base as _, STACK_SIZE);
    let mut pt: libc::pthread_t = 0;
    let r = sys::real::pthread_create(&mut pt, &attr, trampoline, t as _);
    if r != 0 {
        harness_error("cannot create a real thread");
    }
    s.threads[t].pthread = pt;
    t
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let t = p as usize;
    wait_baton(t);
    unsafe {
        DEPTH = 0;
        libc::pthread_setspecific(EXIT_KEY, 1 as _);
        let th = &mut sim().threads[t];
        let start = th.start.take().unwrap();
        let r = start(th.argument as _);
        sim().threads[t].result = r as usize;
        r
    }
}

fn wait_baton(t: usize) {
    unsafe {
        while WORDS[t].swap(0, Ordering::SeqCst) == 0 {
            raw::futex_wait(WORDS[t].as_ptr(), 0);
        }
    }
}

unsafe fn hand_over(next: usize) {
    let s = sim();
    s.switches += 1;
    s.run_length = 0;
    s.threads[me()].waiting_since = s.steps;
    s.history_hash = mix(s.history_hash ^ ((next as u64) << 32) ^ s.threads[me()].ops);
    CURRENT = next;
    WORDS[next].store(1, Ordering::SeqCst);
    raw::futex_wake(WORDS[next].as_ptr(), 1);
}

unsafe fn switch_to(next: usize) {
    let t = me();
    if next == t {
        return;
    }
    let depth = DEPTH;
    hand_over(next);
    wait_baton(t);
    DEPTH = depth;
}

pub fn wake_thread(t: usize) {
    let th = &mut sim().threads[t];
    if th.state == State::Blocked {
        th.woken = true;
        sim().dirty = true;
    }
}

fn refresh() {
    let s = sim();
    s.dirty = false;
    for i in 0..s.threads.len() {
        let th = &s.threads[i];
        if th.state == State::Blocked && (th.woken || sys::condition_ready(&th.cond)) {
            let th = &mut s.threads[i];
            th.waiting_since = s.steps;
            th.state = State::Ready;
            th.wake = Wake::Woken;
            th.generation += 1;
            th.cond = Cond::None;
            th.woken = false;
        }
    }
}

fn fire_due() {
    let s = sim();
    while s.next_event <= s.now {
        let event = s.events.pop().unwrap();
        s.next_event = s.events.peek().map(|e| e.at).unwrap_or(NEVER);
        match event.kind {
            EventKind::Timeout(t, generation) => {
                let th = &mut s.threads[t];
                if th.generation == generation && th.state == State::Blocked {
                    // A condition that became true first wins.
                    if !(th.woken || sys::condition_ready(&th.cond)) {
                        th.waiting_since = s.steps;
                        th.state = State::Ready;
                        th.wake = Wake::Timeout;
                        th.generation += 1;
                        th.cond = Cond::None;
                    } else {
                        s.dirty = true;
                    }
                }
            }
            EventKind::Call(f) => {
                f();
                s.dirty = true;
            }
        }
    }
}

pub fn after(delay: u64, f: impl FnOnce() + 'static) {
    let at = sim().now.saturating_add(delay);
    push_event(at, EventKind::Call(Box::new(f)));
}

fn push_event(at: u64, kind: EventKind) {
    let s = sim();
    s.seq += 1;
    s.events.push(Event { at, seq: s.seq, kind });
    s.next_event = s.events.peek().unwrap().at;
}

fn ready_candidates(out: &mut [usize; MAX_THREADS], include_self: bool) -> usize {
    let s = sim();
    let n = s.threads.len();
    let t = me();
    let mut k = 0;
    for d in 1..=n {
        let i = (t + d) % n;
        if (i != t || include_self) && s.threads[i].state == State::Ready {
            out[k] = i;
            k += 1;
        }
    }
    k
}

/// A thread that is ready for this many steps runs next, as schedulers of operating systems are fair.
const STARVATION: u64 = 20_000;

fn starved(candidates: &[usize]) -> Option<usize> {
    let s = sim();
    let t = candidates.iter().copied().find(|&t| s.steps - s.threads[t].waiting_since > STARVATION)?;
    if t == s.strategy.victim {
        // It has been slow for long enough.
        s.strategy.victim = usize::MAX;
    }
    Some(t)
}

fn pick_index(strategy: Strategy, candidates: &[usize], h: u64) -> u64 {
    let n = candidates.len() as u64;
    let mut i = (h >> 20) % n;
    if strategy.kind == 3 && n > 1 && candidates[i as usize] == strategy.victim && (h >> 8) % 64 != 0 {
        i = (i + 1) % n;
    }
    i
}

/// Chooses the next thread to run when the current one cannot; advances time when none can.
fn pick_next() -> usize {
    let s = sim();
    loop {
        fire_due();
        refresh();
        let mut c = [0; MAX_THREADS];
        let k = ready_candidates(&mut c, true);
        if k > 0 {
            if let Some(t) = starved(&c[..k]) {
                return t;
            }
            let t = me();
            let index = s.threads[t].blocks;
            s.threads[t].blocks += 1;
            let strategy = s.strategy;
            let i = if k == 1 {
                0
            } else {
                s.choices.at(BLOCK + t as u32, index, k as u64, |h| {
                    if strategy.kind == 0 || (strategy.kind != 3 && h % 4 == 0) {
                        0
                    } else {
                        pick_index(strategy, &c[..k], h)
                    }
                })
            };
            return c[i as usize];
        }
        if sys::signal_waits() {
            // A signal interrupts a thread that waits.
            if let Some(t) = s.threads.iter().position(|t| t.state == State::Blocked && !t.in_handler) {
                s.threads[t].state = State::Ready;
                s.threads[t].wake = Wake::Woken;
                s.threads[t].generation += 1;
                s.threads[t].interrupted = true;
                return t;
            }
        }
        if s.next_event == NEVER {
            deadlock();
        }
        s.now = s.now.max(s.next_event);
        if s.now > 3600 * 24 * 365 * 20 * 1_000_000_000 {
            violate("no-progress", "simulated time ran past twenty years");
        }
        s.steps += 1;
        check_steps();
    }
}

fn deadlock() -> ! {
    let s = sim();
    let mut d = String::new();
    for (i, t) in s.threads.iter().enumerate() {
        if t.state != State::Done {
            d += &format!(" t{}:{:?}", i, t.cond);
        }
    }
    if let Some(hook) = s.os.on_idle.take() {
        log(format!("idle:{d}"));
        hook();
    }
    violate("deadlock", &format!("every thread is blocked and no event is pending:{d}"))
}

#[inline]
fn check_steps() {
    let s = sim();
    if s.steps > s.step_limit {
        violate("no-progress", &format!("the run did not end within {} scheduling points", s.step_limit));
    }
}

/// A scheduling point: the current thread may be preempted here.
#[inline]
pub fn point() {
    if !active() || in_kernel() {
        return;
    }
    point_kernel(false)
}

pub fn point_kernel(yielding: bool) {
    unsafe {
        DEPTH += 1;
    }
    let s = sim();
    let t = me();
    s.steps += 1;
    check_steps();
    s.now += s.point_cost;
    if s.next_event <= s.now {
        fire_due();
    }
    if s.dirty {
        refresh();
    }
    let th = &mut s.threads[t];
    th.ops += 1;
    let index = th.ops;
    s.run_length += 1;
    let strategy = s.strategy;
    let forced = yielding || s.run_length > 4000;
    let v = if s.choices.replay || strategy.kind != 0 || forced {
        let run = s.run_length;
        let steps = s.steps;
        let wants = s.choices.replay
            || forced
            || match strategy.kind {
                1 => s.choices.noise(SCHED + t as u32, index) & ((1 << strategy.shift) - 1) == 0,
                2 => (steps / strategy.window) % 4 == 0 && s.choices.noise(SCHED + t as u32, index) & 3 == 0,
                3 => {
                    (t == strategy.victim && run > strategy.window)
                        || s.choices.noise(SCHED + t as u32, index) & ((1 << strategy.shift) - 1) == 0
                }
                _ => false,
            };
        if wants {
            let mut c = [0; MAX_THREADS];
            let k = ready_candidates(&mut c, false);
            if k == 0 {
                usize::MAX
            } else if let (true, Some(t)) = (forced, starved(&c[..k])) {
                t
            } else if forced {
                // Not a choice whether to switch, only to whom.
                let i = s.choices.at(SCHED + t as u32, index, k as u64, |h| pick_index(strategy, &c[..k], h));
                c[i as usize]
            } else {
                let i = s.choices.at(SCHED + t as u32, index, k as u64 + 1, |h| 1 + pick_index(strategy, &c[..k], h));
                if i == 0 {
                    usize::MAX
                } else {
                    c[i as usize - 1]
                }
            }
        } else {
            usize::MAX
        }
    } else {
        usize::MAX
    };
    if v != usize::MAX {
        unsafe { switch_to(v) }
    }
    sys::deliver_signals();
    unsafe {
        DEPTH -= 1;
    }
}

/// Blocks the current thread until the condition holds, it is woken, or the deadline passes.
/// Must be called in the kernel.
pub fn block(cond: Cond, deadline: u64) -> Wake {
    loop {
        let sleeping = matches!(cond, Cond::Sleep);
        let wake = block_once(cond.clone(), deadline);
        let th = &mut sim().threads[me()];
        if !th.interrupted {
            return wake;
        }
        th.interrupted = false;
        sys::deliver_signals();
        if !sleeping || sim().now >= deadline {
            return Wake::Woken;
        }
    }
}

fn block_once(cond: Cond, deadline: u64) -> Wake {
    let t = me();
    let s = sim();
    {
        let th = &mut s.threads[t];
        th.state = State::Blocked;
        th.cond = cond;
        th.woken = false;
        th.deadline = deadline;
    }
    if deadline != NEVER {
        let g = s.threads[t].generation;
        push_event(deadline, EventKind::Timeout(t, g));
    }
    s.steps += 1;
    check_steps();
    let next = pick_next();
    unsafe { switch_to(next) };
    debug_assert!(sim().threads[t].state == State::Ready);
    sim().threads[t].wake
}

pub fn join(t: usize) {
    while sim().threads[t].state != State::Done {
        block(Cond::Join(t), NEVER);
    }
    tsan::acquire(thread_key(t));
}

extern "C" {
    fn pthread_attr_setstack(attr: *mut libc::pthread_attr_t, base: *mut libc::c_void, size: usize) -> i32;
}
