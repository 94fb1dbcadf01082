//! What scenarios use.
use crate::{choice::*, sched::*, sys, tsan};
use std::cell::UnsafeCell;

pub use crate::sys::NO_TEXT;
pub use crate::{ensure, say};

/// State of the harness shared by simulated threads: accesses are not scheduling points.
pub struct Plain<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Plain<T> {}
unsafe impl<T> Send for Plain<T> {}
impl<T> Plain<T> {
    pub const fn new(value: T) -> Self {
        Self(UnsafeCell::new(value))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        kernel(|| f(unsafe { &mut *self.0.get() }))
    }
}

/// A draw from the workload stream.
pub fn work(n: u64) -> u64 {
    kernel(|| sys::pick(WORK, n))
}

/// A draw from the configuration stream.
pub fn config(n: u64) -> u64 {
    kernel(|| sys::pick(CONFIG, n))
}

/// True with probability `num`/`den`, false being the simple case.
pub fn work_chance(num: u64, den: u64) -> bool {
    kernel(|| sim().choices.next(WORK, 2, |h| (h % den < num) as u64) == 1)
}

pub fn now() -> u64 {
    sim().now
}

pub fn steps() -> u64 {
    sim().steps
}

pub fn note(message: impl Into<String>) {
    kernel(|| log(message.into()))
}

pub fn probe(name: &'static str) {
    kernel(|| sys::probe(name))
}

pub fn fail(class: &str, message: impl AsRef<str>) -> ! {
    violate(class, message.as_ref())
}

#[macro_export]
macro_rules! ensure {
    ($condition:expr, $class:expr, $($message:tt)*) => {
        if !$condition {
            $crate::fail($class, format!($($message)*));
        }
    };
}

#[macro_export]
macro_rules! say {
    ($($message:tt)*) => {
        $crate::kernel_note(|| format!($($message)*))
    };
}

pub fn kernel_note(f: impl FnOnce() -> String) {
    kernel(|| log(f()))
}

/// Faults to inject: each kind is enabled in about half the runs, at a random rate.
pub fn faults(kinds: &[&'static str], budget: u64) {
    kernel(|| {
        let mode = sys::pick(CONFIG, 4); // 0: a fault-free run
        sim().fault_budget = budget;
        for k in kinds {
            let on = sim().choices.next(CONFIG, 4096, |h| {
                if mode == 0 || h % 2 == 0 {
                    0
                } else {
                    [8, 24, 64, 160, 400][((h >> 8) % 5) as usize]
                }
            });
            sys::enable_fault(k, on);
        }
        // Replays decide each draw themselves.
        if sim().choices.replay {
            for k in kinds {
                sys::enable_fault(k, 512);
            }
        }
    })
}

pub fn stop_faults() {
    kernel(|| {
        sim().faults_on = false;
        log("faults stop".into());
    })
}

/// Whether faults are injected.
pub fn faulty() -> bool {
    kernel(|| sim().faults_on)
}

/// Injects faults again after `stop_faults`.
pub fn resume_faults() {
    kernel(|| sim().faults_on = true)
}

pub fn fault(name: &'static str) -> bool {
    kernel(|| sys::fault(name))
}

pub fn fired(name: &str) -> u64 {
    sim().faults.get(name).map(|f| f.2).unwrap_or(0)
}

pub fn any_fired(prefix: &str) -> bool {
    sim().faults.iter().any(|(k, f)| k.starts_with(prefix) && f.2 > 0)
}

pub fn os<R>(f: impl FnOnce(&mut sys::Os) -> R) -> R {
    kernel(|| f(&mut sim().os))
}

/// Reuses freed memory: for programs that allocate a lot and whose memory errors are not looked for.
pub fn reuse_memory() {
    unsafe { crate::heap::REUSE = true }
}

pub fn detect_races() {
    kernel(tsan::enable_races)
}

/// Runs harness code whose atomic operations are not scheduling points and not race-checked.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    sim().tsan.quiet += 1;
    let r = f();
    sim().tsan.quiet -= 1;
    r
}

/// Schedules harness code, in kernel context, at a later simulated time.
pub fn at(delay_ns: u64, f: impl FnOnce() + 'static) {
    kernel(|| after(delay_ns, f))
}

pub fn done() -> ! {
    finish_run()
}

pub fn expect_panic(prefix: &str) {
    kernel(|| sim().expected_panics.push(prefix.to_string()))
}

pub fn pause() {
    point();
}

pub fn sleep_ns(n: u64) {
    kernel(|| {
        let until = sim().now + n;
        block(Cond::Sleep, until);
    })
}

pub fn step_limit(n: u64) {
    sim().step_limit = n;
}
