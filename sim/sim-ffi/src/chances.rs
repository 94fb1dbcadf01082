//! The random package, on several threads, from the randomness the system gives.
use ffi::Number;
use pensim::{api::*, sched::kernel};

ffi::import!(_pen_random_number, fn() -> Number);

static DRAWN: Plain<Vec<Vec<u64>>> = Plain::new(vec![]);

/// Each of the threads draws numbers, started at the same moment.
pub fn numbers() {
    let threads = 1 + work(4) as usize;
    let n = [1, 3, 20, 200][work(4) as usize];
    let skip = work(1 << 16);
    // The randomness of the system differs from run to run.
    kernel(|| pensim::sched::sim().components += skip * 64);
    if config(2) == 0 {
        detect_races();
    }
    faults(&["entropy.interrupted", "entropy.short"], 4);
    let before = kernel(|| pensim::sched::sim().components);
    DRAWN.with(|d| *d = (0..threads).map(|_| vec![]).collect());
    let handles: Vec<_> = (0..threads)
        .map(|me| {
            std::thread::spawn(move || {
                for _ in 0..n {
                    let x = f64::from(unsafe { _pen_random_number() });
                    ensure!((0.0..1.0).contains(&x), "out-of-range", "a random number is {x}");
                    kernel(|| DRAWN.with(|d| d[me].push(x.to_bits())));
                }
            })
        })
        .collect();
    for h in handles {
        h.join().unwrap();
    }
    let drawn = DRAWN.with(std::mem::take);
    let used = kernel(|| pensim::sched::sim().components) - before;
    ensure!(used >= 16, "foreseeable", "numbers were drawn with {used} bytes of randomness from the system");
    let all: Vec<f64> = drawn.iter().flatten().map(|b| f64::from_bits(*b)).collect();
    let mut sorted: Vec<u64> = all.iter().map(|x| x.to_bits()).collect();
    sorted.sort();
    let distinct = {
        let mut s = sorted.clone();
        s.dedup();
        s.len()
    };
    // At most 800 of 2^53 numbers: one repetition has a chance below 1e-10.
    ensure!(distinct == all.len(), "repeated", "{} numbers of {} are repetitions", all.len() - distinct, all.len());
    if all.len() >= 200 {
        probe("many numbers were drawn");
        let m = all.len() as f64;
        // Each sum is normal with a standard deviation of at most sqrt(m) / 2: nine of those.
        let bound = 9.0 * m.sqrt() / 2.0;
        let halves = |f: &dyn Fn(f64) -> bool, what: &str| {
            let c = all.iter().filter(|x| f(**x)).count() as f64;
            ensure!((c - m / 2.0).abs() < bound, "not-uniform", "{c} of {m} numbers {what}");
        };
        halves(&|x| x < 0.5, "are in the lower half");
        for bit in [2u32, 3, 8, 20, 30, 40, 51, 52] {
            let unit = 2f64.powi(bit as i32);
            halves(&|x| (x * unit) as u64 % 2 == 0, "have an even digit");
        }
    }
}
