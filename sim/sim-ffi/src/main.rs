extern crate pen_core as _;
extern crate pen_html as _;
extern crate pen_json as _;
extern crate pen_prelude as _;
extern crate pen_random as _;
extern crate pen_regex as _;

mod calls;
mod chances;
mod loops;
mod patterns;
mod stacks;
mod texts;
mod values;

use pensim::driver::{Scenario, Suite};

macro_rules! scenario {
    ($property:literal, $name:literal, $run:path, $quick:literal, $about:literal) => {
        Scenario { property: $property, name: $name, run: $run, quick: $quick, thorough: $quick * 30, steps: 400_000, about: $about }
    };
}

static SCENARIOS: &[Scenario] = &[
    scenario!("C01", "shared-values", values::shared_values, 60_000, "threads share, clone, send and drop nested values"),
    scenario!("C02", "exclusive-access", values::exclusive_access, 60_000, "threads ask for exclusive access to shared values"),
    scenario!("C03", "any-payloads", values::any_payloads, 40_000, "any values of many types move between threads"),
    scenario!("C04", "calls", calls::results, 40_000, "trees of calls between Rust and compiled code under arbitrary suspensions"),
    scenario!("C05", "frames", stacks::frames, 40_000, "call frames kept across suspensions and growth"),
    scenario!("C05", "misuse", stacks::misuse, 20_000, "stack operations in the wrong order"),
    scenario!("C06", "cancelled-calls", calls::cancelled, 40_000, "calls dropped at arbitrary points"),
    scenario!("C07", "call-leaks", calls::leaks, 30_000, "nothing is left once calls have ended"),
    scenario!("C09", "loops", loops::loops, 25_000, "long loops of compiled code that call native code"),
    scenario!("C08", "texts", texts::texts, 30_000, "tasks that move between threads work on strings they share"),
    scenario!("C10", "patterns", patterns::patterns, 15_000, "threads compile regular expressions, share them and match with them"),
    scenario!("C11", "numbers", chances::numbers, 10_000, "threads draw random numbers while the system's randomness is interrupted"),
];

#[allow(dead_code)]
fn main() {
    pensim::driver::main(&Suite {
        scenarios: SCENARIOS,
        real: &["lib/ffi (all of it, instrumented)", "lib/ffi-macro (expanded into the scenarios)", "packages/core/ffi, packages/prelude/ffi, packages/html/ffi and packages/json/ffi (C08)", "packages/regex/ffi with its regex engine (C10)", "packages/random/ffi with its generator (C11)"],
        stub: &[
            "the executor polling the futures (sim-kit)",
            "functions of compiled Pen code (sim-kit: any and list conversions, hand-written functions in the calling convention)",
            "the global allocator (checked, never reuses memory)",
        ],
    })
}
