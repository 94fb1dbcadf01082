extern crate pen_sql as _;
#[path = "../../sim-os/src/rt.rs"]
#[allow(dead_code)]
mod rt;
mod server;
mod sql;
use pensim::driver::{Scenario, Suite};
macro_rules! scenario {
    ($property:literal, $name:literal, $run:path, $quick:literal, $about:literal) => {
        Scenario { property: $property, name: $name, run: $run, quick: $quick, thorough: $quick * 30, steps: 400_000, about: $about }
    };
}
static SCENARIOS: &[Scenario] = &[
    scenario!("Q01", "statements", sql::statements, 40_000, "queries and executions of several tasks with arguments and results of all types"),
    scenario!("Q02", "pools", sql::pools, 20_000, "pools with more tasks than connections, and statements that wait for each other"),
    scenario!("Q02", "outages", sql::outages, 20_000, "servers that start late, are restarted, or are left alone for long"),
];
fn main() {
    pensim::driver::main(&Suite { scenarios: SCENARIOS, 
        real: &[
            "packages/sql/ffi/src, against the pen-ffi 0.10.23 of its lock file",
            "sqlx 0.8.6 with its pool, its any driver and its PostgreSQL driver",
            "packages/os/ffi/application/src (main, go, block_on), main included",
            "lib/ffi, lib/ffi-macro",
            "tokio with its multi-threaded scheduler (two runtimes), drivers and blocking pool, mio, and the standard library, compiled from source with the same instrumentation",
        ],
        stub: &[
            "the database server: the messages of PostgreSQL, with statements whose results the scenario decides",
            "the kernel below libc: threads, futexes, clocks, sockets, epoll, name resolution (pensim)",
            "compiled Pen code: the functions of a program, written in Rust against the C ABI of the packages (sim-kit, rt.rs)",
            "the global allocator (checked, never reuses memory)",
        ],
    })
}
