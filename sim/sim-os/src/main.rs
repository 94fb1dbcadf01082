extern crate pen_http as _;
mod files;
mod http;
mod net;
mod process;
mod rt;
mod starting;
mod state;
mod stdio;
mod tasks;
mod time;
use pensim::driver::{Scenario, Suite};
macro_rules! scenario {
    ($property:literal, $name:literal, $run:path, $quick:literal, $about:literal) => {
        Scenario { property: $property, name: $name, run: $run, quick: $quick, thorough: $quick * 30, steps: 400_000, about: $about }
    };
}
static SCENARIOS: &[Scenario] = &[
    scenario!("G01", "go", tasks::go_results, 30_000, "trees of go calls whose results are asked for any number of times"),
    scenario!("G02", "race", tasks::race_lists, 20_000, "lists merged while they are produced, finite and infinite"),
    scenario!("G03", "yield", tasks::yields, 30_000, "tasks that wait for each other by yielding"),
    scenario!("G04", "foreign-threads", tasks::foreign_threads, 40_000, "computations that need the runtime, polled by threads outside it"),
    scenario!("O01", "acknowledged-writes", files::acknowledged_writes, 5_000, "files written while disks fail and processes end"),
    scenario!("O02", "honest-reads", files::honest_reads, 8_000, "files read in pieces and as a whole while disks fail"),
    scenario!("O03", "shared-handle", files::shared_handle_operations, 12_000, "one file handle used by several tasks"),
    scenario!("O03", "appends", files::appends, 12_000, "one file appended to through several handles"),
    scenario!("O04", "names", files::names, 15_000, "files and directories created, moved, copied, listed and removed by several tasks"),
    scenario!("O04", "open-options", files::open_options, 15_000, "files opened with every combination of options and used"),
    scenario!("O05", "output", stdio::output, 8_000, "messages of several tasks to standard output and error, and debug messages"),
    scenario!("O06", "input", stdio::input, 25_000, "standard input read by several tasks while it arrives"),
    scenario!("O07", "streams", net::streams, 5_000, "connections between programs and foreign peers, shared by tasks in both directions"),
    scenario!("O08", "listeners", net::listeners, 8_000, "listeners shared by tasks while clients come and go"),
    scenario!("O09", "datagrams", net::datagrams, 30_000, "sockets exchanging datagrams, shared by tasks in both directions"),
    scenario!("O10", "time", time::time, 30_000, "sleeping tasks while the clock jumps"),
    scenario!("O11", "commands", process::commands, 6_000, "commands with arguments and output, run by several tasks"),
    scenario!("O12", "ending", process::ending, 20_000, "programs that end while their tasks are in the middle of something"),
    scenario!("O13", "starting", starting::starting, 10_000, "programs started with arguments and variables of all kinds"),
    scenario!("H01", "server", http::server, 12_000, "servers whose clients are foreign, slow, pipelining, impolite or gone"),
    scenario!("H02", "client", http::client_requests, 12_000, "requests of several tasks to a service that is slow, wrong or gone"),
    scenario!("T01", "state", state::state, 30_000, "states of the test package shared by tasks"),
];
fn main() {
    pensim::driver::main(&Suite { scenarios: SCENARIOS, 
        real: &[
            "packages/http/ffi/src (for H01 and H02, against the pen-ffi 0.10.23 of its lock file)",
            "packages/os/ffi/library/src (files, directories, standard I/O, TCP, UDP, time, processes, environment)",
            "packages/os/ffi/application/src (main, go, race, yield, block_on), main included",
            "packages/test/ffi/src (for T01)",
            "lib/ffi, lib/ffi-macro",
            "tokio 1.37 with its multi-threaded scheduler, drivers and blocking pool, mio 0.8, hyper where a property needs it, and the standard library, all compiled from source with the same instrumentation",
        ],
        stub: &[
            "the kernel below libc: threads, futexes, clocks, files, pipes, sockets, epoll, processes, signals, name resolution (pensim)",
            "compiled Pen code: the functions of a program, written in Rust against the C ABI of the packages (sim-kit, rt.rs)",
            "foreign peers and commands (scenario code on the simulated network)",
            "the global allocator (checked, never reuses memory)",
        ],
    })
}
