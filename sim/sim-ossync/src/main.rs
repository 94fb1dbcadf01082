#[path = "../../sim-os/src/files.rs"]
mod files;
#[allow(dead_code)]
#[path = "../../sim-os/src/net.rs"]
mod net;
mod program;
mod rt;
#[path = "../../sim-os/src/starting.rs"]
mod starting;
#[path = "../../sim-os/src/stdio.rs"]
mod stdio;
#[path = "../../sim-os/src/time.rs"]
mod time;
use pensim::driver::{Scenario, Suite};
macro_rules! scenario {
    ($property:literal, $name:literal, $run:path, $quick:literal, $about:literal) => {
        Scenario { property: $property, name: $name, run: $run, quick: $quick, thorough: $quick * 30, steps: 400_000, about: $about }
    };
}
static SCENARIOS: &[Scenario] = &[
    scenario!("Y01", "acknowledged-writes", files::acknowledged_writes, 6_000, "files written while disks fail and programs end"),
    scenario!("Y01", "appends", files::appends, 10_000, "one file appended to through several handles"),
    scenario!("Y02", "honest-reads", files::honest_reads, 10_000, "files read in pieces and as a whole while disks fail"),
    scenario!("Y02", "shared-handle", files::shared_handle_operations, 10_000, "one file handle used in every order"),
    scenario!("Y03", "names", files::names, 10_000, "files and directories created, moved, copied, listed and removed"),
    scenario!("Y03", "open-options", files::open_options, 10_000, "files opened with every combination of options and used"),
    scenario!("Y04", "output", stdio::output, 10_000, "messages to standard output and error, and debug messages"),
    scenario!("Y05", "input", stdio::input, 20_000, "standard input read in pieces while it arrives"),
    scenario!("Y06", "time", time::time, 20_000, "programs that sleep while the clock jumps"),
    scenario!("Y06", "ending", program::ending, 20_000, "programs that return or exit with a status"),
    scenario!("Y07", "streams", program::streams, 6_000, "connections with foreign peers, used in both directions"),
    scenario!("Y07", "listeners", program::listeners, 10_000, "clients accepted one after another"),
    scenario!("Y07", "datagrams", program::datagrams, 10_000, "sockets exchanging datagrams with each other and with foreign peers"),
    scenario!("Y08", "starting", starting::starting, 10_000, "programs started with arguments and variables of all kinds"),
];
fn main() {
    pensim::driver::main(&Suite { scenarios: SCENARIOS, 
        real: &[
            "packages/os-sync/ffi/library/src (files, directories, standard I/O, TCP, UDP, time, processes, arguments, environment)",
            "packages/os-sync/ffi/application/src, main included",
            "lib/ffi, lib/ffi-macro",
            "the standard library, compiled from source with the same instrumentation",
        ],
        stub: &[
            "the kernel below libc: clocks, files, pipes, sockets, processes, name resolution (pensim)",
            "compiled Pen code: the functions of a program, written in Rust against the C ABI of the packages (sim-kit, rt.rs), the synchronous go included",
            "foreign peers (scenario code on the simulated network)",
            "the global allocator (checked, never reuses memory)",
        ],
    })
}
