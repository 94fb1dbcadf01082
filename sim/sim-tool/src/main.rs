mod build;
mod format;
mod packages;
mod programs;
mod turtle;
mod world;
use pensim::driver::{Scenario, Suite};
macro_rules! scenario {
    ($property:literal, $name:literal, $run:path, $quick:literal, $about:literal) => {
        Scenario { property: $property, name: $name, run: $run, quick: $quick, thorough: $quick * 30, steps: 4_000_000, about: $about }
    };
}
static SCENARIOS: &[Scenario] = &[
    scenario!("B01", "builds", build::changes, 2_500, "builds between edits of a package, its dependencies and its foreign code, which fail and are interrupted"),
    scenario!("B02", "graphs", packages::graphs, 5_000, "graphs of packages of all kinds of URLs, fetched and built while commands fail and are interrupted"),
    scenario!("B03", "formats", format::formats, 20_000, "formatting of packages with modules of any shape, on disks that fail and fill up"),
    scenario!("B04", "tests", build::test_changes, 2_000, "tests and builds between edits of modules and their tests"),
    scenario!("B05", "outputs", format::outputs, 16_000, "formatting of standard input and documentation, on outputs that fail"),
    scenario!("B05", "creations", format::creations, 4_000, "new packages"),
];
fn main() {
    pensim::driver::main(&Suite {
        scenarios: SCENARIOS,
        real: &[
            "cmd/pen/src (main, its argument parser and all commands)",
            "lib/app, lib/infra (packages, build scripts, dependencies, fetching, files, commands, tests)",
            "lib/parse, lib/format, lib/doc, lib/ast, lib/ast-hir, lib/hir, lib/hir-mir, lib/mir, lib/interface, lib/test-info, lib/position: modules are compiled up to the code generator",
            "the standard library's processes, pipes and files, compiled from source with the same instrumentation",
        ],
        stub: &[
            "the kernel below libc: processes, pipes, files, threads (pensim)",
            "turtle, the build system: the subset of Ninja that build scripts use, with dynamic dependencies, what is up to date decided by contents, and commands in parallel; it does not lose track in crashes",
            "cp, mv, rm, git, cargo, and LLVM's opt, llc and ar, link and foreign code scripts: small programs on simulated files, which fail like real ones",
            "lib/mir-fmm with fmm and LLVM, which cannot be built here: objects have the symbols that modules define and need, and a hash of their code",
            "hamt, plist, bincode, termcolor, which and glob: small crates of the same interfaces",
            "the global allocator (checked; reuses memory here)",
        ],
    })
}
