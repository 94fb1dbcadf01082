//! Builds of a package that changes, which are interrupted and fail.
use crate::{
    packages::{contents, fetched, names},
    programs::{Trap, FAILING, PASSED, RUNS, TRAP, TRAPS},
    world::*,
};
use pensim::api::*;

pub const FAULTS: &[&str] = &[
    "tool.kill",
    "tool.disk-full",
    "fs.emfile",
    "fs.eacces",
    "fs.create-enospc",
    "fs.short-read",
    "fs.write-enospc",
    "fs.write-eio",
    "fs.short-write",
    "fs.read-eio",
    "fs.readdir-eio",
    "fs.copy-unsupported",
    "fs.short-copy",
    "proc.eagain",
];

/// Decides how a command of some system calls is disturbed.
pub fn disturb(syscalls: u64) {
    calm();
    let often = |kind: &'static str| (0..12).any(|_| fault(kind));
    let kill = often("tool.kill").then(|| work_chance(1, 2));
    let full = often("tool.disk-full");
    if kill.is_none() && !full {
        return;
    }
    let mut trap = Trap { program: TRAPS[work(TRAPS.len() as u64) as usize], skip: work(1 + work(8)), kill: None, free: None };
    let targeted = work_chance(2, 3);
    let n = 1 + work(if targeted { 1 << (2 + work(6)) } else { syscalls });
    let free = work(if targeted { 4_000 } else { 30_000 });
    if let Some(group) = kill {
        say!("{} is killed in {n} system calls", if group { "everything" } else { "a process" });
        trap.kill = Some((n, group));
    }
    if full {
        say!("{free} bytes are free");
        trap.free = Some(free);
    }
    if targeted {
        say!("once {} started after {} times", trap.program, trap.skip);
        TRAP.with(|t| *t = Some(trap));
    } else {
        os(|o| {
            o.kill = trap.kill;
            o.disk_capacity = trap.free.map(|f| o.used() + f);
        });
    }
}

pub fn calm() {
    TRAP.with(|t| *t = None);
    os(|o| {
        o.disk_capacity = None;
        o.kill = None;
    });
}

fn disturbing(kinds: &[&str]) -> u64 {
    kinds.iter().map(|k| fired(k)).sum()
}

/// Whether a fault fired that makes a command fail, since the count.
pub fn hard() -> u64 {
    disturbing(&["tool.kill", "tool.disk-full", "fs.emfile", "fs.eacces", "fs.create-enospc", "fs.write-enospc", "fs.write-eio", "fs.read-eio", "fs.readdir-eio", "proc.eagain"])
}

fn difference(a: &str, b: &str) -> String {
    let only = |a: &str, b: &str| a.lines().filter(|l| !b.lines().any(|m| m == *l)).map(|l| l.to_string()).collect::<Vec<_>>();
    format!("only here {:?}, only there {:?}", only(a, b), only(b, a))
}

pub fn compare(ran: &Ran, command: &str, disturbed: bool, when: &str) {
    let now = product(ran, command == "test");
    if disturbed && !ran.ok() {
        return;
    }
    let expected = clean(command);
    if !disturbed {
        ensure!(now.status == expected.status, "wrong-result", "pen {command} ends with {:?} {when}, and with {:?} from nothing: {}", now.status, expected.status, ran.err.trim());
    }
    if ran.ok() {
        ensure!(expected.status == Some(0), "wrong-result", "pen {command} succeeds {when}, and ends with {:?} from nothing", expected.status);
        ensure!(now.file == expected.file, "wrong-program", "pen {command} makes {when} what differs from what it makes from nothing: {}", difference(&now.file, &expected.file));
    }
}

/// Packages are what they were fetched from.
fn check_packages() {
    let origins: Vec<_> = ["/ext/one", "/ext/four", "/ext/inner", "/git/two", "/pen/packages/three", "/pen/packages/os", "/pen/packages/ffi", "/pen/packages/prelude"].map(|p| contents(&tree(p).unwrap())).into();
    for (name, t) in fetched() {
        ensure!(origins.contains(&contents(&t)), "wrong-package", "{name} has {}, which no package has", names(&t));
        probe("fetched package compared");
    }
}

/// Whether a preparation of the crate of test programs that was disturbed left a part of it behind,
/// which makes tests fail from then on.
fn check_test_crate(ran: &Ran, command: &str) {
    if command != "test" || ran.ok() || hard() == 0 {
        return;
    }
    let there = |root: &str| ["Cargo.toml", "build.rs", "src/debug.rs", "src/heap.rs", "src/spawn.rs", "src/unreachable.rs"].map(|n| file(&format!("{root}/{n}")));
    let copy = "/work/main/.pen/default/test/main";
    if tree(copy).is_some() && there(copy) != there(&format!("{}/cmd/test", crate::programs::PEN_ROOT)) {
        fail("incomplete-test-crate", format!("pen test fails as an earlier run left an incomplete crate behind: {}", ran.err.trim()));
    }
}

fn histories(tests: bool, kinds: &[&'static str]) {
    set_up();
    faults(kinds, 1 + config(8));
    let mut p = Package::new();
    let mut saved = Default::default();
    if config(3) == 0 {
        // Editors keep such files next to what is edited.
        put(&format!("{MAIN}/.Foo.pen"), "no module {\n");
        put(&format!("{MAIN}/.Foo.test.pen"), "no module {\n");
        put(&format!("{MAIN}/Foo.pen.orig"), "no module {\n");
    }
    let steps = 2 + work(5);
    for step in 0..=steps {
        for _ in 0..1 + work(3) {
            say!("edit: {}", p.edit(tests));
        }
        p.save(&saved);
        saved = p.files();
        let command = if tests && work_chance(2, 3) { "test" } else { "build" };
        let last = step == steps;
        FAILING.with(|f| *f = command == "test" && work_chance(1, 6));
        let runs = RUNS.with(|n| *n);
        let passed = PASSED.with(|n| *n);
        let before = hard();
        if last {
            stop_faults();
        } else {
            disturb(3000);
        }
        let ran = pen(&[command]);
        calm();
        let disturbed = hard() > before || ran.status.is_none();
        if last || !disturbed {
            check_test_crate(&ran, command);
        }
        if command == "test" {
            let failing = FAILING.with(|f| *f);
            let ran_tests = RUNS.with(|n| *n) - runs;
            ensure!(ran_tests == 1 || ran_tests == 0 && !ran.ok(), "wrong-result", "pen test runs tests {ran_tests} times");
            ensure!(!(failing && ran.ok()), "wrong-result", "pen test succeeds although a test fails");
            ensure!(!ran.ok() || PASSED.with(|n| *n) == passed + 1, "wrong-result", "pen test succeeds although the tests did not come to their end");
            if ran_tests > 0 {
                // What ran is what there is now.
                let text = file("/work/main/.pen/default/test/test").unwrap_or_default();
                ensure!(text.contains(&format!("\ntests {}\n", p.tests())), "wrong-program", "a test program without just {} tests is run: {text}", p.tests());
                probe(if failing { "tests failed" } else { "tests passed" });
            }
        }
        if let Some(valid) = p.valid(command) {
            let failing = command == "test" && FAILING.with(|f| *f);
            ensure!(valid || !ran.ok(), "wrong-result", "pen {command} succeeds although the package is not valid");
            ensure!(!valid || failing || !last && disturbed || ran.ok(), "wrong-result", "pen {command} fails although the package is valid: {}", ran.err.trim());
            probe(if valid { "valid package" } else { "invalid package" });
            if ran.ok() {
                // The main module calls all of the modules.
                let text = product(&ran, command == "test").file;
                let objects = text.lines().filter(|l| l.contains(".o")).count();
                let (least, most) = match command {
                    "test" => (0, usize::MAX),
                    _ if p.is_library => (p.modules.len(), p.modules.len() + 1),
                    _ => (p.modules.len() + 1, usize::MAX),
                };
                ensure!((least..=most).contains(&objects), "wrong-program", "pen {command} makes of {} modules what has {objects} objects: {text}", p.modules.len());
            }
        }
        compare(&ran, command, !last && disturbed, if step == 0 { "at first" } else { "after changes" });
        if ran.ok() {
            check_packages();
        }
    }
    // Nothing changes.
    stop_faults();
    FAILING.with(|f| *f = false);
    for command in ["build", "test"] {
        if command == "test" && !tests {
            continue;
        }
        for _ in 0..2 {
            let ran = pen(&[command]);
            check_test_crate(&ran, command);
            compare(&ran, command, false, "once more");
        }
    }
    done()
}

pub fn changes() {
    histories(false, FAULTS)
}

pub fn test_changes() {
    histories(true, FAULTS)
}
