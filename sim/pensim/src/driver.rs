//! Seeded search: one forked process per run, results merged, failures minimised and replayed.
use crate::{choice::*, raw, sched, shared, shared::Outcome};
use core::sync::atomic::{AtomicU64, Ordering};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    io::{Read, Write},
    path::{Path, PathBuf},
};

pub struct Scenario {
    pub property: &'static str,
    pub name: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    pub steps: u64,
    pub about: &'static str,
}

pub struct Suite {
    pub scenarios: &'static [Scenario],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}

const STATUS_OK: u32 = 1;
const STATUS_VIOLATION: u32 = 2;
const STATUS_HARNESS: u32 = 3;

extern "C" fn on_crash(sig: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let address = unsafe { (*info).si_addr() as usize };
    if sched::active() {
        unsafe {
            sched::DEPTH += 1;
        }
        shared::publish(shared::Status::Violation, "crash", &format!("signal {sig} at {address:#x} in simulated thread {}", sched::me()));
    }
    raw::exit_group(0)
}

unsafe fn run_child(scenario: &Scenario, seed: u64, replay: Option<&Trace>, verbose: bool) -> ! {
    let cpu = libc::rlimit { rlim_cur: 60, rlim_max: 60 };
    libc::setrlimit(libc::RLIMIT_CPU, &cpu);
    let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &core);
    raw::syscall3(libc::SYS_prctl, libc::PR_SET_PDEATHSIG as i64, libc::SIGKILL as i64, 0);
    for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP] {
        let mut a: libc::sigaction = core::mem::zeroed();
        a.sa_sigaction = on_crash as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(sig, &a, core::ptr::null_mut());
    }
    if verbose {
        let fd = raw::syscall3(libc::SYS_fcntl, 2, libc::F_DUPFD as i64, 900);
        shared::set_real_stderr(fd as i32);
    }
    sched::boot(seed, replay, scenario.steps, verbose, scenario.run)
}

unsafe fn real_fork() -> i32 {
    static mut F: usize = 0;
    if F == 0 {
        F = crate::sys::real::symbol(b"fork\0");
    }
    core::mem::transmute::<usize, extern "C" fn() -> i32>(F)()
}

pub fn run_once(scenario: &Scenario, seed: u64, replay: Option<&Trace>, verbose: bool, want_log: bool) -> Outcome {
    unsafe {
        shared::reset();
        shared::WANT_LOG = want_log;
        let pid = real_fork();
        if pid == 0 {
            run_child(scenario, seed, replay, verbose);
        }
        let mut status = 0;
        // A run that makes no real progress for this long is stuck outside the simulator.
        let start = raw::real_now();
        loop {
            let flags = if raw::real_now() - start < 0.002 { 0 } else { 0 };
            let r = raw::syscall6(libc::SYS_wait4, pid as i64, &mut status as *mut i32 as i64, flags, 0, 0, 0);
            if r == pid as i64 {
                break;
            }
        }
        let mut o = shared::read();
        if o.status == 0 {
            if libc::WIFSIGNALED(status) {
                let sig = libc::WTERMSIG(status);
                o.status = STATUS_VIOLATION;
                o.class = if sig == libc::SIGXCPU || (sig == libc::SIGKILL && raw::real_now() - start > 50.0) { "hang".into() } else { "crash".into() };
                o.message = format!("the process was killed by signal {sig}");
                if sig == libc::SIGKILL && o.class == "crash" {
                    o.status = STATUS_HARNESS;
                }
            } else {
                o.status = STATUS_HARNESS;
                o.message = format!("the process exited with status {} before the run ended", libc::WEXITSTATUS(status));
            }
        }
        o
    }
}

#[derive(Default, Clone)]
struct Totals {
    runs: u64,
    steps: u64,
    switches: u64,
    time_ns: u64,
    atomics: u64,
    allocations: u64,
    threads: u64,
    nontrivial: u64,
    faulty_runs: u64,
    checked_twice: u64,
    diverged: u64,
    known: BTreeMap<String, u64>,
    faults: BTreeMap<String, (u64, u64, u64)>,
    probes: BTreeMap<String, (u64, u64)>,
    per_scenario: BTreeMap<String, (u64, u64)>,
    harness: Vec<String>,
}

fn to_json(t: &Totals) -> Value {
    json!({
        "runs": t.runs, "steps": t.steps, "switches": t.switches, "time_ns": t.time_ns, "atomics": t.atomics,
        "allocations": t.allocations, "threads": t.threads, "nontrivial": t.nontrivial, "faulty_runs": t.faulty_runs,
        "checked_twice": t.checked_twice, "diverged": t.diverged, "known": t.known, "faults": t.faults,
        "probes": t.probes, "per_scenario": t.per_scenario, "harness": t.harness,
    })
}

fn merge(t: &mut Totals, v: &Value) {
    let n = |k: &str| v[k].as_u64().unwrap_or(0);
    t.runs += n("runs");
    t.steps += n("steps");
    t.switches += n("switches");
    t.time_ns += n("time_ns");
    t.atomics += n("atomics");
    t.allocations += n("allocations");
    t.threads += n("threads");
    t.nontrivial += n("nontrivial");
    t.faulty_runs += n("faulty_runs");
    t.checked_twice += n("checked_twice");
    t.diverged += n("diverged");
    for (k, x) in v["known"].as_object().unwrap() {
        *t.known.entry(k.clone()).or_default() += x.as_u64().unwrap();
    }
    for (k, x) in v["faults"].as_object().unwrap() {
        let e = t.faults.entry(k.clone()).or_default();
        e.0 += x[0].as_u64().unwrap();
        e.1 += x[1].as_u64().unwrap();
        e.2 += x[2].as_u64().unwrap();
    }
    for (k, x) in v["probes"].as_object().unwrap() {
        let e = t.probes.entry(k.clone()).or_default();
        e.0 += x[0].as_u64().unwrap();
        e.1 += x[1].as_u64().unwrap();
    }
    for (k, x) in v["per_scenario"].as_object().unwrap() {
        let e = t.per_scenario.entry(k.clone()).or_default();
        e.0 += x[0].as_u64().unwrap();
        e.1 += x[1].as_u64().unwrap();
    }
    for x in v["harness"].as_array().unwrap() {
        t.harness.push(x.as_str().unwrap().to_string());
    }
}

fn name_hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

fn seed_of(base: u64, scenario: &Scenario, index: u64) -> u64 {
    mix(mix(base ^ name_hash(scenario.name)) ^ index)
}

#[derive(Clone)]
struct Known {
    property: String,
    scenario: String,
    class: String,
    contains: String,
    what: String,
}

fn load_known(path: &Path, property: &str) -> Vec<Known> {
    let Ok(text) = fs::read_to_string(path) else { return vec![] };
    let v: Value = serde_json::from_str(&text).expect("known findings file");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|f| Known {
                    property: f["property"].as_str().unwrap_or("").into(),
                    scenario: f["scenario"].as_str().unwrap_or("").into(),
                    class: f["class"].as_str().unwrap_or("").into(),
                    contains: f["contains"].as_str().unwrap_or("").into(),
                    what: f["what"].as_str().unwrap_or("").into(),
                })
                .filter(|k| k.property == property)
                .collect()
        })
        .unwrap_or_default()
}

fn is_known<'a>(known: &'a [Known], scenario: &str, o: &Outcome) -> Option<&'a Known> {
    known.iter().find(|k| k.scenario == scenario && k.class == o.class && o.message.contains(&k.contains))
}

fn allowed_cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = core::mem::zeroed();
        raw::syscall3(libc::SYS_sched_getaffinity, 0, core::mem::size_of::<libc::cpu_set_t>() as i64, &mut set as *mut _ as i64);
        (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect()
    }
}

fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = core::mem::zeroed();
        libc::CPU_SET(cpu, &mut set);
        raw::syscall3(libc::SYS_sched_setaffinity, 0, core::mem::size_of::<libc::cpu_set_t>() as i64, &set as *const _ as i64);
    }
}

#[repr(C)]
struct Control {
    next: AtomicU64,
    stop: AtomicU64,
    done: AtomicU64,
}

fn trace_json(t: &Trace) -> Value {
    Value::Array(t.iter().map(|&(a, b, c)| json!([a, b, c])).collect())
}

fn trace_from(v: &Value) -> Trace {
    v.as_array()
        .map(|a| a.iter().map(|e| (e[0].as_u64().unwrap() as u32, e[1].as_u64().unwrap(), e[2].as_u64().unwrap())).collect())
        .unwrap_or_default()
}

/// Delta debugging over the nonzero choices, then value reduction.
fn minimise(scenario: &Scenario, seed: u64, first: &Outcome, seconds: f64) -> (Trace, u64, Outcome) {
    let start = raw::real_now();
    let mut best = first.clone();
    let mut trace = first.trace.clone();
    let mut trials = 0;
    let mut attempt = |t: &Trace, trials: &mut u64| -> Option<Outcome> {
        if raw::real_now() - start > seconds || *trials > 4000 {
            return None;
        }
        *trials += 1;
        let o = run_once(scenario, seed, Some(t), false, true);
        (o.status == STATUS_VIOLATION && o.class == first.class).then_some(o)
    };
    // The recorded choices alone must reproduce it.
    match attempt(&trace, &mut trials) {
        Some(o) => {
            trace = o.trace.clone();
            best = o;
        }
        None => return (trace, trials, best),
    }
    let streams: BTreeSet<u32> = trace.iter().map(|e| e.0).collect();
    for s in streams.iter().rev() {
        let t: Trace = trace.iter().filter(|e| e.0 != *s).copied().collect();
        if t.len() < trace.len() {
            if let Some(o) = attempt(&t, &mut trials) {
                trace = o.trace.clone();
                best = o;
            }
        }
    }
    let mut chunk = (trace.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut progress = false;
        while i < trace.len() {
            let end = (i + chunk).min(trace.len());
            let mut t = trace.clone();
            t.drain(i..end);
            match attempt(&t, &mut trials) {
                Some(o) if o.trace.len() <= t.len() => {
                    trace = o.trace.clone();
                    best = o;
                    progress = true;
                }
                _ => i = end,
            }
        }
        if chunk == 1 && !progress {
            break;
        }
        if !progress || chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
        if raw::real_now() - start > seconds {
            break;
        }
    }
    for _ in 0..3 {
        let mut progress = false;
        for i in 0..trace.len() {
            for candidate in [1, trace.get(i).map(|e| e.2 / 2).unwrap_or(0), trace.get(i).map(|e| e.2.saturating_sub(1)).unwrap_or(0)] {
                if i < trace.len() && candidate > 0 && candidate < trace[i].2 {
                    let mut t = trace.clone();
                    t[i].2 = candidate;
                    if let Some(o) = attempt(&t, &mut trials) {
                        if o.trace.len() <= trace.len() {
                            trace = o.trace.clone();
                            best = o;
                            progress = true;
                        }
                    }
                }
            }
        }
        if !progress {
            break;
        }
    }
    (trace, trials, best)
}

fn argument(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if !sched::active() {
            raw::write_all(2, format!("{info}\n").as_bytes());
            return;
        }
        sched::kernel(|| {
            let text = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "(no message)".into());
            let place = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let s = sched::sim();
            s.panics.push(text.clone());
            sched::log(format!("panic: {text} at {place}"));
            // What a killed process does has no effect.
            if !s.os.processes[s.os.process()].killed && !s.expected_panics.iter().any(|p| text.starts_with(p.as_str())) {
                sched::violate("panic", &format!("{text} at {place}"));
            }
        });
    }));
}

unsafe fn no_aslr(args: &[String]) {
    let p = raw::syscall3(libc::SYS_personality, 0xffff_ffff, 0, 0);
    if p & 0x0040000 == 0 && std::env::var_os("PENSIM_REEXEC").is_none() {
        if raw::syscall3(libc::SYS_personality, p | 0x0040000, 0, 0) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(&args[1..]).env("PENSIM_REEXEC", "1").exec();
            raw::write_all(2, format!("re-exec failed: {e}\n").as_bytes());
        }
    }
}

pub fn main(suite: &Suite) -> ! {
    let args: Vec<String> = std::env::args().collect();
    unsafe {
        no_aslr(&args);
        shared::BASE = shared::map();
    }
    install_panic_hook();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in suite.scenarios {
                println!("{} {} {}", s.property, s.name, s.about);
            }
            0
        }
        Some("run") => {
            let name = argument(&args, "--scenario").expect("--scenario");
            let seed: u64 = argument(&args, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
            let index: Option<u64> = argument(&args, "--index").map(|s| s.parse().unwrap());
            let verbose = args.iter().any(|a| a == "-v");
            let s = suite.scenarios.iter().find(|s| s.name == name).expect("unknown scenario");
            let seed = index.map(|i| seed_of(seed, s, i)).unwrap_or(seed);
            let o = run_once(s, seed, None, verbose, false);
            println!("{}", describe(&o));
            (o.status != STATUS_OK) as i32
        }
        Some("determinism") => determinism(suite, &args),
        Some("replay") => replay(suite, &args[2]),
        Some("check") => check(suite, &args),
        _ => {
            eprintln!("usage: list | run | determinism | replay FILE | check");
            2
        }
    };
    std::io::stdout().flush().ok();
    raw::exit_group(code)
}

fn describe(o: &Outcome) -> String {
    format!(
        "status={} class={} message={} steps={} switches={} threads={} time={:.3}ms atomics={} allocations={} history={:016x} faults={:?} probes={:?}",
        o.status, o.class, o.message, o.steps, o.switches, o.threads, o.time_ns as f64 / 1e6, o.atomics, o.allocations, o.history, o.faults, o.probes
    )
}

fn determinism(suite: &Suite, args: &[String]) -> i32 {
    let runs: u64 = argument(args, "--runs").map(|s| s.parse().unwrap()).unwrap_or(50);
    let only = argument(args, "--scenario");
    let mut bad = 0;
    for s in suite.scenarios.iter().filter(|s| only.as_deref().is_none_or(|o| o == s.name)) {
        let mut diverged = 0;
        let start = raw::real_now();
        let mut steps = 0;
        let mut failures = 0;
        for i in 0..runs {
            let seed = seed_of(7, s, i);
            let a = run_once(s, seed, None, false, true);
            let b = run_once(s, seed, None, false, true);
            let c = run_once(s, seed, Some(&a.trace), false, true);
            steps += a.steps;
            failures += (a.status != STATUS_OK) as u64;
            if (a.history, a.steps, &a.log) != (b.history, b.steps, &b.log) {
                diverged += 1;
                println!("{} seed {seed}: run diverges", s.name);
                for (x, y) in a.log.iter().zip(&b.log) {
                    if x != y {
                        println!("  {x}\n  {y}");
                        break;
                    }
                }
            } else if (a.history, a.steps) != (c.history, c.steps) {
                diverged += 1;
                println!("{} seed {seed}: replay diverges ({} {} / {} {})", s.name, a.steps, a.status, c.steps, c.status);
                for (x, y) in a.log.iter().zip(&c.log) {
                    if x != y {
                        println!("  {x}\n  {y}");
                        break;
                    }
                }
            }
        }
        bad += diverged;
        println!("{}: {} runs x3, {} diverged, {} violations, {} steps, {:.2} ms per run", s.name, runs, diverged, failures, steps, (raw::real_now() - start) * 1e3 / runs as f64 / 3.0);
    }
    (bad > 0) as i32
}

fn replay(suite: &Suite, path: &str) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(path).expect("replay file")).expect("replay file");
    let name = v["scenario"].as_str().unwrap();
    let Some(s) = suite.scenarios.iter().find(|s| s.name == name) else {
        eprintln!("scenario {name} is not in this binary");
        return 2;
    };
    let trace = trace_from(&v["choices"]);
    let o = run_once(s, v["seed"].as_u64().unwrap(), Some(&trace), false, true);
    for l in &o.log {
        println!("{l}");
    }
    if o.status == STATUS_VIOLATION {
        println!("reproduced: class={} {}", o.class, o.message);
        println!("history={:016x} recorded={}", o.history, v["history"].as_str().unwrap_or("?"));
        println!("VIOLATION property={} replay={}", v["property"].as_str().unwrap(), path);
        1
    } else {
        println!("not reproduced: {}", describe(&o));
        0
    }
}

fn check(suite: &Suite, args: &[String]) -> i32 {
    let start = raw::real_now();
    let property = argument(args, "--property").expect("--property");
    let tier = argument(args, "--tier").unwrap_or("quick".into());
    let base: u64 = argument(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let evidence = argument(args, "--evidence");
    let replays = PathBuf::from(argument(args, "--replays").unwrap_or("replays".into()));
    let known_path = PathBuf::from(argument(args, "--known").unwrap_or("known_findings.json".into()));
    let workers: usize = argument(args, "--workers").map(|s| s.parse().unwrap()).unwrap_or_else(|| allowed_cpus().len().min(16));
    let seconds: f64 = argument(args, "--seconds").map(|s| s.parse().unwrap()).unwrap_or(if tier == "thorough" { 3000.0 } else { 240.0 });
    let factor: f64 = argument(args, "--factor").map(|s| s.parse().unwrap()).unwrap_or(1.0);
    let known = load_known(&known_path, &property);
    let scenarios: Vec<&Scenario> = suite.scenarios.iter().filter(|s| s.property == property).collect();
    if scenarios.is_empty() {
        eprintln!("no scenario for {property} in this binary");
        return 2;
    }
    println!("property={property} tier={tier} VERIF_SEED={base} workers={workers}");
    let counts: Vec<u64> = scenarios.iter().map(|s| ((if tier == "thorough" { s.thorough } else { s.quick }) as f64 * factor).max(1.0) as u64).collect();
    // Interleave the scenarios, proportionally to their counts.
    let total: u64 = counts.iter().sum();
    let mut jobs: Vec<(f64, usize, u64)> = vec![];
    for (i, &n) in counts.iter().enumerate() {
        for k in 0..n {
            jobs.push(((k as f64 + 0.5) / n as f64, i, k));
        }
    }
    jobs.sort_by(|a, b| a.0.total_cmp(&b.0).then(a.1.cmp(&b.1)));
    let dir = PathBuf::from(format!("/tmp/pensim-{}-{}", property, raw::getpid()));
    fs::create_dir_all(&dir).unwrap();
    let control = unsafe {
        let p = libc::mmap(core::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const Control)
    };
    let cpus = allowed_cpus();
    let mut pids = vec![];
    for w in 0..workers {
        let pid = unsafe { real_fork() };
        if pid == 0 {
            pin(cpus[w % cpus.len()]);
            unsafe {
                raw::syscall3(libc::SYS_prctl, libc::PR_SET_PDEATHSIG as i64, libc::SIGKILL as i64, 0);
                shared::BASE = shared::map();
            }
            let mut t = Totals::default();
            let mut hashes: Vec<u64> = vec![];
            let mut samples: Vec<Value> = vec![];
            loop {
                let n = control.next.fetch_add(1, Ordering::SeqCst);
                if n >= total || control.stop.load(Ordering::SeqCst) != 0 || raw::real_now() - start > seconds {
                    break;
                }
                let (_, i, k) = jobs[n as usize];
                let s = scenarios[i];
                let seed = seed_of(base, s, k);
                let twice = n % 64 == 5;
                let o = run_once(s, seed, None, false, false);
                t.runs += 1;
                t.steps += o.steps;
                t.switches += o.switches;
                t.time_ns += o.time_ns;
                t.atomics += o.atomics;
                t.allocations += o.allocations;
                t.threads += o.threads;
                let fired: u64 = o.faults.iter().map(|f| f.2).sum();
                t.faulty_runs += (fired > 0) as u64;
                if fired > 0 || o.switches > 2 {
                    t.nontrivial += 1;
                    hashes.push(o.history);
                } else if o.threads == 1 && o.steps >= 100 {
                    t.nontrivial += 1;
                    hashes.push(o.schedule);
                }
                for (name, a, b) in &o.faults {
                    let e = t.faults.entry(name.clone()).or_default();
                    e.0 += a;
                    e.1 += b;
                    e.2 += (*b > 0) as u64;
                }
                for (name, a) in &o.probes {
                    let e = t.probes.entry(name.clone()).or_default();
                    e.0 += a;
                    e.1 += 1;
                }
                let e = t.per_scenario.entry(s.name.to_string()).or_default();
                e.0 += 1;
                e.1 += o.steps;
                if samples.len() < 2 {
                    samples.push(json!({"scenario": s.name, "seed": seed, "steps": o.steps, "switches": o.switches, "threads": o.threads,
                        "simulated_ms": o.time_ns as f64 / 1e6, "history": format!("{:016x}", o.history),
                        "faults_fired": o.faults.iter().filter(|f| f.2 > 0).map(|f| json!([f.0, f.2])).collect::<Vec<_>>()}));
                }
                match o.status {
                    STATUS_OK => {
                        if twice {
                            let p = run_once(s, seed, None, false, false);
                            t.checked_twice += 1;
                            if (p.history, p.steps, p.status) != (o.history, o.steps, o.status) {
                                t.diverged += 1;
                            }
                        }
                    }
                    STATUS_VIOLATION => {
                        if let Some(k) = is_known(&known, s.name, &o) {
                            *t.known.entry(k.what.clone()).or_default() += 1;
                        } else {
                            let v = json!({"scenario": s.name, "seed": seed, "class": o.class, "message": o.message, "job": n});
                            fs::write(dir.join(format!("violation-{n:08}.json")), v.to_string()).unwrap();
                            control.stop.store(1, Ordering::SeqCst);
                            break;
                        }
                    }
                    _ => {
                        t.harness.push(format!("{} seed {}: {}", s.name, seed, o.message));
                        if t.harness.len() > 3 {
                            break;
                        }
                    }
                }
            }
            fs::write(dir.join(format!("worker-{w}.json")), json!({"totals": to_json(&t), "samples": samples}).to_string()).unwrap();
            let bytes: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
            fs::write(dir.join(format!("worker-{w}.bin")), bytes).unwrap();
            raw::exit_group(0);
        }
        pids.push(pid);
    }
    for pid in pids {
        let mut status = 0;
        unsafe {
            while raw::syscall6(libc::SYS_wait4, pid as i64, &mut status as *mut i32 as i64, 0, 0, 0, 0) == -(libc::EINTR as i64) {}
        }
    }
    let explored = raw::real_now() - start;
    let mut t = Totals::default();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut samples = vec![];
    let mut lost = 0;
    for w in 0..workers {
        match fs::read_to_string(dir.join(format!("worker-{w}.json"))) {
            Ok(text) => {
                let v: Value = serde_json::from_str(&text).unwrap();
                merge(&mut t, &v["totals"]);
                samples.extend(v["samples"].as_array().unwrap().iter().cloned());
            }
            Err(_) => lost += 1,
        }
        let mut bytes = vec![];
        if let Ok(mut f) = fs::File::open(dir.join(format!("worker-{w}.bin"))) {
            f.read_to_end(&mut bytes).ok();
        }
        distinct.extend(bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    if lost > 0 {
        t.harness.push(format!("{lost} workers died"));
    }
    let mut violations: Vec<Value> = fs::read_dir(&dir)
        .unwrap()
        .flatten()
        .filter(|e| e.file_name().to_string_lossy().starts_with("violation-"))
        .map(|e| serde_json::from_str(&fs::read_to_string(e.path()).unwrap()).unwrap())
        .collect();
    violations.sort_by_key(|v| v["job"].as_u64());
    fs::remove_dir_all(&dir).ok();

    let mut code = 0;
    let mut reported = 0;
    for v in &violations {
        let s = *scenarios.iter().find(|s| s.name == v["scenario"].as_str().unwrap()).unwrap();
        let seed = v["seed"].as_u64().unwrap();
        let first = run_once(s, seed, None, false, true);
        if first.status != STATUS_VIOLATION {
            t.harness.push(format!("{} seed {seed}: violation {} did not reproduce", s.name, v["class"]));
            continue;
        }
        if is_known(&known, s.name, &first).is_some() {
            continue;
        }
        let (trace, trials, best) = minimise(s, seed, &first, if tier == "thorough" { 240.0 } else { 90.0 });
        fs::create_dir_all(&replays).unwrap();
        let path = replays.join(format!("{property}-{}-{:016x}.json", s.name, seed));
        let doc = json!({
            "property": property, "scenario": s.name, "seed": seed, "verif_seed": base, "class": best.class, "message": best.message,
            "original": {"choices": first.trace.len(), "steps": first.steps, "switches": first.switches},
            "minimised": {"choices": trace.len(), "steps": best.steps, "switches": best.switches, "trials": trials},
            "history": format!("{:016x}", best.history),
            "streams": "0 configuration, 1 workload, 2 faults, 3 latencies, 5 wake order, 6 readiness order, 16+t preemption of thread t at its n-th scheduling point, 128+t successor when thread t blocks",
            "choices": trace_json(&trace), "log": best.log,
        });
        fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("violation in scenario {} seed {seed}: {}: {}", s.name, best.class, best.message);
        println!("minimised from {} to {} choices in {} runs", first.trace.len(), trace.len(), trials);
        for l in best.log.iter().rev().take(30).collect::<Vec<_>>().into_iter().rev() {
            println!("  {l}");
        }
        println!("VIOLATION property={property} replay={}", path.display());
        reported += 1;
        code = 1;
        break;
    }
    for k in &known {
        let n = t.known.get(&k.what).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={property} {} (met in {n} of {} runs)", k.what, t.runs);
    }
    let wall = raw::real_now() - start;
    if let Some(path) = evidence {
        let faults: serde_json::Map<String, Value> = t.faults.iter().map(|(k, v)| (k.clone(), json!({"opportunities": v.0, "fired": v.1, "runs_with": v.2}))).collect();
        let probes: serde_json::Map<String, Value> = t.probes.iter().map(|(k, v)| (k.clone(), json!({"hits": v.0, "runs": v.1}))).collect();
        let per: serde_json::Map<String, Value> = scenarios
            .iter()
            .map(|s| {
                let v = t.per_scenario.get(s.name).copied().unwrap_or((0, 0));
                (s.name.to_string(), json!({"runs": v.0, "scheduling_points": v.1, "about": s.about}))
            })
            .collect();
        let doc = json!({
            "property": property, "tier": if tier == "thorough" { "thorough" } else { "quick" }, "seed": base, "level": "exploration",
            "coverage": {
                "evaluations": t.runs,
                "distinct_nontrivial": distinct.len(),
                "rule": "One evaluation is one simulated run of the real code in its own process: every workload, configuration, fault, latency and scheduling choice is drawn from the run's seed. It is non-trivial when a fault fired or the simulated threads switched more than twice; distinct by a hash over every context switch (thread and position) and every simulated system call's result. A run of a program with one thread and no fault is non-trivial when it has a hundred scheduling points, and distinct by a hash over its choices.",
                "samples": samples.into_iter().take(4).collect::<Vec<_>>(),
                "nontrivial_runs": t.nontrivial,
                "runs_with_faults": t.faulty_runs,
                "runs_per_hour": (t.runs as f64 / explored * 3600.0) as u64,
                "simulated_seconds": t.time_ns as f64 / 1e9,
                "scheduling_points": t.steps,
                "context_switches": t.switches,
                "atomic_operations": t.atomics,
                "simulated_threads": t.threads,
                "heap_allocations_tracked": t.allocations,
                "faults": faults,
                "probes": probes,
                "scenarios": per,
                "determinism": {"runs_repeated": t.checked_twice, "diverged": t.diverged},
                "known_findings_met": t.known,
                "real_components": suite.real, "stubbed_components": suite.stub,
                "planned_runs": total, "exhaustive": false,
            },
            "assumptions": ["atomics execute in a sequentially consistent total order; weaker orderings are covered only through happens-before race detection where enabled", "code of the standard library is preempted only at its system calls"],
            "wall_s": wall, "violations": reported,
        });
        if let Some(p) = Path::new(&path).parent() {
            fs::create_dir_all(p).ok();
        }
        fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
    }
    println!(
        "runs={} distinct={} steps={} faulty={} repeated={} diverged={} explored={:.1}s wall={:.1}s",
        t.runs, distinct.len(), t.steps, t.faulty_runs, t.checked_twice, t.diverged, explored, wall
    );
    for h in t.harness.iter().take(5) {
        eprintln!("harness error: {h}");
    }
    if code == 0 && !t.harness.is_empty() {
        code = 2;
    }
    code
}
