//! Commands, and the end of programs.
use crate::{rt::*, time::MS};
use ffi::List;
use pensim::{api::*, sys::ProgramRun};
use sim_kit::{wire::bytes, *};

// ---------------------------------------------------------------- commands

fn say_program(args: &[Vec<u8>]) -> ProgramRun {
    let mut h = 0u64;
    for a in args {
        for &b in a {
            h = h.wrapping_mul(31).wrapping_add(b as u64 + 1);
        }
    }
    let sizes = [0, 1, 100, 70_000, 300_000];
    ProgramRun {
        stdout: bytes(h, 0, sizes[h as usize % 5]),
        stderr: bytes(h + 1, 0, sizes[(h / 5) as usize % 5]),
        // Some take longer than anything that gives up would wait.
        duration: if h / 400 % 40 == 7 { [1_500, 31_000, 400_000, 8_000_000][(h / 25) as usize % 4] * MS } else { [0, 1000, MS, 50 * MS][(h / 25) as usize % 4] },
        status: [0, 0, 256, 9][(h / 100) as usize % 4],
    }
}

/// Commands run with their arguments, to their end.
pub fn commands() {
    machine();
    faults(&["proc.eagain", "proc.wait-eintr", "epoll.eintr", "epoll.early-timeout", "epoll.one-at-a-time", "futex.spurious-wake", "poll.eintr", "fs.emfile"], 10);
    os(|o| {
        o.programs.insert("say".into(), say_program);
        o.programs.insert("/bin/other".into(), say_program);
    });
    let tasks = 1 + work(3) as usize;
    let per = 1 + work(3) as usize;
    let begun: &'static Plain<Vec<Vec<Vec<u8>>>> = Box::leak(Box::new(Plain::new(vec![])));
    start(async move {
        // The runtime keeps descriptors of its own once it has waited for a command.
        let mut all = vec![];
        for t in 0..tasks {
            all.push(
                task(async move {
                    for i in 0..per {
                        one_command(t * 10 + i, begun).await;
                    }
                })
                .await,
            );
        }
        wait_all(all).await;
        let before = os(|o| o.open_fds());
        for i in 0..3 {
            one_command(900 + i, begun).await;
        }
        sleep(200.0).await;
        let unreaped = os(|o| o.children.iter().filter(|c| !c.reaped).count());
        ensure!(unreaped == 0, "unreaped", "{unreaped} commands were never reaped");
        let after = os(|o| o.open_fds());
        ensure!(after <= before + 3, "leaked-descriptors", "commands leave {before}, then {after} descriptors open");
    });
    let mut spawned: Vec<Vec<Vec<u8>>> = os(|o| o.children.iter().map(|c| c.args.clone()).collect());
    let mut expected = begun.with(|b| b.clone());
    spawned.sort();
    expected.sort();
    let printed: Vec<u8> = os(|o| [&o.out[1].data[..], &o.out[2].data[..]].concat());
    ensure!(printed.is_empty(), "stray-output", "the program prints {} bytes of its own accord", printed.len());
    ensure!(spawned == expected, "wrong-command", "the commands {spawned:?} were run, not {expected:?}");
}

async fn one_command(id: usize, begun: &'static Plain<Vec<Vec<Vec<u8>>>>) {
    let name = ["say", "/bin/other", "missing"][[0, 0, 1, 0, 2][work(5) as usize]];
    let mut args: Vec<Vec<u8>> = vec![format!("#{id}").into_bytes()];
    for k in 0..work(4) {
        args.push(match work(5) {
            0 => vec![],
            1 => b"two words".to_vec(),
            2 => "π $HOME *".into(),
            3 => "y".repeat(1 + work(300) as usize).into_bytes(),
            _ => format!("-{k}").into_bytes(),
        });
    }
    let odd = work(12) == 1;
    if odd {
        args.push(vec![0xff, 0xfe]);
    }
    let list = if work(2) == 0 {
        strict_list(args.iter().map(|a| s(a)).collect::<Vec<_>>())
    } else {
        lazy_arguments(args.clone(), 0)
    };
    let before = os(|o| o.children.len());
    let faults = fired("proc.eagain") + fired("fs.emfile");
    let r = run_command(name, list).await;
    let mut argv = vec![name.as_bytes().to_vec()];
    argv.extend(args.clone());
    match r {
        Ok(()) => {
            ensure!(!odd && name != "missing", "wrong-outcome", "{argv:?} was run");
            let c = os(|o| o.children.iter().skip(before.saturating_sub(40)).find(|c| c.args == argv).map(|c| (c.exited, c.reaped)));
            ensure!(matches!(c, Some((Some(_), _))), "early-result", "{argv:?} is reported as run while it is in state {c:?}");
            begun.with(|b| b.push(argv));
        }
        Err(e) => {
            ensure!(odd || name == "missing" || fired("proc.eagain") + fired("fs.emfile") > faults, "wrong-outcome", "running {argv:?} fails: {e}");
            // It may have been started all the same.
            if os(|o| o.children.iter().any(|c| c.args == argv)) {
                begun.with(|b| b.push(argv));
            }
        }
    }
}

fn lazy_arguments(args: Vec<Vec<u8>>, i: usize) -> List {
    lazy_list(async move {
        if i == args.len() {
            return List::new();
        }
        let x = args[i].clone();
        prepend_thunk(
            thunk(async move {
                yield_().await;
                s(x).into()
            }),
            lazy_arguments(args, i + 1),
        )
    })
}

// ---------------------------------------------------------------- the end

/// What a task is in the middle of when the program ends.
async fn linger(kind: u64) {
    match kind {
        0 => sleep(1e12).await,
        1 => {
            if let Ok(l) = tcp_bind("127.0.0.1:0").await {
                let _ = tcp_accept(&l).await;
            }
        }
        2 => {
            let _ = read_limit_stdin(10).await;
        }
        3 => loop {
            // Some work on a processor.
            sleep_ns(100_000);
            yield_().await
        },
        4 => {
            if let Ok(h) = udp_bind("127.0.0.1:0").await {
                let _ = udp_receive(&h).await;
            }
        }
        5 => {
            os(|o| o.programs.insert("forever".into(), |_| ProgramRun { stdout: vec![], stderr: vec![], duration: 1 << 50, status: 0 }));
            let _ = run_command("forever", List::new()).await;
        }
        6 => loop {
            let _ = size("/tmp").await;
            sleep(1.0).await;
        },
        _ => {
            let _ = read_stdin().await;
        }
    }
}

/// A program ends soon after its main function has returned or it has asked to exit, with the
/// status asked for.
pub fn ending() {
    machine();
    faults(&["epoll.eintr", "epoll.early-timeout", "futex.spurious-wake"], 10);
    let lingering = work(4);
    let exits = work(3) == 1;
    let code = [0.0, 1.0, 2.0, 42.0, 255.0, 3.7, -1.0][work(7) as usize];
    let asked: &'static Plain<u64> = Box::leak(Box::new(Plain::new(0)));
    let check_end = move || {
        let took = now() - asked.with(|t| *t);
        ensure!(took < 70 * MS, "late-end", "the program ends {took} ns after it was to");
    };
    if exits {
        os(|o| {
            o.on_exit = Some(Box::new(move |c| {
                ensure!(c == code as i32, "wrong-status", "the program exits with {c} instead of {code}");
                check_end();
            }))
        });
    }
    at(10_000 * MS, || fail("no-end", "the program has not ended"));
    start(async move {
        let mut all = vec![];
        for _ in 0..lingering {
            let kind = work(8);
            all.push(task(linger(kind)).await);
        }
        sleep(work(4) as f64).await;
        let leaving = async move {
            asked.with(|t| *t = now());
            exit(code).await;
            fail("no-end", "the exit returns")
        };
        if exits && work(2) == 0 {
            wait(task(leaving).await).await;
        } else if exits {
            leaving.await
        }
        asked.with(|t| *t = now());
    });
    ensure!(!exits, "no-end", "the program goes on after its exit");
    check_end();
}
