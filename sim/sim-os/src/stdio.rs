//! Standard input, output and error, and debug messages.
use crate::rt::*;
use pensim::api::*;
use sim_kit::{wire::bytes, *};

#[derive(Clone, Debug)]
struct Message {
    data: Vec<u8>,
    count: Option<usize>, // None: it failed or has not returned
}

static CALLS: Plain<[Vec<Call<Message>>; 2]> = Plain::new([vec![], vec![]]);

fn written(channel: usize) -> Vec<u8> {
    os(|o| o.out[1 + channel].data.clone())
}

fn check_output(channel: usize, when: &str) {
    let out = written(channel);
    let calls = CALLS.with(|c| c[channel].clone());
    let name = ["standard output", "standard error"][channel];
    let r = linearize(0usize, &calls, |&at, m| {
        let same = out[at..].iter().zip(&m.data).take_while(|(a, b)| a == b).count();
        match m.count {
            Some(n) if n <= same => vec![at + n],
            Some(_) => vec![],
            None => (0..=same).map(|n| at + n).collect(),
        }
    });
    match r {
        Ok(ends) => ensure!(ends.is_empty() || ends.contains(&out.len()), "wrong-output", "{name} has {} bytes {when}, more than the messages {ends:?}", out.len()),
        Err(best) => fail(
            "wrong-output",
            format!("{name} has {} bytes {when} that are no sequence of the messages, only of {best:?} of {:?}", out.len(), calls.iter().map(|c| (c.from, c.to, c.op.data.len(), c.op.count)).collect::<Vec<_>>()),
        ),
    }
}

fn check_outputs(when: &str) {
    check_output(0, when);
    check_output(1, when);
}

fn begin(channel: usize, data: &[u8]) -> usize {
    let from = steps();
    CALLS.with(|c| {
        c[channel].push(Call { op: Message { data: data.to_vec(), count: None }, from, to: u64::MAX });
        c[channel].len() - 1
    })
}

fn end(channel: usize, i: usize, count: Option<usize>) {
    let to = steps();
    CALLS.with(|c| {
        c[channel][i].op.count = count;
        c[channel][i].to = to;
    });
    let acked: usize = CALLS.with(|c| c[channel].iter().map(|c| c.op.count.unwrap_or(0)).sum());
    let out = written(channel).len();
    ensure!(out >= acked, "lost-output", "{acked} bytes are acknowledged, {out} are written");
}

async fn message(task: usize, i: usize) {
    let stream = (task * 100 + i) as u64;
    match work(6) {
        0 => {
            let middle = match work(4) {
                0 => "\0\x01 \r\u{fe}\u{1f600}\x1b{}\"\\",
                1 => "two\nlines\n",
                _ => "",
            };
            let mut text = format!("<{task}.{i}>{middle}{}", "x".repeat(work(20) as usize)).into_bytes();
            let shown = if work(6) == 0 {
                text.push(0xff);
                b"failed to decode debug message".to_vec()
            } else {
                text.clone()
            };
            let k = begin(1, &[&shown[..], b"\n"].concat());
            let failures = fired("stdout.eio");
            debug(&text);
            end(1, k, (fired("stdout.eio") == failures).then_some(shown.len() + 1));
            probe("a debug message was written");
        }
        n => {
            let channel = (n > 3) as usize;
            let size = match work(12) {
                0..=8 => work(30) as usize,
                9..=10 => work(3000) as usize,
                _ => 8000 + work(60000) as usize,
            };
            // Lines, as buffers treat them specially.
            let mut data = bytes(stream, 0, size);
            let lines = work(3);
            for (j, b) in data.iter_mut().enumerate() {
                if *b == b'\n' || lines > 0 && j % 7 == 3 * lines as usize % 7 {
                    *b = if lines > 0 { b'\n' } else { 0 };
                }
            }
            let k = begin(channel, &data);
            let r = if channel == 0 { write_stdout(&data).await } else { write_stderr(&data).await };
            match r {
                Ok(n) => {
                    ensure!(n <= size && (n > 0 || size == 0), "wrong-count", "a write of {size} bytes acknowledges {n}");
                    end(channel, k, Some(n))
                }
                Err(e) => {
                    ensure!(fired("stdout.eio") > 0, "false-error", "a write fails: {e}");
                    probe("a write failed");
                    end(channel, k, None)
                }
            }
        }
    }
}

/// Messages to standard output and error.
pub fn output() {
    machine();
    system_faults(&["stdout.eintr", "stdout.short-write", "futex.spurious-wake", "epoll.eintr", "epoll.early-timeout", "stdout.eio"], 15);
    let tasks = 1 + work(4) as usize;
    let per = 1 + work(5) as usize;
    let ending = work(4);
    os(|o| o.on_exit = Some(Box::new(|_| check_outputs("when the process ends"))));
    if ending == 3 {
        at(work(1_500_000), || {
            check_outputs("when the process is killed");
            done()
        });
    }
    start(async move {
        let mut all = vec![];
        for t in 0..tasks {
            all.push(
                task(async move {
                    for i in 0..per {
                        message(t, i).await;
                    }
                })
                .await,
            );
        }
        if ending == 2 {
            sleep(work(2) as f64).await;
            exit(0.0).await;
        }
        wait_all(all).await;
        check_outputs("when all tasks have ended");
    });
    check_outputs("after the program has ended");
}

// ---------------------------------------------------------------- standard input

#[derive(Clone, Debug)]
enum Input {
    Limit(usize, Vec<u8>),
    Whole(Vec<u8>),
}

#[derive(Default)]
struct Typist {
    data: &'static [u8],
    lines: Vec<usize>,
    typed: usize,
    returned: usize,
    whole: usize, // reads up to the end under way
    idle: u64,
    seen: usize, // bytes returned at the last look
}
static TYPIST: Plain<Typist> = Plain::new(Typist { data: &[], lines: vec![], typed: 0, returned: 0, whole: 0, idle: 0, seen: 0 });

/// Types the next line once the program has got those before it.
fn type_on() {
    let taken = os(|o| o.stdin.buffer.is_empty());
    let over = TYPIST.with(|t| {
        t.idle = if t.returned == t.seen { t.idle + 1 } else { 0 };
        t.seen = t.returned;
        if t.returned < t.typed && !(t.whole > 0 && taken) {
            ensure!(t.idle < 20_000, "stuck-read", "{} of the {} bytes typed are read, and no read returns any more", t.returned, t.typed);
            return false;
        }
        t.idle = 0;
        match t.lines.pop() {
            Some(n) => {
                let line = &t.data[t.typed..t.typed + n];
                t.typed += n;
                os(|o| o.stdin.buffer.extend(line));
                false
            }
            None => {
                os(|o| o.stdin.eof = true);
                true
            }
        }
    });
    if !over {
        at(200_000, type_on);
    }
}

/// Tasks share standard input.
pub fn input() {
    machine();
    system_faults(&["stdin.eintr", "stdin.short-read", "futex.spurious-wake", "epoll.eintr", "epoll.early-timeout"], 15);
    let total = match work(8) {
        0 => 0,
        1..=5 => work(60),
        6 => work(3000),
        _ => 8192 + work(9000),
    } as usize;
    let data: &'static [u8] = Box::leak(bytes(5, 0, total).into_boxed_slice());
    // In a conversation, more comes only after what came before has been read.
    let conversation = total < 200 && work(3) == 1;
    let mut sent = 0;
    let mut time = 0;
    if conversation {
        probe("standard input waited for its reader");
        let mut rest = total;
        let mut lines = vec![];
        while rest > 0 {
            let n = (1 + work(12) as usize).min(rest);
            lines.push(n);
            rest -= n;
        }
        TYPIST.with(|t| {
            t.data = data;
            t.lines = lines;
        });
        at(0, type_on);
    }
    while sent < total && !conversation {
        let n = match work(3) {
            0 => total - sent,
            1 => 1 + work(9) as usize,
            _ => 1 + work(5000) as usize,
        }
        .min(total - sent);
        let (from, to) = (sent, sent + n);
        at(time, move || os(|o| o.stdin.buffer.extend(&data[from..to])));
        sent += n;
        time += if work(30) == 29 { 1_000_000 * [1_500, 31_000, 130_000, 8_000_000][work(4) as usize] } else { [0, 1_000, 100_000, 2_000_000][work(4) as usize] };
    }
    if !conversation {
        at(time, || os(|o| o.stdin.eof = true));
    }
    let tasks = 1 + work(4) as usize;
    let per = 1 + work(5) as usize;
    let calls: &'static Plain<Vec<Call<Input>>> = Box::leak(Box::new(Plain::new(vec![])));
    start(async move {
        let mut all = vec![];
        for t in 0..tasks {
            all.push(
                task(async move {
                    for i in 0..per {
                        let from = steps();
                        // Somebody reads the rest in the end.
                        let op = if work(6) == 1 || (t == 0 && i + 1 == per) {
                            TYPIST.with(|t| t.whole += 1);
                            let b = get(read_stdin().await);
                            TYPIST.with(|t| t.whole -= 1);
                            Input::Whole(b)
                        } else {
                            let limit = [1, 2, 7, 30, 9000, 0][work(6) as usize];
                            Input::Limit(limit, get(read_limit_stdin(limit).await))
                        };
                        let to = steps();
                        let (Input::Whole(b) | Input::Limit(_, b)) = &op;
                        TYPIST.with(|t| t.returned += b.len());
                        say!("[{from}, {to}] {op:?}");
                        calls.with(|c| c.push(Call { op, from, to }));
                        if work(3) == 1 {
                            sleep(work(2) as f64).await;
                        }
                    }
                })
                .await,
            );
        }
        wait_all(all).await;
    });
    let calls = calls.with(|c| c.clone());
    let r = linearize(0usize, &calls, |&at, op| {
        let rest = &data[at..];
        let ok = match op {
            Input::Whole(b) => rest == b,
            Input::Limit(n, b) => rest.starts_with(b) && b.len() <= *n && (!b.is_empty() || *n == 0 || rest.is_empty()),
        };
        if ok {
            let (Input::Whole(b) | Input::Limit(_, b)) = op;
            vec![at + b.len()]
        } else {
            vec![]
        }
    });
    match r {
        Ok(ends) => ensure!(ends.is_empty() || ends == [total], "lost-input", "{ends:?} of {total} bytes of standard input are read"),
        Err(best) => fail("wrong-input", format!("the reads are no sequence: {calls:?}, at most {best:?}")),
    }
}

fn get(r: Result<Vec<u8>>) -> Vec<u8> {
    match r {
        Ok(b) => b,
        Err(e) => fail("false-error", format!("reading standard input fails: {e}")),
    }
}
