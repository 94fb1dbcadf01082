//! TCP and UDP.
use crate::rt::*;
use pensim::api::*;
use sim_kit::{wire::bytes, *};
use std::{
    collections::BTreeMap,
    io::{self, Read, Write},
    net::{TcpListener, TcpStream, UdpSocket},
    thread,
};

const HIDDEN: &[&str] = &["epoll.eintr", "epoll.early-timeout", "epoll.one-at-a-time", "futex.spurious-wake", "net.short-send", "net.short-receive"];

pub fn net_faults(extra: &[&'static str], budget: u64) {
    let kinds: Vec<&'static str> = HIDDEN.iter().chain(extra).copied().collect();
    system_faults(&kinds, budget);
}

pub fn resets() -> u64 {
    ["net.reset", "net.reset-in-backlog", "net.eintr"].iter().map(|f| fired(f)).sum()
}

/// One direction of a connection: what is sent on it, and what arrives.
pub struct Way {
    pub sends: Vec<Call<Sent>>,
    pub receives: Vec<Call<Vec<u8>>>,
    pub sent: usize,     // acknowledged
    pub received: usize, // in all
    pub failed: bool,
    pub ended: bool,
}

#[derive(Clone)]
pub struct Sent {
    pub stream: u64,
    pub from: usize,
    pub size: usize,
    pub count: Option<usize>,
}

pub static WAYS: Plain<Vec<Way>> = Plain::new(vec![]);

pub fn way() -> usize {
    WAYS.with(|w| {
        w.push(Way { sends: vec![], receives: vec![], sent: 0, received: 0, failed: false, ended: false });
        w.len() - 1
    })
}

pub fn begin_send(w: usize, stream: u64, from: usize, size: usize) -> usize {
    let at = steps();
    WAYS.with(|ws| {
        ws[w].sends.push(Call { op: Sent { stream, from, size, count: None }, from: at, to: u64::MAX });
        ws[w].sends.len() - 1
    })
}

pub fn end_send(w: usize, k: usize, count: Option<usize>) {
    let at = steps();
    WAYS.with(|ws| {
        let c = &mut ws[w].sends[k];
        c.op.count = count;
        c.to = at;
        ws[w].sent += count.unwrap_or(0);
        ws[w].failed |= count.is_none();
    })
}

pub fn end_receive(w: usize, from: u64, data: Vec<u8>) {
    let to = steps();
    WAYS.with(|ws| {
        ws[w].received += data.len();
        ws[w].receives.push(Call { op: data, from, to });
    })
}

/// Is some order of the receives, which several receivers that overlap leave open, the beginning of
/// some order of the sends? A send is put into the order only when a receive needs its bytes: it
/// began before that receive returned, and those before it in real time come first.
fn ordered(sends: &[Call<Sent>], receives: &[Call<Vec<u8>>]) -> bool {
    type State = (u64, u64, Option<(usize, usize)>, (usize, usize, usize));
    let next = |done: u64, froms: &dyn Fn(usize) -> (u64, u64), n: usize| -> Vec<usize> {
        let limit = (0..n).filter(|i| done >> i & 1 == 0).map(|i| froms(i).1).min().unwrap_or(u64::MAX);
        (0..n).filter(|&i| done >> i & 1 == 0 && froms(i).0 <= limit).collect()
    };
    let data: Vec<Vec<u8>> = sends.iter().map(|s| bytes(s.op.stream, s.op.from as u64, s.op.size)).collect();
    let mut seen = std::collections::HashSet::new();
    let mut stack: Vec<State> = vec![(0, 0, None, (0, 0, 0))];
    while let Some(state) = stack.pop() {
        if !seen.insert(state) {
            continue;
        }
        if seen.len() > 500_000 {
            probe("a stream had too many orders to search them all");
            return true;
        }
        let (sent, received, current, (s, at, end)) = state;
        let Some((r, offset)) = current else {
            let all = next(received, &|i| (receives[i].from, receives[i].to), receives.len());
            if all.is_empty() {
                return true;
            }
            for r in all {
                stack.push((sent, received | 1 << r, Some((r, 0)), (s, at, end)));
            }
            continue;
        };
        let wanted = &receives[r].op[offset..];
        if wanted.is_empty() {
            stack.push((sent, received, None, (s, at, end)));
        } else if at < end {
            let n = wanted.len().min(end - at);
            if wanted[..n] == data[s][at..at + n] {
                stack.push((sent, received, Some((r, offset + n)), (s, at + n, end)));
            }
        } else {
            for s in next(sent, &|i| (sends[i].from, sends[i].to), sends.len()) {
                let op = &sends[s].op;
                if sends[s].from > receives[r].to {
                    continue;
                }
                match op.count {
                    Some(n) => stack.push((sent | 1 << s, received, current, (s, 0, n))),
                    None => {
                        let same = wanted.iter().zip(&data[s]).take_while(|(a, b)| a == b).count();
                        for n in (0..=same).chain([op.size]) {
                            stack.push((sent | 1 << s, received, current, (s, 0, n)));
                        }
                    }
                }
            }
        }
    }
    false
}

/// Some order of the receives is some order of the sends.
pub fn check_way(w: usize) {
    let (sends, receives, ended, failed, sent) = WAYS.with(|ws| (ws[w].sends.clone(), ws[w].receives.clone(), ws[w].ended, ws[w].failed, ws[w].sent));
    let total: usize = receives.iter().map(|r| r.op.len()).sum();
    if sends.len() > 60 || receives.len() > 60 {
        probe("a stream had too many pieces to check their order");
        return;
    }
    if !Plain::new(()).with(|_| ordered(&sends, &receives)) {
        let s: Vec<_> = sends.iter().map(|c| (c.from, c.to, c.op.stream, c.op.from, c.op.size, c.op.count)).collect();
        let g: Vec<_> = receives.iter().map(|c| (c.from, c.to, c.op.len())).collect();
        fail("wrong-stream", format!("the {total} bytes received {g:?} are no sequence of what was sent {s:?}"));
    }
    if ended && !failed && resets() == 0 {
        ensure!(total == sent, "lost-bytes", "the end of the stream comes after {total} of {sent} bytes");
    }
}

#[derive(Clone, Debug)]
pub struct Side {
    pub sizes: Vec<Vec<usize>>, // of the pieces each of its senders sends
    pub limits: Vec<usize>,     // of the receives
    pub receivers: usize,
    pub drains: bool, // receives up to the end of the stream, which the other side decides
    pub waits: bool, // sends only after it has received something
}

impl Side {
    pub fn total(&self) -> usize {
        self.sizes.iter().flatten().sum()
    }

    /// The receives it may take to get all that the other side sends.
    pub fn receives(&self, other: &Side) -> usize {
        other.total() / self.limits.iter().min().unwrap()
    }
}

pub fn side(drains: bool) -> Side {
    let senders = 1 + work(2) as usize;
    let big = work(6) == 1;
    Side {
        sizes: (0..senders)
            .map(|_| (0..1 + work(4)).map(|_| 1 + work(if big { os(|o| o.send_buffer as u64 * 2).min(9000) } else { 40 }) as usize).collect())
            .collect(),
        limits: (0..1 + work(3)).map(|_| if big { 300 + work(60_000) as usize } else { 5 + work(50) as usize }).collect(),
        receivers: if drains { 1 + work(2) as usize } else { 1 },
        drains,
        waits: false,
    }
}

/// Sometimes nothing happens for longer than anything that gives up would wait.
pub fn idle() -> Option<u64> {
    (work(50) == 49).then(|| {
        probe("nothing happened for long");
        [1_500, 31_000, 61_000, 130_000, 1_000_000, 8_000_000][work(6) as usize]
    })
}

/// Sends all of this side and receives all of the other, on one handle shared by tasks.
async fn exchange(h: Handle, mine: &'static Side, theirs: &'static Side, out: usize, in_: usize, id: u64) {
    let total = theirs.total();
    let got: &'static Plain<usize> = Box::leak(Box::new(Plain::new(0)));
    let broken: &'static Plain<bool> = Box::leak(Box::new(Plain::new(false)));
    let told: &'static Plain<bool> = Box::leak(Box::new(Plain::new(false)));
    let mut tasks = vec![];
    for (k, sizes) in mine.sizes.iter().enumerate() {
        let h = h.clone();
        tasks.push(
            task(async move {
                while mine.waits && got.with(|g| *g) == 0 && !broken.with(|b| *b) {
                    sleep(1.0).await;
                }
                let stream = id * 10 + k as u64;
                let mut from = 0;
                for &size in sizes {
                    let mut rest = size;
                    while rest > 0 {
                        let i = begin_send(out, stream, from, rest);
                        match tcp_send(&h, &bytes(stream, from as u64, rest)).await {
                            Ok(n) => {
                                ensure!(n > 0 && n <= rest, "wrong-count", "a send of {rest} bytes acknowledges {n}");
                                end_send(out, i, Some(n));
                                rest -= n;
                                from += n;
                            }
                            Err(e) => {
                                ensure!(resets() > 0 || WAYS.with(|w| w[in_].ended), "false-error", "sending fails: {e}");
                                probe("sending failed");
                                end_send(out, i, None);
                                broken.with(|b| *b = true);
                                told.with(|t| *t = true);
                                return;
                            }
                        }
                        if let Some(ms) = idle() {
                            sleep(ms as f64).await;
                        }
                        if work(4) == 1 {
                            yield_().await;
                        }
                    }
                }
            })
            .await,
        );
    }
    for r in 0..mine.receivers {
        let h = h.clone();
        tasks.push(
            task(async move {
                let mut i = r;
                while (mine.drains || got.with(|g| *g) < total) && !broken.with(|b| *b) {
                    let limit = mine.limits[i % mine.limits.len()];
                    i += 1;
                    if !receive_one(&h, limit, in_, got, told).await {
                        broken.with(|b| *b = true);
                    }
                }
            })
            .await,
        );
    }
    wait_all(tasks).await;
    let got = got.with(|g| *g);
    let (ended, failed) = WAYS.with(|w| (w[in_].ended, w[in_].failed || w[out].failed));
    ensure!(got == total || failed || resets() > 0, "early-end", "the stream ends after {got} of {total} bytes");
    // A connection that breaks does not look like one that is closed.
    ensure!(got == total || told.with(|t| *t) || fired("net.eintr") > 0, "early-end", "the stream ends after {got} of {total} bytes when it breaks");
    if ended {
        probe("the end of a stream was seen");
    }
}

async fn receive_one(h: &Handle, limit: usize, in_: usize, got: &'static Plain<usize>, told: &'static Plain<bool>) -> bool {
    let from = steps();
    match tcp_receive(h, limit).await {
        Ok(b) => {
            ensure!(b.len() <= limit, "wrong-count", "{} bytes are received, more than {limit}", b.len());
            if b.is_empty() {
                WAYS.with(|w| w[in_].ended = true);
                return false;
            }
            got.with(|g| *g += b.len());
            end_receive(in_, from, b);
            true
        }
        Err(e) => {
            ensure!(resets() > 0 || WAYS.with(|w| w[in_].ended || w[in_].failed), "false-error", "receiving fails: {e}");
            probe("receiving failed");
            told.with(|t| *t = true);
            WAYS.with(|w| w[in_].failed = true);
            false
        }
    }
}

/// The other side of a connection, not written in Pen.
pub fn peer(mut s: TcpStream, mine: &'static Side, theirs: &'static Side, out: usize, in_: usize, id: u64) {
    let mut w = s.try_clone().unwrap();
    let waits = mine.waits;
    let started: &'static Plain<bool> = Box::leak(Box::new(Plain::new(false)));
    let sender = thread::spawn(move || {
        let mut pause = 500.0f64;
        while waits && !started.with(|s| *s) {
            thread::sleep(std::time::Duration::from_micros(pause as u64));
            pause *= 1.05;
        }
        for (k, sizes) in mine.sizes.iter().enumerate() {
            let mut from = 0;
            let stream = id * 10 + k as u64;
            for &size in sizes {
                let mut rest = size;
                while rest > 0 {
                    let i = begin_send(out, stream, from, rest);
                    match w.write(&bytes(stream, from as u64, rest)) {
                        Ok(n) => {
                            end_send(out, i, Some(n));
                            rest -= n;
                            from += n;
                            if let Some(ms) = idle() {
                                thread::sleep(std::time::Duration::from_millis(ms));
                            }
                        }
                        Err(e) if e.kind() == io::ErrorKind::Interrupted => end_send(out, i, Some(0)),
                        Err(_) => {
                            end_send(out, i, None);
                            return;
                        }
                    }
                }
            }
        }
    });
    let total = theirs.total();
    let mut got = 0;
    let mut buffer = vec![0; 20_000];
    while got < total {
        let from = steps();
        match s.read(&mut buffer) {
            Ok(0) => {
                ensure!(resets() > 0 || WAYS.with(|w| w[in_].failed), "early-end", "a peer sees the end of the stream after {got} of {total} bytes");
                break;
            }
            Ok(n) => {
                got += n;
                started.with(|s| *s = true);
                end_receive(in_, from, buffer[..n].to_vec());
            }
            Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
            Err(e) => {
                ensure!(resets() > 0 || WAYS.with(|w| w[in_].failed || w[out].failed), "false-error", "a peer's receive fails: {e}");
                break;
            }
        }
    }
    started.with(|s| *s = true);
    let _ = sender.join();
    // The other side may have to see the end.
    drop(s);
}

pub const ADDRESSES: &[(&str, &str)] = &[("127.0.0.1:7000", "127.0.0.1:7000"), ("0.0.0.0:7000", "127.0.0.1:7000"), ("[::1]:7000", "[::1]:7000"), ("localhost:7000", "localhost:7000")];

pub fn hosts() {
    os(|o| o.hosts.insert("localhost".into(), vec!["127.0.0.1".parse().unwrap()]));
}

pub fn set_buffers() {
    let size = [64 << 10, 64 << 10, 4096, 300][config(4) as usize];
    os(|o| o.send_buffer = size);
}

pub async fn bind(address: &str) -> Handle {
    loop {
        match tcp_bind(address).await {
            Ok(l) => return l,
            Err(e) => {
                ensure!(fired("net.emfile") + fired("net.bind-eacces") + fired("dns.again") > 0, "false-error", "binding to {address} fails: {e}");
                probe("binding failed");
            }
        }
    }
}

/// Bytes sent on connections arrive in order, once, and up to the end.
pub fn streams() {
    machine();
    hosts();
    set_buffers();
    net_faults(&[], 10);
    let n = 1 + work(2) as u64;
    let (listen, reach) = ADDRESSES[work(4) as usize];
    let mut plans = vec![];
    for id in 0..n {
        let mut a = side(false);
        let mut b = side(true);
        match work(3) {
            0 => a.waits = true,
            1 => b.waits = true,
            _ => (),
        }
        let a: &'static Side = Box::leak(Box::new(a));
        let b: &'static Side = Box::leak(Box::new(b));
        plans.push((id, a, b, way(), way(), work(3)));
    }
    say!("plan {plans:?}");
    step_limit(400_000 + plans.iter().map(|(_, a, b, ..)| 120 * (a.receives(b) + b.receives(a)) as u64).sum::<u64>());
    let m = plans.len();
    start(async move {
        // 0: a foreign peer connects, 1: the program connects to a foreign peer, 2: both are Pen.
        let listener = bind(listen).await;
        let mut tasks = vec![];
        let mut threads = vec![];
        let mut links = vec![];
        let mut connecting = None;
        for (id, a, b, ab, ba, kind) in plans {
            match kind {
                0 | 2 => {
                    if kind == 0 {
                        threads.push(thread::spawn(move || {
                            if let Ok(s) = TcpStream::connect(reach) {
                                peer(s, a, b, ab, ba, id * 2)
                            }
                        }));
                    } else {
                        connecting = Some(
                            task(async move {
                                match tcp_connect(reach).await {
                                    Ok(h) => CONNECTED.with(|c| c.push(h)),
                                    Err(e) => fail("false-error", format!("connecting fails: {e}")),
                                };
                            })
                            .await,
                        );
                    }
                    // One connection is made at a time, so that it is known which one is accepted.
                    let (h, _) = match tcp_accept(&listener).await {
                        Ok(x) => x,
                        Err(e) => fail("false-error", format!("accepting fails: {e}")),
                    };
                    links.push((h, b, a, ba, ab, id * 2 + 1));
                    if let Some(t) = connecting.take() {
                        wait(t).await;
                        links.push((CONNECTED.with(|c| c.pop().unwrap()), a, b, ab, ba, id * 2));
                    }
                }
                _ => {
                    let address = format!("127.0.0.1:{}", 7100 + id);
                    let l = TcpListener::bind(&address).unwrap();
                    threads.push(thread::spawn(move || {
                        let (s, _) = l.accept().unwrap();
                        peer(s, b, a, ba, ab, id * 2 + 1)
                    }));
                    let h = match tcp_connect(&address).await {
                        Ok(h) => h,
                        Err(e) => fail("false-error", format!("connecting fails: {e}")),
                    };
                    links.push((h, a, b, ab, ba, id * 2));
                }
            }
        }
        net_faults(&["net.reset", "net.eintr"], 10);
        for (h, mine, theirs, out, in_, id) in links {
            tasks.push(task(exchange(h, mine, theirs, out, in_, id)).await);
        }
        wait_all(tasks).await;
        JOINS.with(|j| *j = threads);
    });
    for t in JOINS.with(std::mem::take) {
        let _ = t.join();
    }
    check_acknowledged();
    for w in 0..2 * m {
        check_way(w);
        let (sent, received, failed) = WAYS.with(|ws| (ws[w].sent, ws[w].received, ws[w].failed));
        ensure!(received == sent || resets() > 0 || failed, "lost-bytes", "{received} of {sent} bytes arrived");
    }
}

/// No more bytes are acknowledged than the system has taken over.
pub fn check_acknowledged() {
    let acknowledged: usize = WAYS.with(|ws| ws.iter().map(|w| w.sent).sum());
    let taken = os(|o| o.bytes_taken());
    ensure!(acknowledged as u64 <= taken, "lost-bytes", "{acknowledged} bytes are acknowledged, {taken} are sent");
}

pub static CONNECTED: Plain<Vec<Handle>> = Plain::new(vec![]);
pub static JOINS: Plain<Vec<thread::JoinHandle<()>>> = Plain::new(vec![]);

// ---------------------------------------------------------------- listeners

/// Every connection is accepted once, by one of the tasks that wait for it.
pub fn listeners() {
    machine();
    hosts();
    net_faults(&["net.accept-eintr", "net.accept-emfile", "net.accept-aborted", "net.reset-in-backlog", "net.refuse", "net.connect-timeout", "net.emfile", "net.bind-eacces", "dns.again", "net.eintr"], 8);
    let (listen, reach) = ADDRESSES[work(4) as usize];
    let clients = 1 + work(5) as usize;
    let acceptors = 1 + work(3) as usize;
    let stopping: &'static Plain<bool> = Box::leak(Box::new(Plain::new(false)));
    let accepted: &'static Plain<BTreeMap<String, usize>> = Box::leak(Box::new(Plain::new(BTreeMap::new())));
    let connected: &'static Plain<Vec<(String, usize)>> = Box::leak(Box::new(Plain::new(vec![])));
    let served: &'static Plain<Vec<usize>> = Box::leak(Box::new(Plain::new(vec![])));
    let left: &'static Plain<usize> = Box::leak(Box::new(Plain::new(clients)));
    start(async move {
        let listener = bind(listen).await;
        let mut tasks = vec![];
        for _ in 0..acceptors {
            let listener = listener.clone();
            tasks.push(
                task(async move {
                    loop {
                        match tcp_accept(&listener).await {
                            Ok((h, address)) => {
                                if stopping.with(|s| *s) {
                                    return;
                                }
                                let k = accepted.with(|a| {
                                    let k = a.len();
                                    ensure!(a.insert(address.clone(), k).is_none(), "accepted-twice", "the connection from {address} is accepted again");
                                    k
                                });
                                // Not waited for: the acceptor goes on.
                                task(async move {
                                    match tcp_receive(&h, 10).await {
                                        Ok(b) if b.len() == 1 => {
                                            served.with(|s| s.push(k));
                                            let _ = tcp_send(&h, &[b[0] + 1]).await;
                                        }
                                        _ => ensure!(resets() > 0, "lost-bytes", "a client's byte does not arrive"),
                                    }
                                })
                                .await;
                            }
                            Err(e) => {
                                ensure!(
                                    ["net.accept-eintr", "net.accept-emfile", "net.accept-aborted"].iter().any(|f| fired(f) > 0),
                                    "false-error",
                                    "accepting fails: {e}"
                                );
                                probe("accepting failed");
                            }
                        }
                    }
                })
                .await,
            );
        }
        for id in 0..clients {
            let foreign = work(2) == 0;
            let delay = idle().unwrap_or_else(|| work(3));
            if foreign {
                thread::spawn(move || {
                    thread::sleep(std::time::Duration::from_millis(delay));
                    let r = TcpStream::connect(reach);
                    foreign_client(r, id, connected);
                    left.with(|l| *l -= 1);
                });
            } else {
                task(async move {
                    sleep(delay as f64).await;
                    match tcp_connect(reach).await {
                        Ok(h) => {
                            let r = match tcp_send(&h, &[id as u8]).await {
                                Ok(_) => tcp_receive(&h, 10).await,
                                Err(e) => Err(e),
                            };
                            match r {
                                Ok(b) if b == [id as u8 + 1] => probe("a client was served"),
                                _ => ensure!(resets() > 0, "not-served", "a client is not served: {r:?}"),
                            }
                        }
                        Err(e) => {
                            ensure!(
                                ["net.refuse", "net.connect-timeout", "net.emfile", "dns.again", "net.reset-in-backlog"].iter().any(|f| fired(f) > 0),
                                "false-error",
                                "connecting fails: {e}"
                            );
                            probe("connecting failed");
                        }
                    }
                    left.with(|l| *l -= 1);
                })
                .await;
            }
        }
        let mut pause = 10.0;
        while left.with(|l| *l) > 0 {
            sleep(pause).await;
            pause = (pause * 1.1f64).floor();
        }
        // The listener still works after all that.
        stop_faults();
        stopping.with(|s| *s = true);
        for _ in 0..acceptors {
            match tcp_connect(reach).await {
                Ok(h) => drop(h),
                Err(e) => fail("listener-lost", format!("a connection after the faults fails: {e}")),
            }
        }
        wait_all(tasks).await;
    });
    accepted.with(|a| {
        for (c, id) in connected.with(|c| c.clone()) {
            ensure!(a.contains_key(&c), "wrong-address", "client {id} connected from {c}, but only {a:?} are accepted");
        }
    });
}

pub fn foreign_client(r: io::Result<TcpStream>, id: usize, connected: &'static Plain<Vec<(String, usize)>>) {
    match r {
        Ok(mut s) => {
            let local = s.local_addr().unwrap().to_string();
            let mut b = [0; 4];
            let r = (|| {
                loop {
                    match s.write(&[id as u8]) {
                        Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                        r => break drop(r?),
                    };
                }
                loop {
                    match s.read(&mut b) {
                        Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                        r => break r,
                    }
                }
            })();
            match r {
                Ok(1) if b[0] == id as u8 + 1 => connected.with(|c| c.push((local, id))),
                r => ensure!(resets() > 0, "not-served", "a client is not served: {r:?}"),
            }
        }
        Err(e) => {
            ensure!(["net.refuse", "net.connect-timeout", "net.emfile", "dns.again"].iter().any(|f| fired(f) > 0), "false-error", "connecting fails: {e}");
        }
    }
}

// ---------------------------------------------------------------- datagrams

#[derive(Clone, Debug)]
pub struct Gram {
    pub data: Vec<u8>,
    pub from: String,
    pub to: String,
    pub sent: bool,
}

pub static GRAMS: Plain<Vec<Gram>> = Plain::new(vec![]);

pub fn gram(from: &str, to: &str) -> (usize, Vec<u8>) {
    let id = GRAMS.with(|g| g.len());
    let size = [work(20), work(513), 512, 0][work(4) as usize] as usize;
    // Datagrams identify themselves, unless they are too short.
    let data = bytes(id as u64, 0, size);
    GRAMS.with(|g| g.push(Gram { data: data.clone(), from: from.into(), to: to.into(), sent: false }));
    (id, data)
}

pub static ARRIVALS: Plain<Vec<(Vec<u8>, Option<String>, String)>> = Plain::new(vec![]);

pub fn arrived(data: &[u8], from: Option<&str>, to: &str) {
    GRAMS.with(|gs| {
        ensure!(
            gs.iter().any(|g| g.data == data && g.to == to && from.is_none_or(|f| f == g.from)),
            "wrong-datagram",
            "{to} receives {} bytes from {from:?} that were not sent to it",
            data.len()
        )
    });
    ARRIVALS.with(|a| a.push((data.to_vec(), from.map(Into::into), to.into())));
}

/// Datagrams of the same data are told apart by number only.
pub fn check_datagrams() {
    let limit = if fired("udp.duplicate") > 0 { 2 } else { 1 };
    let arrivals = ARRIVALS.with(|a| a.clone());
    GRAMS.with(|gs| {
        for g in gs.iter() {
            let alike = gs.iter().filter(|h| h.data == g.data && h.to == g.to);
            let all = alike.clone().count();
            let sent = alike.clone().filter(|h| h.sent).count();
            let same = alike.filter(|h| h.from == g.from).count();
            let here = arrivals.iter().filter(|a| a.0 == g.data && a.2 == g.to);
            let came = here.clone().count();
            let from = here.filter(|a| a.1.as_ref() == Some(&g.from)).count();
            ensure!(came <= all * limit && from <= same * limit, "duplicate-datagram", "{} bytes from {} to {} arrive {came} times, {from} of them with this address", g.data.len(), g.from, g.to);
            if fired("udp.loss") == 0 {
                ensure!(came >= sent, "lost-datagram", "{} bytes sent from {} to {} {sent} times arrive only {came} times", g.data.len(), g.from, g.to);
            }
        }
    });
}

/// Nothing comes from an address where nobody is, whatever its host answers.
async fn nobody() {
    let Ok(h) = udp_bind("127.0.0.1:7100").await else { return };
    if udp_connect(&h, "127.0.0.1:7101").await.is_err() {
        return;
    }
    let by_address = work(2) == 1;
    let other = h.clone();
    task(async move {
        let r = if by_address { udp_receive_from(&other).await.map(|r| r.0) } else { udp_receive(&other).await };
        match r {
            Ok(d) => fail("invented-datagram", format!("{d:?} is received from where nobody is")),
            Err(_) => probe("a refused datagram was reported"),
        }
    })
    .await;
    sleep(work(2) as f64).await;
    let _ = udp_send(&h, b"hello").await;
    sleep(3.0).await;
}

/// A socket whose datagram was refused, or that is connected anew, sends what it says it sends, where it is to.
pub async fn reused() {
    stop_faults();
    let bind = |port: u16| async move { udp_bind(&format!("127.0.0.1:{port}")).await.unwrap_or_else(|e| fail("false-error", format!("binding fails: {e}"))) };
    let h = bind(7200).await;
    let x = bind(7201).await;
    let connect = |port: u16| {
        let h = h.clone();
        async move {
            if let Err(e) = udp_connect(&h, &format!("127.0.0.1:{port}")).await {
                fail("false-error", format!("connecting fails: {e}"));
            }
        }
    };
    connect(7202).await;
    let mut refused = work(2) == 1;
    if refused {
        if let Err(e) = udp_send(&h, b"lost").await {
            fail("false-error", format!("sending fails: {e}"));
        }
        sleep(5.0).await;
    }
    let y = if work(2) == 1 { Some(bind(7202).await) } else { None };
    for (other, port) in [(y.as_ref(), 7202u16), (Some(&x), 7201)] {
        let Some(other) = other else { continue };
        if port == 7201 {
            connect(port).await;
        }
        let mut sent = vec![];
        for i in 0..2 {
            let data = vec![b'd', port as u8, i];
            match udp_send(&h, &data).await {
                Ok(n) => {
                    ensure!(n == 3, "wrong-count", "a datagram of 3 bytes is sent as {n}");
                    sent.push(data);
                }
                Err(e) => ensure!(refused, "false-error", "sending fails: {e}"),
            }
            refused = false;
        }
        for _ in 0..sent.len() {
            match udp_receive_from(other).await {
                Ok((d, from)) => {
                    ensure!(from == "127.0.0.1:7200" && sent.contains(&d), "wrong-datagram", "{d:?} from {from} arrives at {port}, not one of {sent:?}");
                    sent.retain(|s| *s != d);
                }
                Err(e) => fail("false-error", format!("receiving fails: {e}")),
            }
        }
    }
    if let Some(y) = &y {
        let _ = udp_send_to(y, b"old", "127.0.0.1:7200").await;
        sleep(5.0).await;
    }
    if let Err(e) = udp_send_to(&x, b"new", "127.0.0.1:7200").await {
        fail("false-error", format!("sending fails: {e}"));
    }
    match udp_receive(&h).await {
        Ok(d) => ensure!(d == b"new", "wrong-datagram", "{d:?} is received from where the socket is not connected to any more"),
        Err(e) => fail("false-error", format!("receiving fails: {e}")),
    }
    probe("a socket was connected anew");
}

/// Datagrams arrive whole, at most once, and from whom they are said to be.
pub fn datagrams() {
    machine();
    hosts();
    net_faults(&["udp.loss", "udp.duplicate", "udp.reorder", "udp.send-eagain", "net.emfile", "net.bind-eacces"], 8);
    let sockets = 2 + work(2) as usize;
    let per = 1 + work(4);
    let foreign = work(2) == 1;
    let connected = work(3) == 1;
    start(async move {
        let mut handles = vec![];
        for i in 0..sockets {
            handles.push(loop {
                match udp_bind(&format!("127.0.0.1:{}", 7000 + i)).await {
                    Ok(h) => break h,
                    Err(e) => ensure!(fired("net.emfile") + fired("net.bind-eacces") > 0, "false-error", "binding fails: {e}"),
                }
            });
        }
        let name = |i: usize| format!("127.0.0.1:{}", 7000 + i);
        if connected {
            for i in 0..2 {
                if let Err(e) = udp_connect(&handles[i], &name(1 - i)).await {
                    fail("false-error", format!("connecting fails: {e}"));
                }
            }
        }
        let mut senders = vec![];
        let mut receivers = vec![];
        for (i, h) in handles.iter().enumerate() {
            for _ in 0..1 + work(2) {
                let h = h.clone();
                let pair = connected && i < 2;
                receivers.push(
                    task(async move {
                        loop {
                            let (data, from) = if work(2) == 0 {
                                match udp_receive(&h).await {
                                    Ok(d) => (d, None),
                                    Err(e) => fail("false-error", format!("receiving fails: {e}")),
                                }
                            } else {
                                match udp_receive_from(&h).await {
                                    Ok((d, f)) => (d, Some(f)),
                                    Err(e) => fail("false-error", format!("receiving fails: {e}")),
                                }
                            };
                            if data == b"stop" {
                                return;
                            }
                            if pair {
                                let other = name(1 - i);
                                ensure!(from.as_deref().is_none_or(|f| f == other), "wrong-datagram", "a socket connected to {other} receives from {from:?}");
                            }
                            arrived(&data, from.as_deref(), &name(i));
                        }
                    })
                    .await,
                );
            }
            let h = h.clone();
            senders.push(
                task(async move {
                    for _ in 0..per {
                        let pair = connected && i < 2;
                        let j = if pair { 1 - i } else { (i + 1 + work(sockets as u64 - 1) as usize) % sockets };
                        if connected && !pair && j < 2 {
                            // Filtered by its receiver.
                            let _ = udp_send_to(&h, b"filtered", &name(j)).await;
                            continue;
                        }
                        let (id, data) = gram(&name(i), &name(j));
                        let r = if pair { udp_send(&h, &data).await } else { udp_send_to(&h, &data, &name(j)).await };
                        match r {
                            Ok(n) => ensure!(n == data.len(), "wrong-count", "a datagram of {} bytes is sent as {n}", data.len()),
                            Err(e) => fail("false-error", format!("sending fails: {e}")),
                        }
                        GRAMS.with(|g| g[id].sent = true);
                        if work(3) == 1 {
                            sleep(idle().unwrap_or_else(|| work(2)) as f64).await;
                        }
                    }
                })
                .await,
            );
        }
        if foreign {
            let target = name(sockets - 1);
            if !(connected && sockets - 1 < 2) {
                senders.push(
                    task(async move {
                        let over: &'static Plain<bool> = Box::leak(Box::new(Plain::new(false)));
                        thread::spawn(move || {
                            if let Ok(s) = UdpSocket::bind("127.0.0.1:7999") {
                                for _ in 0..per {
                                    let (id, data) = gram("127.0.0.1:7999", &target);
                                    if s.send_to(&data, &target).is_ok() {
                                        GRAMS.with(|g| g[id].sent = true);
                                    }
                                }
                            }
                            over.with(|o| *o = true);
                        });
                        while !over.with(|o| *o) {
                            sleep(1.0).await;
                        }
                    })
                    .await,
                );
            }
        }
        wait_all(senders).await;
        if work(3) == 1 {
            nobody().await;
        }
        if work(3) == 1 {
            reused().await;
        }
        sleep(5.0).await;
        stop_faults();
        // Everything that was not lost has arrived.
        check_datagrams();
        for (i, _) in handles.iter().enumerate() {
            for _ in 0..3 {
                let via = if connected && i < 2 { 1 - i } else if i > 0 && !(connected && i - 1 < 2) { i - 1 } else { sockets - 1 };
                let r = if connected && i < 2 { udp_send(&handles[via], b"stop").await } else if via == i { udp_send_to(&handles[i], b"stop", &name(i)).await } else { udp_send_to(&handles[via], b"stop", &name(i)).await };
                if let Err(e) = r {
                    fail("false-error", format!("sending fails: {e}"));
                }
            }
        }
        wait_all(receivers).await;
    });
}
