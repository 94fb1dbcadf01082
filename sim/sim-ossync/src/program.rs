//! Programs on the synchronous system package that talk to foreign peers, and their ends.
use crate::{net::*, rt::*, time::MS};
use pensim::api::*;
use sim_kit::wire::bytes;
use std::{
    collections::BTreeMap,
    net::{TcpListener, TcpStream, UdpSocket},
    thread,
};

/// Bytes sent on connections arrive in order, once, and up to the end.
pub fn streams() {
    machine();
    hosts();
    set_buffers();
    net_faults(&[], 10);
    let (listen, reach) = ADDRESSES[work(4) as usize];
    let n = 1 + work(2) as u64;
    let mut plans = vec![];
    for id in 0..n {
        let mut theirs = side(false);
        theirs.waits = work(3) == 0;
        let theirs: &'static Side = Box::leak(Box::new(theirs));
        let mine: &'static Side = Box::leak(Box::new(side(false)));
        plans.push((id, mine, theirs, way(), way(), work(2) == 0));
    }
    step_limit(400_000 + plans.iter().map(|(_, a, b, ..)| 120 * (a.receives(b) + b.receives(a)) as u64).sum::<u64>());
    start(async move {
        let listener = bind(listen).await;
        let mut threads = vec![];
        let mut links = vec![];
        for (id, mine, theirs, out, in_, accepts) in plans {
            let h = if accepts {
                threads.push(thread::spawn(move || {
                    if let Ok(s) = TcpStream::connect(reach) {
                        peer(s, theirs, mine, in_, out, id * 2)
                    }
                }));
                tcp_accept(&listener).await.map(|x| x.0)
            } else {
                let address = format!("127.0.0.1:{}", 7100 + id);
                let l = TcpListener::bind(&address).unwrap();
                threads.push(thread::spawn(move || {
                    let (s, _) = l.accept().unwrap();
                    peer(s, theirs, mine, in_, out, id * 2)
                }));
                tcp_connect(&address).await
            };
            match h {
                Ok(h) => links.push(Link::new(h, mine, theirs, out, in_, id * 2 + 1)),
                Err(e) => fail("false-error", format!("making a connection fails: {e}")),
            }
        }
        net_faults(&["net.reset"], 10);
        // The connections take turns.
        while !links.is_empty() {
            let i = work(links.len() as u64) as usize;
            if !links[i].advance().await {
                let l = links.remove(i);
                let failed = WAYS.with(|w| w[l.in_].failed || w[l.out].failed);
                ensure!(l.got == l.theirs.total() || failed || resets() > 0, "early-end", "the stream ends after {} of {} bytes", l.got, l.theirs.total());
                // A connection that breaks does not look like one that is closed.
                ensure!(l.got == l.theirs.total() || l.told, "early-end", "the stream ends after {} of {} bytes when it breaks", l.got, l.theirs.total());
            }
        }
        for t in threads {
            let _ = t.join();
        }
    });
    check_acknowledged();
    for w in 0..2 * n as usize {
        check_way(w);
        let (sent, received, failed) = WAYS.with(|ws| (ws[w].sent, ws[w].received, ws[w].failed));
        ensure!(received == sent || resets() > 0 || failed, "lost-bytes", "{received} of {sent} bytes arrived");
    }
}

/// One end of a connection: what is left to send and to receive.
struct Link {
    h: Handle,
    mine: &'static Side,
    theirs: &'static Side,
    out: usize,
    in_: usize,
    id: u64,
    at: (usize, usize, usize, usize), // sender, piece, offset of the piece, bytes of it sent
    got: usize,
    receives: usize,
    broken: bool,
    told: bool, // that it is broken
}

impl Link {
    fn new(h: Handle, mine: &'static Side, theirs: &'static Side, out: usize, in_: usize, id: u64) -> Self {
        Self { h, mine, theirs, out, in_, id, at: (0, 0, 0, 0), got: 0, receives: 0, broken: false, told: false }
    }

    async fn advance(&mut self) -> bool {
        let sending = self.at.0 < self.mine.sizes.len() && !self.broken;
        let receiving = self.got < self.theirs.total() && !self.broken;
        if !sending && !receiving {
            return false;
        }
        // What the other side waits for is to be sent first.
        if let Some(ms) = idle() {
            sleep(ms as f64).await;
        }
        if sending && (!receiving || work(2) == 0 || self.theirs.waits) {
            self.send().await
        } else {
            self.receive().await
        }
        true
    }

    async fn send(&mut self) {
        let (k, p, from, done) = self.at;
        let stream = self.id * 10 + k as u64;
        let size = self.mine.sizes[k][p];
        let rest = size - done;
        let i = begin_send(self.out, stream, from + done, rest);
        match tcp_send(&self.h, &bytes(stream, (from + done) as u64, rest)).await {
            Ok(n) => {
                ensure!(n > 0 && n <= rest, "wrong-count", "a send of {rest} bytes acknowledges {n}");
                end_send(self.out, i, Some(n));
                self.at = if n < rest {
                    (k, p, from, done + n)
                } else if p + 1 < self.mine.sizes[k].len() {
                    (k, p + 1, from + size, 0)
                } else {
                    (k + 1, 0, 0, 0)
                };
            }
            Err(e) => {
                ensure!(resets() > 0 || WAYS.with(|w| w[self.in_].ended), "false-error", "sending fails: {e}");
                probe("sending failed");
                end_send(self.out, i, None);
                self.broken = true;
                self.told = true;
            }
        }
    }

    async fn receive(&mut self) {
        let limit = self.mine.limits[self.receives % self.mine.limits.len()];
        self.receives += 1;
        let from = steps();
        match tcp_receive(&self.h, limit).await {
            Ok(b) => {
                ensure!(b.len() <= limit, "wrong-count", "{} bytes are received, more than {limit}", b.len());
                if b.is_empty() {
                    WAYS.with(|w| w[self.in_].ended = true);
                    self.broken = true;
                } else {
                    self.got += b.len();
                    end_receive(self.in_, from, b);
                }
            }
            Err(e) => {
                ensure!(resets() > 0, "false-error", "receiving fails: {e}");
                probe("receiving failed");
                WAYS.with(|w| w[self.in_].failed = true);
                self.broken = true;
                self.told = true;
            }
        }
    }
}

/// Every connection is accepted once, with the address it comes from, and failures to accept one
/// do not affect others.
pub fn listeners() {
    machine();
    hosts();
    net_faults(&["net.accept-emfile", "net.accept-aborted", "net.reset-in-backlog", "net.refuse", "net.connect-timeout", "net.emfile", "net.bind-eacces", "dns.again"], 8);
    let (listen, reach) = ADDRESSES[work(4) as usize];
    let clients = 1 + work(5) as usize;
    let connected: &'static Plain<Vec<(String, usize)>> = Box::leak(Box::new(Plain::new(vec![])));
    let left: &'static Plain<usize> = Box::leak(Box::new(Plain::new(clients)));
    start(async move {
        let listener = bind(listen).await;
        let mut threads = vec![];
        for id in 0..clients {
            let delay = work(3);
            threads.push(thread::spawn(move || {
                thread::sleep(std::time::Duration::from_millis(delay));
                foreign_client(TcpStream::connect(reach), id, connected);
                left.with(|l| *l -= 1);
            }));
        }
        threads.push(thread::spawn(move || {
            while left.with(|l| *l) > 0 {
                thread::sleep(std::time::Duration::from_millis(10));
            }
            // The listener still works after all that.
            stop_faults();
            if let Err(e) = TcpStream::connect(reach).map(|s| foreign_client(Ok(s), 250, connected)) {
                fail("listener-lost", format!("a connection after the faults fails: {e}"));
            }
        }));
        let mut accepted = BTreeMap::new();
        loop {
            match tcp_accept(&listener).await {
                Ok((h, address)) => {
                    let k = accepted.len();
                    ensure!(accepted.insert(address.clone(), k).is_none(), "accepted-twice", "the connection from {address} is accepted again");
                    match tcp_receive(&h, 10).await {
                        Ok(b) if b.len() == 1 => {
                            let _ = tcp_send(&h, &[b[0] + 1]).await;
                            if b[0] == 250 {
                                break;
                            }
                        }
                        _ => ensure!(resets() > 0, "lost-bytes", "a client's byte does not arrive"),
                    }
                }
                Err(e) => {
                    ensure!(["net.accept-emfile", "net.accept-aborted"].iter().any(|f| fired(f) > 0), "false-error", "accepting fails: {e}");
                    probe("accepting failed");
                }
            }
        }
        for t in threads {
            let _ = t.join();
        }
        for (c, id) in connected.with(|c| c.clone()) {
            ensure!(accepted.contains_key(&c), "wrong-address", "client {id} connected from {c}, but only {accepted:?} are accepted");
        }
        // Connections that cannot be made are errors.
        drop(listener);
        if work(2) == 0 {
            ensure!(tcp_connect(reach).await.is_err(), "false-success", "a connection to nobody is made");
        }
        ensure!(tcp_connect("nowhere.invalid:1").await.is_err(), "false-success", "a connection to nowhere is made");
    });
}

/// Datagrams arrive whole, at most once, and from whom they are said to be.
pub fn datagrams() {
    machine();
    hosts();
    const KINDS: &[&str] = &["udp.loss", "udp.duplicate", "udp.reorder", "net.emfile", "net.bind-eacces"];
    net_faults(KINDS, 8);
    let sockets = 1 + work(3) as usize;
    let name = |i: usize| format!("127.0.0.1:{}", if i == 9 { 7999 } else { 7000 + i });
    let connected = sockets > 1 && work(3) == 1;
    start(async move {
        let mut handles = vec![];
        for i in 0..sockets {
            handles.push(loop {
                match udp_bind(&name(i)).await {
                    Ok(h) => break h,
                    Err(e) => ensure!(fired("net.emfile") + fired("net.bind-eacces") > 0, "false-error", "binding fails: {e}"),
                }
            });
        }
        let pair = |i: usize| connected && i < 2;
        if connected {
            for i in 0..2 {
                if let Err(e) = udp_connect(&handles[i], &name(1 - i)).await {
                    fail("false-error", format!("connecting fails: {e}"));
                }
            }
        }
        let foreign = UdpSocket::bind(name(9)).ok();
        if work(3) == 1 {
            reused().await;
        }
        for _ in 0..1 + work(3) {
            resume_faults();
            for _ in 0..work(6) {
                let i = work(sockets as u64 + 1) as usize;
                if i == sockets {
                    let j = work(sockets as u64) as usize;
                    if let (false, Some(s)) = (pair(j), &foreign) {
                        let (id, data) = gram(&name(9), &name(j));
                        if s.send_to(&data, name(j)).is_ok() {
                            GRAMS.with(|g| g[id].sent = true);
                        }
                    }
                    continue;
                }
                let j = if pair(i) { 1 - i } else { work(sockets as u64) as usize };
                if pair(j) && !pair(i) {
                    // Filtered by its receiver.
                    let _ = udp_send_to(&handles[i], b"filtered", &name(j)).await;
                    continue;
                }
                let (id, data) = gram(&name(i), &name(j));
                let r = if pair(i) { udp_send(&handles[i], &data).await } else { udp_send_to(&handles[i], &data, &name(j)).await };
                match r {
                    Ok(n) => ensure!(n == data.len(), "wrong-count", "a datagram of {} bytes is sent as {n}", data.len()),
                    Err(e) => fail("false-error", format!("sending fails: {e}")),
                }
                GRAMS.with(|g| g[id].sent = true);
            }
            sleep(5.0).await;
            stop_faults();
            for i in 0..sockets {
                let r = if pair(i) { udp_send(&handles[1 - i], b"stop").await } else { udp_send_to(&handles[i], b"stop", &name(i)).await };
                if let Err(e) = r {
                    fail("false-error", format!("sending fails: {e}"));
                }
                loop {
                    let (data, from) = if work(2) == 0 {
                        match udp_receive(&handles[i]).await {
                            Ok(d) => (d, None),
                            Err(e) => fail("false-error", format!("receiving fails: {e}")),
                        }
                    } else {
                        match udp_receive_from(&handles[i]).await {
                            Ok((d, f)) => (d, Some(f)),
                            Err(e) => fail("false-error", format!("receiving fails: {e}")),
                        }
                    };
                    if data == b"stop" {
                        break;
                    }
                    arrived(&data, from.as_deref(), &name(i));
                }
            }
        }
        check_datagrams();
    });
}

/// A program ends when its main function returns or it exits, with the status asked for.
pub fn ending() {
    machine();
    let code = [0.0, 1.0, 2.0, 42.0, 255.0, 3.7, -1.0][work(7) as usize];
    let exits = work(2) == 0;
    let asked: &'static Plain<(bool, u64)> = Box::leak(Box::new(Plain::new((false, 0))));
    os(|o| {
        o.on_exit = Some(Box::new(move |c| {
            ensure!(exits && asked.with(|a| a.0), "wrong-end", "the program exits unasked");
            ensure!(c == code as i32, "wrong-status", "the program exits with {c} instead of {code}");
            let took = now() - asked.with(|a| a.1);
            ensure!(took < 20 * MS, "late-end", "the program ends {took} ns after it was to");
        }))
    });
    start(async move {
        // A little of everything before the end.
        for _ in 0..work(4) {
            match work(4) {
                0 => sleep(work(3) as f64).await,
                1 => _ = write_stdout(b"word").await,
                2 => drop(tcp_bind("127.0.0.1:0").await),
                _ => drop(open("/tmp/x", crate::files::options("wc")).await),
            }
        }
        asked.with(|a| *a = (true, now()));
        if exits {
            exit(code).await;
            fail("no-end", "the exit returns")
        }
    });
    ensure!(!exits, "no-end", "the program goes on after its exit");
}
