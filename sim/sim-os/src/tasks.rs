//! The built-in functions of the language that the os package implements.
use crate::rt::*;
use ffi::{Any, Closure, List};
use pensim::api::*;
use sim_kit::*;
use std::{future::Future, pin::Pin};

/// What a task does while it runs.
#[derive(Debug)]
enum Delay {
    Yield,
    Sleep(f64),
    File,
}

#[derive(Debug)]
struct Node {
    id: usize,
    before: Vec<Delay>,
    after: Vec<Delay>,
    children: Vec<(Node, usize, usize)>, // the child, how often its parent asks for its result, how many other tasks do
}

/// Longer than anything that gives up would wait.
fn long() -> f64 {
    probe("somebody took very long");
    [1_500.0, 6_000.0, 35_000.0, 100_000.0][work(4) as usize]
}

fn delays() -> Vec<Delay> {
    (0..work(3))
        .map(|_| match work(3) {
            0 => Delay::Yield,
            1 if work(25) == 24 => Delay::Sleep(long()),
            1 => Delay::Sleep(work(4) as f64),
            _ => Delay::File,
        })
        .collect()
}

fn node(depth: u64, next: &mut usize) -> Node {
    let id = *next;
    *next += 1;
    let mut children = vec![];
    if depth > 0 {
        for _ in 0..work(4) {
            if *next > 12 {
                break;
            }
            let c = node(depth - 1, next);
            children.push((c, [1, 2, 0][work(3) as usize], [0, 0, 1, 2][work(4) as usize]));
        }
    }
    Node { id, before: delays(), after: delays(), children }
}

static LONG: Plain<u64> = Plain::new(0);

async fn pass(delays: &[Delay]) {
    for d in delays {
        match d {
            Delay::Yield => yield_().await,
            Delay::Sleep(n) => {
                // Very long only a few times.
                let long = *n > 1_000.0 && LONG.with(|l| std::mem::replace(l, *l + 1)) > 2;
                sleep(if long { 1.0 } else { *n }).await
            }
            Delay::File => {
                let _ = size("/tmp").await;
            }
        }
    }
}

static RUNS: Plain<Vec<u64>> = Plain::new(vec![]);
static ENDS: Plain<Vec<u64>> = Plain::new(vec![]);

fn value(id: usize) -> Vec<u8> {
    format!("the result of task {id}").into_bytes()
}

async fn check(c: Closure, id: usize) {
    let x = evaluate(c).await;
    let b = bytes_of(&x);
    ensure!(b.as_deref() == Some(&value(id)[..]), "wrong-result", "the future of task {id} gives {:?}", b.map(|b| String::from_utf8_lossy(&b).into_owned()));
    let ends = ENDS.with(|r| r[id]);
    ensure!(ends == 1, "early-result", "task {id} has ended {ends} times when its result is there");
}

fn run_node(n: &'static Node) -> Pin<Box<dyn Future<Output = Any>>> {
    Box::pin(async move {
        let runs = RUNS.with(|r| {
            r[n.id] += 1;
            r[n.id]
        });
        ensure!(runs == 1, "run-twice", "task {} runs {runs} times", n.id);
        pass(&n.before).await;
        let mut futures = vec![];
        let mut others = vec![];
        for (c, times, elsewhere) in &n.children {
            let f = go(run_node(c)).await;
            for _ in 0..*elsewhere {
                others.push(task(check(f.clone(), c.id)).await);
            }
            futures.push((f, c.id, *times));
        }
        pass(&n.after).await;
        while !futures.is_empty() {
            let (f, id, times) = futures.swap_remove(work(futures.len() as u64) as usize);
            for _ in 0..times {
                check(f.clone(), id).await;
            }
            if times > 1 {
                probe("a result was asked for again");
            }
            drop(f);
        }
        wait_all(others).await;
        ENDS.with(|e| e[n.id] += 1);
        s(value(n.id)).into()
    })
}

pub fn go_results() {
    machine();
    faults(&["futex.spurious-wake", "epoll.eintr", "epoll.one-at-a-time", "epoll.early-timeout", "poll.eintr", "net.eintr"], 20);
    let mut n = 0;
    let root: &'static Node = Box::leak(Box::new(node(1 + work(3), &mut n)));
    say!("plan {root:?}");
    RUNS.with(|r| r.resize(n, 0));
    ENDS.with(|r| r.resize(n, 0));
    start(async move {
        check(go(run_node(root)).await, 0).await;
        // Tasks that nobody asks for the result of run as well.
        let mut pause = 1.0f64;
        for _ in 0..400 {
            if ENDS.with(|e| e.iter().all(|&n| n == 1)) {
                break;
            }
            sleep(pause.floor()).await;
            pause = (pause * 1.05).min(30_000.0);
        }
    });
    RUNS.with(|r| {
        for (i, &n) in r.iter().enumerate() {
            ensure!(n == 1, "not-run", "task {i} has run {n} times");
        }
    });
    ENDS.with(|r| {
        for (i, &n) in r.iter().enumerate() {
            ensure!(n == 1, "not-ended", "task {i} has ended {n} times");
        }
    });
}

// ---------------------------------------------------------------- race

#[derive(Debug)]
struct Source {
    id: usize,
    length: usize, // usize::MAX: infinite
    lazy: bool,
    delays: Vec<Vec<Delay>>, // of elements, cyclic
    needs: Vec<Need>,
}

/// An element, or a lazy list from it on, that is there only after the consumer has seen others.
#[derive(Debug)]
struct Need {
    index: usize,
    node: bool,
    list: usize,
    count: usize,
}

#[derive(Default)]
struct Race {
    started: Vec<usize>,
    ended: Vec<usize>,
    evaluating: Vec<bool>,
    received: Vec<usize>,
    consumed: usize,
    ahead: usize,
    abandoned: Option<usize>, // how many elements had been started
}

static RACE: Plain<Race> =
    Plain::new(Race { started: vec![], ended: vec![], evaluating: vec![], received: vec![], consumed: 0, ahead: 0, abandoned: None });
static SEEN: Plain<Vec<usize>> = Plain::new(vec![]);
static GATE: LatchFlag = LatchFlag(Plain::new(false));

/// A flag that Pen tasks wait for by sleeping, so that no waker of the runtime is kept outside it.
pub struct LatchFlag(pub Plain<bool>);
impl LatchFlag {
    pub fn open(&self) {
        self.0.with(|x| *x = true)
    }
    pub fn is_open(&self) -> bool {
        self.0.with(|x| *x)
    }
    pub async fn wait(&self) {
        let mut pause = 1.0f64;
        while !self.is_open() {
            sleep(pause.floor()).await;
            pause = (pause * 1.1).min(20_000.0);
        }
    }
}

async fn meet_needs(source: &'static Source, index: usize, node: bool) {
    for n in source.needs.iter().filter(|n| n.index == index && n.node == node) {
        let mut pause = 1.0f64;
        while SEEN.with(|s| s[n.list]) < n.count && !GATE.is_open() {
            probe(if n.list == source.id { "a list waited for the reader of the merged list" } else { "a list waited for the reader to see another list's element" });
            sleep(pause.floor()).await;
            pause = (pause * 1.1).min(20_000.0);
        }
    }
}

fn element_value(list: usize, i: usize) -> Any {
    ((list * 1_000_000 + i) as f64).into_any()
}

trait IntoAny {
    fn into_any(self) -> Any;
}
impl IntoAny for f64 {
    fn into_any(self) -> Any {
        ffi::Number::new(self).into()
    }
}

fn element(source: &'static Source, i: usize) -> Closure {
    thunk(async move {
        RACE.with(|r| {
            if r.evaluating[source.id] {
                fail("concurrent-elements", format!("element {i} of list {} is evaluated while another of that list is", source.id));
            }
            if r.started[source.id] != i {
                fail("element-order", format!("element {i} of list {} is evaluated after {} others", source.id, r.started[source.id]));
            }
            r.evaluating[source.id] = true;
            r.started[source.id] += 1;
        });
        if !source.delays.is_empty() {
            pass(&source.delays[i % source.delays.len()]).await;
        }
        meet_needs(source, i, false).await;
        RACE.with(|r| {
            r.evaluating[source.id] = false;
            r.ended[source.id] += 1;
            let total: usize = r.ended.iter().sum();
            r.ahead = r.ahead.max(total.saturating_sub(r.consumed));
        });
        element_value(source.id, i)
    })
}

fn nodes(source: &'static Source, i: usize) -> List {
    if source.lazy || source.length == usize::MAX {
        lazy_list(async move {
            meet_needs(source, i, true).await;
            cons(source, i)
        })
    } else {
        cons(source, i)
    }
}

fn cons(source: &'static Source, i: usize) -> List {
    if i >= source.length {
        List::new()
    } else {
        prepend_thunk(element(source, i), nodes(source, i + 1))
    }
}

async fn consume(list: List, limit: usize, sources: &'static [Source], delay: Vec<Delay>) -> (Vec<(usize, usize)>, bool) {
    let mut seen = vec![];
    let mut next = vec![0; sources.len()];
    let mut list = list;
    loop {
        if seen.len() == limit {
            return (seen, false);
        }
        let Some((x, rest)) = first_rest(&list).await else { return (seen, true) };
        let v = number_of(&evaluate(x).await);
        let Some(v) = v else { fail("wrong-result", "an element of the merged list is no number") };
        let (l, i) = (v as usize / 1_000_000, v as usize % 1_000_000);
        ensure!(l < sources.len(), "wrong-result", "the merged list has the element {v}");
        ensure!(i == next[l], if i < next[l] { "duplicate-element" } else { "lost-element" }, "the merged list gives element {i} of list {l} after {} of them", next[l]);
        next[l] += 1;
        ensure!(RACE.with(|r| r.ended[l] > i), "wrong-result", "element {i} of list {l} is there before it was evaluated");
        seen.push((l, i));
        RACE.with(|r| r.consumed = r.consumed.max(seen.len()));
        SEEN.with(|s| s[l] = s[l].max(i + 1));
        pass(&delay).await;
        list = rest;
    }
}

pub fn race_lists() {
    machine();
    faults(&["futex.spurious-wake", "epoll.eintr", "epoll.one-at-a-time", "epoll.early-timeout", "poll.eintr"], 20);
    let n = match work(10) {
        0..=6 => work(5),
        7 => 5 + work(8),
        _ => 10 + work(25),
    } as usize;
    let mut lists: Vec<Source> = (0..n)
        .map(|id| Source {
            id,
            length: match work(5) {
                0 => 2,
                1 => 0,
                2 => 1 + work(4) as usize,
                3 => 1 + work(if n < 5 { 30 } else { 4 }) as usize,
                _ => usize::MAX,
            },
            lazy: work(2) == 1,
            delays: (0..work(if n < 5 { 3 } else { 1 })).map(|_| delays()).collect(),
            needs: vec![],
        })
        .collect();
    // Lists wait for the reader of the merged list, which nothing that looks ahead or takes the
    // lists in turn would ever get past.
    let dependent = work(3);
    for k in 0..n {
        let lazy = lists[k].lazy || lists[k].length == usize::MAX;
        if dependent & 1 == 1 && work(2) == 1 {
            let last = lists[k].length.min(4);
            for index in 1..=last {
                let node = lazy && (index == lists[k].length || work(2) == 1);
                if index < lists[k].length || node {
                    lists[k].needs.push(Need { index, node, list: k, count: index });
                }
            }
        }
        // All depend on later ones, so that the first lists are the ones that wait.
        if dependent == 2 && k + 1 < n {
            let other = if work(2) == 0 { n - 1 } else { k + 1 + work((n - k - 1) as u64) as usize };
            let count = lists[other].length.min(1 + work(2) as usize);
            let index = work(lists[k].length.min(3) as u64 + 1) as usize;
            let node = lazy && work(2) == 1;
            if index < lists[k].length || node {
                lists[k].needs.push(Need { index, node, list: other, count });
            }
        }
    }
    let sources: &'static [Source] = Box::leak(lists.into_boxed_slice());
    let infinite = sources.iter().any(|s| s.length == usize::MAX);
    let limit = if infinite { 1 + work(40) as usize } else { [usize::MAX, usize::MAX, 1, 5][work(4) as usize] };
    let delay = delays();
    let lazy_outer = work(2) == 1;
    let sharers = if infinite { 1 } else { 1 + work(2) as usize };
    say!("lists {sources:?}, {limit} elements are taken by {sharers}, delay {delay:?}");
    RACE.with(|r| {
        r.started.resize(n, 0);
        r.ended.resize(n, 0);
        r.evaluating.resize(n, false);
        r.received.resize(n, 0);
    });
    SEEN.with(|s| s.resize(n, 0));
    start(async move {
        let mut lists = if lazy_outer { lazy_list(async { List::new() }) } else { List::new() };
        for s in sources.iter().rev() {
            let l = lists;
            lists = if lazy_outer {
                lazy_list(async move { prepend_thunk(thunk(async move { nodes(s, 0).into() }), l) })
            } else {
                prepend_thunk(value_thunk(nodes(s, 0).into()), l)
            };
        }
        let merged = race(lists).await;
        let other = (sharers > 1).then(|| merged.clone());
        let mut second = None;
        if let Some(l) = other {
            second = Some(
                go(async move {
                    let (seen, _) = consume(l, limit, sources, vec![]).await;
                    let xs: Vec<f64> = seen.iter().map(|x| (x.0 * 1_000_000 + x.1) as f64).collect();
                    shared(strict_list(xs.into_iter().map(ffi::Number::new).collect::<Vec<_>>()).into())
                })
                .await,
            );
        }
        let (seen, ended) = consume(merged, limit, sources, delay).await;
        if let Some(c) = second {
            let theirs = collect(list_of(&evaluate(c).await).unwrap()).await;
            let ours: Vec<f64> = seen.iter().map(|x| (x.0 * 1_000_000 + x.1) as f64).collect();
            let theirs: Vec<f64> = theirs.iter().map(|x| number_of(x).unwrap()).collect();
            ensure!(ours == theirs, "wrong-result", "one list gives {ours:?} to one reader and {theirs:?} to another");
            probe("a merged list had two readers");
        }
        if ended {
            for s in sources {
                let k = seen.iter().filter(|x| x.0 == s.id).count();
                ensure!(k == s.length, "lost-element", "the merged list has {k} of {} elements of list {}", s.length, s.id);
            }
        } else if limit != usize::MAX {
            ensure!(seen.len() == limit, "lost-element", "{} of {limit} elements came", seen.len());
        }
        // Producers stop soon after the consumer has gone.
        GATE.open();
        let bound = os(|o| 2 * o.cpus) + 2 * n + 2;
        sleep(42_000.0).await;
        let before: usize = RACE.with(|r| r.started.iter().sum());
        sleep(400.0).await;
        let after: usize = RACE.with(|r| r.started.iter().sum());
        ensure!(after == before, "endless-production", "{} elements are evaluated long after the merged list was dropped", after - before);
        let ahead = RACE.with(|r| r.ahead);
        ensure!(ahead <= bound, "unbounded-production", "{ahead} elements were evaluated ahead of the consumer, more than {bound}");
        if infinite {
            probe("an infinite list was merged");
        }
    });
}

// ---------------------------------------------------------------- yield

static TURN: Plain<usize> = Plain::new(0);

/// Tasks pass a turn around, waiting for theirs with nothing but yields.
pub fn yields() {
    machine();
    let n = 2 + work(4) as usize;
    let rounds = 1 + work(6) as usize;
    let idlers = work(3) as usize;
    start(async move {
        let mut tasks = vec![];
        for me in 0..n {
            tasks.push(
                task(async move {
                    for r in 0..rounds {
                        while TURN.with(|t| *t) != r * n + me {
                            probe("a task yielded");
                            yield_().await;
                        }
                        TURN.with(|t| *t += 1);
                    }
                })
                .await,
            );
        }
        for _ in 0..idlers {
            tasks.push(
                task(async move {
                    while TURN.with(|t| *t) < n * rounds {
                        yield_().await;
                    }
                })
                .await,
            );
        }
        wait_all(tasks).await;
        ensure!(TURN.with(|t| *t) == n * rounds, "wrong-result", "the turn went around a wrong number of times");
    });
}

// ---------------------------------------------------------------- the runtime in other threads

fn inside() -> bool {
    tokio::runtime::Handle::try_current().is_ok()
}

fn job(depth: u64, id: u64) -> Pin<Box<dyn Future<Output = u64> + Send>> {
    Box::pin(async move {
        ensure!(inside(), "no-runtime", "a future is polled outside the runtime");
        let mut sum = id;
        for _ in 0..work(4) {
            match work(if depth > 0 { 7 } else { 5 }) {
                0 => {
                    let ms = 1 + work(3);
                    let before = now();
                    tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
                    ensure!(now() - before >= ms * 1_000_000, "early", "a sleep of {ms} ms takes {} ns", now() - before);
                }
                1 => {
                    let n = work(100);
                    let r = tokio::spawn(async move {
                        tokio::task::yield_now().await;
                        n + 1
                    })
                    .await;
                    ensure!(r.ok() == Some(n + 1), "wrong-result", "a spawned task gives a wrong result");
                }
                2 => {
                    let r = tokio::fs::read("/tmp/data").await;
                    ensure!(r.ok().as_deref() == Some(b"data"), "wrong-result", "a file is not read");
                }
                3 => {
                    let (tx, rx) = tokio::sync::oneshot::channel();
                    std::thread::spawn(move || {
                        pause();
                        let _ = tx.send(7u64);
                    });
                    ensure!(rx.await.ok() == Some(7), "wrong-result", "a channel loses a value");
                }
                4 => {
                    let a = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
                    let b = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
                    a.send_to(&[id as u8], b.local_addr().unwrap()).await.unwrap();
                    let mut buffer = [0; 9];
                    let r = b.recv_from(&mut buffer).await.unwrap();
                    ensure!(r == (1, a.local_addr().unwrap()) && buffer[0] == id as u8, "wrong-result", "a datagram arrives as {r:?}");
                    probe("a datagram was sent");
                }
                5 => sum += ffi::runtime::run(job(depth - 1, 1)).await,
                _ => {
                    // Abandons a computation while it is under way.
                    let f = ffi::runtime::run(job(depth - 1, 1));
                    let timer = tokio::time::sleep(std::time::Duration::from_micros(work(2_500)));
                    if let futures::future::Either::Right(_) = futures::future::select(Box::pin(f), Box::pin(timer)).await {
                        probe("a computation was abandoned");
                    }
                }
            }
            ensure!(inside(), "no-runtime", "a future is polled outside the runtime after a suspension");
        }
        sum + 1000
    })
}

pub fn foreign_threads() {
    machine();
    faults(&["task.spurious-poll", "futex.spurious-wake", "epoll.eintr", "epoll.early-timeout", "poll.eintr", "fs.read-eintr", "fs.open-eintr"], 30);
    os(|o| o.put_file("/tmp/data", b"data"));
    let n = 1 + work(4);
    let ended = &*Box::leak(Box::new(Plain::new(0)));
    strict_wakers(work(2) == 1);
    for id in 0..n {
        spawn(async move {
            ensure!(!inside(), "runtime-left", "the runtime is left behind by a poll");
            let mut f = Box::pin(ffi::runtime::run(job(2, id)));
            let r = std::future::poll_fn(|cx| {
                ensure!(!inside(), "runtime-left", "the runtime is left behind by a poll");
                let r = f.as_mut().poll(cx);
                ensure!(!inside(), "runtime-left", "the runtime is left behind by a poll");
                r
            })
            .await;
            ensure!(r % 1000 >= id % 1000 && r >= 1000, "wrong-result", "a computation gives {r}");
            ended.with(|x| *x += 1);
        });
    }
    sim_kit::run(1 + work(3) as usize);
    ensure!(ended.with(|x| *x) == n, "not-ended", "computations are lost");
    done()
}
