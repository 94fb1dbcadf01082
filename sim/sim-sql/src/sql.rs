//! The functions of the sql package.
use crate::{rt::*, server::*};
use ffi::{Any, Arc, ByteString, List};
use pensim::api::*;
use sim_kit::*;
use std::{thread, time::Duration};

type Pool = Arc<Any>;


const MS: u64 = 1_000_000;
const HIDDEN: &[&str] = &["epoll.eintr", "epoll.early-timeout", "epoll.one-at-a-time", "futex.spurious-wake", "net.short-send", "net.short-receive"];
const VISIBLE: &[&str] = &["net.reset", "net.refuse", "net.connect-timeout", "net.reset-in-backlog", "net.emfile", "dns.again"];

ffi::import!(_pen_sql_pool_create, async fn(uri: ByteString, options: Arc<Options>) -> Any);
ffi::import!(_pen_sql_pool_query, async fn(pool: Pool, query: ByteString, arguments: List) -> Any);
ffi::import!(_pen_sql_pool_execute, async fn(pool: Pool, query: ByteString, arguments: List) -> Any);

#[repr(C)]
struct Options {
    min_connections: ffi::Number,
    max_connections: ffi::Number,
    connect_timeout: ffi::Number,
}

#[derive(Clone, Copy, Debug)]
struct Plan {
    min: u64,
    max: u64,
    timeout: u64, // ms
}

fn broken() -> u64 {
    VISIBLE.iter().map(|f| fired(f)).sum()
}

fn to_any(v: &Value) -> Any {
    match v {
        Value::None => ffi::None::new().into(),
        Value::Boolean(x) => ffi::Boolean::from(*x).into(),
        Value::Number(x) => ffi::Number::from(*x).into(),
        Value::Text(x) => ByteString::from(&x[..]).into(),
    }
}

fn value_of(x: &Any) -> Value {
    if is_none(x) {
        Value::None
    } else if let Some(x) = boolean_of(x) {
        Value::Boolean(x)
    } else if let Some(x) = number_of(x) {
        Value::Number(x)
    } else if let Some(x) = bytes_of(x) {
        Value::Text(x)
    } else {
        fail("wrong-type", "a column has a value of no type of values")
    }
}

async fn later(v: Vec<Value>) -> List {
    let n = v.len();
    let at = if n == 0 { 0 } else { work(n as u64 + 1) as usize };
    let mut list = List::new();
    if work(3) == 0 {
        // The last ones come later.
        let rest = v[at..].to_vec();
        list = lazy_list(async move {
            for _ in 0..work(3) {
                yield_().await;
            }
            strict_list(rest.iter().map(to_any).collect::<Vec<_>>())
        });
        for x in v[..at].iter().rev() {
            list = prepend_thunk(value_thunk(to_any(x)), list);
        }
    } else {
        for x in v.into_iter().rev() {
            let slow = work(4) == 0;
            list = prepend_thunk(
                thunk(async move {
                    if slow {
                        yield_().await;
                    }
                    to_any(&x)
                }),
                list,
            );
        }
    }
    list
}

async fn create(uri: String, p: Plan) -> Result<Pool> {
    let options = Arc::new(Options { min_connections: (p.min as f64).into(), max_connections: (p.max as f64).into(), connect_timeout: (p.timeout as f64).into() });
    synchronize(&options);
    let r = _pen_sql_pool_create(s(uri), options).await;
    match error_of(&r) {
        Some(e) => Err(e),
        None => Ok(shared_handle(handle_of(&r).unwrap_or_else(|| fail("wrong-type", "a pool is neither a pool nor an error")))),
    }
}

fn text(long: bool) -> String {
    let n = match work(8) {
        0 => 0,
        1 if long => 1 + work(20_000) as usize,
        _ => 1 + work(12) as usize,
    };
    let a: Vec<char> = "ab01 '\"$1;-%\\\n\tzäß€😀".chars().collect();
    (0..n).map(|i| if n > 100 { a[i % 7] } else { a[work(a.len() as u64) as usize] }).collect()
}

fn number() -> f64 {
    match work(12) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::NAN,
        3 => f64::INFINITY,
        4 => -1.5,
        5 => 9007199254740993.0,
        6 => 5e-324,
        7 => f64::MAX,
        n => n as f64,
    }
}

fn argument() -> Value {
    match work(6) {
        0 => Value::None,
        1 => Value::Boolean(work(2) == 1),
        2 | 3 => Value::Number(number()),
        _ => match work(12) {
            0 => Value::Text(b"\xff\xfe".to_vec()),
            1 => Value::Text(b"a\0b".to_vec()),
            _ => Value::Text(text(true).into_bytes()),
        },
    }
}

fn cell(kind: u32) -> Cell {
    if work(5) == 0 {
        return Cell::Null(kind);
    }
    match kind {
        16 => Cell::Boolean(work(2) == 1),
        17 => Cell::Bytes(text(false).into_bytes()),
        20 => Cell::Int8([0, 1, -1, i64::MAX, i64::MIN, 1 << 53, 9007199254740993, work(1 << 40) as i64][work(8) as usize]),
        21 => Cell::Int2([0, 1, -1, i16::MAX, i16::MIN][work(5) as usize]),
        23 => Cell::Int4([0, 1, -1, i32::MAX, i32::MIN, work(1 << 20) as i32][work(6) as usize]),
        700 => Cell::Float4([0.0, 0.1, -2.5, f32::NAN, f32::NEG_INFINITY, f32::MAX][work(6) as usize]),
        701 => Cell::Float8(number()),
        1700 => Cell::Numeric,
        _ => Cell::Text(text(true), kind),
    }
}

/// A statement of this pool.
fn statement(pool: usize, simple: bool) -> usize {
    let id = STATEMENTS.with(|s| s.len());
    let shared = !simple && work(2) == 0;
    let n = if simple { 0 } else { work(5) };
    let mut arguments: Vec<Value> = (0..n).map(|_| argument()).collect();
    let mut x = 0;
    if shared {
        arguments.insert(0, Value::Number(id as f64));
        x = work(2);
    }
    // Statements with the same text have the same columns.
    let mut columns: Vec<u32> = match work(5) {
        0 => vec![],
        _ => (0..1 + work(4)).map(|_| [16, 20, 21, 23, 25, 25, 700, 701, 701, 1043][work(10) as usize]).collect(),
    };
    if !simple && work(12) == 0 {
        columns.push([17, 1700][work(2) as usize]);
    }
    if shared {
        columns = [vec![701, 25], vec![]][x as usize].clone();
    }
    let count = if columns.is_empty() { 0 } else { [0, 1, 2, 3, 7, 40][work(6) as usize] };
    let rows: Vec<Vec<Cell>> = (0..count).map(|_| columns.iter().map(|c| cell(*c)).collect()).collect();
    let affected = if columns.is_empty() { [0, 1, 7, 1 << 40][work(4) as usize] } else { count };
    let tag = match (columns.is_empty(), work(3)) {
        (false, _) => format!("SELECT {affected}"),
        (_, 0) => format!("INSERT 0 {affected}"),
        (_, _) => format!("UPDATE {affected}"),
    };
    let outcome = match work(if simple { 1 } else { 16 }) {
        1 if !shared => Outcome::ParseError,
        2 => Outcome::Error(work(count + 1) as usize),
        3 => Outcome::Close(work(count + 1) as usize),
        4 => Outcome::CloseAfter,
        _ => Outcome::Fine,
    };
    let text = if shared { format!("shared {x} {n}") } else { format!("S{id} {}", text(true)) };
    STATEMENTS.with(|s| {
        s.push(Statement {
            pool,
            text: text.into_bytes(),
            arguments,
            columns,
            rows,
            tag,
            affected,
            outcome,
            wait: [0, 0, 500, 20_000][work(4) as usize],
            cuts: (0..work(4)).map(|_| (1 + work(60) as usize, [0, 10, 500, 3000][work(4) as usize])).collect(),
            meets: None,
            began: 0,
            began_at: 0,
            ended: 0,
        })
    });
    id
}

/// What a call came to.
#[derive(Debug, PartialEq, Clone, Copy)]
enum End {
    Done,
    Failed,
    TimedOut,
}

/// Runs a statement and checks everything about its result except whether it may time out.
async fn call(pool: &Pool, id: usize, execute: bool) -> End {
    let s_ = STATEMENTS.with(|s| s[id].clone());
    let before = broken();
    let arguments = later(s_.arguments.clone()).await;
    say!("call {id}");
    let r = if execute { _pen_sql_pool_execute(pool.clone(), s(&s_.text), arguments).await } else { _pen_sql_pool_query(pool.clone(), s(&s_.text), arguments).await };
    let after = STATEMENTS.with(|s| s[id].clone());
    let (began, ended) = (after.began, after.ended);
    let bad_text = s_.arguments.iter().any(|a| matches!(a, Value::Text(b) if std::str::from_utf8(b).is_err()));
    let nul = s_.arguments.iter().any(|a| matches!(a, Value::Text(b) if b.contains(&0)));
    let numeric = s_.columns.contains(&1700) && !s_.rows.is_empty();
    let unsupported = !execute && s_.rows.iter().flatten().any(|c| c.value().is_none()) || numeric;
    if let Some(e) = error_of(&r) {
        say!("call {id} fails: {e}");
        if bad_text {
            ensure!(began == 0, "wrong-arguments", "statement {id} runs without an argument that is no text");
            return End::Failed;
        }
        if e.contains("timed out while waiting for an open connection") {
            ensure!(began == 0, "false-error", "statement {id} runs and times out");
            return End::TimedOut;
        }
        let bytes = s_.rows.iter().flatten().any(|c| matches!(c, Cell::Bytes(_)));
        let expected = s_.outcome != Outcome::Fine || nul || unsupported || execute && bytes;
        ensure!(expected || broken() > 0 || interrupted(before), "false-error", "statement {id} fails: {e}");
        probe(if expected { "a statement failed on the server" } else { "a statement failed with its connection" });
        return End::Failed;
    }
    say!("call {id} is done");
    ensure!(began == 1 && ended == 1, "false-success", "statement {id} succeeds, but began {began} times and ended {ended} times");
    ensure!(s_.outcome == Outcome::Fine && !bad_text && !nul && !unsupported, "false-success", "statement {id} succeeds in spite of {:?}", s_.outcome);
    if execute {
        let n = number_of(&r).unwrap_or_else(|| fail("wrong-type", "a count is neither a number nor an error"));
        ensure!(n == s_.affected as f64, "wrong-result", "statement {id} affects {} rows, not {n}", s_.affected);
        probe("an execution was done");
    } else {
        let rows = collect(list_of(&r).unwrap_or_else(|| fail("wrong-type", "rows are neither a list nor an error"))).await;
        ensure!(rows.len() == s_.rows.len(), "wrong-result", "statement {id} has {} rows, not {}", s_.rows.len(), rows.len());
        for (i, (row, expected)) in rows.iter().zip(&s_.rows).enumerate() {
            let row = collect(list_of(row).unwrap_or_else(|| fail("wrong-type", "a row is no list"))).await;
            let row: Vec<Value> = row.iter().map(value_of).collect();
            let expected: Vec<Value> = expected.iter().map(|c| c.value().unwrap()).collect();
            ensure!(same(&row, &expected), "wrong-result", "row {i} of {id} is {row:?} instead of {expected:?}");
        }
        probe(if rows.is_empty() { "a query had no rows" } else { "a query had rows" });
    }
    End::Done
}

/// Whether encryption is asked for, in a single write of eight bytes which is taken to never be
/// short.
static NEGOTIATED: Plain<bool> = Plain::new(false);
static RESTARTS: Plain<u64> = Plain::new(0);

fn interrupted(_: u64) -> bool {
    RESTARTS.with(|r| *r) > 0
}

fn net(extra: &[&'static str], budget: u64) {
    let negotiated = NEGOTIATED.with(|n| *n);
    let kinds: Vec<&'static str> = HIDDEN.iter().chain(extra).copied().filter(|k| !negotiated || *k != "net.short-send").collect();
    system_faults(&kinds, budget);
}

fn servers(n: usize) {
    os(|o| {
        o.hosts.insert("db".into(), vec!["127.0.0.1".parse().unwrap()]);
        for (k, v) in [("PGUSER", "nobody"), ("HOME", "/home/pen")] {
            o.env.insert(k.into(), v.into());
        }
    });
    let negotiated = config(2) == 1;
    NEGOTIATED.with(|n| *n = negotiated);
    for i in 0..n {
        let password = work(3) == 0;
        let connect_wait = [0, 0, 200, 3_000][work(4) as usize];
        SERVERS.with(|s| s.push(Server { port: 5432 + i as u16, stops: 0, sessions: vec![], password, connect_wait }));
    }
}

fn uri(pool: usize) -> String {
    let server = pool % 2;
    let host = ["127.0.0.1", "db"][work(2) as usize];
    let password = if SERVERS.with(|s| s[server].password) { ":secret%20word" } else { "" };
    let mode = if NEGOTIATED.with(|n| *n) { ["", "?application_name=pen"][work(2) as usize] } else { "?sslmode=disable" };
    let scheme = ["postgres", "postgresql"][work(2) as usize];
    format!("{scheme}://pen{password}@{host}:{}/pool{pool}{mode}", 5432 + server)
}

/// Statements have the results the server gives them.
pub fn statements() {
    machine();
    let size = [64 << 10, 64 << 10, 4096][config(3) as usize];
    os(|o| o.send_buffer = size);
    servers(1);
    net(&[], 30);
    let max = 1 + work(3);
    let plan = Plan { min: work(max + 1), max, timeout: 60_000 };
    let tasks = 1 + work(4) as usize;
    let per = 1 + work(3) as usize;
    for _ in 0..tasks * per {
        statement(0, false);
    }
    if work(10) == 9 {
        // Longer than anything that gives up would wait, but others wait for the connection.
        probe("a statement took very long");
        STATEMENTS.with(|s| s[work((tasks * per) as u64) as usize].wait = [3_000_000, 31_000_000, 45_000_000][work(3) as usize]);
    }
    STATEMENTS.with(|s| s.iter().enumerate().for_each(|(i, s)| say!("{i}: {:?} {:?} {:?} {} rows, {:?}, {} us", String::from_utf8_lossy(&s.text), s.arguments, s.columns, s.rows.len(), s.outcome, s.wait)));
    crate::server::run(0);
    let u = uri(0);
    let faults = work(2) == 0;
    start(async move {
        let pool = create(u, plan).await.unwrap_or_else(|e| fail("false-error", format!("no pool: {e}")));
        if faults {
            net(VISIBLE, 8);
        }
        let mut all = vec![];
        for t in 0..tasks {
            let pool = pool.clone();
            all.push(
                task(async move {
                    for i in 0..per {
                        let end = call(&pool, t * per + i, work(3) == 0).await;
                        ensure!(end != End::TimedOut || broken() > 0, "false-error", "statement {} times out", t * per + i);
                    }
                })
                .await,
            );
        }
        wait_all(all).await;
        stop_faults();
        let last = statement(0, true);
        if work(10) == 9 {
            STATEMENTS.with(|s| s[last].wait = 400_000_000);
        }
        let end = call(&pool, last, false).await;
        ensure!(end == End::Done, "false-error", "a statement after the faults fails");
        let l = LOADS.with(|l| l[&0]);
        ensure!(l.most as u64 <= max || broken() > 0, "too-many", "{} statements run at once on {max} connections", l.most);
    });
}

fn plan() -> Plan {
    let max = 1 + work(4);
    Plan { min: work(max + 1), max, timeout: [50, 200, 1_000, 30_000][work(4) as usize] }
}

const SLACK: u64 = 30 * MS;

/// Runs a statement and checks when it does. `alone` if there are no more tasks than connections.
async fn timed(pool: &Pool, p: Plan, id: usize, alone: bool) -> End {
    let t0 = now();
    let end = call(pool, id, work(2) == 0).await;
    let t1 = now();
    let s = STATEMENTS.with(|s| s[id].clone());
    let least = p.timeout * MS;
    if end == End::TimedOut {
        ensure!(t1 - t0 >= least, "early", "a call gives up after {} instead of {least} ns", t1 - t0);
        ensure!(t1 - t0 <= least + SLACK, "late", "a call gives up after {} instead of {least} ns", t1 - t0);
        ensure!(!alone || broken() > 0 || interrupted(0), "false-error", "a call gives up although there are connections");
        probe("a call gave up");
    } else if s.began > 0 {
        ensure!(s.began_at - t0 <= least + SLACK, "late", "a call waits {} instead of up to {least} ns", s.began_at - t0);
        if alone && broken() == 0 && !interrupted(0) {
            ensure!(s.began_at - t0 <= SLACK, "late", "a call waits {} ns although there are connections", s.began_at - t0);
        }
        if s.began_at - t0 > SLACK {
            probe("a call waited for a connection");
        }
    } else {
        ensure!(t1 - t0 <= least + SLACK, "late", "a call fails after {} instead of up to {least} ns", t1 - t0);
    }
    end
}

/// Pools whose connections are all in use, which may be shared, and of which there may be several.
pub fn pools() {
    machine();
    servers(2);
    let pools = 1 + work(3) as usize;
    let meeting = work(3) == 0;
    let plans: Vec<Plan> = (0..pools).map(|_| if meeting { Plan { max: 2, min: work(3), timeout: 60_000 } } else { plan() }).collect();
    let tasks: Vec<usize> = plans.iter().map(|p| if meeting { 2 } else { 1 + work(p.max * 2) as usize }).collect();
    let per = 1 + work(3) as usize;
    let mut ids: Vec<Vec<Vec<usize>>> = vec![];
    for (k, p) in plans.iter().enumerate() {
        ids.push((0..tasks[k]).map(|_| (0..per).map(|_| statement(k, true)).collect()).collect());
        for t in ids[k].iter().flatten() {
            let wait = [0, 1_000, p.timeout * 1000 / 2, p.timeout * 1000, p.timeout * 1500][work(5) as usize];
            STATEMENTS.with(|s| s[*t].wait = wait);
        }
    }
    if meeting {
        // Two at a time on two connections.
        for k in 0..pools {
            for j in 0..per {
                let (a, b) = (ids[k][0][j], ids[k][1][j]);
                STATEMENTS.with(|s| {
                    s[a].meets = Some(b);
                    s[b].meets = Some(a);
                    s[a].wait = 0;
                    s[b].wait = 0;
                });
            }
        }
    }
    net(if meeting || work(2) == 0 { &[] } else { VISIBLE }, 12);
    say!("{plans:?} {tasks:?} x {per}");
    crate::server::run(0);
    crate::server::run(1);
    let uris: Vec<String> = (0..pools).map(uri).collect();
    start(async move {
        let mut all = vec![];
        let mut made = vec![];
        for (k, uri) in uris.into_iter().enumerate() {
            let p = plans[k];
            let pool = match create(uri, p).await {
                Ok(pool) => pool,
                Err(e) => {
                    ensure!(broken() > 0, "false-error", "no pool: {e}");
                    probe("no pool was made");
                    continue;
                }
            };
            let n = LOADS.with(|l| l.get(&k).map(|l| l.sessions).unwrap_or(0)) as u64;
            ensure!(n >= p.min.max(1), "too-few", "{n} connections are made for {p:?}");
            made.push((k, pool));
        }
        for (k, pool) in &made {
            let p = plans[*k];
            let alone = tasks[*k] as u64 <= p.max;
            for ids in ids[*k].clone() {
                let pool = pool.clone();
                all.push(
                    task(async move {
                        for id in ids {
                            timed(&pool, p, id, alone).await;
                        }
                    })
                    .await,
                );
            }
        }
        wait_all(all).await;
        stop_faults();
        if broken() > 0 {
            // Attempts to connect take some time to fail.
            sleep(300_000.0).await;
        }
        for (k, pool) in &made {
            let last = statement(*k, true);
            let end = timed(pool, plans[*k], last, true).await;
            ensure!(end == End::Done, "false-error", "a statement after the faults fails");
            let (l, max) = (LOADS.with(|l| l[k]), plans[*k].max);
            ensure!(l.most as u64 <= max || broken() > 0, "too-many", "{} statements run at once on {max} connections", l.most);
            if l.most as u64 == max && max > 1 {
                probe("all connections of a pool were in use");
            }
        }
    });
}

/// A server that starts late, is restarted, or is left alone for long.
pub fn outages() {
    machine();
    servers(1);
    net(&[], 12);
    let p = Plan { timeout: [1_000, 30_000][work(2) as usize], ..plan() };
    let tasks = 1 + work(4) as usize;
    let rounds = 1 + work(3) as usize;
    let late = [0, 0, p.timeout / 20, p.timeout / 2, p.timeout * 2][work(5) as usize] * 1000 + work(1000);
    let u = uri(0);
    say!("{p:?}, after {late} us");
    if late < 1000 {
        crate::server::run(0);
    } else {
        thread::spawn(move || {
            thread::sleep(Duration::from_micros(late));
            crate::server::run(0);
        });
    }
    start(async move {
        let t0 = now();
        let r = create(u.clone(), p).await;
        let took = now() - t0;
        let pool = match r {
            Ok(pool) => {
                // Connecting is tried again after up to a fifth of the time.
                ensure!(took <= p.timeout * MS * 6 / 5 + SLACK, "late", "a pool is made after {took} ns");
                pool
            }
            Err(e) => {
                ensure!(late > p.timeout * 1000 * 7 / 10, "false-error", "no pool: {e}");
                ensure!(p.timeout * MS <= took + SLACK && took <= p.timeout * MS * 6 / 5 + SLACK, "late", "no pool is made after {took} ns instead of {} ms", p.timeout);
                probe("no pool was made in time");
                sleep(p.timeout as f64 * 3.0).await;
                create(u, p).await.unwrap_or_else(|e| fail("false-error", format!("no pool: {e}")))
            }
        };
        let n = LOADS.with(|l| l[&0].sessions) as u64;
        ensure!(n >= p.min.max(1), "too-few", "{n} connections are made for {p:?}");
        let mut left = false;
        for _ in 0..rounds {
            match work(3) {
                0 if !left => {
                    left = true;
                    let minutes = work(35) as f64;
                    say!("the pool is left alone for {minutes} minutes");
                    sleep(minutes * 60_000.0).await;
                    probe("a pool was left alone");
                }
                1 => {
                    // Statements may be running, and connections idle.
                    let ids: Vec<usize> = (0..tasks).map(|_| statement(0, true)).collect();
                    let mut all = vec![];
                    RESTARTS.with(|r| *r += 1);
                    for id in ids {
                        let pool = pool.clone();
                        all.push(
                            task(async move {
                                timed(&pool, p, id, false).await;
                            })
                            .await,
                        );
                    }
                    sleep(work(30) as f64).await;
                    say!("the server stops");
                    crate::server::stop(0);
                    let before = now();
                    sleep([0.0, 1.0, 100.0, p.timeout as f64 * 1.5][work(4) as usize]).await;
                    if work(2) == 0 {
                        wait_all(all).await;
                        all = vec![];
                    }
                    say!("the server starts");
                    crate::server::run(0);
                    wait_all(all).await;
                    // What it has closed has arrived, and attempts to connect, which come at growing
                    // intervals and use connections up, have come again.
                    sleep(10.0 + 2.0 * ((now() - before) / MS) as f64).await;
                    RESTARTS.with(|r| *r = 0);
                    probe("the server was restarted");
                }
                _ => (),
            }
            let ids: Vec<usize> = (0..tasks).map(|_| statement(0, true)).collect();
            let mut all = vec![];
            let alone = tasks as u64 <= p.max;
            for id in ids {
                let pool = pool.clone();
                STATEMENTS.with(|s| s[id].wait = s[id].wait.min(500));
                all.push(
                    task(async move {
                        let end = timed(&pool, p, id, alone).await;
                        ensure!(end == End::Done, "false-error", "statement {id} fails on a server in order");
                    })
                    .await,
                );
            }
            wait_all(all).await;
        }
    });
}
