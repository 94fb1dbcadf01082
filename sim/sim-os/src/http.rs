//! HTTP servers and clients.
use crate::rt::*;
use ffi::{
    cps::{AsyncStack, ContinuationFunction},
    Any, Arc, ByteString, Closure,
};
use pensim::api::*;
use sim_kit::{wire::bytes, *};
use std::{
    collections::BTreeMap,
    future::Future,
    io::{self, Read, Write},
    net::{TcpListener, TcpStream},
    pin::Pin,
    thread,
    time::Duration,
};

ffi::import!(_pen_http_server_serve, async fn(address: ByteString, callback: Closure) -> Any);
ffi::import!(_pen_http_client_send, async fn(method: ByteString, uri: ByteString, headers: Arc<Any>, body: ByteString) -> Any);

type Headers = BTreeMap<String, Vec<u8>>;

#[derive(Clone, Debug, PartialEq)]
struct Request {
    method: String,
    uri: String,
    headers: Headers,
    body: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
struct Answer {
    status: u16,
    headers: Vec<(Vec<u8>, Vec<u8>)>,
    body: Vec<u8>,
}

type Callback = Box<dyn Fn(Request) -> Pin<Box<dyn Future<Output = Answer>>>>;

extern "C" fn callback_entry(
    stack: &mut AsyncStack<()>,
    k: ContinuationFunction<Arc<Response>, ()>,
    closure: Closure<()>,
    method: ByteString,
    uri: ByteString,
    headers: Arc<Any>,
    body: ByteString,
) {
    enter(stack, k, async move {
        let f = unsafe { &*(closure.payload() as *const Plain<Callback>) };
        let request = Request {
            method: String::from_utf8(method.as_slice().to_vec()).unwrap(),
            uri: String::from_utf8(uri.as_slice().to_vec()).unwrap(),
            headers: headers_of(&headers).into_iter().map(|(k, v)| (String::from_utf8(k).unwrap(), v)).collect(),
            body: body.as_slice().to_vec(),
        };
        drop((method, uri, headers, body));
        let a = f.with(|f| f(request)).await;
        Arc::new(Response { status: (a.status as f64).into(), headers: sim_kit::headers(a.headers), body: a.body.into() })
    })
}

async fn serve(address: &str, f: Callback) -> Result<()> {
    let c = synchronized(Closure::new(callback_entry as *const u8, Plain::new(f)).into_opaque());
    done_any(_pen_http_server_serve(s(address), c).await)
}

fn done_any(x: Any) -> Result<()> {
    match error_of(&x) {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

async fn send(r: &Request) -> Result<Answer> {
    let hs = r.headers.iter().map(|(k, v)| (k.clone().into_bytes(), v.clone())).collect();
    let x = _pen_http_client_send(s(&r.method), s(&r.uri), sim_kit::headers(hs), s(&r.body)).await;
    match error_of(&x) {
        Some(e) => Err(e),
        None => match AnyResponse::try_from(x) {
            Ok(r) => Ok(Answer { status: f64::from(r.0.status) as u16, headers: headers_of(&r.0.headers), body: r.0.body.as_slice().to_vec() }),
            Err(_) => fail("wrong-type", "a result is neither a response nor an error"),
        },
    }
}

// ---------------------------------------------------------------- the wire

/// A connection of a peer not written in Pen, with what has been read ahead.
struct Peer {
    stream: TcpStream,
    buffer: Vec<u8>,
}

impl Peer {
    fn fill(&mut self) -> io::Result<bool> {
        let mut b = vec![0; 9000];
        loop {
            match self.stream.read(&mut b) {
                Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                Err(e) => return Err(e),
                Ok(n) => {
                    self.buffer.extend(&b[..n]);
                    return Ok(n > 0);
                }
            }
        }
    }
    fn line(&mut self) -> io::Result<String> {
        loop {
            if let Some(i) = self.buffer.windows(2).position(|w| w == b"\r\n") {
                let line: Vec<u8> = self.buffer.drain(..i + 2).collect();
                return Ok(line[..i].iter().map(|&b| b as char).collect());
            }
            if !self.fill()? {
                return Err(io::ErrorKind::UnexpectedEof.into());
            }
        }
    }
    fn exact(&mut self, n: usize) -> io::Result<Vec<u8>> {
        while self.buffer.len() < n {
            if !self.fill()? {
                return Err(io::ErrorKind::UnexpectedEof.into());
            }
        }
        Ok(self.buffer.drain(..n).collect())
    }
    fn headers(&mut self) -> io::Result<Headers> {
        let mut r = Headers::new();
        loop {
            let l = self.line()?;
            if l.is_empty() {
                return Ok(r);
            }
            let (k, v) = l.split_once(':').unwrap_or_else(|| fail("wrong-wire", format!("a header line is {l:?}")));
            let v: Vec<u8> = v.trim().chars().map(|c| c as u8).collect();
            ensure!(r.insert(k.to_lowercase(), v).is_none(), "wrong-wire", "the header {k} comes twice");
        }
    }
    fn body(&mut self, headers: &Headers, to_end: bool) -> io::Result<Vec<u8>> {
        if headers.get("transfer-encoding").is_some_and(|v| v == b"chunked") {
            let mut r = vec![];
            loop {
                let l = self.line()?;
                let n = usize::from_str_radix(&l, 16).unwrap_or_else(|_| fail("wrong-wire", format!("the size of a chunk is {l:?}")));
                r.extend(self.exact(n)?);
                self.line()?;
                if n == 0 {
                    return Ok(r);
                }
            }
        }
        if let Some(n) = headers.get("content-length") {
            return self.exact(String::from_utf8_lossy(n).parse().unwrap());
        }
        if to_end {
            while self.fill()? {}
            return Ok(std::mem::take(&mut self.buffer));
        }
        Ok(vec![])
    }
    fn response(&mut self, method: &str) -> io::Result<(u16, Headers, Vec<u8>)> {
        let l = self.line()?;
        let status: u16 = l.strip_prefix("HTTP/1.1 ").and_then(|l| l[..3].parse().ok()).unwrap_or_else(|| fail("wrong-wire", format!("a response starts with {l:?}")));
        let hs = self.headers()?;
        let body = if method == "HEAD" || status == 204 || status == 304 { vec![] } else { self.body(&hs, true)? };
        Ok((status, hs, body))
    }
    fn request(&mut self) -> io::Result<Option<Request>> {
        while self.buffer.is_empty() {
            if !self.fill()? {
                return Ok(None);
            }
        }
        let l = self.line()?;
        let parts: Vec<&str> = l.split(' ').collect();
        ensure!(parts.len() == 3 && parts[2] == "HTTP/1.1", "wrong-wire", "a request starts with {l:?}");
        let headers = self.headers()?;
        let body = self.body(&headers, false)?;
        Ok(Some(Request { method: parts[0].into(), uri: parts[1].into(), headers, body }))
    }
}

fn write_all(s: &mut TcpStream, mut b: &[u8]) -> io::Result<()> {
    while !b.is_empty() {
        match s.write(b) {
            Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
            Err(e) => return Err(e),
            Ok(n) => b = &b[n..],
        }
    }
    Ok(())
}

/// Writes in pieces, some of them late.
fn write_pieces(s: &mut TcpStream, b: &[u8], cuts: &[(usize, u64)]) -> io::Result<()> {
    let mut at = 0;
    for &(size, delay) in cuts {
        if at + size < b.len() {
            write_all(s, &b[at..at + size])?;
            thread::sleep(Duration::from_micros(delay));
            at += size;
        }
    }
    write_all(s, &b[at..])
}

fn cuts() -> Vec<(usize, u64)> {
    (0..work(4)).map(|_| (1 + work(60) as usize, slow().unwrap_or_else(|| [0, 10, 500, 3000][work(4) as usize]))).collect()
}

/// Sometimes something takes longer than anything that gives up would wait, in microseconds.
fn slow() -> Option<u64> {
    (work(60) == 59).then(|| {
        probe("somebody took very long");
        1_000_000 * [2, 31, 61, 130, 1_000, 8_000][work(6) as usize]
    })
}

fn chunked(body: &[u8], size: usize) -> Vec<u8> {
    let mut r = vec![];
    for c in body.chunks(size) {
        r.extend(format!("{:x}\r\n", c.len()).bytes());
        r.extend(c);
        r.extend(b"\r\n");
    }
    r.extend(b"0\r\n\r\n");
    r
}

fn body_of(stream: u64) -> Vec<u8> {
    let size = match work(8) {
        0..=1 => 0,
        2..=5 => work(60),
        6 => work(5000),
        _ => 30_000 + work(60_000),
    };
    bytes(stream, 0, size as usize)
}

fn some_headers(id: u64) -> Headers {
    let mut hs = Headers::new();
    let many = if work(20) == 1 { 10 + work(50) } else { work(4) };
    for k in 0..many {
        let v: Vec<u8> = match work(5) {
            0 => vec![],
            1 => b"a, b; c=\"d\"".to_vec(),
            2 => b"\xc3\xa9\xff".to_vec(),
            3 if work(10) == 1 => b"z".repeat(1000 + work(20_000) as usize),
            3 => b"z".repeat(1 + work(200) as usize),
            _ => format!("{id}").into_bytes(),
        };
        hs.insert(format!("x-{}-{k}", ["a", "long-name", "q"][work(3) as usize]), v);
    }
    hs
}

fn method() -> &'static str {
    ["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "PURGE"][work(8) as usize]
}

fn query() -> &'static str {
    ["", "?", "?a=b&c=%20d", "/deep/er//path", "?q=%ff+x/y?z", ";p=1"][work(6) as usize]
}

fn wire(r: &Request, form: u64) -> Vec<u8> {
    let mut b = format!("{} {} HTTP/1.1\r\n", r.method, r.uri).into_bytes();
    for (k, v) in &r.headers {
        let k = if form & 4 == 0 { k.clone() } else { k.to_uppercase() };
        b.extend(k.bytes());
        b.extend(b": ");
        b.extend(v);
        b.extend(b"\r\n");
    }
    b.extend(b"\r\n");
    if r.headers.contains_key("transfer-encoding") {
        b.extend(chunked(&r.body, 1 + ((form as usize >> 3) % 4000).max(r.body.len() / 20)));
    } else {
        b.extend(&r.body);
    }
    b
}

const HIDDEN: &[&str] = &["epoll.eintr", "epoll.early-timeout", "epoll.one-at-a-time", "futex.spurious-wake", "net.short-send", "net.short-receive", "net.eintr"];

fn net_faults(extra: &[&'static str], budget: u64) {
    let kinds: Vec<&'static str> = HIDDEN.iter().chain(extra).copied().collect();
    faults(&kinds, budget);
}

fn resets() -> u64 {
    ["net.reset", "net.reset-in-backlog", "net.accept-aborted"].iter().map(|f| fired(f)).sum()
}

// ---------------------------------------------------------------- servers

#[derive(Clone, Debug)]
struct Exchange {
    request: Request,
    answer: Answer,
    form: u64,
    delays: u64, // how the callback takes its time
    gate: Option<usize>, // the exchange on another connection it waits for
}

#[derive(Clone, Debug, PartialEq)]
enum Finish {
    Orderly,   // reads every response
    Leave,     // closes without reading
    CutShort(usize), // leaves out the end of its last request
    Malformed, // sends something that is no request in the end
    Refused,   // is answered with something that is no response in the end
}

#[derive(Clone, Debug)]
struct Client {
    exchanges: Vec<usize>,
    finish: Finish,
    pipelined: bool,
    cuts: Vec<(usize, u64)>,
    delay: u64,
}

#[derive(Clone, Copy, Default, Debug)]
struct Served {
    begun: u32,
    ended: u32,
    seen: bool,
}

static EXCHANGES: Plain<Vec<Exchange>> = Plain::new(vec![]);
static SERVED: Plain<Vec<Served>> = Plain::new(vec![]);

fn exchange(cut: bool, refused: bool) -> usize {
    let id = EXCHANGES.with(|e| e.len());
    let m = method();
    let mut headers = some_headers(id as u64);
    let mut body = if m == "GET" && work(3) > 0 && !cut { vec![] } else { body_of(2 * id as u64) };
    if cut && body.is_empty() {
        body = b"short".to_vec();
    }
    headers.insert("host".into(), b"localhost".to_vec());
    if work(6) == 1 {
        headers.insert("connection".into(), b"keep-alive".to_vec());
    }
    let form = work(1 << 15);
    if !body.is_empty() && form & 3 == 1 {
        headers.insert("transfer-encoding".into(), b"chunked".to_vec());
    } else if !body.is_empty() || form & 1 == 0 {
        headers.insert("content-length".into(), body.len().to_string().into_bytes());
    }
    let status = [200, 200, 201, 404, 500, 204, 304, 299][work(8) as usize];
    let mut hs: Vec<(Vec<u8>, Vec<u8>)> = some_headers(id as u64 + 100).into_iter().map(|(k, v)| (if form & 64 == 0 { k.to_uppercase().into_bytes() } else { k.into_bytes() }, v)).collect();
    let mut status = status;
    if refused {
        match work(3) {
            0 => hs.push((b"no name".to_vec(), b"x".to_vec())),
            1 => hs.push((b"x-y".to_vec(), b"two\r\nlines: 1".to_vec())),
            _ => status = [1000, 0, 99][work(3) as usize],
        }
    }
    let e = Exchange {
        request: Request { method: m.into(), uri: format!("/{id}{}", query()), headers, body },
        answer: Answer { status, headers: hs, body: if status == 204 || status == 304 { vec![] } else { body_of(2 * id as u64 + 1) } },
        form,
        delays: work(5),
        gate: None,
    };
    EXCHANGES.with(|x| x.push(e));
    SERVED.with(|x| x.push(Served::default()));
    id
}

async fn answer(r: Request) -> Answer {
    let id: Option<usize> = r.uri[1..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok());
    let n = EXCHANGES.with(|e| e.len());
    let Some(id) = id.filter(|i| *i < n) else { fail("wrong-request", format!("the server is asked for {:?}", r.uri)) };
    let e = EXCHANGES.with(|e| e[id].clone());
    ensure!(r.method == e.request.method, "wrong-request", "the method {} arrives as {}", e.request.method, r.method);
    ensure!(r.uri == e.request.uri, "wrong-request", "the URI {} arrives as {}", e.request.uri, r.uri);
    ensure!(r.headers == e.request.headers, "wrong-request", "the headers {:?} arrive as {:?}", e.request.headers, r.headers);
    ensure!(r.body == e.request.body, "wrong-request", "a body of {} bytes arrives as {} other bytes", e.request.body.len(), r.body.len());
    let begun = SERVED.with(|s| {
        s[id].begun += 1;
        s[id].begun
    });
    say!("request {id} is served");
    ensure!(begun == 1, "served-twice", "request {id} is served {begun} times");
    match e.delays {
        0 => (),
        1 => yield_().await,
        2 => sleep(slow().map_or(1.0, |n| (n / 1000) as f64)).await,
        3 => sleep(work(4) as f64).await,
        _ => {
            for _ in 0..work(5) {
                yield_().await
            }
        }
    }
    if let Some(g) = e.gate {
        // On a connection of its own, so it does not have to wait for this one.
        let mut rounds = 0;
        while SERVED.with(|s| s[g].begun == 0) && resets() == 0 {
            rounds += 1;
            sleep(1.08f64.powi(rounds).floor()).await;
            ensure!(rounds < 300, "blocked", "a slow request keeps another connection from being served");
        }
        probe("a request waited for another connection");
    }
    SERVED.with(|s| s[id].ended += 1);
    e.answer
}

/// Servers answer every request with what the program computes for it.
pub fn server() {
    machine();
    let size = [64 << 10, 64 << 10, 4096][config(3) as usize];
    os(|o| o.send_buffer = size);
    net_faults(&["net.reset", "net.accept-eintr", "net.accept-emfile", "net.accept-aborted", "net.reset-in-backlog", "net.bind-eacces"], 8);
    let clients = 1 + work(4) as usize;
    let mut plans: Vec<Client> = vec![];
    for _ in 0..clients {
        let finish = match work(10) {
            0..=5 => Finish::Orderly,
            6 => Finish::Leave,
            7 => Finish::CutShort(1 + work(4) as usize),
            8 => Finish::Malformed,
            _ => Finish::Refused,
        };
        let n = 1 + work(4) as usize;
        let last = n - 1;
        plans.push(Client {
            exchanges: (0..n).map(|i| exchange(i == last && matches!(finish, Finish::CutShort(_)), i == last && finish == Finish::Refused)).collect(),
            pipelined: work(2) == 1,
            cuts: cuts(),
            delay: [0, 0, 100, 2000][work(4) as usize],
            finish,
        });
    }
    // Some request waits for the first one of another connection that is sure to come.
    for c in 0..clients {
        let d = (c + 1) % clients;
        if c < d && work(3) == 0 && (plans[d].finish == Finish::Orderly || plans[d].exchanges.len() > 1) && plans[d].finish != Finish::Leave {
            let (from, to) = (plans[c].exchanges[work(plans[c].exchanges.len() as u64) as usize], plans[d].exchanges[0]);
            EXCHANGES.with(|e| e[from].gate = Some(to));
        }
    }
    say!("plan {plans:?}");
    EXCHANGES.with(|e| e.iter().for_each(|e| say!("{} {} {} bytes, gate {:?}: {} {} bytes", e.request.method, e.request.uri, e.request.body.len(), e.gate, e.answer.status, e.answer.body.len())));
    let left: &'static Plain<usize> = Box::leak(Box::new(Plain::new(clients)));
    let up: &'static Plain<bool> = Box::leak(Box::new(Plain::new(false)));
    let checks = plans.clone();
    start(async move {
        task(async move {
            loop {
                let e = serve("127.0.0.1:8000", Box::new(|r| Box::pin(answer(r)))).await;
                match e {
                    Ok(()) => fail("server-ended", "the server ends"),
                    Err(e) => ensure!(fired("net.bind-eacces") + fired("net.emfile") > 0 && !up.with(|u| *u), "server-ended", "the server fails: {e}"),
                }
            }
        })
        .await;
        for plan in plans {
            thread::spawn(move || {
                thread::sleep(Duration::from_micros(plan.delay));
                client(plan, up);
                left.with(|l| *l -= 1);
            });
        }
        let mut pause = 20.0f64;
        while left.with(|l| *l) > 0 {
            sleep(pause.floor()).await;
            pause *= 1.05;
        }
        // It still works after all that.
        stop_faults();
        let last = exchange(false, false);
        let over: &'static Plain<bool> = Box::leak(Box::new(Plain::new(false)));
        thread::spawn(move || {
            client(Client { exchanges: vec![last], finish: Finish::Orderly, pipelined: false, cuts: vec![], delay: 0 }, up);
            over.with(|o| *o = true);
        });
        let mut pause = 20.0f64;
        while !over.with(|l| *l) {
            sleep(pause.floor()).await;
            pause *= 1.05;
        }
        ensure!(SERVED.with(|s| s[last].seen), "server-lost", "the server does not answer any more");
    });
    for plan in checks {
        for (i, &id) in plan.exchanges.iter().enumerate() {
            let s = SERVED.with(|s| s[id]);
            let last = i + 1 == plan.exchanges.len();
            ensure!(!(last && matches!(plan.finish, Finish::CutShort(_))) || s.begun == 0, "incomplete-request", "a request whose end never came is served");
            if s.seen {
                ensure!(s.begun == 1 && s.ended == 1, "wrong-answer", "request {id} is answered while {s:?}");
            }
        }
    }
}

fn client(plan: Client, up: &'static Plain<bool>) {
    let stream = loop {
        let was_up = up.with(|u| *u);
        match TcpStream::connect("127.0.0.1:8000") {
            Ok(s) => break s,
            Err(_) if !was_up => thread::sleep(Duration::from_millis(1)),
            Err(e) => fail("server-lost", format!("connecting to the server fails: {e}")),
        }
    };
    up.with(|u| *u = true);
    let before = resets();
    say!("{:?} connects", plan.exchanges);
    let ok = converse(stream, &plan);
    say!("{:?} ends: {ok:?}", plan.exchanges);
    match ok {
        Ok(()) => (),
        Err(e) => {
            ensure!(resets() > 0 || plan.finish != Finish::Orderly, "connection-lost", "a client's connection fails after {before} resets: {e}");
            probe("a client lost its connection");
        }
    }
}

fn converse(mut stream: TcpStream, plan: &Client) -> io::Result<()> {
    let exchanges: Vec<(usize, Exchange)> = plan.exchanges.iter().map(|&i| (i, EXCHANGES.with(|e| e[i].clone()))).collect();
    let mut reader = Peer { stream: stream.try_clone()?, buffer: vec![] };
    let n = exchanges.len();
    if plan.pipelined || plan.finish == Finish::Leave {
        let mut all = vec![];
        for (i, (_, e)) in exchanges.iter().enumerate() {
            let mut b = wire(&e.request, e.form);
            if let (Finish::CutShort(n), true) = (&plan.finish, i + 1 == exchanges.len()) {
                b.truncate(b.len() - n);
            }
            all.extend(b);
        }
        if plan.finish == Finish::Malformed {
            all.extend(b"\x01\x02 no request\r\n\r\n");
        }
        if plan.finish == Finish::Leave {
            let cuts = plan.cuts.clone();
            let writer = thread::spawn(move || drop(write_pieces(&mut stream, &all, &cuts)));
            thread::sleep(Duration::from_micros(plan.delay * 5));
            let _ = reader.stream.shutdown(std::net::Shutdown::Both);
            let _ = writer.join();
            return Ok(());
        }
        let cuts = plan.cuts.clone();
        let half_close = matches!(plan.finish, Finish::CutShort(_));
        let writer = thread::spawn(move || {
            let _ = write_pieces(&mut stream, &all, &cuts);
            if half_close {
                let _ = stream.shutdown(std::net::Shutdown::Write);
            }
        });
        let r = (|| {
            for (i, x) in exchanges.iter().enumerate() {
                if i + 1 == n && plan.finish != Finish::Orderly && plan.finish != Finish::Malformed {
                    return finish(&mut reader, plan, x);
                }
                read_answer(&mut reader, x)?;
            }
            if plan.finish == Finish::Malformed {
                return finish(&mut reader, plan, exchanges.last().unwrap());
            }
            Ok(())
        })();
        if r.is_err() {
            let _ = reader.stream.shutdown(std::net::Shutdown::Both);
        }
        let _ = writer.join();
        return r;
    }
    for (i, x) in exchanges.iter().enumerate() {
        let mut b = wire(&x.1.request, x.1.form);
        let last = i + 1 == n;
        if let (Finish::CutShort(n), true) = (&plan.finish, last) {
            b.truncate(b.len() - n);
        }
        let mut w = stream.try_clone()?;
        let cuts = plan.cuts.clone();
        // Answers may come before the body has been sent.
        let writer = thread::spawn(move || write_pieces(&mut w, &b, &cuts));
        let r = if last && matches!(plan.finish, Finish::CutShort(_)) {
            let _ = writer.join().unwrap();
            let _ = stream.shutdown(std::net::Shutdown::Write);
            return finish(&mut reader, plan, x);
        } else if last && plan.finish == Finish::Refused {
            finish(&mut reader, plan, x)
        } else {
            read_answer(&mut reader, x)
        };
        if r.is_err() {
            let _ = stream.shutdown(std::net::Shutdown::Both);
        }
        let _ = writer.join();
        r?;
    }
    if plan.finish == Finish::Malformed {
        write_all(&mut stream, b"\x01\x02 no request\r\n\r\n")?;
        finish(&mut reader, plan, &exchanges[0])?;
    }
    Ok(())
}

/// The end of a connection that does not end with a proper exchange.
fn finish(reader: &mut Peer, plan: &Client, x: &(usize, Exchange)) -> io::Result<()> {
    let mut b = vec![];
    let ended = loop {
        match reader.fill() {
            Ok(true) => (),
            Ok(false) => break true,
            Err(_) => break false,
        }
    };
    b.append(&mut reader.buffer);
    let begun = SERVED.with(|s| s[x.0].begun);
    match plan.finish {
        Finish::Malformed => ensure!(b.starts_with(b"HTTP/1.1 400 ") || b"HTTP/1.1 400 ".starts_with(&b), "wrong-answer", "what is no request is answered with {:?}", String::from_utf8_lossy(&b[..b.len().min(80)])),
        Finish::Refused => ensure!(
            b"HTTP/1.1 ".starts_with(&b) || b.starts_with(b"HTTP/1.1 4") || b.starts_with(b"HTTP/1.1 5"),
            "wrong-answer",
            "a response that cannot be sent is sent as {:?}",
            String::from_utf8_lossy(&b[..b.len().min(80)])
        ),
        _ => ensure!(begun == 0 && (b"HTTP/1.1 ".starts_with(&b) || b.starts_with(b"HTTP/1.1 4")), "incomplete-request", "a request whose end never came is answered with {:?}", String::from_utf8_lossy(&b[..b.len().min(80)])),
    }
    if !ended {
        probe("a connection without a proper end was reset");
    }
    Ok(())
}

fn read_answer(reader: &mut Peer, (id, e): &(usize, Exchange)) -> io::Result<()> {
    let (status, mut headers, body) = reader.response(&e.request.method)?;
    ensure!(status == e.answer.status, "wrong-answer", "request {id} is answered with status {status} instead of {}", e.answer.status);
    ensure!(e.request.method == "HEAD" || body == e.answer.body, "wrong-answer", "request {id} is answered with {} bytes other than the {} of its body", body.len(), e.answer.body.len());
    for (k, v) in &e.answer.headers {
        let k = String::from_utf8(k.to_ascii_lowercase()).unwrap();
        let w = headers.remove(&k);
        ensure!(w.as_ref() == Some(v), "wrong-answer", "the header {k} of request {id} is {w:?} instead of {v:?}");
    }
    for k in headers.keys() {
        ensure!(["date", "content-length", "transfer-encoding", "connection", "keep-alive"].contains(&k.as_str()), "wrong-answer", "request {id} is answered with a header {k} of nobody");
    }
    let s = SERVED.with(|s| {
        s[*id].seen = true;
        s[*id]
    });
    ensure!(s.begun == 1 && s.ended == 1, "wrong-answer", "request {id} is answered while {s:?}");
    probe("a request was answered");
    Ok(())
}

// ---------------------------------------------------------------- clients

#[derive(Clone, Debug)]
struct Outgoing {
    request: Request,
    answer: Answer,
    path: String,
    style: u64, // of the response: 0 length, 1 chunked, 2 up to the end, 3 ends early, 4 nonsense, 5 none at all
    cuts: Vec<(usize, u64)>,
    wait: u64,
    arrived: u32,
}

static OUTGOING: Plain<Vec<Outgoing>> = Plain::new(vec![]);

fn outgoing(host: &str) {
    OUTGOING.with(|o| {
        let id = o.len();
        let m = method();
        let path = format!("/{id}{}", query());
        let mut headers = some_headers(id as u64);
        if work(4) == 0 {
            headers.insert("host".into(), b"other.example".to_vec());
        }
        let status = [200, 200, 201, 404, 500, 301, 204, 299][work(8) as usize];
        let style = [0, 0, 0, 1, 1, 2, 3, 4, 5][work(9) as usize];
        let hs: Vec<(Vec<u8>, Vec<u8>)> = some_headers(id as u64 + 100).into_iter().map(|(k, v)| (k.into_bytes(), v)).collect();
        let none = m == "HEAD" || status == 204;
        o.push(Outgoing {
            request: Request { method: m.into(), uri: format!("http://{host}{path}"), headers, body: if m == "GET" || m == "HEAD" { vec![] } else { body_of(2 * id as u64) } },
            answer: Answer { status, headers: hs, body: if none { vec![] } else { body_of(2 * id as u64 + 1) } },
            path,
            style: if none && style < 4 { 0 } else { style },
            cuts: cuts(),
            wait: slow().unwrap_or_else(|| [0, 0, 500, 20_000][work(4) as usize]),
            arrived: 0,
        })
    })
}

/// Clients get the response to their request, which is made once.
pub fn client_requests() {
    machine();
    os(|o| o.hosts.insert("service".into(), vec!["127.0.0.1".parse().unwrap()]));
    let size = [64 << 10, 64 << 10, 4096][config(3) as usize];
    os(|o| o.send_buffer = size);
    net_faults(&["net.reset", "net.refuse", "net.connect-timeout", "net.reset-in-backlog", "net.emfile", "dns.again"], 8);
    let tasks = 1 + work(3) as usize;
    let per = 1 + work(3) as usize;
    for _ in 0..tasks * per {
        outgoing(["127.0.0.1:8080", "service:8080"][work(2) as usize]);
    }
    OUTGOING.with(|e| e.iter().for_each(|e| say!("{} {} {} bytes: {} {} bytes, style {} after {} us", e.request.method, e.request.uri, e.request.body.len(), e.answer.status, e.answer.body.len(), e.style, e.wait)));
    let l = TcpListener::bind("127.0.0.1:8080").unwrap_or_else(|_| {
        stop_faults();
        TcpListener::bind("127.0.0.1:8080").unwrap()
    });
    thread::spawn(move || loop {
        if let Ok((s, _)) = l.accept() {
            thread::spawn(move || {
                let mut p = Peer { stream: s, buffer: vec![] };
                while let Ok(true) = respond(&mut p) {}
            });
        }
    });
    start(async move {
        let mut all = vec![];
        for t in 0..tasks {
            all.push(
                task(async move {
                    for i in 0..per {
                        request(t * per + i).await;
                    }
                })
                .await,
            );
        }
        wait_all(all).await;
        // Later requests work again.
        stop_faults();
        outgoing("127.0.0.1:8080");
        let last = tasks * per;
        OUTGOING.with(|o| o[last].style = if o[last].style > 2 { 0 } else { o[last].style });
        let before = resets();
        request(last).await;
        ensure!(before > 0 || OUTGOING.with(|o| o[last].arrived) == 1, "lost-request", "a request after the faults does not arrive");
    });
}

fn connection_faults() -> u64 {
    ["net.reset", "net.refuse", "net.connect-timeout", "net.reset-in-backlog", "net.emfile", "dns.again"].iter().map(|f| fired(f)).sum()
}

async fn request(id: usize) {
    let o = OUTGOING.with(|o| o[id].clone());
    say!("request {id}");
    let Ok(r) = tokio::time::timeout(Duration::from_secs(100_000), send(&o.request)).await else {
        let unsent = OUTGOING.with(|o| o[id].arrived) == 0 && fired("net.reset") + fired("net.reset-in-backlog") > 0;
        fail("stuck-request", format!("request {id} never ends{}", if unsent { ": its connection was reset before the request was sent" } else { "" }));
    };
    say!("request {id} ends: {:?}", r.as_ref().map(|a| a.status));
    let arrived = OUTGOING.with(|o| o[id].arrived);
    match r {
        Ok(a) => {
            ensure!(arrived == 1, "wrong-response", "request {id} has a response, but arrived {arrived} times");
            ensure!(o.style < 3, "wrong-response", "request {id} has a response that was never sent as a whole: {} bytes of {}", a.body.len(), o.answer.body.len());
            ensure!(a.status == o.answer.status, "wrong-response", "the status of {id} is {} instead of {}", a.status, o.answer.status);
            ensure!(a.body == o.answer.body, "wrong-response", "the body of {id} are {} bytes other than the {} sent", a.body.len(), o.answer.body.len());
            let mut hs: BTreeMap<Vec<u8>, Vec<u8>> = a.headers.iter().cloned().collect();
            for (k, v) in &o.answer.headers {
                let w = hs.remove(k);
                ensure!(w.as_ref() == Some(v), "wrong-response", "the header {} of {id} is {w:?} instead of {v:?}", String::from_utf8_lossy(k));
            }
            hs.remove(&b"content-length"[..]);
            hs.remove(&b"transfer-encoding"[..]);
            ensure!(hs.is_empty(), "wrong-response", "request {id} has the headers {hs:?} that were not sent");
            probe("a response was received");
        }
        Err(e) => {
            ensure!(o.style >= 3 || connection_faults() > 0, "false-error", "request {id} fails: {e}");
            ensure!(arrived <= 1, "sent-twice", "request {id} arrived {arrived} times");
            probe("a request failed");
        }
    }
}

fn respond(p: &mut Peer) -> io::Result<bool> {
    let Some(r) = p.request()? else { return Ok(false) };
    let id: usize = r.uri[1..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
    let n = OUTGOING.with(|o| o.len());
    ensure!(id < n, "wrong-request", "the service is asked for {:?}", r.uri);
    let o = OUTGOING.with(|o| o[id].clone());
    ensure!(r.method == o.request.method, "wrong-request", "the method {} arrives as {}", o.request.method, r.method);
    ensure!(r.uri == o.path, "wrong-request", "the path {} arrives as {}", o.path, r.uri);
    ensure!(r.body == o.request.body, "wrong-request", "a body of {} bytes arrives as {} other bytes", o.request.body.len(), r.body.len());
    let mut hs = r.headers.clone();
    for (k, v) in &o.request.headers {
        let w = hs.remove(k);
        ensure!(w.as_ref() == Some(v), "wrong-request", "the header {k} arrives as {w:?} instead of {v:?}");
    }
    for k in hs.keys() {
        ensure!(["host", "content-length", "transfer-encoding", "connection"].contains(&k.as_str()), "wrong-request", "a header {k} of nobody arrives");
    }
    say!("request {id} arrives");
    let arrived = OUTGOING.with(|o| {
        o[id].arrived += 1;
        o[id].arrived
    });
    ensure!(arrived == 1, "sent-twice", "request {id} arrives {arrived} times");
    thread::sleep(Duration::from_micros(o.wait));
    let mut b = format!("HTTP/1.1 {} Fine\r\n", o.answer.status).into_bytes();
    for (k, v) in &o.answer.headers {
        b.extend(k);
        b.extend(b": ");
        b.extend(v);
        b.extend(b"\r\n");
    }
    let none = r.method == "HEAD" || o.answer.status == 204;
    match o.style {
        1 => {
            b.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            b.extend(chunked(&o.answer.body, 1 + o.wait as usize % 4000 + o.answer.body.len() / 5));
        }
        2 => {
            b.extend(b"\r\n");
            b.extend(&o.answer.body);
        }
        4 => b = b"\x01\x02 no response\r\n\r\n".to_vec(),
        5 => b.clear(),
        _ if o.answer.status == 204 => b.extend(b"\r\n"),
        style => {
            let size = o.answer.body.len() + (style == 3) as usize;
            b.extend(format!("Content-Length: {size}\r\n\r\n").bytes());
            if !none {
                b.extend(&o.answer.body);
            }
        }
    }
    let r = write_pieces(&mut p.stream, &b, &o.cuts);
    r?;
    Ok(o.style < 2)
}
