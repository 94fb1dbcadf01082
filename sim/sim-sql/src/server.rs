//! A database server on the simulated network: the messages of PostgreSQL, and statements whose
//! results the scenario has decided beforehand.
use pensim::api::*;
use std::{
    collections::BTreeMap,
    io::{self, Read, Write},
    net::{Shutdown, TcpListener, TcpStream},
    thread,
    time::Duration,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    None,
    Boolean(bool),
    Number(f64),
    Text(Vec<u8>),
}

/// A value of a column, as the server has it.
#[derive(Clone, Debug)]
pub enum Cell {
    Null(u32),
    Boolean(bool),
    Int2(i16),
    Int4(i32),
    Int8(i64),
    Float4(f32),
    Float8(f64),
    Text(String, u32),
    Bytes(Vec<u8>),
    Numeric,
}

impl Cell {
    pub fn kind(&self) -> u32 {
        match self {
            Cell::Null(kind) | Cell::Text(_, kind) => *kind,
            Cell::Boolean(_) => 16,
            Cell::Bytes(_) => 17,
            Cell::Int8(_) => 20,
            Cell::Int2(_) => 21,
            Cell::Int4(_) => 23,
            Cell::Float4(_) => 700,
            Cell::Float8(_) => 701,
            Cell::Numeric => 1700,
        }
    }

    /// What it is in Pen, if there is such a value.
    pub fn value(&self) -> Option<Value> {
        Some(match self {
            Cell::Null(1700) | Cell::Numeric | Cell::Bytes(_) => return None,
            Cell::Null(_) => Value::None,
            Cell::Boolean(x) => Value::Boolean(*x),
            Cell::Int2(x) => Value::Number(*x as f64),
            Cell::Int4(x) => Value::Number(*x as f64),
            Cell::Int8(x) => Value::Number(*x as f64),
            Cell::Float4(x) => Value::Number(*x as f64),
            Cell::Float8(x) => Value::Number(*x),
            Cell::Text(x, _) => Value::Text(x.as_bytes().to_vec()),
        })
    }

    fn wire(&self) -> Option<Vec<u8>> {
        Some(match self {
            Cell::Null(_) => return None,
            Cell::Boolean(x) => vec![*x as u8],
            Cell::Int2(x) => x.to_be_bytes().to_vec(),
            Cell::Int4(x) => x.to_be_bytes().to_vec(),
            Cell::Int8(x) => x.to_be_bytes().to_vec(),
            Cell::Float4(x) => x.to_be_bytes().to_vec(),
            Cell::Float8(x) => x.to_be_bytes().to_vec(),
            Cell::Text(x, _) => x.as_bytes().to_vec(),
            Cell::Bytes(x) => x.clone(),
            Cell::Numeric => vec![0, 1, 0, 0, 0, 0, 0, 0, 0, 7],
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Fine,
    ParseError,
    /// After this many rows.
    Error(usize),
    /// The connection is closed after this many rows.
    Close(usize),
    /// The connection is closed when everything has been done.
    CloseAfter,
}

#[derive(Clone, Debug)]
pub struct Statement {
    pub pool: usize,
    pub text: Vec<u8>,
    pub arguments: Vec<Value>,
    pub columns: Vec<u32>,
    pub rows: Vec<Vec<Cell>>,
    pub tag: String,
    pub affected: u64,
    pub outcome: Outcome,
    pub wait: u64, // microseconds
    pub cuts: Vec<(usize, u64)>,
    pub meets: Option<usize>, // does not end before this other statement has begun
    pub began: u32,
    pub began_at: u64,
    pub ended: u32,
}

pub static STATEMENTS: Plain<Vec<Statement>> = Plain::new(vec![]);

/// What the server knows of a pool.
#[derive(Clone, Copy, Debug, Default)]
pub struct Load {
    pub sessions: usize, // that were established
    pub running: usize,
    pub most: usize,
}

pub static LOADS: Plain<BTreeMap<usize, Load>> = Plain::new(BTreeMap::new());

pub struct Server {
    pub port: u16,
    pub stops: u64,
    pub sessions: Vec<TcpStream>,
    pub password: bool,
    pub connect_wait: u64, // microseconds
}

pub static SERVERS: Plain<Vec<Server>> = Plain::new(vec![]);

/// Listens, and serves whoever connects, until it is stopped.
pub fn run(server: usize) {
    let (port, stops) = SERVERS.with(|s| (s[server].port, s[server].stops));
    let l = loop {
        match TcpListener::bind(("127.0.0.1", port)) {
            Ok(l) => break l,
            Err(_) => thread::sleep(Duration::from_micros(10)),
        }
    };
    thread::spawn(move || loop {
        let s = l.accept();
        if SERVERS.with(|s| s[server].stops != stops) {
            return;
        }
        if let Ok((s, _)) = s {
            if let Ok(c) = s.try_clone() {
                SERVERS.with(|s| s[server].sessions.push(c));
            }
            thread::spawn(move || {
                let s = Session { server, stream: s, buffer: vec![], pool: usize::MAX, statements: BTreeMap::new(), portal: None, skip: false, out: vec![] };
                if let Err(e) = s.serve() {
                    say!("a session ends: {e}");
                }
            });
        }
    });
}

/// Stops listening and closes all sessions.
pub fn stop(server: usize) {
    let (port, sessions) = SERVERS.with(|s| {
        s[server].stops += 1;
        (s[server].port, std::mem::take(&mut s[server].sessions))
    });
    let _ = TcpStream::connect(("127.0.0.1", port));
    for s in sessions {
        let _ = s.shutdown(Shutdown::Both);
    }
}

struct Session {
    server: usize,
    stream: TcpStream,
    buffer: Vec<u8>,
    pool: usize,
    statements: BTreeMap<Vec<u8>, (usize, Option<usize>, Vec<u32>)>, // shared text, statement, types of the arguments
    portal: Option<usize>,
    skip: bool, // to the next synchronisation, after an error
    out: Vec<u8>,
}

fn closed() -> io::Error {
    io::Error::other("closed")
}

fn cstr(b: &mut &[u8]) -> Vec<u8> {
    let n = b.iter().position(|x| *x == 0).unwrap_or_else(|| fail("protocol", "a string has no end"));
    let r = b[..n].to_vec();
    *b = &b[n + 1..];
    r
}

fn take<'a>(b: &mut &'a [u8], n: usize) -> &'a [u8] {
    ensure!(b.len() >= n, "protocol", "a message is too short");
    let (x, y) = b.split_at(n);
    *b = y;
    x
}

fn u16_(b: &mut &[u8]) -> usize {
    u16::from_be_bytes(take(b, 2).try_into().unwrap()) as usize
}

fn i32_(b: &mut &[u8]) -> i32 {
    i32::from_be_bytes(take(b, 4).try_into().unwrap())
}

impl Session {
    fn fill(&mut self, n: usize) -> io::Result<()> {
        while self.buffer.len() < n {
            let mut b = [0; 4096];
            match self.stream.read(&mut b) {
                Ok(0) => return Err(closed()),
                Ok(n) => self.buffer.extend(&b[..n]),
                Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }

    fn take(&mut self, n: usize) -> io::Result<Vec<u8>> {
        self.fill(n)?;
        Ok(self.buffer.drain(..n).collect())
    }

    fn put(&mut self, kind: u8, body: &[u8]) {
        self.out.push(kind);
        self.out.extend((body.len() as u32 + 4).to_be_bytes());
        self.out.extend(body);
    }

    fn write(&mut self, b: &[u8]) -> io::Result<()> {
        let mut at = 0;
        while at < b.len() {
            match self.stream.write(&b[at..]) {
                Ok(n) => at += n,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }

    fn flush(&mut self, cuts: &[(usize, u64)]) -> io::Result<()> {
        let b = std::mem::take(&mut self.out);
        let mut at = 0;
        for &(size, delay) in cuts {
            if at + size < b.len() {
                self.write(&b[at..at + size])?;
                thread::sleep(Duration::from_micros(delay));
                at += size;
            }
        }
        self.write(&b[at..])
    }

    fn error(&mut self, code: &str, message: &str) {
        let mut b = vec![];
        for (k, v) in [(b'S', "ERROR"), (b'V', "ERROR"), (b'C', code), (b'M', message)] {
            b.push(k);
            b.extend(v.bytes());
            b.push(0);
        }
        b.push(0);
        self.put(b'E', &b);
        self.skip = true;
    }

    fn serve(mut self) -> io::Result<()> {
        self.start()?;
        loop {
            let h = self.take(5)?;
            let n = i32::from_be_bytes(h[1..].try_into().unwrap());
            ensure!(n >= 4, "protocol", "a message has the size {n}");
            let b = self.take(n as usize - 4)?;
            let mut b = &b[..];
            match h[0] {
                b'X' => return Ok(()),
                b'S' => {
                    self.skip = false;
                    self.portal = None;
                    self.put(b'Z', b"I");
                    self.flush(&[])?;
                }
                _ if self.skip => (),
                b'P' => self.parse(&mut b),
                b'D' => self.describe(&mut b),
                b'B' => self.bind(&mut b),
                b'E' => {
                    ensure!(cstr(&mut b).is_empty() && i32_(&mut b) == 0, "protocol", "a part of a result is asked for");
                    self.execute()?;
                }
                b'C' => {
                    let kind = take(&mut b, 1)[0];
                    let name = cstr(&mut b);
                    if kind == b'S' {
                        self.statements.remove(&name);
                    }
                    self.put(b'3', &[]);
                }
                k => fail("protocol", format!("a message of the kind {:?} arrives", k as char)),
            }
        }
    }

    fn start(&mut self) -> io::Result<()> {
        let (wait, password) = SERVERS.with(|s| (s[self.server].connect_wait, s[self.server].password));
        thread::sleep(Duration::from_micros(wait));
        loop {
            let n = self.take(4)?;
            let n = i32::from_be_bytes(n.try_into().unwrap());
            let b = self.take(n as usize - 4)?;
            let mut b = &b[..];
            match i32_(&mut b) {
                80877103 => self.write(b"N")?,
                196608 => {
                    let mut m = BTreeMap::new();
                    while b[0] != 0 {
                        let k = cstr(&mut b);
                        m.insert(String::from_utf8(k).unwrap(), String::from_utf8(cstr(&mut b)).unwrap());
                    }
                    ensure!(m["user"] == "pen", "protocol", "the user is {:?}", m["user"]);
                    self.pool = m["database"].strip_prefix("pool").and_then(|x| x.parse().ok()).unwrap_or_else(|| fail("protocol", "a pool has another database"));
                    ensure!(self.pool % 2 == self.server, "wrong-server", "a connection of pool {} is made to server {}", self.pool, self.server);
                    break;
                }
                v => fail("protocol", format!("a session begins with {v}")),
            }
        }
        if password {
            self.put(b'R', &[0, 0, 0, 3]);
            self.flush(&[])?;
            let h = self.take(5)?;
            let n = i32::from_be_bytes(h[1..].try_into().unwrap());
            let b = self.take(n as usize - 4)?;
            ensure!(h[0] == b'p' && b == b"secret word\0", "protocol", "the password is {b:?}");
        }
        self.put(b'R', &[0, 0, 0, 0]);
        for x in [&b"server_version\x0016.0\0"[..], b"client_encoding\0UTF8\0", b"DateStyle\0ISO, MDY\0"] {
            self.put(b'S', x);
        }
        self.put(b'K', &[0, 0, 0, 1, 0, 0, 0, 2]);
        self.put(b'Z', b"I");
        let pool = self.pool;
        LOADS.with(|l| l.entry(pool).or_default().sessions += 1);
        say!("a session of pool {pool}");
        self.flush(&[])
    }

    /// Which statement this is. Statements that share their text say which they are in their first
    /// argument.
    fn statement_of(&self, text: &[u8], argument: Option<f64>) -> Option<usize> {
        let id = match (text.strip_prefix(b"S"), argument) {
            (Some(t), _) => std::str::from_utf8(t).ok()?.split(' ').next()?.parse().ok(),
            (None, Some(x)) => Some(x as usize),
            (None, None) => return None,
        }?;
        let n = STATEMENTS.with(|s| s.len());
        ensure!(id < n, "wrong-statement", "a statement {:?} of nobody arrives", String::from_utf8_lossy(text));
        let s = STATEMENTS.with(|s| s[id].clone());
        ensure!(s.text == text, "wrong-statement", "the text of {id} arrives as {:?}", String::from_utf8_lossy(text));
        ensure!(s.pool == self.pool, "wrong-pool", "statement {id} of pool {} arrives at a session of pool {}", s.pool, self.pool);
        Some(id)
    }

    fn parse(&mut self, b: &mut &[u8]) {
        let name = cstr(b);
        let text = cstr(b);
        let n = u16_(b);
        let types: Vec<u32> = (0..n).map(|_| i32_(b) as u32).collect();
        let id = self.statement_of(&text, None);
        say!("parse {:?} {:?} {types:?}", String::from_utf8_lossy(&name), String::from_utf8_lossy(&text));
        let (outcome, shared) = match id {
            Some(id) => (STATEMENTS.with(|s| s[id].outcome.clone()), id),
            None => (Outcome::Fine, STATEMENTS.with(|s| s.iter().position(|x| x.text == text)).unwrap_or_else(|| fail("wrong-statement", format!("a statement {:?} of nobody arrives", String::from_utf8_lossy(&text))))),
        };
        if outcome == Outcome::ParseError {
            return self.error("42601", "syntax error");
        }
        if !name.is_empty() && self.statements.contains_key(&name) {
            return self.error("42P05", "prepared statement already exists");
        }
        self.statements.insert(name, (shared, id, types));
        self.put(b'1', &[]);
    }

    fn describe(&mut self, b: &mut &[u8]) {
        let kind = take(b, 1)[0];
        let name = cstr(b);
        ensure!(kind == b'S', "protocol", "a portal is to be described");
        let Some((shared, _, types)) = self.statements.get(&name).cloned() else { return self.error("26000", "no such statement") };
        let mut t = (types.len() as u16).to_be_bytes().to_vec();
        t.extend(types.iter().flat_map(|t| t.to_be_bytes()));
        self.put(b't', &t);
        self.row_description(shared);
    }

    fn row_description(&mut self, id: usize) {
        let columns = STATEMENTS.with(|s| s[id].columns.clone());
        if columns.is_empty() {
            return self.put(b'n', &[]);
        }
        let mut t = (columns.len() as u16).to_be_bytes().to_vec();
        for (i, c) in columns.iter().enumerate() {
            t.extend(format!("c{}\0", i / 2).bytes()); // some have the same name
            t.extend(0i32.to_be_bytes());
            t.extend(0i16.to_be_bytes());
            t.extend(c.to_be_bytes());
            t.extend((-1i16).to_be_bytes());
            t.extend((-1i32).to_be_bytes());
            t.extend(0i16.to_be_bytes());
        }
        self.put(b'T', &t);
    }

    fn bind(&mut self, b: &mut &[u8]) {
        let portal = cstr(b);
        let name = cstr(b);
        let formats: Vec<usize> = (0..u16_(b)).map(|_| u16_(b)).collect();
        let n = u16_(b);
        let arguments: Vec<Option<Vec<u8>>> = (0..n)
            .map(|_| match i32_(b) {
                -1 => None,
                n => Some(take(b, n as usize).to_vec()),
            })
            .collect();
        let results: Vec<usize> = (0..u16_(b)).map(|_| u16_(b)).collect();
        ensure!(portal.is_empty() && formats == [1] && results == [1], "protocol", "the formats are {formats:?} and {results:?}");
        let Some((_, id, types)) = self.statements.get(&name).cloned() else { return self.error("26000", "no such statement") };
        if types.len() != n {
            return self.error("08P01", "another number of arguments");
        }
        // The types are those the statement was prepared with.
        let mut values = vec![];
        for (a, t) in arguments.iter().zip(&types) {
            let Some(a) = a else {
                values.push(Value::None);
                continue;
            };
            values.push(match (t, a.len()) {
                (16, 1) => Value::Boolean(a[0] != 0),
                (700, 4) => Value::Number(f32::from_be_bytes(a[..].try_into().unwrap()) as f64),
                (701, 8) => Value::Number(f64::from_be_bytes(a[..].try_into().unwrap())),
                (25, _) if a.contains(&0) || std::str::from_utf8(a).is_err() => return self.error("22021", "invalid byte sequence"),
                (25, _) => Value::Text(a.clone()),
                (16 | 700 | 701, _) => return self.error("22P03", "incorrect binary data format"),
                (t, _) => fail("protocol", format!("an argument has the type {t}")),
            });
        }
        let id = match id {
            Some(id) => id,
            None => match values.first() {
                Some(Value::Number(x)) => {
                    let text = STATEMENTS.with(|s| s.get(*x as usize).map(|s| s.text.clone()));
                    let text = text.unwrap_or_else(|| fail("wrong-arguments", "the first argument is another one"));
                    self.statement_of(&text, Some(*x)).unwrap()
                }
                x => fail("wrong-arguments", format!("the first argument is {x:?}")),
            },
        };
        let s = STATEMENTS.with(|s| s[id].clone());
        ensure!(same(&values, &s.arguments), "wrong-arguments", "the arguments of {id} arrive as {values:?} instead of {:?}", s.arguments);
        self.portal = Some(id);
        self.put(b'2', &[]);
    }

    fn execute(&mut self) -> io::Result<()> {
        let Some(id) = self.portal.take() else {
            self.error("34000", "no such portal");
            return Ok(());
        };
        let pool = self.pool;
        let at = now();
        let s = STATEMENTS.with(|s| {
            s[id].began += 1;
            s[id].began_at = at;
            s[id].clone()
        });
        say!("statement {id} begins on pool {pool}");
        ensure!(s.began == 1, "ran-twice", "statement {id} is run {} times", s.began);
        LOADS.with(|l| {
            let l = l.entry(pool).or_default();
            l.running += 1;
            l.most = l.most.max(l.running);
        });
        let r = self.run(id, &s);
        LOADS.with(|l| l.entry(pool).or_default().running -= 1);
        say!("statement {id} ends");
        if !r? {
            let _ = self.stream.shutdown(Shutdown::Both);
            return Err(closed());
        }
        Ok(())
    }

    /// False if the connection is to be closed.

    fn run(&mut self, id: usize, s: &Statement) -> io::Result<bool> {
        thread::sleep(Duration::from_micros(s.wait));
        if let Some(other) = s.meets {
            while STATEMENTS.with(|s| s[other].began == 0) {
                thread::sleep(Duration::from_millis(1));
            }
            probe("two statements met");
        }
        for (i, r) in s.rows.iter().enumerate() {
            match s.outcome {
                Outcome::Error(n) if n == i => {
                    self.error("22012", "division by zero");
                    return Ok(true);
                }
                Outcome::Close(n) if n == i => {
                    let _ = self.flush(&s.cuts);
                    return Ok(false);
                }
                _ => (),
            }
            let mut b = (r.len() as u16).to_be_bytes().to_vec();
            for c in r {
                match c.wire() {
                    None => b.extend((-1i32).to_be_bytes()),
                    Some(x) => {
                        b.extend((x.len() as u32).to_be_bytes());
                        b.extend(x);
                    }
                }
            }
            self.put(b'D', &b);
        }
        if let Outcome::Error(_) = s.outcome {
            self.error("22012", "division by zero");
            return Ok(true);
        }
        if let Outcome::Close(_) = s.outcome {
            let _ = self.flush(&s.cuts);
            return Ok(false);
        }
        STATEMENTS.with(|s| s[id].ended += 1);
        if s.outcome == Outcome::CloseAfter {
            return Ok(false);
        }
        let mut b = s.tag.clone().into_bytes();
        b.push(0);
        self.put(b'C', &b);
        self.flush(&s.cuts)?;
        Ok(true)
    }
}

pub fn same(x: &[Value], y: &[Value]) -> bool {
    x.len() == y.len()
        && x.iter().zip(y).all(|(x, y)| match (x, y) {
            (Value::Number(x), Value::Number(y)) => x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan(),
            (x, y) => x == y,
        })
}
