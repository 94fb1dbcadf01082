//! Files and directories.
use crate::rt::*;
use pensim::api::*;
use sim_kit::{wire::bytes, *};
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

/// Faults that programs must never notice.
const HIDDEN: &[&str] = &["futex.spurious-wake", "epoll.eintr", "epoll.early-timeout", "fs.open-eintr", "fs.read-eintr", "fs.write-eintr", "fs.short-read", "fs.short-write"];
/// Faults that are reported to programs as errors.
const VISIBLE: &[&str] = &["fs.emfile", "fs.eacces", "fs.create-enospc", "fs.read-eio", "fs.write-eio", "fs.write-enospc", "fs.stat-eacces"];

fn file_faults(extra: &[&'static str]) {
    let kinds: Vec<&'static str> = HIDDEN.iter().chain(VISIBLE).chain(extra).copied().collect();
    system_faults(&kinds, 12);
}

fn visible() -> u64 {
    VISIBLE.iter().chain(&["fs.readdir-eio", "fs.rename-exdev"]).map(|f| fired(f)).sum::<u64>()
}

pub fn options(flags: &str) -> Options {
    Options {
        append: flags.contains('a'),
        create: flags.contains('c'),
        create_new: flags.contains('n'),
        read: flags.contains('r'),
        truncate: flags.contains('t'),
        write: flags.contains('w'),
    }
}

pub fn stored(path: &str) -> Option<Vec<u8>> {
    os(|o| o.read_path(path).cloned())
}

fn chunk_size() -> usize {
    match work(40) {
        0..=27 => work(12) as usize,
        28..=35 => 1 + work(300) as usize,
        36..=38 => 1 + work(9000) as usize,
        _ => (2 << 20) - 2 + work(6) as usize,
    }
}

// ---------------------------------------------------------------- writes

#[derive(Clone, Debug)]
struct Segment {
    stream: u64,
    size: usize,
    count: Option<usize>, // None: it failed or has not returned, so that any prefix may be there
}

fn matches(content: &[u8], segments: &[Segment]) -> bool {
    let mut positions = vec![0usize];
    for s in segments {
        let data = bytes(s.stream, 0, s.size);
        let mut next = vec![];
        for p in positions {
            let same = content[p..].iter().zip(&data).take_while(|(a, b)| a == b).count();
            match s.count {
                Some(n) if n <= same => next.push(p + n),
                Some(_) => (),
                None => next.extend((0..=same).map(|k| p + k)),
            }
        }
        next.sort();
        next.dedup();
        positions = next;
    }
    positions.contains(&content.len())
}

struct Written {
    path: String,
    segments: Vec<Segment>,
    truncating: bool,
}

static WRITTEN: Plain<Vec<Written>> = Plain::new(vec![]);

fn check_stored(w: &Written, when: &str) {
    let content = stored(&w.path);
    let Some(content) = content else {
        ensure!(w.segments.iter().all(|s| s.count.unwrap_or(0) == 0), "lost-write", "{} is gone {when}", w.path);
        return;
    };
    if content.is_empty() && w.truncating {
        return;
    }
    ensure!(matches(&content, &w.segments), "lost-write", "{} has {} bytes {when} that do not follow from {}", w.path, content.len(), summary(&w.segments));
}

fn summary(segments: &[Segment]) -> String {
    segments.iter().map(|s| format!("{}/{}", s.count.map_or("?".into(), |c| c.to_string()), s.size)).collect::<Vec<_>>().join(" ")
}

fn check_all_stored(when: &str) {
    WRITTEN.with(|ws| {
        for w in ws {
            check_stored(w, when);
        }
    })
}

/// What writes acknowledge is in the file, for anyone, at once and whatever becomes of the program.
pub fn acknowledged_writes() {
    machine();
    file_faults(&[]);
    let files = 1 + work(3) as usize;
    let end = work(4); // 0, 1: main returns, 2: exit, 3: the process is killed
    if work(6) == 1 {
        let room = os(|o| o.used()) + work(600);
        os(|o| o.disk_capacity = Some(room));
    }
    os(|o| o.on_exit = Some(Box::new(|_| check_all_stored("when the process ends"))));
    if end == 3 {
        at(work(3_000_000), || {
            check_all_stored("when the process is killed");
            sys_probe("the process was killed");
            done()
        });
    }
    let exiting = &*Box::leak(Box::new(Plain::new(false)));
    start(async move {
        let mut tasks = vec![];
        for f in 0..files {
            let path = format!("/tmp/out-{f}");
            WRITTEN.with(|w| w.push(Written { path: path.clone(), segments: vec![], truncating: false }));
            let appending = work(2) == 1;
            let n = 1 + work(7);
            let first = task(async move {
                let mut file: Option<Handle> = None;
                for i in 0..n {
                    if file.is_none() || work(6) == 1 {
                        let flags = if appending { ["ac", "arc"][work(2) as usize] } else { ["wct", "wrct"][work(2) as usize] };
                        drop(file.take());
                        WRITTEN.with(|w| w[f].truncating = !appending);
                        match open(&path, options(flags)).await {
                            Ok(h) => {
                                if !appending {
                                    WRITTEN.with(|w| {
                                        w[f].segments.clear();
                                        w[f].truncating = false;
                                    });
                                }
                                file = Some(h)
                            }
                            Err(e) => {
                                ensure!(visible() > 0, "false-error", "opening {path} fails: {e}");
                                probe("a file could not be opened");
                                continue;
                            }
                        }
                    }
                    let size = chunk_size();
                    let stream = (f * 100) as u64 + i;
                    let k = WRITTEN.with(|w| {
                        w[f].segments.push(Segment { stream, size, count: None });
                        w[f].segments.len() - 1
                    });
                    let limited = os(|o| o.disk_capacity.is_some());
                    match write(file.as_ref().unwrap(), &bytes(stream, 0, size)).await {
                        Ok(n) => {
                            ensure!(n <= size && (n > 0 || size == 0), "wrong-count", "a write of {size} bytes acknowledges {n}");
                            WRITTEN.with(|w| {
                                w[f].segments[k].count = Some(n);
                                check_stored(&w[f], "after an acknowledgement")
                            });
                        }
                        Err(e) => {
                            ensure!(visible() > 0 || limited, "false-error", "a write of {size} bytes fails: {e}");
                            probe("a write failed");
                        }
                    }
                    if work(5) == 1 {
                        check_by_reading(f, &path).await;
                    }
                    if exiting.with(|x| *x) {
                        return;
                    }
                }
            })
            .await;
            tasks.push(first);
            if work(3) == 1 {
                let path = format!("/tmp/out-{f}");
                let wait = work(3) as f64;
                tasks.push(
                    task(async move {
                        sleep(wait).await;
                        // Writers that replace the contents would make the outcome of a slow read uncertain.
                        if appending {
                            check_by_reading(f, &path).await
                        }
                    })
                    .await,
                );
            }
        }
        if end == 2 {
            sleep(work(3) as f64).await;
            exiting.with(|x| *x = true);
            probe("the program exits while it writes");
            exit(0.0).await;
        }
        wait_all(tasks).await;
    });
    check_all_stored("after the program has ended");
}

pub fn sys_probe(name: &'static str) {
    pensim::api::probe(name)
}

/// Reads a file through another handle.
async fn check_by_reading(f: usize, path: &str) {
    let before = WRITTEN.with(|w| w[f].segments.clone());
    let Ok(h) = open(path, options("r")).await else { return };
    let Ok(content) = read(&h).await else { return };
    let after = WRITTEN.with(|w| w[f].segments.clone());
    let mut allowed = before;
    for (i, s) in after.iter().enumerate() {
        if i >= allowed.len() {
            allowed.push(Segment { count: None, ..*s });
        }
    }
    ensure!(matches(&content, &allowed), "lost-write", "another reader of {path} finds {} bytes that do not follow from {}", content.len(), summary(&allowed));
    probe("another handle read what was written");
}

// ---------------------------------------------------------------- reads

/// What reads give is what is in the file, to its end, or an error.
pub fn honest_reads() {
    machine();
    file_faults(&[]);
    if SYNC {
        // Whole reads go on when a signal interrupts them.
        faults(&["fs.read-eintr"], 12);
    }
    let n = 1 + work(3) as usize;
    let sizes: Vec<usize> = (0..n)
        .map(|_| match work(12) {
            0..=2 => work(20) as usize,
            3..=7 => work(3000) as usize,
            8..=10 => work(100_000) as usize,
            _ => (2 << 20) - 5 + work(10) as usize,
        })
        .collect();
    for (i, &size) in sizes.iter().enumerate() {
        os(|o| o.put_file(&format!("/tmp/in-{i}"), &bytes(i as u64, 0, size)));
    }
    let sizes: &'static [usize] = Box::leak(sizes.into_boxed_slice());
    let readers = 1 + work(3);
    start(async move {
        let mut tasks = vec![];
        for _ in 0..readers {
            tasks.push(
                task(async move {
                    for _ in 0..1 + work(3) {
                        read_one(sizes, work(sizes.len() as u64) as usize).await
                    }
                })
                .await,
            );
        }
        wait_all(tasks).await;
    });
}

async fn read_one(sizes: &[usize], i: usize) {
    let path = format!("/tmp/in-{i}");
    let h = match open(&path, options(["r", "rw", "ra"][work(3) as usize])).await {
        Ok(h) => h,
        Err(e) => {
            ensure!(visible() > 0, "false-error", "opening {path} fails: {e}");
            return;
        }
    };
    let size = sizes[i];
    let mut at = 0;
    let step = [0, 1, 7, 100, 4096, 3 << 20][work(6) as usize];
    let mut rounds = 0;
    loop {
        rounds += 1;
        let whole = step == 0 || rounds > 40 || work(12) == 1;
        let limit = if work(20) == 1 { 0 } else { step };
        let r = if whole { read(&h).await } else { read_limit(&h, limit).await };
        match r {
            Ok(b) => {
                ensure!(b == bytes(i as u64, at as u64, b.len().min(size - at)), "wrong-data", "at {at} of the {size} bytes of {path}, {} wrong bytes are read", b.len());
                if whole {
                    ensure!(at + b.len() == size, "short-read", "a whole read of {path} ends at {} of {size} bytes", at + b.len());
                    ensure!(read_limit(&h, 9).await.map_or(true, |x| x.is_empty()), "wrong-data", "there is more after the end");
                    return;
                }
                ensure!(b.len() <= limit, "wrong-data", "{} bytes are read, more than {limit}", b.len());
                ensure!(!b.is_empty() || limit == 0 || at == size, "early-end", "a read reports the end at {at} of {size} bytes");
                if b.is_empty() && limit > 0 {
                    return;
                }
                at += b.len();
            }
            Err(e) if SYNC && !whole && e.contains("nterrupted") => {
                ensure!(fired("fs.read-eintr") > 0, "false-error", "reading {path} is interrupted: {e}");
                probe("a read was interrupted");
            }
            Err(e) => {
                ensure!(fired("fs.read-eio") > 0, "false-error", "reading {path} fails: {e}");
                probe("a read failed");
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- one handle, many tasks

#[derive(Clone, Debug)]
enum Shared {
    Write(Vec<u8>, Option<usize>),
    Read(Option<Vec<u8>>),
    ReadLimit(usize, Option<Vec<u8>>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Cursor {
    content: Vec<u8>,
    offset: usize,
}

fn overwritten(c: &Cursor, data: &[u8], append: bool) -> Cursor {
    let mut content = c.content.clone();
    let at = if append { content.len() } else { c.offset };
    let end = at + data.len();
    if content.len() < end {
        content.resize(end, 0);
    }
    content[at..end].copy_from_slice(data);
    Cursor { content, offset: end }
}

fn cursor_step(c: &Cursor, op: &Shared, append: bool) -> Vec<Cursor> {
    let rest = &c.content[c.offset.min(c.content.len())..];
    match op {
        Shared::Write(data, Some(n)) if data.is_empty() || *n == 0 => if data.is_empty() { vec![c.clone()] } else { vec![] },
        Shared::Write(data, Some(n)) => vec![overwritten(c, &data[..*n], append)],
        Shared::Write(data, None) => (0..=data.len()).map(|n| if n == 0 { c.clone() } else { overwritten(c, &data[..n], append) }).collect(),
        Shared::Read(Some(b)) => {
            if rest == b {
                vec![Cursor { content: c.content.clone(), offset: c.offset + b.len() }]
            } else {
                vec![]
            }
        }
        Shared::Read(None) => (0..=rest.len()).map(|n| Cursor { content: c.content.clone(), offset: c.offset + n }).collect(),
        Shared::ReadLimit(limit, Some(b)) => {
            let ok = rest.starts_with(b) && b.len() <= *limit && (!b.is_empty() || rest.is_empty() || *limit == 0);
            if ok {
                vec![Cursor { content: c.content.clone(), offset: c.offset + b.len() }]
            } else {
                vec![]
            }
        }
        Shared::ReadLimit(_, None) => vec![c.clone()],
    }
}

/// Operations on one handle by several tasks take effect one after another.
pub fn shared_handle_operations() {
    machine();
    // Each error leaves it open how much was done before it.
    if work(2) == 0 {
        system_faults(HIDDEN, 12);
    } else {
        system_faults(VISIBLE, 3);
    }
    let initial = bytes(999, 0, work(30) as usize);
    os(|o| o.put_file("/tmp/shared", &initial));
    let append = work(3) == 1;
    let tasks = 2 + work(3) as usize;
    let per = 1 + work([0, 0, 5, 4, 2][tasks]);
    let calls: &'static Plain<Vec<Call<Shared>>> = Box::leak(Box::new(Plain::new(vec![])));
    start(async move {
        let h = loop {
            match open("/tmp/shared", options(if append { "ra" } else { "rw" })).await {
                Ok(h) => break h,
                Err(e) => ensure!(visible() > 0, "false-error", "opening fails: {e}"),
            }
        };
        let mut all = vec![];
        for t in 0..tasks {
            let h = h.clone();
            all.push(
                task(async move {
                    for i in 0..per {
                        let from = steps();
                        let op = match work(4) {
                            0 => Shared::Read(read(&h).await.ok()),
                            1 => {
                                let n = work(12) as usize;
                                Shared::ReadLimit(n, read_limit(&h, n).await.ok())
                            }
                            _ => {
                                let data = bytes(t as u64 * 10 + i, 0, work(8) as usize);
                                let n = write(&h, &data).await.ok();
                                Shared::Write(data, n)
                            }
                        };
                        let to = steps();
                        if matches!(op, Shared::Write(_, None) | Shared::Read(None) | Shared::ReadLimit(_, None)) {
                            ensure!(visible() > 0, "false-error", "an operation fails: {op:?}");
                            probe("an operation failed");
                        }
                        say!("[{from}, {to}] {op:?}");
                        calls.with(|c| c.push(Call { op, from, to }));
                    }
                })
                .await,
            );
        }
        drop(h);
        wait_all(all).await;
    });
    let calls = calls.with(|c| c.clone());
    let ends = linearize(Cursor { content: initial.clone(), offset: 0 }, &calls, |s, o| cursor_step(s, o, append));
    match ends {
        Err(best) => fail("not-atomic", format!("{} operations on one handle have no order, at most {best:?} of {calls:?}", calls.len())),
        Ok(ends) => {
            let content = stored("/tmp/shared").unwrap();
            ensure!(ends.is_empty() || ends.iter().any(|e| e.content == content), "not-atomic", "the file has contents no order of the operations leads to: {content:?}, {calls:?}");
        }
    }
}

/// Appends through different handles are never mixed up with each other.
pub fn appends() {
    machine();
    system_faults(&["futex.spurious-wake", "epoll.eintr", "fs.open-eintr", "fs.write-eintr", "fs.emfile", "fs.write-eio", "fs.create-enospc"], 8);
    let tasks = 2 + work(3) as usize;
    let per = 1 + work(4) as usize;
    let existing = bytes(77, 0, work(5) as usize);
    if work(2) == 0 {
        os(|o| o.put_file("/tmp/log", &existing));
    }
    let existing = stored("/tmp/log").unwrap_or_default();
    let acked: &'static Plain<Vec<Vec<(u64, usize)>>> = Box::leak(Box::new(Plain::new(vec![vec![]; tasks])));
    start(async move {
        let mut all = vec![];
        for t in 0..tasks {
            all.push(
                task(async move {
                    let h = loop {
                        match open("/tmp/log", options("ac")).await {
                            Ok(h) => break h,
                            Err(e) => ensure!(visible() > 0, "false-error", "opening fails: {e}"),
                        }
                    };
                    for i in 0..per {
                        let stream = (t * 10 + i) as u64;
                        let size = 1 + work(if work(4) == 1 { 9000 } else { 12 }) as usize;
                        match write(&h, &bytes(stream, 0, size)).await {
                            Ok(n) => acked.with(|a| a[t].push((stream, n))),
                            Err(e) => ensure!(visible() > 0, "false-error", "a write fails: {e}"),
                        }
                    }
                })
                .await,
            );
        }
        wait_all(all).await;
    });
    let content = stored("/tmp/log").unwrap_or_default();
    let acked = acked.with(|a| a.clone());
    // Which of the appends of each handle are placed: their order is free between handles only.
    let start = vec![0usize; tasks];
    ensure!(content.starts_with(&existing), "lost-write", "what was in the file before is gone");
    let mut states = vec![(existing.len(), start)];
    let mut seen = std::collections::BTreeSet::new();
    let mut ok = false;
    while let Some((at, next)) = states.pop() {
        if !seen.insert((at, next.clone())) {
            continue;
        }
        if at == content.len() && (0..tasks).all(|t| next[t] == acked[t].len()) {
            ok = true;
            break;
        }
        for t in 0..tasks {
            if let Some(&(stream, n)) = acked[t].get(next[t]) {
                if content[at..].starts_with(&bytes(stream, 0, n)) {
                    let mut next = next.clone();
                    next[t] += 1;
                    states.push((at + n, next));
                }
            }
        }
    }
    ensure!(ok, "mixed-appends", "the file is no sequence of the appends {acked:?}");
}

// ---------------------------------------------------------------- names

type Content = Option<Vec<u8>>; // None: unknown

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Entry {
    Dir,
    File(usize),
    Link(String),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Space {
    names: BTreeMap<String, Entry>,
    files: Vec<Content>,
}

#[derive(Clone, Debug)]
enum Named {
    Open(String, Options, bool),
    Size(String, Option<u64>),
    Copy(String, String, bool),
    Move(String, String, bool),
    Remove(String, bool),
    List(String, Option<Vec<String>>),
    MakeDir(String, bool),
    RemoveDir(String, bool),
}

fn parent(path: &str) -> &str {
    path.rsplit_once('/').map_or("", |x| x.0)
}

impl Space {
    /// Where a path leads if what is there is no symbolic link.
    fn place(&self, path: &str) -> Option<String> {
        self.place_at(path, 8)
    }
    fn place_at(&self, path: &str, most: usize) -> Option<String> {
        let parts: Vec<&str> = path.split('/').collect();
        let mut at = String::new();
        for (i, part) in parts.iter().enumerate() {
            at = if at.is_empty() { part.to_string() } else { format!("{at}/{part}") };
            if i + 1 < parts.len() {
                at = self.follow_at(at, most)?;
                if self.names.get(&at) != Some(&Entry::Dir) {
                    return None;
                }
            }
        }
        Some(at)
    }
    fn follow_at(&self, at: String, most: usize) -> Option<String> {
        match self.names.get(&at) {
            Some(Entry::Link(_)) if most == 0 => None,
            Some(Entry::Link(target)) => self.follow_at(self.place_at(target, most - 1)?, most - 1),
            _ => Some(at),
        }
    }
    /// Where a path leads.
    fn end(&self, path: &str) -> Option<String> {
        self.follow_at(self.place(path)?, 8)
    }
    fn file(&self, path: &str) -> Option<usize> {
        match self.names.get(&self.end(path)?) {
            Some(Entry::File(i)) => Some(*i),
            _ => None,
        }
    }
    fn children(&self, path: &str) -> Vec<String> {
        self.names.keys().filter(|k| parent(k) == path && !k.is_empty()).map(|k| k.rsplit_once('/').map_or(&k[..], |x| x.1).to_string()).collect()
    }
    fn dir(&self, path: &str) -> Option<String> {
        self.end(path).filter(|p| p.is_empty() || self.names.get(p) == Some(&Entry::Dir))
    }

    /// Opens a file: the resulting state and the file, or that it must fail.
    fn open(&self, path: &str, o: Options) -> Option<(Space, usize)> {
        if !o.read && !o.write && !o.append {
            return None;
        }
        if !o.write && !o.append && (o.truncate || o.create || o.create_new) {
            return None;
        }
        if o.append && o.truncate && !o.create_new {
            return None;
        }
        if o.create_new && self.names.contains_key(&self.place(path)?) {
            return None;
        }
        let path = self.end(path)?;
        let mut s = self.clone();
        match self.names.get(&path) {
            Some(Entry::Link(_)) => unreachable!(),
            Some(_) if o.create_new => None,
            Some(Entry::Dir) => (o.read && !o.write && !o.append).then(|| (s, usize::MAX)),
            Some(Entry::File(i)) => {
                if o.truncate {
                    s.files[*i] = Some(vec![]);
                }
                Some((s, *i))
            }
            None if o.create || o.create_new => {
                let i = s.files.len();
                s.files.push(Some(vec![]));
                s.names.insert(path, Entry::File(i));
                Some((s, i))
            }
            None => None,
        }
    }

    fn move_(&self, src: &str, dest: &str) -> Option<Space> {
        let (src, dest) = (&self.place(src)?[..], &self.place(dest)?[..]);
        let from = self.names.get(src)?;
        let mut s = self.clone();
        match (from, self.names.get(dest)) {
            _ if src == dest => return Some(s),
            (Entry::File(_) | Entry::Link(_), Some(Entry::Dir)) => return None,
            (Entry::Dir, Some(Entry::File(_) | Entry::Link(_))) => return None,
            (Entry::Dir, Some(Entry::Dir)) if !self.children(dest).is_empty() => return None,
            (Entry::Dir, _) if dest.starts_with(&format!("{src}/")) => return None,
            // The directory is not empty as long as it contains what is to replace it.
            _ if src.starts_with(&format!("{dest}/")) => return None,
            _ => (),
        }
        let keys: Vec<String> = s.names.keys().filter(|k| *k == src || k.starts_with(&format!("{src}/"))).cloned().collect();
        for k in keys {
            let e = s.names.remove(&k).unwrap();
            s.names.insert(format!("{dest}{}", &k[src.len()..]), e);
        }
        Some(s)
    }

    fn copy(&self, src: &str, dest: &str) -> Option<Space> {
        let a = self.file(src)?;
        let dest = self.end(dest)?;
        let mut s = self.clone();
        match self.names.get(&dest) {
            Some(Entry::Dir | Entry::Link(_)) => return None,
            // Copying a file onto itself truncates it first.
            Some(Entry::File(b)) if a == *b => s.files[a] = Some(vec![]),
            Some(Entry::File(b)) => s.files[*b] = s.files[a].clone(),
            None => {
                let i = s.files.len();
                s.files.push(s.files[a].clone());
                s.names.insert(dest, Entry::File(i));
            }
        }
        Some(s)
    }

    fn apply(&self, op: &Named) -> Vec<Space> {
        let outcome = |ok: bool, s: Option<Space>| match (ok, s) {
            (true, Some(s)) => vec![s],
            (false, None) => vec![self.clone()],
            // An injected fault.
            (false, Some(_)) if visible() > 0 => vec![self.clone()],
            _ => vec![],
        };
        match op {
            Named::Open(p, o, ok) => outcome(*ok, self.open(p, *o).map(|x| x.0)),
            Named::Size(p, n) => match (n, self.file(p)) {
                (Some(n), Some(i)) if self.files[i].as_ref().map_or(true, |c| c.len() as u64 == *n) => vec![self.clone()],
                (Some(_), None) if self.dir(p).is_some() => vec![self.clone()],
                (Some(_), _) => vec![],
                (None, None) if self.dir(p).is_none() => vec![self.clone()],
                (None, _) if visible() > 0 => vec![self.clone()],
                _ => vec![],
            },
            Named::Copy(a, b, ok) => {
                let s = self.copy(a, b);
                let mut r = outcome(*ok, s.clone());
                if let (false, Some(mut s)) = (*ok, s) {
                    // Part of it may be there.
                    if visible() > 0 {
                        let i = s.file(b).unwrap();
                        s.files[i] = None;
                        r.push(s);
                    }
                }
                r
            }
            Named::Move(a, b, ok) => outcome(*ok, self.move_(a, b)),
            Named::Remove(p, ok) => outcome(
                *ok,
                self.place(p).filter(|p| matches!(self.names.get(p), Some(Entry::File(_) | Entry::Link(_)))).map(|p| self.without(&p)),
            ),
            Named::List(p, xs) => {
                let mut ys = self.dir(p).map(|p| self.children(&p));
                if let Some(ys) = &mut ys {
                    ys.sort();
                }
                match xs {
                    Some(xs) => {
                        let mut xs = xs.clone();
                        xs.sort();
                        if Some(xs) == ys {
                            vec![self.clone()]
                        } else {
                            vec![]
                        }
                    }
                    // Interrupted openings of directories are reported.
                    None if fired("fs.open-eintr") > 0 => vec![self.clone()],
                    // Names that are no text cannot be given.
                    None => outcome(false, ys.filter(|ys| !ys.iter().any(|y| y.contains(NO_TEXT))).map(|_| self.clone())),
                }
            }
            Named::MakeDir(p, ok) => outcome(
                *ok,
                self.place(p).filter(|p| !self.names.contains_key(p)).map(|p| {
                    let mut s = self.clone();
                    s.names.insert(p, Entry::Dir);
                    s
                }),
            ),
            Named::RemoveDir(p, ok) => {
                outcome(*ok, self.place(p).filter(|p| self.names.get(p) == Some(&Entry::Dir) && self.children(p).is_empty()).map(|p| self.without(&p)))
            }
        }
    }

    fn without(&self, p: &str) -> Space {
        let mut s = self.clone();
        s.names.remove(p);
        s
    }

    fn same(&self, root: &str) -> bool {
        let mut ok = true;
        for (k, e) in &self.names {
            let p = format!("{root}/{k}");
            match e {
                Entry::Dir => ok &= os(|o| o.list_dir(&p).is_some() && o.link_target(&p).is_none()),
                Entry::Link(target) => ok &= os(|o| o.link_target(&p)) == Some(format!("{root}/{target}")),
                Entry::File(_) if os(|o| o.link_target(&p)).is_some() => ok = false,
                Entry::File(i) => match (stored(&p), &self.files[*i]) {
                    (Some(a), Some(b)) => ok &= a == *b,
                    (Some(_), None) => (),
                    _ => ok = false,
                },
            }
        }
        let mut dirs = vec![String::new()];
        dirs.extend(self.names.iter().filter(|x| *x.1 == Entry::Dir).map(|x| x.0.clone()));
        for d in dirs {
            let p = if d.is_empty() { root.to_string() } else { format!("{root}/{d}") };
            let mut xs = os(|o| o.list_dir(&p)).unwrap_or_default();
            xs.sort();
            let mut ys = self.children(&d);
            ys.sort();
            ok &= xs == ys;
        }
        ok
    }
}

const NAMES: &[&str] = &["a", "b", "d", "d/a", "d/e", "d/e/a", "e", "l", ".a", "d/\u{fc} b"];

fn any_name() -> String {
    let n = if work(5) == 1 { NAMES.len() } else { 7 };
    NAMES[work(n as u64) as usize].to_string()
}

fn any_options() -> Options {
    if work(3) == 0 {
        let bit = || work(2) == 1;
        Options { append: bit(), create: bit(), create_new: bit(), read: bit(), truncate: bit(), write: bit() }
    } else {
        options(["r", "w", "wc", "wct", "wn", "a", "ac", "rw", "an", "rac", "rwn", "wt"][work(12) as usize])
    }
}

async fn do_named(alone: bool) -> Named {
    let p = any_name();
    let at = |p: &str| format!("/tmp/s/{p}");
    match work(if alone { 8 } else { 6 }) {
        0 => {
            let o = any_options();
            let r = open(&at(&p), o).await;
            Named::Open(p, o, r.is_ok())
        }
        1 => {
            let r = size(&at(&p)).await;
            Named::Size(p, r.ok())
        }
        2 => {
            let q = any_name();
            let r = move_(&at(&p), &at(&q)).await;
            Named::Move(p, q, r.is_ok())
        }
        3 => {
            let r = remove(&at(&p)).await;
            Named::Remove(p, r.is_ok())
        }
        4 => {
            let r = create_directory(&at(&p)).await;
            Named::MakeDir(p, r.is_ok())
        }
        5 => {
            let r = remove_directory(&at(&p)).await;
            Named::RemoveDir(p, r.is_ok())
        }
        6 => {
            let q = any_name();
            let r = copy(&at(&p), &at(&q)).await;
            Named::Copy(p, q, r.is_ok())
        }
        _ => {
            let p = if work(2) == 0 { String::new() } else { p };
            let r = read_directory(&at(&p)).await;
            Named::List(p, r.ok())
        }
    }
}

fn initial_space() -> Space {
    let mut space = Space::default();
    os(|o| o.mkdir("/tmp/s"));
    for (i, n) in NAMES.iter().enumerate() {
        if work(2) == 1 && space.place(n).is_some() {
            let path = format!("/tmp/s/{n}");
            if matches!(*n, "d" | "d/e" | "e") && work(4) != 1 {
                os(|o| o.mkdir(&path));
                space.names.insert(n.to_string(), Entry::Dir);
            } else if *n == "l" {
                let target = any_name();
                os(|o| o.link(&path, &format!("/tmp/s/{target}")));
                space.names.insert(n.to_string(), Entry::Link(target));
            } else {
                let c = bytes(i as u64, 0, 1 + 3 * i);
                os(|o| o.put_file(&path, &c));
                space.names.insert(n.to_string(), Entry::File(space.files.len()));
                space.files.push(Some(c));
            }
        }
    }
    if work(25) == 1 {
        let d = if space.names.get("d") == Some(&Entry::Dir) { "d/" } else { "" };
        for i in 0..[17, 33, 70, 300, 1100][work(5) as usize] {
            let n = format!("{d}many-{i}{}", "y".repeat(i % 90));
            os(|o| o.put_file(&format!("/tmp/s/{n}"), b""));
            space.names.insert(n, Entry::File(space.files.len()));
            space.files.push(Some(vec![]));
        }
        probe("a directory had many entries");
    }
    if work(30) == 1 {
        let n = format!("{}{NO_TEXT}", if space.names.get("d") == Some(&Entry::Dir) { "d/" } else { "" });
        os(|o| o.put_file(&format!("/tmp/s/{n}"), b"?"));
        space.names.insert(n, Entry::File(space.files.len()));
        space.files.push(Some(b"?".to_vec()));
    }
    space
}

/// Operations on names by several tasks take effect one after another, as documented.
pub fn names() {
    machine();
    file_faults(&["fs.readdir-eio", "fs.rename-exdev", "fs.copy-unsupported", "fs.short-copy"]);
    let space = initial_space();
    let first = space.clone();
    let tasks = 1 + work(4) as usize;
    let per = if tasks == 1 { 1 + work(14) } else { 1 + work(4) };
    let calls: &'static Plain<Vec<Call<Named>>> = Box::leak(Box::new(Plain::new(vec![])));
    start(async move {
        let mut all = vec![];
        for _ in 0..tasks {
            all.push(
                task(async move {
                    for _ in 0..per {
                        let from = steps();
                        let op = do_named(tasks == 1).await;
                        let to = steps();
                        say!("[{from}, {to}] {op:?}");
                        calls.with(|c| c.push(Call { op, from, to }));
                    }
                })
                .await,
            );
        }
        wait_all(all).await;
    });
    let calls = calls.with(|c| c.clone());
    match linearize(space, &calls, |s, o| s.apply(o)) {
        Err(best) => fail("wrong-outcome", format!("these operations have no order: {calls:?}, at most {best:?}, from {first:?}")),
        Ok(ends) => ensure!(ends.is_empty() || ends.iter().any(|e| e.same("/tmp/s")), "wrong-effect", "no order of the operations leads to what is there: {calls:?} from {first:?}"),
    }
}

/// What a handle allows and where it writes follow from the options it was opened with.
pub fn open_options() {
    machine();
    system_faults(HIDDEN, 12);
    let space = initial_space();
    let n = 1 + work(8);
    start(async move {
        let space = Rc::new(RefCell::new(space));
        for _ in 0..n {
            let p = any_name();
            let o = any_options();
            let was = space.borrow().clone();
            let r = open(&format!("/tmp/s/{p}"), o).await;
            let expected = was.open(&p, o);
            ensure!(r.is_ok() == expected.is_some(), "wrong-outcome", "opening {p} with {o:?} gives {:?} in {was:?}", r.as_ref().err());
            let (Ok(h), Some((next, i))) = (r, expected) else { continue };
            *space.borrow_mut() = next;
            if i == usize::MAX {
                continue;
            }
            let mut offset = 0;
            for k in 0..1 + work(4) {
                let mut c = space.borrow().files[i].clone().unwrap();
                if work(2) == 0 {
                    let data = bytes(1000 + k, 0, 1 + work(9) as usize);
                    match write(&h, &data).await {
                        Ok(n) => {
                            ensure!(o.write || o.append, "wrong-outcome", "{p} opened with {o:?} is written");
                            let after = overwritten(&Cursor { content: c, offset }, &data[..n], o.append);
                            (c, offset) = (after.content, after.offset);
                            space.borrow_mut().files[i] = Some(c);
                        }
                        Err(e) => ensure!(!o.write && !o.append, "wrong-outcome", "{p} opened with {o:?} cannot be written: {e}"),
                    }
                } else {
                    let limit = 1 + work(9) as usize;
                    let whole = work(3) == 0;
                    let r = if whole { read(&h).await } else { read_limit(&h, limit).await };
                    match r {
                        Ok(b) => {
                            ensure!(o.read, "wrong-outcome", "{p} opened with {o:?} is read");
                            let rest = &c[offset.min(c.len())..];
                            ensure!(rest.starts_with(&b) && (!b.is_empty() || rest.is_empty()) && (!whole || b.len() == rest.len()), "wrong-data", "at {offset} of {c:?}, {b:?} is read");
                            offset += b.len();
                        }
                        Err(e) => ensure!(!o.read, "wrong-outcome", "{p} opened with {o:?} cannot be read: {e}"),
                    }
                }
            }
            drop(h);
            ensure!(space.borrow().same("/tmp/s"), "wrong-effect", "the files are not what {:?} says after {p} was used with {o:?}", space.borrow());
        }
    });
}
