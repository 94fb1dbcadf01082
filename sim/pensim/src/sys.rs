//! The simulated kernel's objects: descriptors, files, standard streams, sockets, epoll, processes.
use crate::{choice::*, sched::*, tsan};
use std::{
    collections::{BTreeMap, VecDeque},
    net::{IpAddr, Ipv4Addr, SocketAddr},
};

pub mod real {
    use libc::*;
    type Create = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
    type Join = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
    type Detach = unsafe extern "C" fn(pthread_t) -> c_int;

    pub unsafe fn symbol(name: &[u8]) -> usize {
        let p = dlsym(RTLD_NEXT, name.as_ptr() as _);
        if p.is_null() {
            crate::raw::write_all(2, b"missing libc symbol\n");
            crate::raw::exit_group(99);
        }
        p as usize
    }

    pub unsafe fn pthread_create(t: *mut pthread_t, a: *const pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, p: *mut c_void) -> c_int {
        static mut F: usize = 0;
        if F == 0 {
            F = symbol(b"pthread_create\0");
        }
        core::mem::transmute::<usize, Create>(F)(t, a, f, p)
    }
    pub unsafe fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
        static mut F: usize = 0;
        if F == 0 {
            F = symbol(b"pthread_join\0");
        }
        core::mem::transmute::<usize, Join>(F)(t, r)
    }
    pub unsafe fn pthread_detach(t: pthread_t) -> c_int {
        static mut F: usize = 0;
        if F == 0 {
            F = symbol(b"pthread_detach\0");
        }
        core::mem::transmute::<usize, Detach>(F)(t)
    }
}

pub use libc::{POLLERR, POLLHUP, POLLIN, POLLOUT, POLLRDHUP};

/// In names, which are text here, it stands for a byte that is none.
pub const NO_TEXT: char = '\u{f8ff}';

pub enum Node {
    File(Vec<u8>),
    Dir(BTreeMap<String, usize>),
    /// A symbolic link to an absolute path.
    Link(String),
}

/// Files apart from the file system.
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    File(Vec<u8>, u32),
    Dir(BTreeMap<String, Tree>, u32),
}

pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub links: u32,
}

pub struct End {
    pub inbuf: VecDeque<u8>,
    pub inflight: usize,
    pub cap: usize,
    pub fin: bool,
    pub reset: bool,
    pub reset_reported: bool,
    pub write_shut: bool,
    pub read_shut: bool,
    pub closed: bool,
    pub last: u64,
    pub object: Option<usize>,
    pub address: SocketAddr,
    pub received: u64,
    pub sent: u64,
}

pub struct Conn {
    pub ends: [End; 2],
    pub latency: bool,
    pub unix: bool,
}

pub struct Listener {
    pub address: SocketAddr,
    pub queue: VecDeque<usize>, // connection ids, side 1 is to be accepted
    pub backlog: usize,
}

pub enum Tcp {
    New { bound: Option<SocketAddr> },
    Listening(Listener),
    Connecting { target: SocketAddr },
    Failed { errno: i32 },
}

pub struct Udp {
    pub bound: Option<SocketAddr>,
    pub peer: Option<SocketAddr>,
    pub queue: VecDeque<(SocketAddr, Vec<u8>)>,
    pub cap: usize,
    pub error: i32,
}

pub struct Item {
    pub events: u32,
    pub data: u64,
    pub object: usize,
    pub seen: u64,
    pub fresh: bool,
    pub disabled: bool,
}

pub enum Kind {
    File { inode: usize, pos: u64, flags: i32, path: String },
    Dir { inode: usize, entries: Vec<(String, usize)>, at: usize, buffer: Box<libc::dirent64> },
    Stdin,
    Out(i32),
    Stream { conn: usize, side: usize },
    Tcp(Tcp),
    Udp(Udp),
    Event { count: u64 },
    Epoll { items: BTreeMap<i32, Item> },
    Null,
}

pub struct Object {
    pub kind: Kind,
    pub nonblock: bool,
    pub refs: u32,
    pub edge: u64,
    pub v6: bool,
    pub abort: bool, // SO_LINGER with no time: closing resets the connection
}

#[derive(Default)]
pub struct Stdin {
    pub buffer: VecDeque<u8>,
    pub eof: bool,
    pub error: i32,
    pub delivered: u64,
}

#[derive(Default)]
pub struct Output {
    pub data: Vec<u8>,
    pub writes: u64,
    pub broken: i32,
}

pub type ProgramFn = fn(args: &[Vec<u8>]) -> ProgramRun;

/// What a simulated child program does.
pub struct ProgramRun {
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub duration: u64,
    pub status: i32,
}

/// A program that runs as simulated code: in the thread of the process that starts it.
pub type RunnerFn = fn(&Invocation) -> i32;

#[derive(Clone, Default)]
pub struct Invocation {
    pub program: String,
    pub args: Vec<String>,
    pub env: BTreeMap<String, String>,
}

/// A simulated process of a runner. Number 0 is the process everything else runs in.
#[derive(Default)]
pub struct Process {
    pub parent: usize,
    pub cwd: String,
    pub killed: bool,
    pub out: [Option<usize>; 3],
}

pub struct Child {
    pub pid: i32,
    pub exited: Option<i32>,
    pub reaped: bool,
    pub args: Vec<Vec<u8>>,
    pub env: Vec<Vec<u8>>,
}

pub struct PMutex {
    pub owner: usize,
    pub count: u32,
}

pub struct Os {
    pub fds: Vec<Option<usize>>,
    pub objects: Vec<Option<Object>>,
    pub inodes: Vec<Inode>,
    pub conns: Vec<Conn>,
    pub stdin: Stdin,
    pub out: [Output; 3],
    pub cpus: usize,
    pub on_exit: Option<Box<dyn FnOnce(i32)>>,
    pub on_idle: Option<Box<dyn FnOnce()>>,
    pub realtime_offset: i64,
    pub programs: BTreeMap<String, ProgramFn>,
    pub children: Vec<Child>,
    pub spawns: Vec<(Vec<Vec<u8>>, bool)>,
    pub handlers: BTreeMap<i32, (usize, i32)>,
    pub pending_signals: VecDeque<i32>,
    pub next_port: u16,
    pub file_actions: BTreeMap<usize, Vec<(i32, i32)>>,
    pub fs_latency: u64,
    pub net_latency: u64,
    pub send_buffer: usize,
    pub mutexes: BTreeMap<usize, PMutex>,
    pub hosts: BTreeMap<String, Vec<IpAddr>>,
    pub fd_limit: usize,
    pub syscalls: u64,
    pub locks: Vec<(usize, usize, i64, i64, bool)>, // inode, object owner, start, len, exclusive
    pub disk_capacity: Option<u64>,
    pub env: BTreeMap<String, String>,
    pub getpid: i32,
    pub tzfiles: bool,
    pub op_log: bool,
    /// Resolves programs that run as simulated code, with the arguments to add in front.
    pub find_runner: Option<fn(&mut Os, &str) -> Option<(RunnerFn, Vec<String>)>>,
    pub processes: Vec<Process>,
    /// The process of each thread.
    pub process_of: Vec<usize>,
    pub cwds: BTreeMap<usize, String>, // by file actions
    /// System calls until a process is killed, and whether its whole group is.
    pub kill: Option<(u64, bool)>,
    pub torn: bool,
    pub shuffle: bool,
    pub pipe_capacity: usize,
}

impl Os {
    pub fn process(&self) -> usize {
        self.process_of.get(unsafe { CURRENT }).copied().unwrap_or(0)
    }

    pub fn set_process(&mut self, thread: usize, process: usize) {
        if self.process_of.len() <= thread {
            self.process_of.resize(thread + 1, 0);
        }
        self.process_of[thread] = process;
    }

    pub fn cwd(&self) -> &str {
        self.processes.get(self.process()).map(|p| p.cwd.as_str()).filter(|c| !c.is_empty()).unwrap_or("/")
    }

    /// Counts a system call of the current process: true if the process is dead, or dies now.
    pub fn dies(&mut self) -> (bool, bool) {
        let me = self.process();
        if me == 0 {
            return (false, false);
        }
        if self.processes[me].killed {
            return (true, false);
        }
        match &mut self.kill {
            None => (false, false),
            Some((n, _)) if *n > 0 => {
                *n -= 1;
                (false, false)
            }
            Some((_, group)) => {
                let group = *group;
                self.kill = None;
                for i in 1..self.processes.len() {
                    if i == me || group {
                        self.processes[i].killed = true;
                    }
                }
                log(format!("{} killed", if group { "all processes" } else { "a process" }));
                (true, true)
            }
        }
    }

    pub fn new() -> Self {
        let mut os = Os {
            fds: vec![],
            objects: vec![],
            inodes: vec![Inode { node: Node::Dir(BTreeMap::new()), mode: 0o755, links: 2 }],
            conns: vec![],
            stdin: Default::default(),
            out: Default::default(),
            cpus: 2,
            on_exit: None,
            on_idle: None,
            realtime_offset: 1_700_000_000_000_000_000,
            programs: Default::default(),
            children: vec![],
            spawns: vec![],
            handlers: Default::default(),
            pending_signals: Default::default(),
            next_port: 40000,
            file_actions: Default::default(),
            fs_latency: 0,
            net_latency: 0,
            send_buffer: 64 << 10,
            mutexes: Default::default(),
            hosts: [("localhost".to_string(), vec![IpAddr::V4(Ipv4Addr::LOCALHOST)])].into(),
            fd_limit: 512,
            syscalls: 0,
            locks: vec![],
            disk_capacity: None,
            env: Default::default(),
            getpid: 4242,
            tzfiles: false,
            op_log: false,
            find_runner: None,
            processes: vec![Process::default()],
            process_of: vec![],
            cwds: Default::default(),
            kill: None,
            torn: false,
            shuffle: false,
            pipe_capacity: 64 << 10,
        };
        for k in [Kind::Stdin, Kind::Out(1), Kind::Out(2)] {
            os.open(k, false).unwrap();
        }
        os.mkdir("/tmp");
        os
    }

    pub fn mkdir(&mut self, name: &str) -> usize {
        // Only for setup.
        let (parent, last, _) = self.resolve(name).unwrap();
        let i = self.inodes.len();
        self.inodes.push(Inode { node: Node::Dir(BTreeMap::new()), mode: 0o755, links: 2 });
        if let Node::Dir(d) = &mut self.inodes[parent].node {
            d.insert(last, i);
        }
        i
    }

    pub fn open(&mut self, kind: Kind, nonblock: bool) -> Result<i32, i32> {
        let id = self.objects.len();
        let fd = self.install(id)?;
        self.objects.push(Some(Object { kind, nonblock, refs: 1, edge: 1, v6: false, abort: false }));
        Ok(fd)
    }

    pub fn install(&mut self, object: usize) -> Result<i32, i32> {
        self.install_from(object, 0)
    }

    pub fn install_from(&mut self, object: usize, least: usize) -> Result<i32, i32> {
        while self.fds.len() < least {
            self.fds.push(None);
        }
        for i in least..self.fds.len() {
            if self.fds[i].is_none() {
                self.fds[i] = Some(object);
                return Ok(i as i32);
            }
        }
        if self.fds.len() >= self.fd_limit {
            return Err(libc::EMFILE);
        }
        self.fds.push(Some(object));
        Ok(self.fds.len() as i32 - 1)
    }

    pub fn id(&self, fd: i32) -> Result<usize, i32> {
        if fd < 0 {
            return Err(libc::EBADF);
        }
        if fd < 3 && self.processes.len() > 1 {
            if let Some(o) = self.processes[self.process()].out[fd as usize] {
                return Ok(o);
            }
        }
        self.fds.get(fd as usize).copied().flatten().ok_or(libc::EBADF)
    }

    pub fn object(&mut self, fd: i32) -> Result<&mut Object, i32> {
        let id = self.id(fd)?;
        Ok(self.objects[id].as_mut().unwrap())
    }

    pub fn open_fds(&self) -> usize {
        self.fds.iter().flatten().count()
    }

    /// Level-triggered readiness of an object.
    pub fn readiness(&self, id: usize) -> i16 {
        let Some(o) = &self.objects[id] else { return 0 };
        match &o.kind {
            Kind::File { .. } | Kind::Dir { .. } | Kind::Null => POLLIN | POLLOUT,
            Kind::Stdin => {
                if !self.stdin.buffer.is_empty() || self.stdin.eof || self.stdin.error != 0 {
                    POLLIN
                } else {
                    0
                }
            }
            Kind::Out(_) => POLLOUT,
            Kind::Stream { conn, side } => {
                let c = &self.conns[*conn];
                let e = &c.ends[*side];
                let p = &c.ends[1 - *side];
                let mut r = 0;
                if !e.inbuf.is_empty() || e.fin || e.reset || e.read_shut {
                    r |= POLLIN;
                }
                if e.reset {
                    r |= POLLERR | POLLHUP | POLLOUT | POLLRDHUP;
                } else {
                    if e.fin {
                        r |= POLLRDHUP;
                    }
                    if e.fin && e.write_shut {
                        r |= POLLHUP;
                    }
                    if c.unix && p.closed {
                        r |= POLLHUP | POLLOUT;
                    }
                    if e.write_shut || p.inbuf.len() + p.inflight < p.cap {
                        r |= POLLOUT;
                    }
                }
                r
            }
            Kind::Tcp(t) => match t {
                Tcp::New { .. } => POLLOUT | POLLHUP,
                Tcp::Listening(l) => {
                    if l.queue.is_empty() {
                        0
                    } else {
                        POLLIN
                    }
                }
                Tcp::Connecting { .. } => 0,
                Tcp::Failed { .. } => POLLIN | POLLOUT | POLLERR | POLLHUP,
            },
            Kind::Udp(u) => (if u.queue.is_empty() && u.error == 0 { 0 } else { POLLIN }) | POLLOUT | if u.error != 0 { POLLERR } else { 0 },
            Kind::Event { count } => POLLOUT | if *count > 0 { POLLIN } else { 0 },
            Kind::Epoll { .. } => {
                if self.epoll_has(id) {
                    POLLIN
                } else {
                    0
                }
            }
        }
    }

    fn item_events(&self, item: &Item) -> u32 {
        if item.disabled || self.objects[item.object].is_none() {
            return 0;
        }
        let ready = self.readiness(item.object) as u16 as u32;
        let bits = ready & (item.events | libc::EPOLLERR as u32 | libc::EPOLLHUP as u32);
        if bits == 0 {
            return 0;
        }
        if item.events & libc::EPOLLET as u32 != 0 {
            let edge = self.objects[item.object].as_ref().unwrap().edge;
            if !item.fresh && edge <= item.seen {
                return 0;
            }
        }
        bits
    }

    pub fn epoll_has(&self, id: usize) -> bool {
        let Some(Object { kind: Kind::Epoll { items }, .. }) = &self.objects[id] else { return false };
        items.values().any(|i| self.item_events(i) != 0)
    }

    pub fn epoll_take(&mut self, id: usize, max: usize, rotate: usize) -> Vec<(u32, u64)> {
        let Some(Object { kind: Kind::Epoll { items }, .. }) = &self.objects[id] else { return vec![] };
        let keys: Vec<i32> = items.keys().copied().collect();
        let mut out = vec![];
        let n = keys.len();
        for k in 0..n {
            if out.len() == max {
                break;
            }
            let key = keys[(k + rotate) % n];
            let Some(Object { kind: Kind::Epoll { items }, .. }) = &self.objects[id] else { unreachable!() };
            let item = &items[&key];
            let bits = self.item_events(item);
            if bits == 0 {
                continue;
            }
            let edge = self.objects[item.object].as_ref().unwrap().edge;
            let Some(Object { kind: Kind::Epoll { items }, .. }) = &mut self.objects[id] else { unreachable!() };
            let item = items.get_mut(&key).unwrap();
            item.seen = edge;
            item.fresh = false;
            if item.events & libc::EPOLLONESHOT as u32 != 0 {
                item.disabled = true;
            }
            out.push((bits, item.data));
        }
        out
    }

    pub fn notify(&mut self, id: usize) {
        if let Some(o) = &mut self.objects[id] {
            o.edge += 1;
        }
        sim().dirty = true;
    }

    pub fn notify_end(&mut self, conn: usize, side: usize) {
        if let Some(id) = self.conns[conn].ends[side].object {
            self.notify(id);
        }
        sim().dirty = true;
    }

    pub fn release(&mut self, fd: i32) -> Result<(), i32> {
        let id = self.id(fd)?;
        if self.fds.get(fd as usize).copied().flatten() != Some(id) {
            return Err(libc::EBADF); // a standard stream of a simulated process
        }
        self.fds[fd as usize] = None;
        let o = self.objects[id].as_mut().unwrap();
        o.refs -= 1;
        if o.refs == 0 {
            let o = self.objects[id].take().unwrap();
            self.destroy(id, o);
        }
        Ok(())
    }

    fn destroy(&mut self, id: usize, object: Object) {
        self.locks.retain(|l| l.1 != id);
        for o in self.objects.iter_mut().flatten() {
            if let Kind::Epoll { items } = &mut o.kind {
                items.retain(|_, i| i.object != id);
            }
        }
        match object.kind {
            Kind::Stream { conn, side } if object.abort => {
                // What is still under way is lost.
                let e = &mut self.conns[conn].ends[side];
                e.closed = true;
                e.object = None;
                e.write_shut = true;
                let delay = latency("net.delay", self.net_latency);
                after(delay, move || sim().os.reset(conn, 1 - side));
            }
            Kind::Stream { conn, side } => self.close_end(conn, side),
            Kind::Tcp(Tcp::Listening(l)) => {
                for c in l.queue {
                    self.close_end(c, 1);
                }
            }
            Kind::File { inode, .. } => self.collect(inode),
            _ => {}
        }
        sim().dirty = true;
    }

    pub fn collect(&mut self, _inode: usize) {}

    // --- streams

    pub fn new_conn(&mut self, a: SocketAddr, b: SocketAddr, latency: bool, unix: bool) -> usize {
        let cap = if unix { self.pipe_capacity } else { self.send_buffer };
        let end = |address| End {
            inbuf: VecDeque::new(),
            inflight: 0,
            cap,
            fin: false,
            reset: false,
            reset_reported: false,
            write_shut: false,
            read_shut: false,
            closed: false,
            last: 0,
            object: None,
            address,
            received: 0,
            sent: 0,
        };
        self.conns.push(Conn { ends: [end(a), end(b)], latency, unix });
        self.conns.len() - 1
    }

    fn close_end(&mut self, conn: usize, side: usize) {
        let c = &mut self.conns[conn];
        let e = &mut c.ends[side];
        e.closed = true;
        e.object = None;
        let unread = !e.inbuf.is_empty() || e.inflight > 0;
        let done = e.write_shut;
        e.write_shut = true;
        if c.unix {
            c.ends[1 - side].fin = true;
            self.notify_end(conn, 1 - side);
        } else if unread {
            // Closing with unread data resets the connection.
            self.reset_later(conn, 1 - side);
        } else if !done {
            self.fin_later(conn, 1 - side);
        }
    }

    /// Time at which something sent now to `side` arrives: never before what was sent earlier.
    fn arrival(&mut self, conn: usize, side: usize) -> u64 {
        let now = sim().now;
        let delay = if self.conns[conn].latency { latency("net.delay", self.net_latency) } else { 0 };
        let e = &mut self.conns[conn].ends[side];
        e.last = e.last.max(now + delay);
        e.last - now
    }

    fn fin_later(&mut self, conn: usize, side: usize) {
        let delay = self.arrival(conn, side);
        let f = move || {
            let os = &mut sim().os;
            os.conns[conn].ends[side].fin = true;
            os.notify_end(conn, side);
        };
        if delay == 0 && self.conns[conn].ends[side].inflight == 0 {
            f()
        } else {
            after(delay, f)
        }
    }

    fn reset_later(&mut self, conn: usize, side: usize) {
        let delay = self.arrival(conn, side);
        after(delay, move || sim().os.reset(conn, side));
    }

    pub fn reset(&mut self, conn: usize, side: usize) {
        let e = &mut self.conns[conn].ends[side];
        if e.closed || e.reset {
            return;
        }
        e.reset = true;
        e.inbuf.clear();
        self.notify_end(conn, side);
    }

    pub fn shutdown_write(&mut self, conn: usize, side: usize) {
        if !self.conns[conn].ends[side].write_shut {
            self.conns[conn].ends[side].write_shut = true;
            if self.conns[conn].unix {
                self.conns[conn].ends[1 - side].fin = true;
                self.notify_end(conn, 1 - side);
            } else {
                self.fin_later(conn, 1 - side);
            }
        }
    }

    /// Nonblocking part of a send. `Err(EAGAIN)` when full.
    pub fn stream_send(&mut self, conn: usize, side: usize, data: &[u8]) -> Result<usize, i32> {
        let c = &mut self.conns[conn];
        let e = &mut c.ends[side];
        if e.reset {
            if !e.reset_reported {
                e.reset_reported = true;
                return Err(libc::ECONNRESET);
            }
            return Err(libc::EPIPE);
        }
        if e.write_shut {
            return Err(libc::EPIPE);
        }
        let p = &mut c.ends[1 - side];
        if p.closed && c.unix {
            return Err(libc::EPIPE);
        }
        if data.is_empty() {
            return Ok(0);
        }
        let space = p.cap.saturating_sub(p.inbuf.len() + p.inflight);
        if space == 0 {
            return Err(libc::EAGAIN);
        }
        let mut n = space.min(data.len());
        let unix = c.unix;
        if !unix && n > 1 && fault("net.short-send") {
            n = 1 + pick(FAULT, n as u64 - 1) as usize;
            self.notify_end(conn, side);
        }
        if !unix && fault("net.reset") {
            self.reset(conn, 0);
            self.reset(conn, 1);
            self.conns[conn].ends[side].reset_reported = true;
            return Err(libc::ECONNRESET);
        }
        let c = &mut self.conns[conn];
        c.ends[side].sent += n as u64;
        let p = &mut c.ends[1 - side];
        p.inflight += n;
        let bytes = data[..n].to_vec();
        let delay = self.arrival(conn, 1 - side);
        let other = 1 - side;
        let f = move || {
            let os = &mut sim().os;
            let e = &mut os.conns[conn].ends[other];
            e.inflight -= bytes.len();
            if e.closed {
                if !os.conns[conn].unix {
                    os.reset(conn, 1 - other);
                }
                return;
            }
            if e.reset {
                return;
            }
            e.inbuf.extend(bytes.iter());
            os.notify_end(conn, other);
        };
        if delay == 0 && self.conns[conn].ends[1 - side].inflight == n {
            f()
        } else {
            after(delay, f)
        }
        Ok(n)
    }

    /// How many bytes the system has taken over from senders on network connections.
    pub fn bytes_taken(&self) -> u64 {
        self.conns.iter().filter(|c| !c.unix).flat_map(|c| &c.ends).map(|e| e.sent).sum()
    }

    pub fn stream_receive(&mut self, conn: usize, side: usize, out: &mut [u8], peek: bool) -> Result<usize, i32> {
        let c = &mut self.conns[conn];
        let unix = c.unix;
        let e = &mut c.ends[side];
        if e.reset && !e.reset_reported {
            e.reset_reported = true;
            return Err(libc::ECONNRESET);
        }
        if e.reset || out.is_empty() {
            return Ok(0);
        }
        if e.inbuf.is_empty() {
            if e.fin || e.read_shut {
                return Ok(0);
            }
            return Err(libc::EAGAIN);
        }
        let mut n = e.inbuf.len().min(out.len());
        if !unix && n > 1 && fault("net.short-receive") {
            // As if the rest arrived only now, which edge-triggered waiters are told about.
            n = 1 + pick(FAULT, n as u64 - 1) as usize;
            self.notify_end(conn, side);
        }
        if !unix && fault("net.reset") {
            self.reset(conn, 0);
            self.reset(conn, 1);
            self.conns[conn].ends[side].reset_reported = true;
            return Err(libc::ECONNRESET);
        }
        let e = &mut self.conns[conn].ends[side];
        if peek {
            for (i, b) in e.inbuf.iter().take(n).enumerate() {
                out[i] = *b;
            }
            return Ok(n);
        }
        for (i, b) in e.inbuf.drain(..n).enumerate() {
            out[i] = b;
        }
        e.received += n as u64;
        self.notify_end(conn, 1 - side);
        Ok(n)
    }

    pub fn port_taken(&self, address: SocketAddr, udp: bool) -> bool {
        let clash = |b: &SocketAddr| b.port() == address.port() && (b.ip() == address.ip() || b.ip().is_unspecified() || address.ip().is_unspecified());
        self.objects.iter().flatten().any(|o| match &o.kind {
            Kind::Tcp(Tcp::New { bound: Some(b) }) if !udp => clash(b),
            Kind::Tcp(Tcp::Listening(l)) if !udp => clash(&l.address),
            Kind::Udp(Udp { bound: Some(b), .. }) if udp => clash(b),
            _ => false,
        })
    }

    pub fn ephemeral(&mut self, ip: IpAddr, udp: bool) -> SocketAddr {
        loop {
            self.next_port = if self.next_port >= 60000 { 40000 } else { self.next_port + 1 };
            let a = SocketAddr::new(ip, self.next_port);
            if !self.port_taken(a, udp) {
                return a;
            }
        }
    }

    pub fn find_listener(&mut self, target: SocketAddr) -> Option<usize> {
        self.objects.iter().position(|o| match o {
            Some(Object { kind: Kind::Tcp(Tcp::Listening(l)), .. }) => {
                l.address.port() == target.port() && (l.address.ip() == target.ip() || l.address.ip().is_unspecified())
            }
            _ => false,
        })
    }

    pub fn find_udp(&mut self, target: SocketAddr, from: SocketAddr) -> Option<usize> {
        self.objects.iter().position(|o| match o {
            Some(Object { kind: Kind::Udp(u), .. }) => {
                u.bound.is_some_and(|b| b.port() == target.port() && (b.ip() == target.ip() || b.ip().is_unspecified()))
                    && u.peer.is_none_or(|p| p == from)
            }
            _ => false,
        })
    }

    /// Starts a connection attempt for `object`, already in state Connecting.
    pub fn connect(&mut self, object: usize, local: SocketAddr, target: SocketAddr) {
        let delay = latency("net.delay", self.net_latency) + 1000;
        let refused = fault("net.refuse");
        let timeout = !refused && fault("net.connect-timeout");
        let delay = if timeout { delay + 30_000_000_000 } else { delay };
        after(delay, move || {
            let os = &mut sim().os;
            let Some(Object { kind: Kind::Tcp(Tcp::Connecting { .. }), .. }) = &os.objects[object] else { return };
            let listener = if refused || timeout { None } else { os.find_listener(target) };
            let full = listener.is_some_and(|l| match &os.objects[l].as_ref().unwrap().kind {
                Kind::Tcp(Tcp::Listening(l)) => l.queue.len() > l.backlog,
                _ => false,
            });
            match listener {
                Some(l) if !full => {
                    let conn = os.new_conn(local, target, true, false);
                    os.conns[conn].ends[0].object = Some(object);
                    os.objects[object].as_mut().unwrap().kind = Kind::Stream { conn, side: 0 };
                    os.notify(object);
                    if let Some(Object { kind: Kind::Tcp(Tcp::Listening(l)), .. }) = &mut os.objects[l] {
                        l.queue.push_back(conn);
                    }
                    os.notify(l);
                    if fault("net.reset-in-backlog") {
                        let d = latency("net.delay", os.net_latency);
                        after(d, move || {
                            if !sim().faults_on {
                                return;
                            }
                            sim().os.reset(conn, 0);
                            sim().os.reset(conn, 1);
                        });
                    }
                }
                _ => {
                    os.objects[object].as_mut().unwrap().kind =
                        Kind::Tcp(Tcp::Failed { errno: if timeout { libc::ETIMEDOUT } else { libc::ECONNREFUSED } });
                    os.notify(object);
                }
            }
        });
    }

    pub fn udp_send(&mut self, object: usize, data: &[u8], target: SocketAddr) -> Result<usize, i32> {
        if data.len() > 65507 {
            return Err(libc::EMSGSIZE);
        }
        let needs = match &self.objects[object].as_ref().unwrap().kind {
            Kind::Udp(u) => u.bound.is_none(),
            _ => return Err(libc::EINVAL),
        };
        if needs {
            let a = self.ephemeral(IpAddr::V4(Ipv4Addr::LOCALHOST), true);
            if let Kind::Udp(u) = &mut self.objects[object].as_mut().unwrap().kind {
                u.bound = Some(a);
            }
        }
        let mut from = match &self.objects[object].as_ref().unwrap().kind {
            Kind::Udp(u) => u.bound.unwrap(),
            _ => unreachable!(),
        };
        if from.ip().is_unspecified() {
            from.set_ip(target.ip());
        }
        if fault("udp.loss") {
            return Ok(data.len());
        }
        let copies = if fault("udp.duplicate") { 2 } else { 1 };
        for _ in 0..copies {
            let delay = latency("net.delay", self.net_latency);
            let bytes = data.to_vec();
            let f = move || {
                let os = &mut sim().os;
                if let Some(d) = os.find_udp(target, from) {
                    let mut arrived = false;
                    if let Kind::Udp(u) = &mut os.objects[d].as_mut().unwrap().kind {
                        if u.queue.len() < u.cap {
                            u.queue.push_back((from, bytes));
                            arrived = true;
                        }
                    }
                    if arrived {
                        os.notify(d);
                    } else {
                        probe("udp-queue-overflow");
                    }
                } else if let Some(s) = os.find_udp(from, target) {
                    // ICMP port unreachable reaches only connected sockets.
                    let mut hit = false;
                    if let Kind::Udp(u) = &mut os.objects[s].as_mut().unwrap().kind {
                        if u.peer == Some(target) {
                            u.error = libc::ECONNREFUSED;
                            hit = true;
                        }
                    }
                    if hit {
                        os.notify(s);
                    }
                }
            };
            if delay == 0 {
                f()
            } else {
                after(delay, f)
            }
        }
        Ok(data.len())
    }

    // --- files

    pub fn resolve(&self, path: &str) -> Result<(usize, String, Option<usize>), i32> {
        if !path.is_empty() && !path.starts_with('/') && self.cwd() != "/" {
            return self.resolve_from(0, &format!("{}/{path}", self.cwd()));
        }
        self.resolve_from(0, path)
    }

    /// Resolves a path relative to an open directory.
    pub fn resolve_at(&mut self, dir: i32, path: &str) -> Result<(usize, String, Option<usize>), i32> {
        if dir == libc::AT_FDCWD || path.starts_with('/') {
            return self.resolve(path);
        }
        match self.object(dir)?.kind {
            Kind::Dir { inode, .. } => self.resolve_from(inode, path),
            _ => Err(libc::ENOTDIR),
        }
    }

    fn resolve_from(&self, root: usize, path: &str) -> Result<(usize, String, Option<usize>), i32> {
        self.resolve_links(root, path, 8)
    }

    fn resolve_links(&self, root: usize, path: &str, most: usize) -> Result<(usize, String, Option<usize>), i32> {
        // Returns (parent inode, last component, inode if it exists).
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() > 4000 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut stack = vec![root];
        let parts: Vec<&str> = path.split('/').filter(|p| !p.is_empty() && *p != ".").collect();
        let mut last = String::new();
        let mut found = Some(root);
        for (i, p) in parts.iter().enumerate() {
            if p.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let current = *stack.last().unwrap();
            if *p == ".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                found = stack.last().copied();
                continue;
            }
            let Node::Dir(d) = &self.inodes[current].node else { return Err(libc::ENOTDIR) };
            let next = d.get(*p).copied();
            last = p.to_string();
            if i + 1 == parts.len() {
                let trailing = path.ends_with('/');
                if trailing {
                    if let Some(n) = self.follow_links((current, last.clone(), next), most)?.2 {
                        if !matches!(self.inodes[n].node, Node::Dir(_)) {
                            return Err(libc::ENOTDIR);
                        }
                    }
                }
                return Ok((current, last, next));
            }
            match next {
                Some(n) if matches!(self.inodes[n].node, Node::Link(_)) => {
                    stack.push(self.follow_links((current, last.clone(), next), most)?.2.ok_or(libc::ENOENT)?)
                }
                Some(n) => stack.push(n),
                None => return Err(libc::ENOENT),
            }
            found = next;
        }
        Ok((stack[0], last, found))
    }

    /// Follows symbolic links at the end of a path as well.
    pub fn follow(&self, place: (usize, String, Option<usize>)) -> Result<(usize, String, Option<usize>), i32> {
        self.follow_links(place, 8)
    }

    fn follow_links(&self, place: (usize, String, Option<usize>), most: usize) -> Result<(usize, String, Option<usize>), i32> {
        match place.2.map(|i| &self.inodes[i].node) {
            Some(Node::Link(_)) if most == 0 => Err(libc::ELOOP),
            Some(Node::Link(target)) => self.follow_links(self.resolve_links(0, target, most - 1)?, most - 1),
            _ => Ok(place),
        }
    }

    pub fn link(&mut self, path: &str, target: &str) {
        let (parent, name, found) = self.resolve(path).unwrap();
        assert!(found.is_none());
        let i = self.inodes.len();
        self.inodes.push(Inode { node: Node::Link(target.into()), mode: 0o777, links: 1 });
        if let Node::Dir(d) = &mut self.inodes[parent].node {
            d.insert(name, i);
        }
    }

    /// What the symbolic link at a path leads to.
    pub fn link_target(&self, path: &str) -> Option<String> {
        match self.resolve(path).ok()?.2.map(|i| &self.inodes[i].node)? {
            Node::Link(target) => Some(target.clone()),
            _ => None,
        }
    }

    pub fn read_path(&self, path: &str) -> Option<&Vec<u8>> {
        match self.follow(self.resolve(path).ok()?).ok()?.2.map(|i| &self.inodes[i].node)? {
            Node::File(d) => Some(d),
            _ => None,
        }
    }

    pub fn put_file(&mut self, path: &str, data: &[u8]) {
        let (parent, name, found) = self.resolve(path).unwrap();
        match found {
            Some(i) => self.inodes[i].node = Node::File(data.to_vec()),
            None => {
                let i = self.inodes.len();
                self.inodes.push(Inode { node: Node::File(data.to_vec()), mode: 0o644, links: 1 });
                if let Node::Dir(d) = &mut self.inodes[parent].node {
                    d.insert(name, i);
                }
            }
        }
    }

    /// A copy of what is at a path.
    pub fn tree(&self, path: &str) -> Option<Tree> {
        self.resolve(path).ok()?.2.map(|i| self.tree_of(i))
    }

    fn tree_of(&self, i: usize) -> Tree {
        let mode = self.inodes[i].mode;
        match &self.inodes[i].node {
            Node::File(d) => Tree::File(d.clone(), mode),
            Node::Link(_) => unreachable!(),
            Node::Dir(d) => Tree::Dir(d.iter().map(|(name, i)| (name.clone(), self.tree_of(*i))).collect(), mode),
        }
    }

    /// Replaces what is at a path.
    pub fn plant(&mut self, path: &str, tree: Option<&Tree>) {
        let (parent, name, found) = self.resolve(path).unwrap();
        if let Some(i) = found {
            self.fell(i);
            let Node::Dir(d) = &mut self.inodes[parent].node else { unreachable!() };
            d.remove(&name);
        }
        let Some(tree) = tree else { return };
        let i = self.plant_tree(tree);
        let Node::Dir(d) = &mut self.inodes[parent].node else { unreachable!() };
        d.insert(name, i);
    }

    fn fell(&mut self, i: usize) {
        self.inodes[i].links = 0;
        match std::mem::replace(&mut self.inodes[i].node, Node::File(vec![])) {
            Node::File(_) | Node::Link(_) => {}
            Node::Dir(d) => d.values().for_each(|i| self.fell(*i)),
        }
    }

    fn plant_tree(&mut self, tree: &Tree) -> usize {
        let (node, mode, links) = match tree {
            Tree::File(d, mode) => (Node::File(d.clone()), *mode, 1),
            Tree::Dir(d, mode) => (Node::Dir(d.iter().map(|(name, t)| (name.clone(), self.plant_tree(t))).collect()), *mode, 2),
        };
        self.inodes.push(Inode { node, mode, links });
        self.inodes.len() - 1
    }

    pub fn list_dir(&self, path: &str) -> Option<Vec<String>> {
        match self.follow(self.resolve(path).ok()?).ok()?.2.map(|i| &self.inodes[i].node)? {
            Node::Dir(d) => Some(d.keys().cloned().collect()),
            _ => None,
        }
    }

    pub fn used(&self) -> u64 {
        self.inodes
            .iter()
            .map(|i| match &i.node {
                Node::File(d) if i.links > 0 => d.len() as u64,
                _ => 0,
            })
            .sum()
    }
}

pub fn condition_ready(c: &Cond) -> bool {
    let s = sim();
    match c {
        Cond::None | Cond::Futex(_) | Cond::Sleep | Cond::FlockQueue | Cond::CondVar(_) => false,
        Cond::Join(t) => s.threads[*t].state == State::Done,
        Cond::Mutex(a) => !s.os.mutexes.contains_key(a),
        Cond::Fd(fd, events) => match s.os.id(*fd) {
            Ok(id) => s.os.readiness(id) & (*events | POLLERR | POLLHUP) != 0,
            Err(_) => true,
        },
        Cond::Poll(v) => v.iter().any(|(fd, events)| match s.os.id(*fd) {
            Ok(id) => s.os.readiness(id) & (*events | POLLERR | POLLHUP) != 0,
            Err(_) => true,
        }),
        Cond::Epoll(fd) => match s.os.id(*fd) {
            Ok(id) => s.os.epoll_has(id),
            Err(_) => true,
        },
        Cond::Child(pid) => s.os.children.iter().any(|c| (*pid == -1 || c.pid == *pid) && c.exited.is_some() && !c.reaped),
    }
}

/// Whether a signal waits for a thread to handle it.
pub fn signal_waits() -> bool {
    let os = &mut sim().os;
    while let Some(sig) = os.pending_signals.front() {
        match os.handlers.get(sig) {
            Some(&(h, _)) if h != libc::SIG_DFL && h != libc::SIG_IGN => return true,
            _ => {
                os.pending_signals.pop_front();
            }
        }
    }
    false
}

pub fn deliver_signals() {
    let s = sim();
    if s.os.pending_signals.is_empty() {
        return;
    }
    let t = me();
    if s.threads[t].in_handler {
        return;
    }
    while let Some(sig) = sim().os.pending_signals.pop_front() {
        let Some(&(handler, flags)) = sim().os.handlers.get(&sig) else { continue };
        if handler == libc::SIG_DFL || handler == libc::SIG_IGN {
            continue;
        }
        sim().threads[t].in_handler = true;
        unsafe {
            let depth = DEPTH;
            let errno = *libc::__errno_location();
            DEPTH = 0;
            if flags & libc::SA_SIGINFO != 0 {
                let mut info: libc::siginfo_t = core::mem::zeroed();
                info.si_signo = sig;
                let f: extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) = core::mem::transmute(handler);
                f(sig, &mut info, core::ptr::null_mut());
            } else {
                let f: extern "C" fn(i32) = core::mem::transmute(handler);
                f(sig);
            }
            DEPTH = depth;
            *libc::__errno_location() = errno;
        }
        sim().threads[t].in_handler = false;
    }
}

// --- choices used by the kernel

pub fn pick(stream: u32, n: u64) -> u64 {
    sim().choices.next(stream, n, |h| h % n.max(1))
}

/// Declares a fault kind for this run, at `rate` per 1024 opportunities.
pub fn enable_fault(name: &'static str, rate: u64) {
    let f = sim().faults.entry(name).or_default();
    *f = (rate, f.1, 0);
}

/// Whether a fault of this kind happens now.
pub fn fault(name: &'static str) -> bool {
    let s = sim();
    let on = s.faults_on && s.fault_budget > 0;
    let Some(f) = s.faults.get_mut(name) else { return false };
    f.1 += 1;
    let rate = f.0;
    if rate == 0 || !on {
        return false;
    }
    // Each kind draws on its own, so that draws stay the same whichever kinds are enabled.
    let kind = name.bytes().fold(0x811c9dc5u32, |h, b| (h ^ b as u32).wrapping_mul(0x01000193)) as u64 >> 8;
    let index = 1 << 52 | kind << 28 | f.1;
    if s.choices.at(FAULT, index, 2, |h| (h % 1024 < rate) as u64) == 1 {
        let f = s.faults.get_mut(name).unwrap();
        f.2 += 1;
        s.fault_budget -= 1;
        log(format!("fault {name}"));
        true
    } else {
        false
    }
}

pub fn latency(_name: &'static str, max: u64) -> u64 {
    if max == 0 {
        return 0;
    }
    sim().choices.next(LATENCY, max, |h| match h % 4 {
        0 => 0,
        1 => (h >> 8) % (max / 100 + 1),
        2 => (h >> 8) % (max / 10 + 1),
        _ => (h >> 8) % max,
    })
}

pub fn probe(name: &'static str) {
    *sim().probes.entry(name).or_insert(0) += 1;
}

/// Suspends the calling simulated thread for a chosen time. In the kernel.
pub fn stall(max: u64) {
    let d = latency("stall", max);
    if d > 0 {
        let until = sim().now + d;
        block(Cond::Sleep, until);
    }
}

// --- futexes

pub fn futex_wait(address: usize, expected: u32, deadline: u64) -> i32 {
    tsan::acquire(address);
    let current = unsafe { core::ptr::read_volatile(address as *const u32) };
    if current != expected {
        return -libc::EAGAIN;
    }
    if fault("futex.spurious-wake") {
        return 0;
    }
    let w = block(Cond::Futex(address), deadline);
    tsan::acquire(address);
    match w {
        Wake::Woken => 0,
        Wake::Timeout => -libc::ETIMEDOUT,
    }
}

pub fn futex_wake(address: usize, n: usize) -> i32 {
    tsan::release(address);
    let s = sim();
    let mut woken = 0;
    while woken < n {
        let waiters: Vec<usize> = (0..s.threads.len())
            .filter(|&i| s.threads[i].state == State::Blocked && !s.threads[i].woken && matches!(s.threads[i].cond, Cond::Futex(a) if a == address))
            .collect();
        if waiters.is_empty() {
            break;
        }
        let i = if waiters.len() > 1 && n < waiters.len() { pick(5, waiters.len() as u64) as usize } else { 0 };
        wake_thread(waiters[i]);
        woken += 1;
    }
    woken as i32
}

/// Gives the program these arguments, its name first, as its start does: the standard library takes
/// them in a constructor. The other constructors are those of the instrumentation, which do nothing.
pub fn start_with(arguments: Vec<Vec<u8>>) {
    use std::ffi::{c_char, c_int};
    type Constructor = unsafe extern "C" fn(c_int, *const *const c_char, *const *const c_char);
    extern "C" {
        static __init_array_start: Constructor;
        static __init_array_end: Constructor;
    }
    let mut pointers: Vec<*const c_char> = arguments.into_iter().map(|a| std::ffi::CString::new(a).expect("an argument").into_raw() as *const _).collect();
    let n = pointers.len();
    pointers.push(core::ptr::null());
    let pointers = Box::leak(pointers.into_boxed_slice());
    crate::sched::kernel(|| unsafe {
        let mut f = &raw const __init_array_start;
        while f < &raw const __init_array_end {
            (*f)(n as c_int, pointers.as_ptr(), core::ptr::null());
            f = f.add(1);
        }
    });
    assert_eq!(std::env::args_os().count(), n, "the arguments of the program");
}
