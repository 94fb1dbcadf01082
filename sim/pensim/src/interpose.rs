//! libc symbols the simulated program calls. Outside a simulation, and inside the simulator itself,
//! they are the plain system calls.
use crate::{choice::*, raw, sched::*, sys::*, tsan};
use core::ffi::{c_char, c_int, c_void, CStr};
use libc::*;
use std::collections::BTreeMap;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

type R = Result<i64, i32>;

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

fn out(r: R) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

fn out_raw(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

#[inline(always)]
fn simulated() -> bool {
    active() && !in_kernel()
}

/// Runs one simulated system call: a scheduling point, then the effect.
fn call(f: impl FnOnce(&'static mut Os) -> R) -> i64 {
    point();
    kernel(|| {
        let s = sim();
        s.os.syscalls += 1;
        s.now += 300;
        if s.os.dies().0 {
            return out(Err(EIO));
        }
        let r = f(&mut s.os);
        let s = sim();
        s.history_hash = mix(s.history_hash ^ match r {
            Ok(v) if v < 1 << 40 => v as u64,
            Ok(_) => 7,
            Err(e) => (e as u64) << 50,
        });
        out(r)
    })
}

/// Like `call`, for writing: the write a process is killed in may happen in part.
fn call_torn(fd: c_int, f: impl FnOnce(&'static mut Os) -> R) -> i64 {
    let (dead, torn) = kernel(|| {
        let os = &mut sim().os;
        let file = matches!(os.object(fd), Ok(Object { kind: Kind::File { .. }, .. }));
        if file && os.kill.is_some_and(|k| k.0 == 0) { os.dies() } else { (false, false) }
    });
    if dead {
        point();
        return kernel(|| {
            if torn {
                let os = &mut sim().os;
                os.torn = true;
                let _ = f(os);
                sim().os.torn = false;
            }
            out(Err(EIO))
        });
    }
    call(f)
}

/// For closing: also what a killed process does.
fn call_always(f: impl FnOnce(&'static mut Os) -> R) -> i64 {
    if kernel(|| {
        let os = &sim().os;
        os.processes[os.process()].killed
    }) {
        return kernel(|| out(f(&mut sim().os)));
    }
    call(f)
}

unsafe fn string(p: *const c_char) -> Result<String, i32> {
    CStr::from_ptr(p).to_str().map(|s| s.to_string()).map_err(|_| ENOENT)
}

macro_rules! raw3 {
    ($n:expr, $a:expr, $b:expr, $c:expr) => {
        out_raw(raw::syscall6($n, $a as i64, $b as i64, $c as i64, 0, 0, 0))
    };
}
macro_rules! raw6 {
    ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr, $e:expr, $f:expr) => {
        out_raw(raw::syscall6($n, $a as i64, $b as i64, $c as i64, $d as i64, $e as i64, $f as i64))
    };
}

macro_rules! passthrough {
    ($name:expr, $t:ty) => {{
        static mut F: usize = 0;
        if F == 0 {
            F = real::symbol($name);
        }
        core::mem::transmute::<usize, $t>(F)
    }};
}

// --- files

fn open_path(dir: i32, path: &str, flags: i32, mode: u32) -> R {
    stall(sim().os.fs_latency);
    let os = &mut sim().os;
    if fault("fs.open-eintr") {
        return Err(EINTR);
    }
    if fault("fs.emfile") {
        return Err(EMFILE);
    }
    if path == "/dev/null" {
        return os.open(Kind::Null, false).map(|fd| fd as i64);
    }
    let place = os.resolve_at(dir, path)?;
    let exclusive = flags & O_CREAT != 0 && flags & O_EXCL != 0;
    let (parent, name, found) = if exclusive || flags & O_NOFOLLOW != 0 { place } else { os.follow(place)? };
    let access = flags & O_ACCMODE;
    let inode = match found {
        Some(i) => {
            if exclusive {
                return Err(EEXIST);
            }
            if fault("fs.eacces") {
                return Err(EACCES);
            }
            match &mut os.inodes[i].node {
                Node::Dir(d) => {
                    if access != O_RDONLY || flags & O_CREAT != 0 {
                        return Err(EISDIR);
                    }
                    let mut entries: Vec<_> = d.iter().map(|(k, v)| (k.clone(), *v)).collect();
                    if os.shuffle && entries.len() > 1 {
                        // The order of a directory is the file system's.
                        for k in (1..entries.len()).rev() {
                            entries.swap(k, k - pick(LATENCY, k as u64 + 1) as usize);
                        }
                    }
                    let kind = Kind::Dir { inode: i, entries, at: 0, buffer: Box::new(unsafe { core::mem::zeroed() }) };
                    return os.open(kind, false).map(|f| f as i64);
                }
                Node::Link(_) => return Err(if flags & O_DIRECTORY != 0 { ENOTDIR } else { ELOOP }),
                Node::File(d) => {
                    if flags & O_DIRECTORY != 0 {
                        return Err(ENOTDIR);
                    }
                    if flags & O_TRUNC != 0 && access != O_RDONLY {
                        d.clear();
                    }
                }
            }
            i
        }
        None => {
            if flags & O_CREAT == 0 {
                return Err(ENOENT);
            }
            if path.ends_with('/') {
                return Err(EISDIR);
            }
            if fault("fs.eacces") {
                return Err(EACCES);
            }
            if fault("fs.create-enospc") {
                return Err(ENOSPC);
            }
            let i = os.inodes.len();
            os.inodes.push(Inode { node: Node::File(vec![]), mode: mode & 0o777, links: 1 });
            if let Node::Dir(d) = &mut os.inodes[parent].node {
                d.insert(name, i);
            }
            i
        }
    };
    let fd = os.open(Kind::File { inode, pos: 0, flags, path: path.to_string() }, flags & O_NONBLOCK != 0)?;
    Ok(fd as i64)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !simulated() {
        return raw3!(SYS_open, path, flags, mode) as c_int;
    }
    call(|_| open_path(AT_FDCWD, &string(path)?, flags, mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !simulated() {
        return raw6!(SYS_openat, dir, path, flags, mode, 0, 0) as c_int;
    }
    call(|_| open_path(dir, &string(path)?, flags, mode)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: mode_t) -> c_int {
    open64(path, O_CREAT | O_WRONLY | O_TRUNC, mode)
}

fn read_file(os: &mut Os, inode: usize, pos: u64, buf: &mut [u8]) -> R {
    let Node::File(d) = &os.inodes[inode].node else { return Err(EISDIR) };
    let start = (pos as usize).min(d.len());
    let mut n = (d.len() - start).min(buf.len());
    if n > 1 && fault("fs.short-read") {
        n = 1 + pick(FAULT, n as u64 - 1) as usize;
    }
    let Node::File(d) = &os.inodes[inode].node else { unreachable!() };
    buf[..n].copy_from_slice(&d[start..start + n]);
    Ok(n as i64)
}

fn write_file(os: &mut Os, inode: usize, pos: u64, buf: &[u8]) -> R {
    let mut n = buf.len();
    if sim().os.torn {
        n = pick(FAULT, n as u64 + 1) as usize;
    }
    if fault("fs.write-enospc") {
        return Err(ENOSPC);
    }
    if fault("fs.write-eio") {
        return Err(EIO);
    }
    if n > 1 && fault("fs.short-write") {
        n = 1 + pick(FAULT, n as u64 - 1) as usize;
    }
    if let Some(cap) = os.disk_capacity {
        let used = os.used();
        let Node::File(d) = &os.inodes[inode].node else { return Err(EISDIR) };
        let growth = (pos + n as u64).saturating_sub(d.len() as u64);
        let free = cap.saturating_sub(used);
        if growth > free {
            let reduce = (growth - free) as usize;
            if reduce >= n {
                probe("disk-full");
                return Err(ENOSPC);
            }
            n -= reduce;
        }
    }
    let Node::File(d) = &mut os.inodes[inode].node else { return Err(EISDIR) };
    let pos = pos as usize;
    if d.len() < pos + n {
        d.resize(pos + n, 0);
    }
    d[pos..pos + n].copy_from_slice(&buf[..n]);
    Ok(n as i64)
}

fn wait_fd(fd: c_int, events: i16) {
    block(Cond::Fd(fd, events), NEVER);
}

fn do_read(fd: c_int, buf: &mut [u8], at: Option<u64>) -> R {
    let os = &mut sim().os;
    let id = os.id(fd)?;
    if let Kind::File { .. } = os.objects[id].as_ref().unwrap().kind {
        stall(os.fs_latency);
        if fault("fs.read-eintr") {
            return Err(EINTR);
        }
        if fault("fs.read-eio") {
            return Err(EIO);
        }
    }
    let os = &mut sim().os;
    os.id(fd)?;
    let mut interrupted = false;
    loop {
        let os = &mut sim().os;
        let object = os.objects[id].as_mut().ok_or(EBADF)?;
        let nonblock = object.nonblock;
        let r = match &mut object.kind {
            Kind::File { inode, pos, flags, .. } => {
                if *flags & O_ACCMODE == O_WRONLY {
                    return Err(EBADF);
                }
                let (i, p) = (*inode, at.unwrap_or(*pos));
                let n = read_file(os, i, p, buf)?;
                if at.is_none() {
                    if let Kind::File { pos, .. } = &mut sim().os.objects[id].as_mut().unwrap().kind {
                        *pos += n as u64;
                    }
                }
                return Ok(n);
            }
            Kind::Dir { .. } => return Err(EISDIR),
            Kind::Stdin => {
                let first = !interrupted;
                interrupted = true;
                if first && fault("stdin.eintr") {
                    return Err(EINTR);
                }
                let s = &mut os.stdin;
                if s.buffer.is_empty() && s.error != 0 {
                    return Err(s.error);
                }
                if s.buffer.is_empty() && !s.eof {
                    Err(EAGAIN)
                } else {
                    let mut n = s.buffer.len().min(buf.len());
                    if n > 1 && fault("stdin.short-read") {
                        n = 1 + pick(FAULT, n as u64 - 1) as usize;
                    }
                    for (i, b) in s.buffer.drain(..n).enumerate() {
                        buf[i] = b;
                    }
                    s.delivered += n as u64;
                    Ok(n as i64)
                }
            }
            Kind::Out(_) => return Err(EBADF),
            Kind::Stream { conn, side } => {
                let (c, s) = (*conn, *side);
                let first = !interrupted;
                interrupted = true;
                if first && !nonblock && !os.conns[c].unix && fault("net.eintr") {
                    return Err(EINTR);
                }
                os.stream_receive(c, s, buf, false).map(|n| n as i64)
            }
            Kind::Tcp(Tcp::Failed { errno }) => {
                let e = *errno;
                *errno = ENOTCONN;
                return Err(e);
            }
            Kind::Tcp(_) => return Err(ENOTCONN),
            Kind::Udp(u) => {
                if u.error != 0 {
                    let e = u.error;
                    u.error = 0;
                    return Err(e);
                }
                match u.queue.pop_front() {
                    Some((_, d)) => {
                        let n = d.len().min(buf.len());
                        buf[..n].copy_from_slice(&d[..n]);
                        Ok(n as i64)
                    }
                    None => Err(EAGAIN),
                }
            }
            Kind::Event { count } => {
                if *count == 0 {
                    Err(EAGAIN)
                } else {
                    buf[..8].copy_from_slice(&count.to_le_bytes());
                    *count = 0;
                    Ok(8)
                }
            }
            Kind::Epoll { .. } => return Err(EINVAL),
            Kind::Null => return Ok(0),
        };
        match r {
            Err(EAGAIN) if !nonblock => wait_fd(fd, POLLIN),
            r => return r,
        }
    }
}

fn do_write(fd: c_int, buf: &[u8], at: Option<u64>) -> R {
    let os = &mut sim().os;
    let id = os.id(fd)?;
    if let Kind::File { .. } = os.objects[id].as_ref().unwrap().kind {
        stall(os.fs_latency);
        if fault("fs.write-eintr") {
            return Err(EINTR);
        }
    }
    if let Kind::Out(_) = sim().os.objects[id].as_ref().ok_or(EBADF)?.kind {
        let l = sim().os.fs_latency;
        stall(l);
        if fault("stdout.eintr") {
            return Err(EINTR);
        }
    }
    sim().os.id(fd)?;
    loop {
        let os = &mut sim().os;
        let object = os.objects[id].as_mut().ok_or(EBADF)?;
        let nonblock = object.nonblock;
        let r = match &mut object.kind {
            Kind::File { inode, pos, flags, .. } => {
                if *flags & O_ACCMODE == O_RDONLY {
                    return Err(EBADF);
                }
                if buf.is_empty() {
                    return Ok(0);
                }
                let i = *inode;
                let append = *flags & O_APPEND != 0 && at.is_none();
                let p = if append {
                    match &os.inodes[i].node {
                        Node::File(d) => d.len() as u64,
                        _ => 0,
                    }
                } else {
                    at.unwrap_or(*pos)
                };
                let n = write_file(os, i, p, buf)?;
                if at.is_none() {
                    if let Kind::File { pos, .. } = &mut sim().os.objects[id].as_mut().unwrap().kind {
                        *pos = p + n as u64;
                    }
                }
                return Ok(n);
            }
            Kind::Out(w) => {
                let w = *w as usize;
                let broken = os.out[w].broken;
                if broken != 0 {
                    return Err(broken);
                }
                if fault("stdout.eio") {
                    return Err(EIO);
                }
                let mut n = buf.len();
                if n > 1 && fault("stdout.short-write") {
                    n = 1 + pick(FAULT, n as u64 - 1) as usize;
                }
                os.out[w].data.extend_from_slice(&buf[..n]);
                os.out[w].writes += 1;
                return Ok(n as i64);
            }
            Kind::Stream { conn, side } => {
                let (c, s) = (*conn, *side);
                os.stream_send(c, s, buf).map(|n| n as i64)
            }
            Kind::Tcp(Tcp::Failed { errno }) => {
                let e = *errno;
                *errno = EPIPE;
                return Err(e);
            }
            Kind::Tcp(_) => return Err(ENOTCONN),
            Kind::Udp(u) => match u.peer {
                Some(p) => {
                    if u.error != 0 {
                        let e = u.error;
                        u.error = 0;
                        return Err(e);
                    }
                    os.udp_send(id, buf, p).map(|n| n as i64)
                }
                None => return Err(EDESTADDRREQ),
            },
            Kind::Event { count } => {
                let v = u64::from_le_bytes(buf[..8].try_into().unwrap());
                if count.checked_add(v).is_none_or(|c| c == u64::MAX) {
                    Err(EAGAIN)
                } else {
                    *count += v;
                    os.notify(id);
                    Ok(8)
                }
            }
            Kind::Null => return Ok(buf.len() as i64),
            _ => return Err(EBADF),
        };
        match r {
            Err(EAGAIN) if !nonblock => {
                if let Kind::Event { .. } = sim().os.objects[id].as_ref().unwrap().kind {
                    return Err(EAGAIN);
                }
                wait_fd(fd, POLLOUT)
            }
            r => return r,
        }
    }
}

unsafe fn slice<'a>(p: *const c_void, n: usize) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        core::slice::from_raw_parts(p as *const u8, n)
    }
}
unsafe fn slice_mut<'a>(p: *mut c_void, n: usize) -> &'a mut [u8] {
    if n == 0 {
        &mut []
    } else {
        core::slice::from_raw_parts_mut(p as *mut u8, n)
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if !simulated() {
        return raw3!(SYS_read, fd, buf, n) as isize;
    }
    if n > 0 {
        tsan::access(buf as usize, n, true, false);
    }
    call(|_| do_read(fd, slice_mut(buf, n), None)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if !simulated() {
        return raw3!(SYS_write, fd, buf, n) as isize;
    }
    if n > 0 {
        tsan::access(buf as usize, n, false, false);
    }
    call_torn(fd, |_| do_write(fd, slice(buf, n), None)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, at: off64_t) -> isize {
    if !simulated() {
        return raw6!(SYS_pread64, fd, buf, n, at, 0, 0) as isize;
    }
    call(|_| do_read(fd, slice_mut(buf, n), Some(at as u64))) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: usize, at: off64_t) -> isize {
    pread64(fd, buf, n, at)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, at: off64_t) -> isize {
    if !simulated() {
        return raw6!(SYS_pwrite64, fd, buf, n, at, 0, 0) as isize;
    }
    call_torn(fd, |_| do_write(fd, slice(buf, n), Some(at as u64))) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, at: off64_t) -> isize {
    pwrite64(fd, buf, n, at)
}

unsafe fn gather(v: *const iovec, n: c_int) -> Vec<u8> {
    let mut d = vec![];
    for i in 0..n as usize {
        let v = &*v.add(i);
        d.extend_from_slice(slice(v.iov_base, v.iov_len));
    }
    d
}
unsafe fn scatter(v: *const iovec, n: c_int, mut data: &[u8]) {
    for i in 0..n as usize {
        let v = &*v.add(i);
        let k = v.iov_len.min(data.len());
        slice_mut(v.iov_base, k).copy_from_slice(&data[..k]);
        data = &data[k..];
    }
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> isize {
    if !simulated() {
        return raw3!(SYS_readv, fd, v, n) as isize;
    }
    call(|_| {
        let size: usize = (0..n as usize).map(|i| (*v.add(i)).iov_len).sum();
        let mut b = vec![0; size];
        let r = do_read(fd, &mut b, None)?;
        scatter(v, n, &b[..r as usize]);
        Ok(r)
    }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> isize {
    if !simulated() {
        return raw3!(SYS_writev, fd, v, n) as isize;
    }
    call_torn(fd, |_| do_write(fd, &gather(v, n), None)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, offset: off64_t, whence: c_int) -> off64_t {
    if !simulated() {
        return raw3!(SYS_lseek, fd, offset, whence);
    }
    call(|os| {
        let id = os.id(fd)?;
        let (inode, current) = match &os.objects[id].as_ref().unwrap().kind {
            Kind::File { inode, pos, .. } => (*inode, *pos as i64),
            _ => return Err(ESPIPE),
        };
        let size = match &os.inodes[inode].node {
            Node::File(d) => d.len() as i64,
            _ => 0,
        };
        let p = match whence {
            SEEK_SET => offset,
            SEEK_CUR => current + offset,
            SEEK_END => size + offset,
            _ => return Err(EINVAL),
        };
        if p < 0 {
            return Err(EINVAL);
        }
        if let Kind::File { pos, .. } = &mut os.objects[id].as_mut().unwrap().kind {
            *pos = p as u64;
        }
        Ok(p)
    })
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, offset: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, offset, whence)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    if !simulated() {
        return raw3!(SYS_ftruncate, fd, n, 0) as c_int;
    }
    call(|os| {
        let id = os.id(fd)?;
        let inode = match &os.objects[id].as_ref().unwrap().kind {
            Kind::File { inode, flags, .. } if *flags & O_ACCMODE != O_RDONLY => *inode,
            _ => return Err(EINVAL),
        };
        if let Node::File(d) = &mut os.inodes[inode].node {
            d.resize(n as usize, 0);
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off64_t) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(_: c_int, _: c_int, _: off64_t, _: off64_t) -> c_int {
    set_errno(EOPNOTSUPP);
    -1
}

unsafe fn sync_fd(fd: c_int, n: i64) -> c_int {
    if !simulated() {
        return raw3!(n, fd, 0, 0) as c_int;
    }
    call(|os| {
        os.id(fd)?;
        stall(os.fs_latency);
        if fault("fs.fsync-eio") {
            return Err(EIO);
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_fd(fd, SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_fd(fd, SYS_fdatasync)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !simulated() {
        return raw3!(SYS_close, fd, 0, 0) as c_int;
    }
    call_always(|os| {
        os.release(fd)?;
        Ok(0)
    }) as c_int
}

fn stat_of(os: &Os, i: usize) -> (u32, u64, u64) {
    match &os.inodes[i].node {
        Node::File(d) => (S_IFREG | os.inodes[i].mode, d.len() as u64, i as u64 + 1),
        Node::Dir(_) => (S_IFDIR | os.inodes[i].mode, 4096, i as u64 + 1),
        Node::Link(target) => (S_IFLNK | 0o777, target.len() as u64, i as u64 + 1),
    }
}

fn stat_fd(os: &Os, fd: c_int) -> Result<(u32, u64, u64), i32> {
    let id = os.id(fd)?;
    Ok(match &os.objects[id].as_ref().unwrap().kind {
        Kind::File { inode, .. } => stat_of(os, *inode),
        Kind::Dir { inode, .. } => stat_of(os, *inode),
        Kind::Stream { .. } | Kind::Tcp(_) | Kind::Udp(_) => (S_IFSOCK | 0o777, 0, 9000 + id as u64),
        _ => (S_IFIFO | 0o600, 0, 9000 + id as u64),
    })
}

fn stat_path(path: &str) -> Result<(u32, u64, u64), i32> {
    stat_at(AT_FDCWD, path, true)
}

fn stat_at(dir: i32, path: &str, follow: bool) -> Result<(u32, u64, u64), i32> {
    stall(sim().os.fs_latency);
    if fault("fs.stat-eacces") {
        return Err(EACCES);
    }
    let os = &mut sim().os;
    let place = os.resolve_at(dir, path)?;
    let (_, _, found) = if follow { os.follow(place)? } else { place };
    Ok(stat_of(os, found.ok_or(ENOENT)?))
}

unsafe fn fill(s: *mut stat64, (mode, size, ino): (u32, u64, u64)) {
    *s = core::mem::zeroed();
    (*s).st_mode = mode;
    (*s).st_size = size as i64;
    (*s).st_ino = ino;
    (*s).st_dev = 7;
    (*s).st_nlink = 1;
    (*s).st_blksize = 4096;
}

#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, s: *mut stat64) -> c_int {
    if !simulated() {
        return raw3!(SYS_stat, path, s, 0) as c_int;
    }
    call(|_| {
        fill(s, stat_path(&string(path)?)?);
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, s: *mut libc::stat64) -> c_int {
    stat64(path, s)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, s: *mut libc::stat64) -> c_int {
    if !simulated() {
        return raw3!(SYS_lstat, path, s, 0) as c_int;
    }
    call(|_| {
        fill(s, stat_at(AT_FDCWD, &string(path)?, false)?);
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, s: *mut libc::stat64) -> c_int {
    lstat64(path, s)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, s: *mut libc::stat64) -> c_int {
    if !simulated() {
        return raw3!(SYS_fstat, fd, s, 0) as c_int;
    }
    call(|os| {
        fill(s, stat_fd(os, fd)?);
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, s: *mut libc::stat64) -> c_int {
    fstat64(fd, s)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, s: *mut libc::statx) -> c_int {
    if !simulated() {
        return raw6!(SYS_statx, dir, path, flags, mask, s, 0) as c_int;
    }
    call(|os| {
        // std probes for support with null pointers.
        if path.is_null() || s.is_null() {
            return Err(EFAULT);
        }
        let p = string(path)?;
        let (mode, size, ino) = if p.is_empty() { stat_fd(os, dir)? } else { stat_at(dir, &p, flags & AT_SYMLINK_NOFOLLOW == 0)? };
        *s = core::mem::zeroed();
        (*s).stx_mask = STATX_BASIC_STATS;
        (*s).stx_mode = mode as u16;
        (*s).stx_size = size;
        (*s).stx_ino = ino;
        (*s).stx_nlink = 1;
        (*s).stx_blksize = 4096;
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dir: c_int, path: *const c_char, s: *mut stat64, flags: c_int) -> c_int {
    if !simulated() {
        return raw6!(SYS_newfstatat, dir, path, s, flags, 0, 0) as c_int;
    }
    call(|_| {
        fill(s, stat_at(dir, &string(path)?, flags & AT_SYMLINK_NOFOLLOW == 0)?);
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    if !simulated() {
        return raw3!(SYS_unlinkat, dir, path, flags) as c_int;
    }
    call(|os| {
        stall(os.fs_latency);
        if fault("fs.eacces") {
            return Err(EACCES);
        }
        remove_at(dir, &string(path)?, flags & AT_REMOVEDIR != 0)
    }) as c_int
}

fn remove_at(dir: i32, path: &str, directory: bool) -> R {
    let os = &mut sim().os;
    let (parent, name, found) = os.resolve_at(dir, path)?;
    let i = found.ok_or(ENOENT)?;
    match &os.inodes[i].node {
        Node::File(_) | Node::Link(_) if directory => return Err(ENOTDIR),
        Node::Dir(_) if !directory => return Err(EISDIR),
        Node::Dir(d) if !d.is_empty() => return Err(ENOTEMPTY),
        _ => {}
    }
    if let Node::Dir(d) = &mut os.inodes[parent].node {
        d.remove(&name);
    }
    os.inodes[i].links = os.inodes[i].links.saturating_sub(1);
    Ok(0)
}

#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    if !simulated() {
        return raw3!(SYS_chmod, path, mode, 0) as c_int;
    }
    call(|os| {
        let (_, _, found) = os.follow(os.resolve(&string(path)?)?)?;
        let i = found.ok_or(ENOENT)?;
        os.inodes[i].mode = mode & 0o7777;
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, buffer: *mut c_char) -> *mut c_char {
    if !simulated() {
        return passthrough!(b"realpath\0", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(path, buffer);
    }
    let mut result = core::ptr::null_mut();
    call(|os| {
        let p = string(path)?;
        stat_path(&p)?;
        let full = if p.starts_with('/') { p } else { format!("{}/{p}", os.cwd()) };
        let mut parts: Vec<&str> = vec![];
        for c in full.split('/').filter(|c| !c.is_empty() && *c != ".") {
            if c == ".." {
                parts.pop();
            } else {
                parts.push(c);
            }
        }
        let r = format!("/{}\0", parts.join("/"));
        let to = if buffer.is_null() { malloc(r.len()) as *mut c_char } else { buffer };
        core::ptr::copy_nonoverlapping(r.as_ptr(), to as *mut u8, r.len());
        result = to;
        Ok(0)
    });
    result
}

/// Calls nothing simulated makes: they must not reach the real file system.
macro_rules! forbidden {
    ($($name:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name() -> c_int {
            kernel(|| harness_error(concat!("the simulated program called ", stringify!($name))))
        }
    )* };
}
forbidden!(symlinkat mkdirat fchmodat utimensat truncate64 mkdtemp mkstemp mkstemp64 chdir fchdir chroot chown lchown remove vfork);

#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if !simulated() {
        return raw3!(SYS_access, path, mode, 0) as c_int;
    }
    call(|_| {
        stat_path(&string(path)?)?;
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if !simulated() {
        return raw3!(SYS_fchmod, fd, mode, 0) as c_int;
    }
    call(|os| {
        let id = os.id(fd)?;
        if let Kind::File { inode, .. } = os.objects[id].as_ref().unwrap().kind {
            os.inodes[inode].mode = mode & 0o777;
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchown(_: c_int, _: uid_t, _: gid_t) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn geteuid() -> uid_t {
    0
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if !simulated() {
        return raw3!(SYS_unlink, path, 0, 0) as c_int;
    }
    call(|os| {
        stall(os.fs_latency);
        if fault("fs.eacces") {
            return Err(EACCES);
        }
        let os = &mut sim().os;
        let p = string(path)?;
        let (parent, name, found) = os.resolve(&p)?;
        let i = found.ok_or(ENOENT)?;
        if matches!(os.inodes[i].node, Node::Dir(_)) {
            return Err(EISDIR);
        }
        if let Node::Dir(d) = &mut os.inodes[parent].node {
            d.remove(&name);
        }
        os.inodes[i].links -= 1;
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    renameat2(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(da: c_int, a: *const c_char, db: c_int, b: *const c_char) -> c_int {
    renameat2(da, a, db, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(da: c_int, a: *const c_char, db: c_int, b: *const c_char, flags: c_uint) -> c_int {
    if !simulated() {
        return out_raw(raw::syscall6(SYS_renameat2, da as i64, a as i64, db as i64, b as i64, flags as i64, 0)) as c_int;
    }
    call(|os| {
        stall(os.fs_latency);
        if fault("fs.eacces") {
            return Err(EACCES);
        }
        if fault("fs.rename-exdev") {
            return Err(EXDEV);
        }
        let os = &mut sim().os;
        let (pa, na, fa) = os.resolve_at(da, &string(a)?)?;
        let (pb, nb, fb) = os.resolve_at(db, &string(b)?)?;
        let i = fa.ok_or(ENOENT)?;
        match flags {
            0 => {}
            RENAME_NOREPLACE if fb.is_some() => return Err(EEXIST),
            RENAME_NOREPLACE => {}
            _ => return Err(EINVAL),
        }
        if i == 0 || fb == Some(0) {
            return Err(EBUSY);
        }
        let from_dir = matches!(os.inodes[i].node, Node::Dir(_));
        if from_dir {
            // A directory cannot become its own descendant.
            let mut inside = vec![i];
            while let Some(d) = inside.pop() {
                if d == pb {
                    return Err(EINVAL);
                }
                if let Node::Dir(children) = &os.inodes[d].node {
                    inside.extend(children.values());
                }
            }
        }
        if let Some(j) = fb {
            if i == j {
                return Ok(0);
            }
            match &os.inodes[j].node {
                Node::Dir(d) => {
                    if !from_dir {
                        return Err(EISDIR);
                    }
                    if !d.is_empty() {
                        return Err(ENOTEMPTY);
                    }
                }
                Node::File(_) | Node::Link(_) => {
                    if from_dir {
                        return Err(ENOTDIR);
                    }
                    os.inodes[j].links -= 1;
                }
            }
        }
        if let Node::Dir(d) = &mut os.inodes[pa].node {
            d.remove(&na);
        }
        if let Node::Dir(d) = &mut os.inodes[pb].node {
            d.insert(nb, i);
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, flags: c_int) -> c_int {
    if !simulated() {
        return out_raw(raw::syscall6(SYS_linkat, da as i64, a as i64, db as i64, b as i64, flags as i64, 0)) as c_int;
    }
    call(|os| {
        stall(os.fs_latency);
        if fault("fs.eacces") {
            return Err(EACCES);
        }
        let os = &mut sim().os;
        let found = os.resolve_at(da, &string(a)?)?;
        let i = if flags & AT_SYMLINK_FOLLOW != 0 { os.follow(found)?.2 } else { found.2 }.ok_or(ENOENT)?;
        let (parent, name, there) = os.resolve_at(db, &string(b)?)?;
        if there.is_some() {
            return Err(EEXIST);
        }
        if matches!(os.inodes[i].node, Node::Dir(_)) {
            return Err(EPERM);
        }
        os.inodes[i].links += 1;
        if let Node::Dir(d) = &mut os.inodes[parent].node {
            d.insert(name, i);
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(target: *const c_char, path: *const c_char) -> c_int {
    if !simulated() {
        return raw3!(SYS_symlink, target, path, 0) as c_int;
    }
    call(|os| {
        stall(os.fs_latency);
        if fault("fs.eacces") {
            return Err(EACCES);
        }
        let os = &mut sim().os;
        let (parent, name, there) = os.resolve(&string(path)?)?;
        if there.is_some() {
            return Err(EEXIST);
        }
        let i = os.inodes.len();
        os.inodes.push(Inode { node: Node::Link(string(target)?), mode: 0o777, links: 1 });
        if let Node::Dir(d) = &mut os.inodes[parent].node {
            d.insert(name, i);
        }
        Ok(0)
    }) as c_int
}
/// Times of files are not simulated.
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, times: *const timespec) -> c_int {
    if !simulated() {
        return out_raw(raw::syscall6(SYS_utimensat, fd as i64, 0, times as i64, 0, 0, 0)) as c_int;
    }
    call(|os| os.id(fd).map(|_| 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if !simulated() {
        return raw3!(SYS_mkdir, path, mode, 0) as c_int;
    }
    call(|os| {
        stall(os.fs_latency);
        if fault("fs.eacces") {
            return Err(EACCES);
        }
        let os = &mut sim().os;
        let (parent, name, found) = os.resolve(&string(path)?)?;
        if found.is_some() {
            return Err(EEXIST);
        }
        let i = os.inodes.len();
        os.inodes.push(Inode { node: Node::Dir(BTreeMap::new()), mode: mode & 0o777, links: 2 });
        if let Node::Dir(d) = &mut os.inodes[parent].node {
            d.insert(name, i);
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if !simulated() {
        return raw3!(SYS_rmdir, path, 0, 0) as c_int;
    }
    call(|os| {
        stall(os.fs_latency);
        if fault("fs.eacces") {
            return Err(EACCES);
        }
        let os = &mut sim().os;
        let (parent, name, found) = os.resolve(&string(path)?)?;
        match &os.inodes[found.ok_or(ENOENT)?].node {
            Node::Dir(d) if d.is_empty() => {}
            Node::Dir(_) => return Err(ENOTEMPTY),
            _ => return Err(ENOTDIR),
        }
        if let Node::Dir(d) = &mut os.inodes[parent].node {
            d.remove(&name);
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    if !simulated() {
        let r = raw3!(SYS_getcwd, buf, n, 0);
        return if r < 0 { core::ptr::null_mut() } else { buf };
    }
    kernel(|| {
        let cwd = sim().os.cwd().as_bytes();
        if cwd.len() + 1 > n {
            set_errno(ERANGE);
            return core::ptr::null_mut();
        }
        core::ptr::copy_nonoverlapping(cwd.as_ptr(), buf as *mut u8, cwd.len());
        *buf.add(cwd.len()) = 0;
        buf
    })
}
#[no_mangle]
pub unsafe extern "C" fn readlink(_: *const c_char, _: *mut c_char, _: usize) -> isize {
    set_errno(EINVAL);
    -1
}

fn name_bytes(name: &str) -> Vec<u8> {
    let mut bytes = vec![];
    for c in name.chars() {
        match c {
            NO_TEXT => bytes.push(0xff),
            _ => bytes.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    bytes
}

// Directory streams are the descriptor plus one, as an opaque pointer.
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    if !simulated() {
        return passthrough!(b"opendir\0", unsafe extern "C" fn(*const c_char) -> *mut c_void)(path);
    }
    let fd = open64(path, O_RDONLY | O_DIRECTORY, 0);
    if fd < 0 {
        core::ptr::null_mut()
    } else {
        (fd as usize + 0x10000) as _
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if !simulated() {
        return passthrough!(b"fdopendir\0", unsafe extern "C" fn(c_int) -> *mut c_void)(fd);
    }
    (fd as usize + 0x10000) as _
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if !simulated() {
        return passthrough!(b"dirfd\0", unsafe extern "C" fn(*mut c_void) -> c_int)(d);
    }
    (d as usize - 0x10000) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if !simulated() {
        return passthrough!(b"closedir\0", unsafe extern "C" fn(*mut c_void) -> c_int)(d);
    }
    close(dirfd(d))
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut dirent64 {
    if !simulated() {
        return passthrough!(b"readdir64\0", unsafe extern "C" fn(*mut c_void) -> *mut dirent64)(d);
    }
    let fd = dirfd(d);
    let mut p: *mut dirent64 = core::ptr::null_mut();
    call(|os| {
        stall(os.fs_latency);
        let os = &mut sim().os;
        let id = os.id(fd)?;
        if fault("fs.readdir-eio") {
            return Err(EIO);
        }
        if let Kind::Dir { entries, at, buffer, .. } = &mut os.objects[id].as_mut().unwrap().kind {
            // "." and ".." come first, as on a real file system.
            let name = match *at {
                0 => ".".to_string(),
                1 => "..".to_string(),
                n if n - 2 < entries.len() => entries[n - 2].0.clone(),
                _ => return Ok(0),
            };
            let ino = if *at >= 2 { entries[*at - 2].1 } else { 0 };
            *at += 1;
            **buffer = core::mem::zeroed();
            buffer.d_ino = ino as u64 + 1;
            buffer.d_type = match os.inodes[ino].node {
                Node::Dir(_) => DT_DIR,
                Node::Link(_) => DT_LNK,
                _ => DT_REG,
            };
            buffer.d_reclen = core::mem::size_of::<dirent64>() as u16;
            for (i, b) in name_bytes(&name).into_iter().enumerate() {
                buffer.d_name[i] = b as c_char;
            }
            p = &mut **buffer;
        }
        Ok(0)
    });
    p
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, pa: *mut off64_t, b: c_int, pb: *mut off64_t, n: usize, flags: c_uint) -> isize {
    if !simulated() {
        return raw6!(SYS_copy_file_range, a, pa, b, pb, n, flags) as isize;
    }
    call(|_| {
        let id = sim().os.id(a)?;
        let begins = matches!(&sim().os.objects[id].as_ref().unwrap().kind, Kind::File { pos: 0, .. });
        if begins && fault("fs.copy-unsupported") {
            return Err(EOPNOTSUPP);
        }
        let mut n = n.min(1 << 20);
        if n > 1 && fault("fs.short-copy") {
            n = 1 + pick(FAULT, 15) as usize;
        }
        let mut buf = vec![0; n];
        // Copies between regular files are not interrupted.
        let r = loop {
            match do_read(a, &mut buf, None) {
                Err(EINTR) => (),
                r => break r?,
            }
        };
        let mut done = 0;
        while done < r as usize {
            match do_write(b, &buf[done..r as usize], None) {
                Ok(k) => done += k as usize,
                Err(EINTR) => (),
                Err(e) if done == 0 => {
                    // Nothing was copied: give the source offset back.
                    let id = sim().os.id(a)?;
                    if let Kind::File { pos, .. } = &mut sim().os.objects[id].as_mut().unwrap().kind {
                        *pos -= r as u64;
                    }
                    return Err(e);
                }
                Err(_) => {
                    let id = sim().os.id(a)?;
                    if let Kind::File { pos, .. } = &mut sim().os.objects[id].as_mut().unwrap().kind {
                        *pos -= (r as usize - done) as u64;
                    }
                    return Ok(done as i64);
                }
            }
        }
        Ok(r)
    }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_o: c_int, _i: c_int, _: *mut off64_t, _n: usize) -> isize {
    set_errno(EINVAL);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(_o: c_int, _i: c_int, _: *mut off64_t, _n: usize) -> isize {
    set_errno(EINVAL);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn splice(_: c_int, _: *mut off64_t, _: c_int, _: *mut off64_t, _: usize, _: c_uint) -> isize {
    set_errno(EINVAL);
    -1
}

unsafe fn fcntl_impl(fd: c_int, cmd: c_int, arg: usize) -> R {
    let os = &mut sim().os;
    let id = os.id(fd)?;
    match cmd {
        F_DUPFD | F_DUPFD_CLOEXEC => {
            let n = os.install_from(id, arg)?;
            os.objects[id].as_mut().unwrap().refs += 1;
            Ok(n as i64)
        }
        F_GETFD => Ok(FD_CLOEXEC as i64),
        F_SETFD => Ok(0),
        F_GETFL => {
            let o = os.objects[id].as_ref().unwrap();
            let base = match &o.kind {
                Kind::File { flags, .. } => *flags & (O_ACCMODE | O_APPEND),
                _ => O_RDWR,
            };
            Ok((base | if o.nonblock { O_NONBLOCK } else { 0 }) as i64)
        }
        F_SETFL => {
            os.objects[id].as_mut().unwrap().nonblock = arg as i32 & O_NONBLOCK != 0;
            Ok(0)
        }
        F_GETLK | F_SETLK => {
            // POSIX record locks belong to the process, so within one process they never conflict.
            if cmd == F_GETLK {
                (*(arg as *mut flock)).l_type = F_UNLCK as i16;
            }
            Ok(0)
        }
        _ => Err(EINVAL),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !simulated() {
        return raw3!(SYS_fcntl, fd, cmd, arg) as c_int;
    }
    call(|_| fcntl_impl(fd, cmd, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, request: c_ulong, arg: usize) -> c_int {
    if !simulated() {
        return raw3!(SYS_ioctl, fd, request, arg) as c_int;
    }
    call(|os| {
        let o = os.object(fd)?;
        match request as u64 {
            x if x == FIONBIO as u64 => {
                o.nonblock = *(arg as *const c_int) != 0;
                Ok(0)
            }
            x if x == FIOCLEX as u64 => Ok(0),
            _ => Err(ENOTTY),
        }
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    fcntl(fd, F_DUPFD, 0)
}

// --- sockets

unsafe fn parse_address(p: *const sockaddr, n: socklen_t) -> Result<SocketAddr, i32> {
    if p.is_null() || (n as usize) < 2 {
        return Err(EINVAL);
    }
    match (*p).sa_family as c_int {
        AF_INET => {
            let a = &*(p as *const sockaddr_in);
            Ok(SocketAddr::new(IpAddr::V4(Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr))), u16::from_be(a.sin_port)))
        }
        AF_INET6 => {
            let a = &*(p as *const sockaddr_in6);
            Ok(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(a.sin6_addr.s6_addr)), u16::from_be(a.sin6_port)))
        }
        _ => Err(EAFNOSUPPORT),
    }
}

unsafe fn store_address(a: SocketAddr, p: *mut sockaddr, n: *mut socklen_t) {
    if p.is_null() {
        return;
    }
    match a {
        SocketAddr::V4(v) => {
            let mut s: sockaddr_in = core::mem::zeroed();
            s.sin_family = AF_INET as u16;
            s.sin_port = v.port().to_be();
            s.sin_addr.s_addr = u32::from(*v.ip()).to_be();
            core::ptr::copy_nonoverlapping(&s as *const _ as *const u8, p as *mut u8, core::mem::size_of::<sockaddr_in>().min(*n as usize));
            *n = core::mem::size_of::<sockaddr_in>() as u32;
        }
        SocketAddr::V6(v) => {
            let mut s: sockaddr_in6 = core::mem::zeroed();
            s.sin6_family = AF_INET6 as u16;
            s.sin6_port = v.port().to_be();
            s.sin6_addr.s6_addr = v.ip().octets();
            core::ptr::copy_nonoverlapping(&s as *const _ as *const u8, p as *mut u8, core::mem::size_of::<sockaddr_in6>().min(*n as usize));
            *n = core::mem::size_of::<sockaddr_in6>() as u32;
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, protocol: c_int) -> c_int {
    if !simulated() {
        return raw3!(SYS_socket, domain, ty, protocol) as c_int;
    }
    call(|os| {
        if domain != AF_INET && domain != AF_INET6 {
            return Err(EAFNOSUPPORT);
        }
        if fault("net.emfile") {
            return Err(EMFILE);
        }
        let kind = match ty & 0xf {
            SOCK_STREAM => Kind::Tcp(Tcp::New { bound: None }),
            SOCK_DGRAM => Kind::Udp(Udp { bound: None, peer: None, queue: Default::default(), cap: 64, error: 0 }),
            _ => return Err(EPROTONOSUPPORT),
        };
        let fd = os.open(kind, ty & SOCK_NONBLOCK != 0)?;
        os.object(fd)?.v6 = domain == AF_INET6;
        Ok(fd as i64)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(domain: c_int, ty: c_int, protocol: c_int, fds: *mut c_int) -> c_int {
    if !simulated() {
        return raw6!(SYS_socketpair, domain, ty, protocol, fds, 0, 0) as c_int;
    }
    call(|os| {
        let a: SocketAddr = "0.0.0.0:0".parse().unwrap();
        let conn = os.new_conn(a, a, false, true);
        for side in 0..2 {
            let fd = os.open(Kind::Stream { conn, side }, ty & SOCK_NONBLOCK != 0)?;
            os.conns[conn].ends[side].object = Some(os.id(fd)?);
            *fds.add(side) = fd;
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    if !simulated() {
        return raw3!(SYS_pipe2, fds, flags, 0) as c_int;
    }
    call(|os| {
        let a: SocketAddr = "0.0.0.0:0".parse().unwrap();
        let conn = os.new_conn(a, a, false, true);
        for side in 0..2 {
            let fd = os.open(Kind::Stream { conn, side }, flags & O_NONBLOCK != 0)?;
            os.conns[conn].ends[side].object = Some(os.id(fd)?);
            *fds.add(side) = fd;
        }
        // Side 0 only reads.
        Ok(0)
    }) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, p: *const sockaddr, n: socklen_t) -> c_int {
    if !simulated() {
        return raw3!(SYS_bind, fd, p, n) as c_int;
    }
    call(|os| {
        let mut a = parse_address(p, n)?;
        let id = os.id(fd)?;
        let udp = matches!(os.objects[id].as_ref().unwrap().kind, Kind::Udp(_));
        if fault("net.bind-eacces") {
            return Err(EACCES);
        }
        if !(a.ip().is_loopback() || a.ip().is_unspecified()) && !os.hosts.values().flatten().any(|h| *h == a.ip()) {
            return Err(EADDRNOTAVAIL);
        }
        if a.port() == 0 {
            a = os.ephemeral(a.ip(), udp);
        } else if os.port_taken(a, udp) {
            return Err(EADDRINUSE);
        }
        match &mut os.objects[id].as_mut().unwrap().kind {
            Kind::Tcp(Tcp::New { bound }) if bound.is_none() => *bound = Some(a),
            Kind::Udp(u) if u.bound.is_none() => u.bound = Some(a),
            _ => return Err(EINVAL),
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, backlog: c_int) -> c_int {
    if !simulated() {
        return raw3!(SYS_listen, fd, backlog, 0) as c_int;
    }
    call(|os| {
        let id = os.id(fd)?;
        let bound = match &os.objects[id].as_ref().unwrap().kind {
            Kind::Tcp(Tcp::New { bound }) => *bound,
            _ => return Err(EINVAL),
        };
        let address = match bound {
            Some(b) => b,
            None => os.ephemeral(IpAddr::V4(Ipv4Addr::UNSPECIFIED), false),
        };
        os.objects[id].as_mut().unwrap().kind =
            Kind::Tcp(Tcp::Listening(Listener { address, queue: Default::default(), backlog: backlog.clamp(1, 4096) as usize }));
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, p: *mut sockaddr, n: *mut socklen_t, flags: c_int) -> c_int {
    if !simulated() {
        return raw6!(SYS_accept4, fd, p, n, flags, 0, 0) as c_int;
    }
    call(|os| {
        let id = os.id(fd)?;
        let nonblock = os.objects[id].as_ref().unwrap().nonblock;
        loop {
            let os = &mut sim().os;
            let conn = match &mut os.objects[id].as_mut().ok_or(EBADF)?.kind {
                Kind::Tcp(Tcp::Listening(l)) => {
                    if !l.queue.is_empty() {
                        if fault("net.accept-eintr") {
                            return Err(EINTR);
                        }
                        if fault("net.accept-emfile") {
                            return Err(EMFILE);
                        }
                        if fault("net.accept-aborted") {
                            return Err(ECONNABORTED);
                        }
                    }
                    l.queue.pop_front()
                }
                _ => return Err(EINVAL),
            };
            match conn {
                Some(conn) => {
                    let os = &mut sim().os;
                    let new = os.open(Kind::Stream { conn, side: 1 }, flags & SOCK_NONBLOCK != 0)?;
                    let object = os.id(new)?;
                    os.conns[conn].ends[1].object = Some(object);
                    store_address(os.conns[conn].ends[0].address, p, n);
                    return Ok(new as i64);
                }
                None if nonblock => return Err(EAGAIN),
                None => wait_fd(fd, POLLIN),
            }
        }
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, p: *mut sockaddr, n: *mut socklen_t) -> c_int {
    accept4(fd, p, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, p: *const sockaddr, n: socklen_t) -> c_int {
    if !simulated() {
        return raw3!(SYS_connect, fd, p, n) as c_int;
    }
    call(|os| {
        let mut target = parse_address(p, n)?;
        let id = os.id(fd)?;
        let nonblock = os.objects[id].as_ref().unwrap().nonblock;
        if target.ip().is_unspecified() {
            target.set_ip(if target.is_ipv4() { IpAddr::V4(Ipv4Addr::LOCALHOST) } else { IpAddr::V6(Ipv6Addr::LOCALHOST) });
        }
        let local_ip = target.ip();
        match &mut os.objects[id].as_mut().unwrap().kind {
            Kind::Udp(u) => {
                u.peer = Some(target);
                if u.bound.is_none() {
                    let a = sim().os.ephemeral(local_ip, true);
                    if let Kind::Udp(u) = &mut sim().os.objects[id].as_mut().unwrap().kind {
                        u.bound = Some(a);
                    }
                }
                return Ok(0);
            }
            Kind::Tcp(Tcp::New { bound }) => {
                let bound = *bound;
                let local = bound.unwrap_or_else(|| sim().os.ephemeral(local_ip, false));
                let os = &mut sim().os;
                os.objects[id].as_mut().unwrap().kind = Kind::Tcp(Tcp::Connecting { target });
                os.connect(id, local, target);
            }
            Kind::Tcp(Tcp::Connecting { .. }) => return Err(EALREADY),
            Kind::Stream { .. } => return Err(EISCONN),
            _ => return Err(EINVAL),
        }
        if nonblock {
            return Err(EINPROGRESS);
        }
        wait_fd(fd, POLLOUT);
        match &mut sim().os.objects[id].as_mut().ok_or(EBADF)?.kind {
            Kind::Tcp(Tcp::Failed { errno }) => Err(core::mem::replace(errno, 0)),
            _ => Ok(0),
        }
    }) as c_int
}
unsafe fn do_recv(fd: c_int, buf: &mut [u8], flags: c_int, p: *mut sockaddr, n: *mut socklen_t) -> R {
    let os = &mut sim().os;
    let id = os.id(fd)?;
    let nonblock = os.objects[id].as_ref().unwrap().nonblock || flags & MSG_DONTWAIT != 0;
    match &os.objects[id].as_ref().unwrap().kind {
        Kind::Udp(_) => loop {
            let os = &mut sim().os;
            let object = os.objects[id].as_mut().ok_or(EBADF)?;
            if let Kind::Udp(u) = &mut object.kind {
                if u.error != 0 {
                    return Err(core::mem::replace(&mut u.error, 0));
                }
                if u.queue.len() > 1 && fault("udp.reorder") {
                    let d = u.queue.pop_front().unwrap();
                    u.queue.push_back(d);
                }
                let next = if flags & MSG_PEEK != 0 { u.queue.front().cloned() } else { u.queue.pop_front() };
                if let Some((from, d)) = next {
                    let k = d.len().min(buf.len());
                    buf[..k].copy_from_slice(&d[..k]);
                    store_address(from, p, n);
                    return Ok(if flags & MSG_TRUNC != 0 { d.len() } else { k } as i64);
                }
            }
            if nonblock {
                return Err(EAGAIN);
            }
            wait_fd(fd, POLLIN);
        },
        Kind::Stream { conn, side } => {
            if flags & MSG_PEEK != 0 {
                let (c, s) = (*conn, *side);
                loop {
                    match sim().os.stream_receive(c, s, buf, true) {
                        Err(EAGAIN) if !nonblock => wait_fd(fd, POLLIN),
                        r => return r.map(|n| n as i64),
                    }
                }
            }
            if flags & MSG_DONTWAIT != 0 && !os.objects[id].as_ref().unwrap().nonblock {
                let (c, s) = (*conn, *side);
                return os.stream_receive(c, s, buf, false).map(|n| n as i64);
            }
            do_read(fd, buf, None)
        }
        _ => do_read(fd, buf, None),
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: usize, flags: c_int) -> isize {
    recvfrom(fd, buf, len, flags, core::ptr::null_mut(), core::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, len: usize, flags: c_int, p: *mut sockaddr, n: *mut socklen_t) -> isize {
    if !simulated() {
        return raw6!(SYS_recvfrom, fd, buf, len, flags, p, n) as isize;
    }
    if len > 0 {
        tsan::access(buf as usize, len, true, false);
    }
    call(|_| do_recv(fd, slice_mut(buf, len), flags, p, n)) as isize
}
unsafe fn do_send(fd: c_int, data: &[u8], flags: c_int, p: *const sockaddr, n: socklen_t) -> R {
    let os = &mut sim().os;
    let id = os.id(fd)?;
    if let Kind::Udp(u) = &mut os.objects[id].as_mut().unwrap().kind {
        if u.error != 0 {
            return Err(core::mem::replace(&mut u.error, 0));
        }
        let target = if p.is_null() { u.peer.ok_or(EDESTADDRREQ)? } else { parse_address(p, n)? };
        if fault("udp.send-eagain") {
            if u.bound.is_some() {
                let o = id;
                after(50_000, move || sim().os.notify(o));
                if os.objects[id].as_ref().unwrap().nonblock {
                    return Err(EAGAIN);
                }
            }
        }
        return sim().os.udp_send(id, data, target).map(|n| n as i64);
    }
    let _ = flags;
    do_write(fd, data, None)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: usize, flags: c_int) -> isize {
    sendto(fd, buf, len, flags, core::ptr::null(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, len: usize, flags: c_int, p: *const sockaddr, n: socklen_t) -> isize {
    if !simulated() {
        return raw6!(SYS_sendto, fd, buf, len, flags, p, n) as isize;
    }
    if len > 0 {
        tsan::access(buf as usize, len, false, false);
    }
    call(|_| do_send(fd, slice(buf, len), flags, p, n)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> isize {
    if !simulated() {
        return raw3!(SYS_sendmsg, fd, m, flags) as isize;
    }
    call(|_| {
        let d = gather((*m).msg_iov, (*m).msg_iovlen as c_int);
        do_send(fd, &d, flags, (*m).msg_name as _, (*m).msg_namelen)
    }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, flags: c_int) -> isize {
    if !simulated() {
        return raw3!(SYS_recvmsg, fd, m, flags) as isize;
    }
    call(|_| {
        let n = (*m).msg_iovlen;
        let size: usize = (0..n as usize).map(|i| (*(*m).msg_iov.add(i)).iov_len).sum();
        let mut b = vec![0; size];
        let r = do_recv(fd, &mut b, flags, (*m).msg_name as _, &mut (*m).msg_namelen)?;
        scatter((*m).msg_iov, n as c_int, &b[..(r as usize).min(size)]);
        (*m).msg_controllen = 0;
        (*m).msg_flags = 0;
        Ok(r)
    }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !simulated() {
        return raw3!(SYS_shutdown, fd, how, 0) as c_int;
    }
    call(|os| {
        let id = os.id(fd)?;
        if let Kind::Stream { conn, side } = os.objects[id].as_ref().unwrap().kind {
            if os.conns[conn].ends[side].reset {
                return Err(ENOTCONN);
            }
            if how != SHUT_WR {
                os.conns[conn].ends[side].read_shut = true;
                os.notify(id);
            }
            if how != SHUT_RD {
                os.shutdown_write(conn, side);
            }
            Ok(0)
        } else {
            Err(ENOTCONN)
        }
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, v: *mut c_void, n: *mut socklen_t) -> c_int {
    if !simulated() {
        return raw6!(SYS_getsockopt, fd, level, name, v, n, 0) as c_int;
    }
    call(|os| {
        let id = os.id(fd)?;
        let mut value = 0;
        if level == SOL_SOCKET && name == SO_ERROR {
            match &mut os.objects[id].as_mut().unwrap().kind {
                Kind::Tcp(Tcp::Failed { errno }) => value = core::mem::replace(errno, 0),
                Kind::Udp(u) => value = core::mem::replace(&mut u.error, 0),
                Kind::Stream { conn, side } => {
                    let e = &mut sim().os.conns[*conn].ends[*side];
                    if e.reset && !e.reset_reported {
                        e.reset_reported = true;
                        value = ECONNRESET;
                    }
                }
                _ => {}
            }
        }
        if *n >= 4 {
            *(v as *mut c_int) = value;
            *n = 4;
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, v: *const c_void, n: socklen_t) -> c_int {
    if !simulated() {
        return raw6!(SYS_setsockopt, fd, level, name, v, n, 0) as c_int;
    }
    call(|os| {
        let id = os.id(fd)?;
        if level == SOL_SOCKET && name == SO_LINGER && n as usize >= std::mem::size_of::<linger>() {
            let l = *(v as *const linger);
            os.objects[id].as_mut().unwrap().abort = l.l_onoff != 0 && l.l_linger == 0;
        }
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, p: *mut sockaddr, n: *mut socklen_t) -> c_int {
    if !simulated() {
        return raw3!(SYS_getsockname, fd, p, n) as c_int;
    }
    call(|os| {
        let id = os.id(fd)?;
        let any: SocketAddr = "0.0.0.0:0".parse().unwrap();
        let a = match &os.objects[id].as_ref().unwrap().kind {
            Kind::Stream { conn, side } => os.conns[*conn].ends[*side].address,
            Kind::Tcp(Tcp::New { bound }) => bound.unwrap_or(any),
            Kind::Tcp(Tcp::Listening(l)) => l.address,
            Kind::Udp(u) => u.bound.unwrap_or(any),
            Kind::Tcp(_) => any,
            _ => return Err(ENOTSOCK),
        };
        store_address(a, p, n);
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, p: *mut sockaddr, n: *mut socklen_t) -> c_int {
    if !simulated() {
        return raw3!(SYS_getpeername, fd, p, n) as c_int;
    }
    call(|os| {
        let id = os.id(fd)?;
        let a = match &os.objects[id].as_ref().unwrap().kind {
            Kind::Stream { conn, side } => {
                if os.conns[*conn].ends[*side].reset {
                    return Err(ENOTCONN);
                }
                os.conns[*conn].ends[1 - *side].address
            }
            Kind::Udp(u) => u.peer.ok_or(ENOTCONN)?,
            _ => return Err(ENOTCONN),
        };
        store_address(a, p, n);
        Ok(0)
    }) as c_int
}

#[repr(C)]
struct AddressBlock {
    info: addrinfo,
    v4: sockaddr_in,
    v6: sockaddr_in6,
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, service: *const c_char, hints: *const addrinfo, res: *mut *mut addrinfo) -> c_int {
    if !simulated() {
        return EAI_FAIL;
    }
    point();
    kernel(|| {
        stall(sim().os.net_latency);
        if fault("dns.again") {
            return EAI_AGAIN;
        }
        let Ok(name) = string(node) else { return EAI_NONAME };
        let port = if service.is_null() { 0 } else { string(service).ok().and_then(|s| s.parse::<u16>().ok()).unwrap_or(0) };
        let ips = match name.parse::<IpAddr>() {
            Ok(ip) => vec![ip],
            Err(_) => sim().os.hosts.get(&name).cloned().unwrap_or_default(),
        };
        if ips.is_empty() {
            return EAI_NONAME;
        }
        let mut next: *mut addrinfo = core::ptr::null_mut();
        for ip in ips.iter().rev() {
            let b = Box::leak(Box::new(core::mem::zeroed::<AddressBlock>()));
            b.info.ai_socktype = if hints.is_null() { SOCK_STREAM } else { (*hints).ai_socktype };
            b.info.ai_next = next;
            let mut n = 128;
            if ip.is_ipv4() {
                b.info.ai_family = AF_INET;
                b.info.ai_addr = &mut b.v4 as *mut _ as _;
            } else {
                b.info.ai_family = AF_INET6;
                b.info.ai_addr = &mut b.v6 as *mut _ as _;
            }
            store_address(SocketAddr::new(*ip, port), b.info.ai_addr, &mut n);
            b.info.ai_addrlen = n;
            next = &mut b.info;
        }
        *res = next;
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(_: *mut addrinfo) {}
#[no_mangle]
pub unsafe extern "C" fn gai_strerror(_: c_int) -> *const c_char {
    b"name resolution failed\0".as_ptr() as _
}
#[no_mangle]
pub unsafe extern "C" fn __res_init() -> c_int {
    0
}

// --- readiness

fn deadline_ms(ms: c_int) -> u64 {
    if ms < 0 {
        NEVER
    } else {
        sim().now + ms as u64 * 1_000_000
    }
}

#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    if !simulated() {
        return raw3!(SYS_poll, p, n, timeout) as c_int;
    }
    call(|_| {
        let end = deadline_ms(timeout);
        loop {
            let mut k = 0;
            for i in 0..n as usize {
                let f = &mut *p.add(i);
                f.revents = match sim().os.id(f.fd) {
                    Ok(id) => sim().os.readiness(id) & (f.events | POLLERR | POLLHUP),
                    Err(_) => POLLNVAL,
                };
                if f.revents != 0 {
                    k += 1;
                }
            }
            if k > 0 || sim().now >= end {
                return Ok(k);
            }
            if timeout != 0 && fault("poll.eintr") {
                return Err(EINTR);
            }
            let list = (0..n as usize).map(|i| ((*p.add(i)).fd, (*p.add(i)).events)).collect();
            block(Cond::Poll(list), end);
        }
    }) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn eventfd(init: c_uint, flags: c_int) -> c_int {
    if !simulated() {
        return raw3!(SYS_eventfd2, init, flags, 0) as c_int;
    }
    call(|os| os.open(Kind::Event { count: init as u64 }, flags & EFD_NONBLOCK != 0).map(|f| f as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if !simulated() {
        return raw3!(SYS_epoll_create1, flags, 0, 0) as c_int;
    }
    call(|os| os.open(Kind::Epoll { items: BTreeMap::new() }, false).map(|f| f as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create(_: c_int) -> c_int {
    epoll_create1(0)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    if !simulated() {
        return raw6!(SYS_epoll_ctl, ep, op, fd, ev, 0, 0) as c_int;
    }
    call(|os| {
        let object = os.id(fd)?;
        let regular = matches!(os.objects[object].as_ref().unwrap().kind, Kind::File { .. } | Kind::Dir { .. });
        let eid = os.id(ep)?;
        let Kind::Epoll { items } = &mut os.objects[eid].as_mut().unwrap().kind else { return Err(EINVAL) };
        match op {
            EPOLL_CTL_ADD => {
                if regular {
                    return Err(EPERM);
                }
                if items.contains_key(&fd) {
                    return Err(EEXIST);
                }
                let e = *ev;
                items.insert(fd, Item { events: e.events, data: e.u64, object, seen: 0, fresh: true, disabled: false });
            }
            EPOLL_CTL_MOD => {
                let e = *ev;
                let i = items.get_mut(&fd).ok_or(ENOENT)?;
                i.events = e.events;
                i.data = e.u64;
                i.fresh = true;
                i.disabled = false;
            }
            EPOLL_CTL_DEL => {
                items.remove(&fd).ok_or(ENOENT)?;
            }
            _ => return Err(EINVAL),
        }
        sim().dirty = true;
        Ok(0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
    if !simulated() {
        return raw6!(SYS_epoll_wait, ep, ev, max, timeout, 0, 0) as c_int;
    }
    call(|os| {
        let id = os.id(ep)?;
        let end = deadline_ms(timeout);
        tsan::acquire(0x700);
        if timeout != 0 && fault("epoll.eintr") {
            return Err(EINTR);
        }
        loop {
            let os = &mut sim().os;
            if os.epoll_has(id) {
                let rotate = pick(6, 4) as usize;
                let mut limit = max as usize;
                if limit > 1 && fault("epoll.one-at-a-time") {
                    limit = 1;
                }
                let list = os.epoll_take(id, limit, rotate);
                for (i, (bits, data)) in list.iter().enumerate() {
                    *ev.add(i) = epoll_event { events: *bits, u64: *data };
                }
                return Ok(list.len() as i64);
            }
            if sim().now >= end {
                return Ok(0);
            }
            if fault("epoll.early-timeout") {
                return Ok(0);
            }
            block(Cond::Epoll(ep), end);
        }
    }) as c_int
}

// --- time

fn now_of(clock: c_int) -> i64 {
    let s = sim();
    match clock {
        CLOCK_REALTIME | CLOCK_REALTIME_COARSE => s.now as i64 + s.os.realtime_offset,
        _ => s.now as i64 + 1_000_000_000_000,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: clockid_t, ts: *mut timespec) -> c_int {
    if !simulated() {
        return raw3!(SYS_clock_gettime, clock, ts, 0) as c_int;
    }
    let t = now_of(clock);
    (*ts).tv_sec = t.div_euclid(1_000_000_000);
    (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _: *mut c_void) -> c_int {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut time_t) -> time_t {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}

fn sleep_until(deadline: u64, rem: *mut timespec) -> i32 {
    if fault("sleep.eintr") && deadline > sim().now + 2 {
        let left = deadline - sim().now;
        let part = pick(FAULT, left);
        let until = sim().now + part;
        block(Cond::Sleep, until);
        let left = deadline.saturating_sub(sim().now);
        if !rem.is_null() {
            unsafe {
                (*rem).tv_sec = (left / 1_000_000_000) as i64;
                (*rem).tv_nsec = (left % 1_000_000_000) as i64;
            }
        }
        return EINTR;
    }
    if deadline > sim().now {
        block(Cond::Sleep, deadline);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const timespec, rem: *mut timespec) -> c_int {
    if !simulated() {
        return raw3!(SYS_nanosleep, ts, rem, 0) as c_int;
    }
    let d = ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64);
    call(|_| match sleep_until(sim().now.saturating_add(d), rem) {
        0 => Ok(0),
        e => Err(e),
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: clockid_t, flags: c_int, ts: *const timespec, rem: *mut timespec) -> c_int {
    if !simulated() {
        return -raw::syscall6(SYS_clock_nanosleep, clock as i64, flags as i64, ts as i64, rem as i64, 0, 0) as c_int;
    }
    let t = ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64);
    let mut e = 0;
    call(|_| {
        let deadline = if flags & TIMER_ABSTIME != 0 { (sim().now as i64 + (t as i64 - now_of(clock))).max(0) as u64 } else { sim().now.saturating_add(t) };
        e = sleep_until(deadline, if flags & TIMER_ABSTIME != 0 { core::ptr::null_mut() } else { rem });
        Ok(0)
    });
    e
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let ts = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    nanosleep(&ts, core::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn sleep(seconds: c_uint) -> c_uint {
    let ts = timespec { tv_sec: seconds as i64, tv_nsec: 0 };
    nanosleep(&ts, core::ptr::null_mut());
    0
}

// --- randomness

fn entropy(buf: &mut [u8]) {
    for b in buf.iter_mut() {
        let s = sim();
        // Not a choice to shrink: a fixed function of the run's seed.
        s.components += 1;
        *b = mix(0x5eed ^ s.components) as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: c_uint) -> isize {
    if !simulated() {
        return raw3!(SYS_getrandom, buf, n, flags) as isize;
    }
    kernel(|| {
        if fault("entropy.interrupted") {
            set_errno(EINTR);
            return -1;
        }
        let n = if n > 1 && fault("entropy.short") { n / 2 } else { n };
        entropy(slice_mut(buf, n));
        n as isize
    })
}

// --- threads

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, p: *mut c_void) -> c_int {
    if !simulated() {
        return real::pthread_create(t, attr, f, p);
    }
    point();
    kernel(|| {
        let i = new_thread(f, p);
        *t = sim().threads[i].pthread;
    });
    point();
    0
}

fn thread_of(t: pthread_t) -> Option<usize> {
    (0..sim().threads.len()).find(|&i| sim().threads[i].pthread == t)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    if !simulated() {
        return real::pthread_join(t, r);
    }
    point();
    kernel(|| {
        let Some(i) = thread_of(t) else { return ESRCH };
        join(i);
        if !r.is_null() {
            *r = sim().threads[i].result as _;
        }
        // The real thread is not joined: its pthread_t stays reserved, so handles are never reused.
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: pthread_t) -> c_int {
    if !simulated() {
        return real::pthread_detach(t);
    }
    kernel(|| {
        if let Some(i) = thread_of(t) {
            sim().threads[i].detached = true;
        }
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !simulated() {
        return raw3!(SYS_sched_yield, 0, 0, 0) as c_int;
    }
    point_kernel(true);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, n: usize, set: *mut cpu_set_t) -> c_int {
    if !simulated() {
        return raw3!(SYS_sched_getaffinity, pid, n, set).min(0) as c_int;
    }
    core::ptr::write_bytes(set as *mut u8, 0, n);
    for i in 0..sim().os.cpus {
        CPU_SET(i, &mut *set);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn prctl(a: c_int, b: usize, c: usize, d: usize, e: usize) -> c_int {
    if !simulated() {
        return raw6!(SYS_prctl, a, b, c, d, e, 0) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_setname_np(_: pthread_t, _: *const c_char) -> c_int {
    0
}

/// Mutexes of C code (SQLite). Treated as recursive, which is what it asks for where it matters.
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut pthread_mutex_t) -> c_int {
    if !simulated() {
        return 0;
    }
    point();
    kernel(|| {
        let t = me();
        loop {
            match sim().os.mutexes.get_mut(&(m as usize)) {
                None => {
                    sim().os.mutexes.insert(m as usize, PMutex { owner: t, count: 1 });
                    tsan::acquire(m as usize);
                    return 0;
                }
                Some(o) if o.owner == t => {
                    o.count += 1;
                    return 0;
                }
                Some(_) => {
                    block(Cond::Mutex(m as usize), NEVER);
                }
            }
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_trylock(m: *mut pthread_mutex_t) -> c_int {
    if !simulated() {
        return 0;
    }
    point();
    kernel(|| {
        let t = me();
        match sim().os.mutexes.get_mut(&(m as usize)) {
            None => {
                sim().os.mutexes.insert(m as usize, PMutex { owner: t, count: 1 });
                tsan::acquire(m as usize);
                0
            }
            Some(o) if o.owner == t => {
                o.count += 1;
                0
            }
            Some(_) => EBUSY,
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_unlock(m: *mut pthread_mutex_t) -> c_int {
    if !simulated() {
        return 0;
    }
    kernel(|| {
        if let Some(o) = sim().os.mutexes.get_mut(&(m as usize)) {
            o.count -= 1;
            if o.count == 0 {
                sim().os.mutexes.remove(&(m as usize));
                tsan::release(m as usize);
                sim().dirty = true;
            }
        }
    });
    point();
    0
}

// --- everything reached through syscall(2)

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if !simulated() {
        return out_raw(raw::syscall6(n, a, b, c, d, e, f));
    }
    match n {
        SYS_futex => {
            let op = b as c_int & 127 & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
            let address = a as usize;
            point();
            kernel(|| {
                let r = match op {
                    FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                        let ts = d as *const timespec;
                        let deadline = if ts.is_null() {
                            NEVER
                        } else {
                            let t = (*ts).tv_sec as i64 * 1_000_000_000 + (*ts).tv_nsec;
                            if op == FUTEX_WAIT {
                                sim().now + t as u64
                            } else {
                                let base = now_of(if b as c_int & FUTEX_CLOCK_REALTIME != 0 { CLOCK_REALTIME } else { CLOCK_MONOTONIC });
                                (sim().now as i64).saturating_add(t.saturating_sub(base)).max(0) as u64
                            }
                        };
                        futex_wait(address, c as u32, deadline)
                    }
                    FUTEX_WAKE | FUTEX_WAKE_BITSET => futex_wake(address, c as usize),
                    _ => -ENOSYS,
                };
                out(if r < 0 { Err(-r) } else { Ok(r as i64) })
            })
        }
        SYS_getrandom => getrandom(a as _, b as usize, c as c_uint) as c_long,
        SYS_statx => statx(a as c_int, b as _, c as c_int, d as c_uint, e as _) as c_long,
        SYS_copy_file_range => copy_file_range(a as c_int, b as _, c as c_int, d as _, e as usize, f as c_uint) as c_long,
        SYS_sched_getaffinity => {
            sched_getaffinity(a as _, b as usize, c as _);
            b
        }
        SYS_gettid => me() as c_long + 5000,
        SYS_sched_yield => sched_yield() as c_long,
        SYS_accept4 => accept4(a as c_int, b as _, c as _, d as c_int) as c_long,
        SYS_eventfd2 => eventfd(a as c_uint, b as c_int) as c_long,
        SYS_epoll_create1 => epoll_create1(a as c_int) as c_long,
        SYS_membarrier => 0,
        _ => {
            set_errno(ENOSYS);
            -1
        }
    }
}

// --- processes and signals

#[no_mangle]
pub unsafe extern "C" fn sigaction(sig: c_int, new: *const libc::sigaction, old: *mut libc::sigaction) -> c_int {
    if !simulated() {
        static mut F: usize = 0;
        if F == 0 {
            F = real::symbol(b"sigaction\0");
        }
        return core::mem::transmute::<usize, unsafe extern "C" fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int>(F)(sig, new, old);
    }
    kernel(|| {
        let os = &mut sim().os;
        let previous = os.handlers.get(&sig).copied().unwrap_or((SIG_DFL, 0));
        if !old.is_null() {
            *old = core::mem::zeroed();
            (*old).sa_sigaction = previous.0;
            (*old).sa_flags = previous.1;
        }
        if !new.is_null() {
            os.handlers.insert(sig, ((*new).sa_sigaction, (*new).sa_flags));
        }
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn signal(sig: c_int, handler: usize) -> usize {
    let mut new: libc::sigaction = core::mem::zeroed();
    let mut old: libc::sigaction = core::mem::zeroed();
    new.sa_sigaction = handler;
    sigaction(sig, &new, &mut old);
    old.sa_sigaction
}
#[no_mangle]
pub unsafe extern "C" fn pthread_sigmask(how: c_int, set: *const sigset_t, old: *mut sigset_t) -> c_int {
    if !simulated() {
        return -raw::syscall6(SYS_rt_sigprocmask, how as i64, set as i64, old as i64, 8, 0, 0) as c_int;
    }
    if !old.is_null() {
        core::ptr::write_bytes(old as *mut u8, 0, 8);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn kill(_pid: pid_t, _sig: c_int) -> c_int {
    if !simulated() {
        return raw3!(SYS_kill, _pid, _sig, 0) as c_int;
    }
    call(|os| {
        if os.children.iter().any(|c| c.pid == _pid && !c.reaped) {
            Ok(0)
        } else {
            Err(ESRCH)
        }
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if !simulated() {
        return raw::getpid();
    }
    sim().os.getpid
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> pid_t {
    1
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(p: *mut c_void) -> c_int {
    kernel(|| {
        sim().os.file_actions.insert(p as usize, vec![]);
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(p: *mut c_void) -> c_int {
    kernel(|| {
        sim().os.file_actions.remove(&(p as usize));
        sim().os.cwds.remove(&(p as usize));
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(p: *mut c_void, a: c_int, b: c_int) -> c_int {
    kernel(|| {
        sim().os.file_actions.get_mut(&(p as usize)).unwrap().push((a, b));
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(p: *mut c_void, path: *const c_char) -> c_int {
    kernel(|| {
        sim().os.cwds.insert(p as usize, string(path).unwrap_or_default());
        0
    })
}

/// Runs a program that is simulated code, to its end, in the thread that starts it.
unsafe fn run_nested(runner: RunnerFn, invocation: Invocation, pid: i32, actions: usize) {
    let (process, parent) = kernel(|| {
        let os = &mut sim().os;
        let parent = os.process();
        let mut out = os.processes[parent].out;
        if let Some(a) = os.file_actions.get(&actions).cloned() {
            for (from, to) in a {
                if (0..3).contains(&to) {
                    if let Ok(o) = os.id(from) {
                        os.objects[o].as_mut().unwrap().refs += 1;
                        out[to as usize] = Some(o);
                    }
                }
            }
        }
        let mut cwd = os.cwd().to_string();
        if let Some(c) = os.cwds.remove(&actions) {
            cwd = if c.starts_with('/') { c } else { format!("{cwd}/{c}") };
        }
        os.processes.push(Process { parent, cwd, killed: false, out });
        let process = os.processes.len() - 1;
        os.set_process(CURRENT, process);
        log(format!("run {} {}", invocation.program, invocation.args.join(" ")));
        (process, parent)
    });
    let status = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| runner(&invocation))).unwrap_or(101);
    kernel(|| {
        let os = &mut sim().os;
        let killed = os.processes[process].killed;
        let (inherited, out) = (os.processes[parent].out, os.processes[process].out);
        os.set_process(CURRENT, parent);
        for k in 0..3 {
            if out[k] != inherited[k] {
                drop_object(out[k].unwrap());
            }
        }
        sim().os.processes[process].out = [None; 3];
        let status = if killed { SIGKILL } else { (status & 255) << 8 };
        let c = sim().os.children.iter_mut().find(|c| c.pid == pid).unwrap();
        c.exited = Some(status);
        log(format!("exit {} {status:#x}", invocation.program));
        sim().dirty = true;
    });
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut pid_t, file: *const c_char, actions: *const c_void, _: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    if !simulated() {
        harness_error("posix_spawnp outside the simulation");
    }
    let mut error = 0;
    let mut nested = None;
    let r = call(|os| {
        stall(os.fs_latency);
        let os = &mut sim().os;
        let list = |mut p: *const *const c_char| {
            let mut v = vec![];
            while !p.is_null() && !(*p).is_null() {
                v.push(CStr::from_ptr(*p).to_bytes().to_vec());
                p = p.add(1);
            }
            v
        };
        let args = list(argv);
        let env = list(envp);
        let name = string(file).unwrap_or_default();
        if fault("proc.eagain") {
            error = EAGAIN;
            return Ok(0);
        }
        if let Some(find) = os.find_runner {
            let text = |v: &[u8]| String::from_utf8_lossy(v).to_string();
            os.spawns.push((args.clone(), true));
            let Some((runner, first)) = find(os, &name) else {
                error = ENOENT;
                return Ok(0);
            };
            let id = 6000 + os.children.len() as i32;
            os.children.push(Child { pid: id, exited: None, reaped: false, args: args.clone(), env: vec![] });
            *pid = id;
            let invocation = Invocation {
                program: name,
                args: first.into_iter().chain(args.iter().skip(1).map(|a| text(a))).collect(),
                env: env.iter().filter_map(|e| text(e).split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect(),
            };
            nested = Some((runner, invocation, id));
            return Ok(0);
        }
        let known = os.programs.get(&name).copied();
        os.spawns.push((args.clone(), known.is_some()));
        let Some(program) = known else {
            error = ENOENT;
            return Ok(0);
        };
        let id = 6000 + os.children.len() as i32;
        os.children.push(Child { pid: id, exited: None, reaped: false, args: args.clone(), env });
        *pid = id;
        let run = program(&args);
        // The child holds its own copies of the descriptors it was given.
        let mut held: [Option<usize>; 3] = [None, os.id(1).ok(), os.id(2).ok()];
        if let Some(a) = os.file_actions.get(&(actions as usize)) {
            for &(from, to) in a {
                if (0..3).contains(&to) {
                    if let Ok(o) = os.id(from) {
                        held[to as usize] = Some(o);
                    }
                }
            }
        }
        for h in held.iter().flatten() {
            os.objects[*h].as_mut().unwrap().refs += 1;
        }
        child_step(id, run, held, 0);
        Ok(0)
    });
    if r < 0 {
        return EIO;
    }
    if let Some((runner, invocation, id)) = nested {
        run_nested(runner, invocation, id, actions as usize);
    }
    error
}

/// One step of a simulated child: writes some output, or exits.
fn child_step(pid: i32, mut run: ProgramRun, held: [Option<usize>; 3], wait: u64) {
    let delay = wait + latency("proc", run.duration.max(2)) + 1000;
    after(delay, move || {
        let os = &mut sim().os;
        for (slot, data) in [(1, &mut run.stdout), (2, &mut run.stderr)] {
            if let Some(o) = held[slot] {
                if let Kind::Out(w) = os.objects[o].as_ref().unwrap().kind {
                    os.out[w as usize].data.append(data);
                } else if let Kind::Stream { conn, side } = os.objects[o].as_ref().unwrap().kind {
                    if !data.is_empty() {
                        let n = data.len().min(1 + pick(LATENCY, 4096) as usize);
                        match os.stream_send(conn, side, &data[..n]) {
                            Ok(n) => {
                                data.drain(..n);
                            }
                            Err(EAGAIN) => {}
                            Err(_) => data.clear(),
                        }
                    }
                } else {
                    data.clear();
                }
            } else {
                data.clear();
            }
        }
        if !run.stdout.is_empty() || !run.stderr.is_empty() {
            return child_step(pid, run, held, 1000);
        }
        // Descriptors close before or after the exit becomes visible.
        for h in held.iter().flatten() {
            drop_object(*h);
        }
        let status = run.status;
        let later = latency("proc.exit", run.duration.max(2));
        after(later, move || {
            let os = &mut sim().os;
            if let Some(c) = os.children.iter_mut().find(|c| c.pid == pid) {
                c.exited = Some(status);
            }
            os.pending_signals.push_back(SIGCHLD);
            sim().dirty = true;
        });
    });
}

fn drop_object(id: usize) {
    let os = &mut sim().os;
    let o = os.objects[id].as_mut().unwrap();
    if o.refs > 1 {
        o.refs -= 1;
    } else {
        // Last reference: close through a temporary descriptor.
        if let Ok(fd) = os.install(id) {
            let _ = os.release(fd);
        }
    }
    sim().dirty = true;
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawn(pid: *mut pid_t, file: *const c_char, actions: *const c_void, attr: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    posix_spawnp(pid, file, actions, attr, argv, envp)
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> pid_t {
    if !simulated() {
        return out_raw(raw::syscall6(SYS_fork, 0, 0, 0, 0, 0, 0)) as pid_t;
    }
    kernel(|| harness_error("the simulated program called fork"))
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: pid_t, status: *mut c_int, options: c_int) -> pid_t {
    if !simulated() {
        return raw6!(SYS_wait4, pid, status, options, 0, 0, 0) as pid_t;
    }
    call(|_| loop {
        let os = &mut sim().os;
        if !os.children.iter().any(|c| (pid == -1 || c.pid == pid) && !c.reaped) {
            return Err(ECHILD);
        }
        if let Some(c) = os.children.iter_mut().find(|c| (pid == -1 || c.pid == pid) && c.exited.is_some() && !c.reaped) {
            c.reaped = true;
            if !status.is_null() {
                *status = c.exited.unwrap();
            }
            return Ok(c.pid as i64);
        }
        if options & WNOHANG != 0 {
            return Ok(0);
        }
        if fault("proc.wait-eintr") {
            return Err(EINTR);
        }
        block(Cond::Child(pid), NEVER);
    }) as pid_t
}

#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if !simulated() {
        raw::exit_group(code);
    }
    // Other threads keep running until the process is really gone: one more scheduling point.
    point();
    DEPTH += 1;
    log(format!("exit({code})"));
    match sim().os.on_exit.take() {
        Some(f) => {
            f(code);
            finish_run()
        }
        None => violate("unexpected-exit", &format!("the program exited with status {code}")),
    }
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    exit(code)
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if simulated() || active() {
        let last = sim().panics.last().cloned().unwrap_or_default();
        DEPTH += 1;
        violate("abort", &format!("the program aborted {last}"))
    }
    raw::exit_group(134)
}

/// std asks for the guard page of each thread; simulated stacks have none to report.
#[no_mangle]
pub unsafe extern "C" fn pthread_getattr_np(t: pthread_t, attr: *mut pthread_attr_t) -> c_int {
    if !active() {
        static mut F: usize = 0;
        if F == 0 {
            F = real::symbol(b"pthread_getattr_np\0");
        }
        return core::mem::transmute::<usize, unsafe extern "C" fn(pthread_t, *mut pthread_attr_t) -> c_int>(F)(t, attr);
    }
    ENOSYS
}
