//! The `__tsan_*` runtime: rustc's `-Zsanitizer=thread` calls it at every memory access and atomic
//! operation of the instrumented crates. Every atomic operation is a scheduling point; plain
//! accesses are checked against the simulated heap and, where asked for, for data races.
use crate::{heap, sched::*};
use core::sync::atomic::*;
use std::collections::HashMap;

pub const N: usize = MAX_THREADS;

#[derive(Clone, Copy)]
pub struct Clock([u32; N]);

impl Clock {
    const ZERO: Self = Clock([0; N]);
    fn join(&mut self, o: &Clock) {
        for i in 0..N {
            self.0[i] = self.0[i].max(o.0[i]);
        }
    }
}

struct ThreadClock {
    now: Clock,
    release_fence: Clock,
    has_release_fence: bool,
    pending: Clock,
}

#[derive(Clone)]
struct Cell {
    writer: u8,
    write_clock: u32,
    write_atomic: bool,
    reads: Vec<(u8, u32, bool)>,
}

pub struct Tsan {
    threads: Vec<ThreadClock>,
    sync: HashMap<usize, Clock>,
    cells: HashMap<usize, Cell>,
    pub races: bool,
    pub track: bool,
    pub quiet: u32,
    pub atomics: u64,
    pub accesses: u64,
}

impl Tsan {
    pub fn new() -> Self {
        Tsan { threads: vec![], sync: HashMap::new(), cells: HashMap::new(), races: false, track: false, quiet: 0, atomics: 0, accesses: 0 }
    }

    pub fn fork(&mut self, parent: usize, child: usize) {
        let mut c = ThreadClock { now: Clock::ZERO, release_fence: Clock::ZERO, has_release_fence: false, pending: Clock::ZERO };
        if parent < self.threads.len() {
            c.now = self.threads[parent].now;
            self.threads[parent].now.0[parent] += 1;
        }
        c.now.0[child] = 1;
        assert_eq!(self.threads.len(), child);
        self.threads.push(c);
    }

    pub fn forget(&mut self, address: usize, size: usize) {
        if !self.track {
            return;
        }
        let mut a = address & !7;
        while a < address + size {
            self.cells.remove(&a);
            a += 8;
        }
        // Synchronisation history of dead memory is dropped as well.
        for o in 0..size {
            self.sync.remove(&(address + o));
        }
    }
}

/// Turns on happens-before tracking; `races` also reports unsynchronised conflicting accesses.
pub fn enable_races() {
    let t = &mut sim().tsan;
    t.track = true;
    t.races = true;
}

pub fn acquire(key: usize) {
    let t = &mut sim().tsan;
    if t.track {
        if let Some(c) = t.sync.get(&key) {
            t.threads[me()].now.join(c);
        }
    }
}

pub fn release(key: usize) {
    let t = &mut sim().tsan;
    if t.track {
        let i = me();
        let c = t.threads[i].now;
        t.sync.entry(key).or_insert(Clock::ZERO).join(&c);
        t.threads[i].now.0[i] += 1;
    }
}

const RELAXED: i32 = 0;
const CONSUME: i32 = 1;
const ACQUIRE: i32 = 2;
const RELEASE: i32 = 3;
const ACQ_REL: i32 = 4;
const SEQ_CST: i32 = 5;

fn is_acquire(mo: i32) -> bool {
    matches!(mo, CONSUME | ACQUIRE | ACQ_REL | SEQ_CST)
}

fn is_release(mo: i32) -> bool {
    matches!(mo, RELEASE | ACQ_REL | SEQ_CST)
}

fn on_load(address: usize, mo: i32) {
    let t = &mut sim().tsan;
    let i = me();
    if let Some(c) = t.sync.get(&address) {
        if is_acquire(mo) {
            t.threads[i].now.join(c);
        } else {
            t.threads[i].pending.join(c);
        }
    }
}

fn on_store(address: usize, mo: i32, rmw: bool) {
    let t = &mut sim().tsan;
    let i = me();
    let th = &mut t.threads[i];
    let own = if is_release(mo) {
        Some(th.now)
    } else if th.has_release_fence {
        Some(th.release_fence)
    } else {
        None
    };
    match own {
        Some(c) => {
            if rmw {
                t.sync.entry(address).or_insert(Clock::ZERO).join(&c);
            } else {
                t.sync.insert(address, c);
            }
        }
        None => {
            if !rmw {
                t.sync.remove(&address);
            }
        }
    }
    if is_release(mo) {
        th.now.0[i] += 1;
    }
}

fn on_fence(mo: i32) {
    let t = &mut sim().tsan;
    if !t.track {
        return;
    }
    let i = me();
    let th = &mut t.threads[i];
    if is_acquire(mo) {
        let p = th.pending;
        th.now.join(&p);
    }
    if is_release(mo) {
        th.release_fence = th.now;
        th.has_release_fence = true;
        th.now.0[i] += 1;
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Op {
    Load,
    Store,
    Rmw,
}

#[inline(always)]
fn before_atomic(address: usize, size: usize, op: Op) {
    if !active() || in_kernel() {
        return;
    }
    sim().tsan.atomics += 1;
    if sim().tsan.quiet == 0 {
        point_kernel(false);
    }
    access(address, size, op != Op::Load, true);
}

#[inline(always)]
fn after_atomic(address: usize, mo: i32, op: Op) {
    if !active() || in_kernel() || !sim().tsan.track {
        return;
    }
    kernel(|| match op {
        Op::Load => on_load(address, mo),
        Op::Store => on_store(address, mo, false),
        Op::Rmw => {
            on_load(address, mo);
            on_store(address, mo, true);
        }
    })
}

#[inline(always)]
pub fn access(address: usize, size: usize, write: bool, atomic: bool) {
    if !active() || in_kernel() {
        return;
    }
    if address >= heap::BASE && address < heap::BASE + heap::SIZE {
        if !heap::addressable(address, size) {
            kernel(|| heap::report(address, size, if write { "write" } else { "read" }));
        }
        if sim().tsan.races && sim().tsan.quiet == 0 {
            kernel(|| race(address, size, write, atomic));
        }
    } else if address < 4096 {
        violate("null-access", &format!("{} of {size} bytes at {address:#x}", if write { "write" } else { "read" }));
    }
}

fn race(address: usize, size: usize, write: bool, atomic: bool) {
    let t = &mut sim().tsan;
    t.accesses += 1;
    let i = me();
    let now = t.threads[i].now;
    let end = address + size;
    let mut a = address & !7;
    while a < end {
        // One cell per aligned word, with sub-word offset folded into the key for small accesses.
        let key = if size < 8 { address } else { a };
        let cell = t.cells.entry(key).or_insert(Cell { writer: 255, write_clock: 0, write_atomic: false, reads: vec![] });
        if cell.writer != 255
            && cell.writer as usize != i
            && now.0[cell.writer as usize] < cell.write_clock
            && !(atomic && cell.write_atomic)
        {
            let w = cell.writer;
            violate(
                "data-race",
                &format!(
                    "t{i} {} {} without happening after a write by t{w}",
                    if write { "writes" } else { "reads" },
                    heap::describe(a)
                ),
            );
        }
        if write {
            for &(r, c, ra) in &cell.reads {
                if r as usize != i && now.0[r as usize] < c && !(atomic && ra) {
                    violate("data-race", &format!("t{i} writes {} without happening after a read by t{r}", heap::describe(a)));
                }
            }
            cell.reads.clear();
            cell.writer = i as u8;
            cell.write_clock = now.0[i];
            cell.write_atomic = atomic;
        } else {
            match cell.reads.iter_mut().find(|r| r.0 as usize == i) {
                Some(r) => *r = (i as u8, now.0[i], atomic),
                None => cell.reads.push((i as u8, now.0[i], atomic)),
            }
        }
        a += 8;
    }
}

/// An access to a whole range on behalf of code that is not instrumented (e.g. a deallocation).
pub fn touch(address: usize, size: usize, write: bool) {
    access(address, size, write, false)
}

macro_rules! plain {
    ($($name:ident $size:expr, $write:expr;)*) => { $(
        #[no_mangle]
        pub extern "C" fn $name(a: usize) { access(a, $size, $write, false) }
    )* };
}

plain! {
    __tsan_read1 1, false; __tsan_read2 2, false; __tsan_read4 4, false; __tsan_read8 8, false; __tsan_read16 16, false;
    __tsan_write1 1, true; __tsan_write2 2, true; __tsan_write4 4, true; __tsan_write8 8, true; __tsan_write16 16, true;
    __tsan_unaligned_read2 2, false; __tsan_unaligned_read4 4, false; __tsan_unaligned_read8 8, false; __tsan_unaligned_read16 16, false;
    __tsan_unaligned_write2 2, true; __tsan_unaligned_write4 4, true; __tsan_unaligned_write8 8, true; __tsan_unaligned_write16 16, true;
    __tsan_read_write1 1, true; __tsan_read_write2 2, true; __tsan_read_write4 4, true; __tsan_read_write8 8, true; __tsan_read_write16 16, true;
    __tsan_unaligned_read_write2 2, true; __tsan_unaligned_read_write4 4, true; __tsan_unaligned_read_write8 8, true; __tsan_unaligned_read_write16 16, true;
    __tsan_volatile_read1 1, false; __tsan_volatile_read2 2, false; __tsan_volatile_read4 4, false; __tsan_volatile_read8 8, false; __tsan_volatile_read16 16, false;
    __tsan_volatile_write1 1, true; __tsan_volatile_write2 2, true; __tsan_volatile_write4 4, true; __tsan_volatile_write8 8, true; __tsan_volatile_write16 16, true;
    __tsan_vptr_read 8, false;
}

#[no_mangle]
pub extern "C" fn __tsan_vptr_update(a: usize, _v: usize) {
    access(a, 8, true, false)
}
#[no_mangle]
pub extern "C" fn __tsan_read_range(a: usize, n: usize) {
    if n > 0 {
        access(a, n, false, false)
    }
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(a: usize, n: usize) {
    if n > 0 {
        access(a, n, true, false)
    }
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}

extern "C" {
    fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n > 0 {
        access(s as usize, n, false, false);
        access(d as usize, n, true, false);
    }
    memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n > 0 {
        access(s as usize, n, false, false);
        access(d as usize, n, true, false);
    }
    memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    if n > 0 {
        access(d as usize, n, true, false);
    }
    memset(d, c, n)
}

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    fence(Ordering::SeqCst);
    if active() && !in_kernel() {
        kernel(|| on_fence(mo));
    }
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}

macro_rules! atomics {
    ($t:ty, $a:ty, $size:expr, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $a, mo: i32) -> $t {
            before_atomic(a as usize, $size, Op::Load);
            let v = (*a).load(Ordering::SeqCst);
            after_atomic(a as usize, mo, Op::Load);
            v
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *const $a, v: $t, mo: i32) {
            before_atomic(a as usize, $size, Op::Store);
            (*a).store(v, Ordering::SeqCst);
            after_atomic(a as usize, mo, Op::Store);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(a: *const $a, v: $t, mo: i32) -> $t {
            before_atomic(a as usize, $size, Op::Rmw);
            let r = (*a).swap(v, Ordering::SeqCst);
            after_atomic(a as usize, mo, Op::Rmw);
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(a: *const $a, v: $t, mo: i32) -> $t {
            before_atomic(a as usize, $size, Op::Rmw);
            let r = (*a).fetch_add(v, Ordering::SeqCst);
            after_atomic(a as usize, mo, Op::Rmw);
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(a: *const $a, v: $t, mo: i32) -> $t {
            before_atomic(a as usize, $size, Op::Rmw);
            let r = (*a).fetch_sub(v, Ordering::SeqCst);
            after_atomic(a as usize, mo, Op::Rmw);
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(a: *const $a, v: $t, mo: i32) -> $t {
            before_atomic(a as usize, $size, Op::Rmw);
            let r = (*a).fetch_and(v, Ordering::SeqCst);
            after_atomic(a as usize, mo, Op::Rmw);
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(a: *const $a, v: $t, mo: i32) -> $t {
            before_atomic(a as usize, $size, Op::Rmw);
            let r = (*a).fetch_or(v, Ordering::SeqCst);
            after_atomic(a as usize, mo, Op::Rmw);
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(a: *const $a, v: $t, mo: i32) -> $t {
            before_atomic(a as usize, $size, Op::Rmw);
            let r = (*a).fetch_xor(v, Ordering::SeqCst);
            after_atomic(a as usize, mo, Op::Rmw);
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(a: *const $a, v: $t, mo: i32) -> $t {
            before_atomic(a as usize, $size, Op::Rmw);
            let r = (*a).fetch_nand(v, Ordering::SeqCst);
            after_atomic(a as usize, mo, Op::Rmw);
            r
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(a: *const $a, c: $t, v: $t, mo: i32, fmo: i32) -> $t {
            before_atomic(a as usize, $size, Op::Rmw);
            match (*a).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(r) => {
                    after_atomic(a as usize, mo, Op::Rmw);
                    r
                }
                Err(r) => {
                    after_atomic(a as usize, fmo, Op::Load);
                    r
                }
            }
        }
    };
}

atomics!(u8, AtomicU8, 1, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, 2, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, 4, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, 8, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);
