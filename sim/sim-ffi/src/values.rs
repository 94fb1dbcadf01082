//! Reference-counted values between threads.
use ffi::{Any, Arc, ByteString, Closure};
use pensim::{api::*, sched::kernel, tsan};
use sim_kit::*;

pub struct Cell {
    tracked: Tracked,
    data: [u64; 4],
    child: Option<Value>,
}

#[ffi::any]
#[derive(Clone)]
pub struct AnyCell(Arc<Cell>);
#[ffi::any]
#[derive(Clone)]
pub struct AnyStd(std::sync::Arc<Tracked>);
#[ffi::any]
#[derive(Clone)]
pub struct AnyBox(Box<(Tracked, u64)>);

pub enum Value {
    Cell(u64, Arc<Cell>),
    Bytes(u64, usize, ByteString),
    Closure(u64, Closure),
    Any(u64, Any),
    /// A function that compiled code placed in static memory.
    Function(u64, Closure),
}

/// The reference count of static values, which compiled code lays out.
const STATIC: u64 = 1 << 63;

static STATICS: Plain<Vec<usize>> = Plain::new(vec![]);

/// A value as compiled code lays it out in static memory. Its block is not one of the heap, so that
/// deallocation of it aborts.
fn literal<T>(words: &[u64]) -> T {
    assert_eq!(size_of::<T>(), size_of::<usize>());
    let p = kernel(|| {
        let mut block = vec![0, 0, STATIC];
        block.extend(words);
        let block: &'static mut [u64] = Box::leak(block.into_boxed_slice());
        STATICS.with(|s| s.push(&block[2] as *const u64 as usize));
        &block[3] as *const u64
    });
    unsafe { core::mem::transmute_copy(&p) }
}

fn literal_bytes(bytes: &[u8]) -> ByteString {
    let mut words = vec![bytes.len() as u64];
    words.extend(bytes.chunks(8).map(|c| {
        let mut w = [0; 8];
        w[..c.len()].copy_from_slice(c);
        u64::from_le_bytes(w)
    }));
    literal(&words)
}

fn literals_untouched() {
    for &a in &STATICS.with(|s| s.clone()) {
        let count = unsafe { *(a as *const u64) };
        ensure!(count == STATIC, "static-counted", "the reference count of a static value became {count:#x}");
    }
}

struct Environment {
    tracked: Tracked,
    child: Option<Value>,
}

static NEXT: Plain<u64> = Plain::new(0);

fn fresh() -> u64 {
    NEXT.with(|n| {
        *n += 1;
        *n
    })
}

fn make(depth: u64) -> Value {
    let id = fresh();
    let child = (depth > 0 && work(2) == 1).then(|| make(depth - 1));
    match work(6) {
        4 => {
            drop(child);
            let n = [1, 7, 8, 33][work(4) as usize];
            Value::Bytes(id, n, literal_bytes(&wire::bytes(id, 0, n)))
        }
        5 => {
            drop(child);
            Value::Function(id, literal(&[id, 0, id]))
        }
        0 => Value::Cell(id, Arc::new(Cell { tracked: Tracked::new(), data: [id; 4], child })),
        1 => {
            let n = if work(150) == 149 { 65_536 + id as usize % 9 } else { [0, 1, 7, 8, 33, 300][work(6) as usize] };
            drop(child);
            Value::Bytes(id, n, wire::bytes(id, 0, n).into())
        }
        2 => Value::Closure(id, Closure::new(id as *const u8, Environment { tracked: Tracked::new(), child }).into_opaque()),
        _ => Value::Any(
            id,
            match work(3) {
                0 => AnyCell(Arc::new(Cell { tracked: Tracked::new(), data: [id; 4], child })).into(),
                1 => AnyStd(std::sync::Arc::new(Tracked::new())).into(),
                _ => AnyBox(Box::new((Tracked::new(), id))).into(),
            },
        ),
    }
}

fn copy(v: &Value) -> Value {
    match v {
        Value::Cell(i, x) => Value::Cell(*i, x.clone()),
        Value::Bytes(i, n, x) => Value::Bytes(*i, *n, x.clone()),
        Value::Closure(i, x) => Value::Closure(*i, x.clone()),
        Value::Any(i, x) => Value::Any(*i, x.clone()),
        Value::Function(i, x) => Value::Function(*i, x.clone()),
    }
}

fn check_cell(id: u64, c: &Cell) {
    c.tracked.touch();
    ensure!(c.data == [id; 4], "corrupt-value", "value {id} reads {:?}", c.data);
    if let Some(v) = &c.child {
        check(v);
    }
}

fn check(v: &Value) {
    match v {
        Value::Cell(id, x) => check_cell(*id, x),
        Value::Bytes(id, n, x) => {
            ensure!(x.as_slice() == wire::bytes(*id, 0, *n), "corrupt-value", "the string {id} reads {:?}", x.as_slice());
            if *n < 34 {
                compare(x);
            }
        }
        Value::Closure(id, x) => {
            ensure!(x.entry_function() as u64 == *id, "corrupt-value", "the closure {id} has the entry {:?}", x.entry_function());
            let e = unsafe { &*(x.payload() as *const Environment) };
            e.tracked.touch();
            if let Some(v) = &e.child {
                check(v);
            }
        }
        Value::Function(id, x) => {
            let read = unsafe { *(x.payload() as *const u64) };
            ensure!(
                x.entry_function() as u64 == *id && read == *id,
                "corrupt-value",
                "the function {id} has the entry {:?} and reads {read}",
                x.entry_function()
            );
        }
        Value::Any(id, x) => {
            if let Ok(c) = <&AnyCell>::try_from(x) {
                check_cell(*id, &c.0);
            } else if let Ok(c) = <&AnyStd>::try_from(x) {
                c.0.touch();
            } else if let Ok(c) = <&AnyBox>::try_from(x) {
                c.0 .0.touch();
                ensure!(c.0 .1 == *id, "corrupt-value", "the boxed value {id} reads {}", c.0 .1);
            } else {
                fail("corrupt-value", format!("the any value {id} has lost its type"));
            }
        }
    }
}

fn hashed(x: &ByteString) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Strings are equal if and only if their bytes are, however they are made.
fn compare(x: &ByteString) {
    let bytes = x.as_slice().to_vec();
    let same = ByteString::from(bytes.clone());
    ensure!(*x == same && same == x.clone() && hashed(x) == hashed(&same), "wrong-equality", "equal strings {bytes:?} differ");
    let mut longer = bytes.clone();
    longer.push(7);
    let mut others = vec![longer];
    if let Some((_, shorter)) = bytes.split_last() {
        others.push(shorter.to_vec());
        let mut changed = bytes.clone();
        changed[0] ^= 1;
        others.push(changed);
    }
    for o in others {
        ensure!(*x != ByteString::from(o.as_slice()), "wrong-equality", "the strings {bytes:?} and {o:?} are equal");
    }
    ensure!(
        (*x == ByteString::default()) == bytes.is_empty() && ByteString::default().as_slice().is_empty(),
        "wrong-equality",
        "the string {bytes:?} compares with the empty one as if it were not so long"
    );
    for c in ['a', 'é', '語'] {
        let s = String::from(c);
        ensure!(
            ByteString::from(c).as_slice() == s.as_bytes() && ByteString::from(s.as_str()) == ByteString::from(s.clone()),
            "wrong-equality",
            "the strings of {c} differ"
        );
    }
}

/// What compiled code does before another thread gets a handle.
fn publish(v: &Value) {
    match v {
        Value::Cell(_, x) => {
            x.clone().synchronize();
            if let Some(c) = &x.child {
                publish(c);
            }
        }
        Value::Bytes(_, _, x) => synchronize(x),
        // Compiled code does not even ask whether it is static.
        Value::Function(_, x) => synchronize(x),
        Value::Closure(_, x) => {
            synchronize(x);
            let e = unsafe { &*(x.payload() as *const Environment) };
            if let Some(c) = &e.child {
                publish(c);
            }
        }
        Value::Any(_, x) => {
            (x.type_information().synchronize_fn())(*x.payload());
            if let Ok(c) = <&AnyCell>::try_from(x) {
                c.0.clone().synchronize();
                if let Some(c) = &c.0.child {
                    publish(c);
                }
            }
        }
    }
}

static BOXES: Plain<Vec<Vec<Value>>> = Plain::new(vec![]);

fn post(to: usize, v: Value) {
    let mut v = Some(v);
    kernel(|| {
        tsan::release(0x6100_0000_0000 + to * 16);
        BOXES.with(|b| b[to].push(v.take().unwrap()))
    });
    pause();
}

fn fetch(me: usize) -> Option<Value> {
    kernel(|| {
        let v = BOXES.with(|b| b[me].pop());
        if v.is_some() {
            tsan::acquire(0x6100_0000_0000 + me * 16);
        }
        v
    })
}

fn trader(me: usize, threads: usize, steps: u64) {
    let mut mine: Vec<Value> = vec![];
    for _ in 0..steps {
        if let Some(v) = fetch(me) {
            mine.push(v);
        }
        let any = !mine.is_empty();
        let i = if any { work(mine.len() as u64) as usize } else { 0 };
        match work(7) {
            0 => mine.push(make(2)),
            1 if any => {
                let c = copy(&mine[i]);
                mine.push(c);
            }
            2 if any => drop(mine.swap_remove(i)),
            3 | 4 if any => check(&mine[i]),
            5 if any => {
                let to = work(threads as u64) as usize;
                publish(&mine[i]);
                post(to, copy(&mine[i]));
            }
            6 if any => {
                let to = work(threads as u64) as usize;
                publish(&mine[i]);
                post(to, mine.swap_remove(i));
            }
            _ => {
                // Everyone works on the same value.
                let v = make(1);
                publish(&v);
                for t in 0..threads {
                    post(t, copy(&v));
                }
            }
        }
    }
    for v in &mine {
        check(v);
    }
}

pub fn shared_values() {
    let threads = 2 + work(3) as usize;
    if config(2) == 0 {
        detect_races();
    }
    BOXES.with(|b| *b = (0..threads).map(|_| vec![]).collect());
    mark_allocations();
    let steps = 3 + work(12);
    let handles: Vec<_> = (0..threads).map(|t| std::thread::spawn(move || trader(t, threads, steps))).collect();
    for h in handles {
        h.join().unwrap();
    }
    for t in 0..threads {
        while let Some(v) = fetch(t) {
            check(&v);
        }
    }
    literals_untouched();
    all_dropped("after every handle is gone");
    no_leaks("after every handle is gone");
}

// ---------------------------------------------------------------- exclusive access

struct Handles {
    live: i64,
    dropping: i64,
}

static HANDLES: Plain<Vec<Handles>> = Plain::new(vec![]);
static SHELVES: Plain<Vec<Vec<(usize, Arc<Cell2>)>>> = Plain::new(vec![]);

struct Cell2 {
    tracked: Tracked,
    data: [u64; 3],
}

fn discard(i: usize, x: Arc<Cell2>) {
    HANDLES.with(|h| {
        h[i].live -= 1;
        h[i].dropping += 1;
    });
    drop(x);
    HANDLES.with(|h| h[i].dropping -= 1);
}

fn editor(me: usize, threads: usize, steps: u64) {
    let mut mine: Vec<(usize, Arc<Cell2>)> = vec![];
    let key = |t: usize| 0x6200_0000_0000 + t * 16;
    let post = |to: usize, v: (usize, Arc<Cell2>)| {
        let mut v = Some(v);
        kernel(|| {
            tsan::release(key(to));
            SHELVES.with(|b| b[to].push(v.take().unwrap()))
        });
        pause();
    };
    for _ in 0..steps {
        let got = kernel(|| {
            let v = SHELVES.with(|b| b[me].pop());
            if v.is_some() {
                tsan::acquire(key(me));
            }
            v
        });
        if let Some(v) = got {
            mine.push(v);
        }
        let any = !mine.is_empty();
        let i = if any { work(mine.len() as u64) as usize } else { 0 };
        match work(9) {
            5 => {
                // A value in static memory belongs to everyone, whoever has a handle of it.
                let n = fresh();
                let mut x: Arc<[u64; 2]> = literal(&[n, n]);
                let other = (work(2) == 1).then(|| x.clone());
                if work(2) == 1 {
                    x.clone().synchronize();
                }
                ensure!(Arc::get_mut(&mut x).is_none(), "shared-mutation", "exclusive access to a static value is granted");
                drop(other);
                ensure!(Arc::get_mut(&mut x).is_none() && *x == [n, n], "shared-mutation", "exclusive access to a static value is granted in the end");
                probe("static value");
            }
            0 => {
                let o = HANDLES.with(|h| {
                    h.push(Handles { live: 1, dropping: 0 });
                    h.len() - 1
                });
                let x = Arc::new(Cell2 { tracked: Tracked::new(), data: [o as u64; 3] });
                if work(2) == 0 {
                    HANDLES.with(|h| h[o].live += 1);
                    let c = x.clone();
                    mine.push((o, c));
                }
                mine.push((o, x));
            }
            1 if any => {
                let (o, x) = &mine[i];
                HANDLES.with(|h| h[*o].live += 1);
                let c = (*o, x.clone());
                mine.push(c);
            }
            2 if any => {
                let (o, x) = mine.swap_remove(i);
                discard(o, x);
            }
            3 if any => {
                let (o, x) = &mine[i];
                x.tracked.touch();
                let d = x.data;
                ensure!(d[0] == d[1] && d[1] == d[2], "torn-value", "value {o} reads {d:?}");
            }
            4 if any => {
                let to = work(threads as u64) as usize;
                let (o, x) = &mine[i];
                HANDLES.with(|h| h[*o].live += 1);
                let c = x.clone();
                x.clone().synchronize();
                post(to, (*o, c));
            }
            _ if any => {
                let (o, x) = &mut mine[i];
                let o = *o;
                let alone_before = HANDLES.with(|h| h[o].live == 1 && h[o].dropping == 0);
                match Arc::get_mut(x) {
                    Some(cell) => {
                        let mut empty = Arc::new(());
                        let _ = Arc::get_mut(&mut empty);
                        let other = empty.clone();
                        other.synchronize();
                        let live = HANDLES.with(|h| h[o].live);
                        ensure!(live == 1, "shared-mutation", "exclusive access to value {o} is granted while {live} handles exist");
                        probe("exclusive access");
                        let n = fresh();
                        for k in 0..3 {
                            cell.data[k] = n;
                        }
                        cell.tracked.touch();
                    }
                    None => {
                        ensure!(!alone_before, "exclusivity-denied", "the only handle of value {o} is denied exclusive access");
                        probe("exclusive access denied");
                    }
                }
            }
            _ => {}
        }
    }
    for (o, x) in mine {
        discard(o, x);
    }
}

pub fn exclusive_access() {
    let threads = 2 + work(2) as usize;
    detect_races();
    SHELVES.with(|b| *b = (0..threads).map(|_| vec![]).collect());
    let steps = 4 + work(14);
    let handles: Vec<_> = (0..threads).map(|t| std::thread::spawn(move || editor(t, threads, steps))).collect();
    for h in handles {
        h.join().unwrap();
    }
    literals_untouched();
}

// ---------------------------------------------------------------- any

#[ffi::any]
#[derive(Clone, Copy)]
struct P8(u8);
#[ffi::any]
#[derive(Clone, Copy)]
struct P16(u16, u8);
#[ffi::any]
#[derive(Clone, Copy)]
struct P64(u64);
#[ffi::any]
#[derive(Clone, Copy)]
struct P64b(u64);
#[ffi::any]
#[derive(Clone, Copy)]
struct PF(f64);
#[ffi::any]
#[derive(Clone, Copy)]
struct P0;
#[ffi::any]
#[derive(Clone)]
struct PBytes(ByteString);
#[ffi::any]
#[derive(Clone)]
struct PClosure(Closure);

/// A small value with a say in its copies, such as an index of a table that counts its users.
#[ffi::any]
struct PCounted(u32);

static COUNTED: Plain<Vec<i64>> = Plain::new(vec![]);

impl PCounted {
    fn new(id: u64) -> Self {
        Self(COUNTED.with(|c| {
            c.push(id as i64);
            c.push(1);
            c.len() as u32 / 2 - 1
        }))
    }

    fn count(&self, by: i64) -> i64 {
        COUNTED.with(|c| {
            c[self.0 as usize * 2 + 1] += by;
            c[self.0 as usize * 2 + 1]
        })
    }
}

impl Clone for PCounted {
    fn clone(&self) -> Self {
        ensure!(self.count(1) > 1, "use-after-free", "a value of type 16 is copied after its last use");
        Self(self.0)
    }
}

impl Drop for PCounted {
    fn drop(&mut self) {
        ensure!(self.count(-1) >= 0, "double-drop", "a value of type 16 is dropped more often than copied");
    }
}

static PASSED: Plain<Vec<(u64, u64, Any)>> = Plain::new(vec![]);

fn make_any(kind: u64, id: u64) -> Any {
    match kind {
        0 => P8(id as u8).into(),
        1 => P16(id as u16 ^ 0x5555, id as u8).into(),
        2 => P64(id ^ 0xdead_beef_0000_0000).into(),
        3 => P64b(id).into(),
        4 => PF(id as f64 + 0.5).into(),
        5 => P0.into(),
        6 => PBytes(wire::bytes(id, 0, (id % 40) as usize).into()).into(),
        7 => PClosure(Closure::new(id as *const u8, Tracked::new()).into_opaque()).into(),
        8 => AnyBox(Box::new((Tracked::new(), id))).into(),
        9 => AnyStd(std::sync::Arc::new(Tracked::new())).into(),
        10 => ffi::Number::new(id as f64).into(),
        11 => ffi::Boolean::new(id % 2 == 0).into(),
        12 => ffi::ByteString::from(wire::bytes(id, 0, (id % 20) as usize)).into(),
        13 => ffi::None::new().into(),
        16 => PCounted::new(id).into(),
        15 => ffi::List::from((0..id % 4).map(|i| ffi::Number::new(i as f64))).into(),
        _ => ffi::Error::new(ffi::ByteString::from(format!("error {id}").as_str())).into(),
    }
}

const KINDS: u64 = 17;

/// Which of the types the value can be seen as, by reference.
fn seen(x: &Any) -> Vec<u64> {
    let mut r = vec![];
    let mut add = |k, b: bool| {
        if b {
            r.push(k)
        }
    };
    add(0, <&P8>::try_from(x).is_ok());
    add(1, <&P16>::try_from(x).is_ok());
    add(2, <&P64>::try_from(x).is_ok());
    add(3, <&P64b>::try_from(x).is_ok());
    add(4, <&PF>::try_from(x).is_ok());
    add(5, <&P0>::try_from(x).is_ok());
    add(6, <&PBytes>::try_from(x).is_ok());
    add(7, <&PClosure>::try_from(x).is_ok());
    add(8, <&AnyBox>::try_from(x).is_ok());
    add(9, <&AnyStd>::try_from(x).is_ok());
    add(10, x.is_number());
    add(11, x.is_boolean());
    add(12, x.is_string());
    add(13, x.is_none());
    add(14, x.is_error());
    add(15, x.is_list());
    add(16, <&PCounted>::try_from(x).is_ok());
    r
}

fn check_any(kind: u64, id: u64, x: &Any) {
    let s = seen(x);
    ensure!(s == [kind], "wrong-type", "a value of type {kind} can be seen as types {s:?}");
    let ok = match kind {
        0 => <&P8>::try_from(x).unwrap().0 == id as u8,
        1 => {
            let p = <&P16>::try_from(x).unwrap();
            (p.0, p.1) == (id as u16 ^ 0x5555, id as u8)
        }
        2 => <&P64>::try_from(x).unwrap().0 == id ^ 0xdead_beef_0000_0000,
        3 => <&P64b>::try_from(x).unwrap().0 == id,
        4 => <&PF>::try_from(x).unwrap().0 == id as f64 + 0.5,
        6 => <&PBytes>::try_from(x).unwrap().0.as_slice() == wire::bytes(id, 0, (id % 40) as usize),
        7 => {
            let c = &<&PClosure>::try_from(x).unwrap().0;
            unsafe { &*(c.payload() as *const Tracked) }.touch();
            c.entry_function() as u64 == id
        }
        8 => {
            let b = &<&AnyBox>::try_from(x).unwrap().0;
            b.0.touch();
            b.1 == id
        }
        9 => {
            <&AnyStd>::try_from(x).unwrap().0.touch();
            true
        }
        10 => f64::from(ffi::Number::try_from(x.clone()).unwrap()) == id as f64,
        11 => bool::from(ffi::Boolean::try_from(x.clone()).unwrap()) == (id % 2 == 0),
        12 => ffi::ByteString::try_from(x.clone()).unwrap().as_slice() == wire::bytes(id, 0, (id % 20) as usize),
        16 => {
            let p = <&PCounted>::try_from(x).unwrap();
            COUNTED.with(|c| c[p.0 as usize * 2]) == id as i64 && p.count(0) > 0
        }
        14 => error_of(x) == Some(format!("error {id}")),
        _ => true,
    };
    ensure!(ok, "corrupt-value", "the value {id} of type {kind} has changed");
}

/// Takes the value out by conversion to the type `to`, which must work for its own type only.
fn convert(kind: u64, id: u64, x: Any, to: u64) {
    let ok = match to {
        0 => P8::try_from(x).is_ok(),
        1 => P16::try_from(x).is_ok(),
        2 => P64::try_from(x).is_ok(),
        3 => P64b::try_from(x).is_ok(),
        4 => PF::try_from(x).is_ok(),
        5 => P0::try_from(x).is_ok(),
        6 => PBytes::try_from(x).is_ok_and(|p| p.0.as_slice() == wire::bytes(id, 0, (id % 40) as usize)),
        7 => PClosure::try_from(x).is_ok_and(|p| {
            unsafe { &*(p.0.payload() as *const Tracked) }.touch();
            true
        }),
        8 => AnyBox::try_from(x).is_ok_and(|b| {
            b.0 .0.touch();
            true
        }),
        9 => AnyStd::try_from(x).is_ok_and(|b| {
            b.0.touch();
            true
        }),
        10 => ffi::Number::try_from(x).is_ok(),
        11 => ffi::Boolean::try_from(x).is_ok(),
        12 => ffi::ByteString::try_from(x).is_ok(),
        13 => x.is_none(),
        15 => ffi::List::try_from(x).is_ok(),
        16 => PCounted::try_from(x).is_ok(),
        _ => ffi::Error::try_from(x).is_ok(),
    };
    ensure!(ok == (kind == to), "wrong-type", "converting a value of type {kind} to type {to} gives {ok}");
}

pub fn any_payloads() {
    let threads = 1 + work(3) as usize;
    if config(2) == 0 {
        detect_races();
    }
    mark_allocations();
    let steps = 4 + work(16);
    let handles: Vec<_> = (0..threads)
        .map(|_| {
            std::thread::spawn(move || {
                let mut mine: Vec<(u64, u64, Any)> = vec![];
                for _ in 0..steps {
                    let any = !mine.is_empty();
                    let i = if any { work(mine.len() as u64) as usize } else { 0 };
                    match work(7) {
                        6 if any => {
                            let (k, id, x) = &mut mine[i];
                            let new = fresh();
                            let changed = match work(2) {
                                0 => {
                                    let r = <&mut P64>::try_from(&mut *x).map(|p| p.0 = new ^ 0xdead_beef_0000_0000);
                                    ensure!(r.is_ok() == (*k == 2), "wrong-type", "a value of type {k} can be changed as type 2: {}", r.is_ok());
                                    r.is_ok()
                                }
                                _ => {
                                    let r = <&mut AnyBox>::try_from(&mut *x).map(|p| p.0 .1 = new);
                                    ensure!(r.is_ok() == (*k == 8), "wrong-type", "a value of type {k} can be changed as type 8: {}", r.is_ok());
                                    r.is_ok()
                                }
                            };
                            if changed {
                                *id = new;
                            }
                            check_any(*k, *id, x);
                        }
                        0 => {
                            let (k, id) = (work(KINDS), fresh());
                            mine.push((k, id, make_any(k, id)));
                        }
                        1 if any => {
                            let (k, id, x) = &mine[i];
                            let c = (*k, *id, x.clone());
                            mine.push(c);
                        }
                        2 if any => {
                            let (k, id, x) = mine.swap_remove(i);
                            let to = if work(2) == 0 { k } else { work(KINDS) };
                            convert(k, id, x, to);
                        }
                        3 if any => {
                            let (k, id, x) = &mine[i];
                            publish_any(x);
                            let mut c = Some((*k, *id, x.clone()));
                            kernel(|| {
                                tsan::release(0x6300_0000_0000);
                                PASSED.with(|p| p.push(c.take().unwrap()))
                            });
                            pause();
                        }
                        4 => {
                            let got = kernel(|| {
                                tsan::acquire(0x6300_0000_0000);
                                PASSED.with(|p| p.pop())
                            });
                            mine.extend(got);
                        }
                        _ => {
                            for (k, id, x) in &mine {
                                check_any(*k, *id, x);
                            }
                        }
                    }
                }
                for (k, id, x) in &mine {
                    check_any(*k, *id, x);
                }
            })
        })
        .collect();
    for h in handles {
        h.join().unwrap();
    }
    let rest = PASSED.with(std::mem::take);
    tsan::acquire(0x6300_0000_0000);
    for (k, id, x) in rest {
        check_any(k, id, &x);
    }
    let left = COUNTED.with(|c| c.iter().skip(1).step_by(2).sum::<i64>());
    ensure!(left == 0, "leak", "{left} values of type 16 are never dropped");
    all_dropped("after every any value is gone");
    no_leaks("after every any value is gone");
}

fn publish_any(x: &Any) {
    synchronize_any(x);
    if let Ok(b) = <&PBytes>::try_from(x) {
        synchronize(&b.0);
    }
    if let Ok(b) = <&PClosure>::try_from(x) {
        synchronize(&b.0);
    }
}
