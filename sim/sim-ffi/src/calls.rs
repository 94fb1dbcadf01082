//! Asynchronous calls between Rust and compiled code, in both directions and nested.
use ffi::{
    cps::{AsyncStack, ContinuationFunction},
    Any, Arc, ByteString, Closure, List, Number,
};
use futures::{
    future::{join, select, Either},
    StreamExt,
};
use pensim::{api::*, sched::kernel};
use sim_kit::*;
use std::{
    future::Future,
    pin::Pin,
    task::{Poll, Waker},
};

/// What is computed; how is decided along the way.
enum Expr {
    Leaf(u64),
    Wait(u64, Box<Expr>),
    Call { how: u64, shape: u64, x: u64, waits: u64, child: Box<Expr> },
    Both(Box<Expr>, Box<Expr>),
    Chain(Vec<Expr>),
    Task(Box<Expr>),
    Stream { lazy: bool, items: Vec<Expr> },
    Shared(u64, Box<Expr>),
}

fn plan(depth: u64, size: &mut u64) -> Expr {
    if depth == 0 || *size == 0 {
        return Expr::Leaf(work(1000));
    }
    *size -= 1;
    match work(10) {
        0 => Expr::Leaf(work(1000)),
        1 => Expr::Wait(1 + work(3), plan(depth - 1, size).into()),
        2..=4 => Expr::Call { how: work(5), shape: work(4), x: work(1000), waits: work(3), child: plan(depth - 1, size).into() },
        5 => Expr::Both(plan(depth - 1, size).into(), plan(depth - 1, size).into()),
        6 => Expr::Chain((0..1 + work(4)).map(|_| plan(depth - 1, size)).collect()),
        7 => Expr::Task(plan(depth - 1, size).into()),
        8 => Expr::Stream { lazy: work(2) == 1, items: (0..work(4)).map(|_| plan(depth - 1, size)).collect() },
        _ => Expr::Shared(2 + work(2), plan(depth - 1, size).into()),
    }
}

fn expected(e: &Expr) -> u64 {
    match e {
        Expr::Leaf(n) => *n,
        Expr::Wait(_, c) | Expr::Task(c) => expected(c),
        Expr::Call { x, child, .. } => x + expected(child),
        Expr::Both(a, b) => expected(a) + expected(b),
        Expr::Chain(v) | Expr::Stream { items: v, .. } => v.iter().map(expected).sum(),
        Expr::Shared(n, c) => n * expected(c),
    }
}

/// How results and arguments travel.
trait Wire: Send + 'static {
    fn enc(v: u64) -> Self;
    fn dec(self) -> u64;
}
impl Wire for Number {
    fn enc(v: u64) -> Self {
        (v as f64).into()
    }
    fn dec(self) -> u64 {
        f64::from(self) as u64
    }
}
impl Wire for ByteString {
    fn enc(v: u64) -> Self {
        v.to_string().into()
    }
    fn dec(self) -> u64 {
        match std::str::from_utf8(self.as_slice()).ok().and_then(|s| s.parse().ok()) {
            Some(n) => n,
            None => fail("corrupt-value", format!("a string value reads {:?}", self.as_slice())),
        }
    }
}
impl Wire for Any {
    fn enc(v: u64) -> Self {
        ByteString::enc(v).into()
    }
    fn dec(self) -> u64 {
        match string_of(&self) {
            Some(s) => s.dec(),
            None => fail("corrupt-value", "an any value is no string any more"),
        }
    }
}
#[repr(C)]
#[derive(Clone)]
struct Big {
    n: [u64; 5],
    tracked: Arc<Tracked>,
}
impl Wire for Big {
    fn enc(v: u64) -> Self {
        Big { n: [v, v ^ 1, v ^ 2, v ^ 3, v ^ 4], tracked: Arc::new(Tracked::new()) }
    }
    fn dec(self) -> u64 {
        let n = self.n;
        ensure!((0..5).all(|i| n[i as usize] == n[0] ^ i), "corrupt-value", "a large value reads {n:?}");
        self.tracked.touch();
        n[0]
    }
}

struct Environment<T> {
    child: &'static Expr,
    waits: u64,
    tracked: Tracked,
    phantom: std::marker::PhantomData<T>,
}

type Job = Pin<Box<dyn Future<Output = u64> + Send>>;

struct Forced<F>(F);
unsafe impl<F> Send for Forced<F> {}
impl<F: Future> Future for Forced<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

fn job(f: impl Future<Output = u64>) -> Job {
    let b: Pin<Box<dyn Future<Output = u64>>> = unsafe { std::mem::transmute(Box::pin(f) as Pin<Box<dyn Future<Output = u64> + '_>>) };
    Box::pin(Forced(b))
}

const TEXT: &str = "an argument that compiled code owns";

fn child_closure<T: Wire>(e: &'static Expr) -> Closure {
    ffi::future::to_closure(async move { T::enc(eval(e).await) })
}

/// A function of compiled code: keeps its frame on the stack while it calls another function.
extern "C" fn compiled<T: Wire>(stack: &mut AsyncStack<()>, k: ContinuationFunction<T, ()>, closure: Closure<()>, x: T, text: ByteString) {
    ensure!(stack.context().is_some(), "no-context", "compiled code runs without a context");
    let e = unsafe { &*(closure.payload() as *const Environment<T>) };
    e.tracked.touch();
    let child = child_closure::<T>(e.child);
    let waits = e.waits;
    stack.push(closure);
    stack.push(x);
    stack.push(text);
    stack.push(k);
    let entry: extern "C" fn(&mut AsyncStack<()>, ContinuationFunction<T, ()>, Closure<()>) =
        unsafe { std::mem::transmute(child.entry_function()) };
    if waits > 0 {
        // An asynchronous function written in Rust runs first.
        stack.push(child);
        stack.push(entry);
        enter(stack, waited::<T>, async move {
            later(waits).await;
            Number::new(waits as f64)
        });
    } else {
        entry(stack, after::<T>, child)
    }
}

extern "C" fn waited<T: Wire>(stack: &mut AsyncStack<()>, n: Number) {
    ensure!(f64::from(n) >= 1.0, "corrupt-value", "an argument reads {}", f64::from(n));
    let entry = stack.pop::<extern "C" fn(&mut AsyncStack<()>, ContinuationFunction<T, ()>, Closure<()>)>();
    let child = stack.pop::<Closure>();
    entry(stack, after::<T>, child)
}

extern "C" fn after<T: Wire>(stack: &mut AsyncStack<()>, v: T) {
    ensure!(stack.context().is_some(), "no-context", "a continuation runs without a context");
    let k = stack.pop::<ContinuationFunction<T, ()>>();
    let text = stack.pop::<ByteString>();
    let x = stack.pop::<T>();
    let closure = stack.pop::<Closure>();
    ensure!(text.as_slice() == TEXT.as_bytes(), "corrupt-value", "a string in a frame reads {:?}", text.as_slice());
    unsafe { &*(closure.payload() as *const Environment<T>) }.tracked.touch();
    let r = T::enc(x.dec() + v.dec());
    k(stack, r)
}

extern "C" fn compiled_thunk<T: Wire>(stack: &mut AsyncStack<()>, k: ContinuationFunction<T, ()>, closure: Closure<()>) {
    compiled(stack, k, closure, T::enc(0), TEXT.into())
}

unsafe extern "C" fn compiled_function(
    stack: &mut AsyncStack<Number>,
    k: ContinuationFunction<Number, Number>,
    closure: Closure<()>,
    x: Number,
    text: ByteString,
) {
    let stack: &mut AsyncStack<()> = std::mem::transmute(stack);
    compiled::<Number>(stack, std::mem::transmute::<ContinuationFunction<Number, Number>, ContinuationFunction<Number, ()>>(k), closure, x, text)
}

static ARGUMENTS: Plain<Vec<(&'static Expr, u64)>> = Plain::new(vec![]);

unsafe extern "C" fn compiled_constant(stack: &mut AsyncStack<Number>, k: ContinuationFunction<Number, Number>) {
    let stack: &mut AsyncStack<()> = std::mem::transmute(stack);
    let k = std::mem::transmute::<ContinuationFunction<Number, Number>, ContinuationFunction<Number, ()>>(k);
    let (child, waits) = ARGUMENTS.with(|a| a.pop().unwrap());
    compiled_thunk::<Number>(stack, k, closure_for::<Number>(compiled_thunk::<Number> as *const u8, child, waits))
}

fn closure_for<T: Wire>(entry: *const u8, child: &'static Expr, waits: u64) -> Closure {
    Closure::new(entry, Environment::<T> { child, waits, tracked: Tracked::new(), phantom: std::marker::PhantomData }).into_opaque()
}

async fn call<T: Wire>(how: u64, x: u64, waits: u64, child: &'static Expr) -> u64
where
    T: 'static,
{
    match how {
        // A future of Rust as a closure, awaited as one.
        0 => {
            let c = ffi::future::to_closure(async move {
                later(waits).await;
                T::enc(x + eval(child).await)
            });
            ffi::future::from_closure::<(), T>(c).await.dec()
        }
        // A thunk of compiled code.
        1 => {
            let c = closure_for::<T>(compiled_thunk::<T> as *const u8, child, waits);
            x + ffi::future::from_closure::<(), T>(c).await.dec()
        }
        // A function of compiled code, by its closure.
        2 => {
            let c = closure_for::<T>(compiled::<T> as *const u8, child, waits);
            called::<T>(c, x).await
        }
        // A function of compiled code, by name.
        3 => {
            let c = closure_for::<Number>(compiled_thunk::<Number> as *const u8, child, waits);
            let v: Number = ffi::call_function!(
                fn(Closure, Number, ByteString) -> Number,
                compiled_function,
                c,
                Number::enc(x),
                ByteString::from(TEXT)
            )
            .await;
            v.dec()
        }
        _ => {
            let f = ffi::future::from_function::<Number>(compiled_constant);
            // The function takes its argument on the first poll.
            let mut f = Box::pin(f);
            let mut first = true;
            let v = std::future::poll_fn(|cx| {
                if std::mem::take(&mut first) {
                    ARGUMENTS.with(|a| a.push((child, waits)));
                }
                f.as_mut().poll(cx)
            })
            .await;
            x + v.dec()
        }
    }
}

trait Called: Sized {
    fn called(c: Closure, x: u64) -> Job;
}
macro_rules! called {
    ($($type:ty),*) => { $(
        impl Called for $type {
            fn called(c: Closure, x: u64) -> Job {
                job(async move {
                    let v: $type = {
                        type T = $type;
                        let c: Closure<T> = unsafe { std::mem::transmute(c) };
                        ffi::call!(fn(T, ByteString) -> T, c, T::enc(x), ByteString::from(TEXT)).await
                    };
                    v.dec()
                })
            }
        }
    )* }
}
called!(Number, ByteString, Any, Big);

async fn called<T: Wire>(c: Closure, x: u64) -> u64 {
    use std::any::TypeId;
    let t = TypeId::of::<T>();
    if t == TypeId::of::<Number>() {
        <Number as Called>::called(c, x).await
    } else if t == TypeId::of::<ByteString>() {
        <ByteString as Called>::called(c, x).await
    } else if t == TypeId::of::<Any>() {
        <Any as Called>::called(c, x).await
    } else {
        <Big as Called>::called(c, x).await
    }
}

static EVALUATIONS: Plain<Vec<u64>> = Plain::new(vec![]);

fn eval(e: &'static Expr) -> Job {
    match e {
        Expr::Leaf(n) => job(async move { *n }),
        Expr::Wait(n, c) => job(async move {
            let t = Tracked::new();
            later(*n).await;
            let r = eval(c).await;
            t.touch();
            r
        }),
        Expr::Call { how, shape, x, waits, child } => job(async move {
            let (how, x, waits) = (*how, *x, *waits);
            match shape {
                0 => call::<Number>(how, x, waits, child).await,
                1 => call::<ByteString>(how, x, waits, child).await,
                2 => call::<Any>(how, x, waits, child).await,
                _ => call::<Big>(how, x, waits, child).await,
            }
        }),
        Expr::Both(a, b) => job(async move {
            let (a, b) = join(eval(a), eval(b)).await;
            a + b
        }),
        Expr::Chain(v) => job(async move {
            let mut sum = 0;
            for e in v {
                sum += eval(e).await;
            }
            sum
        }),
        Expr::Task(c) => job(async move { in_task(eval(c)).await }),
        Expr::Stream { lazy, items } => job(async move {
            let list = if *lazy { lazily(items) } else { eagerly(items) };
            let stream = ffi::future::stream::from_list(list);
            futures::pin_mut!(stream);
            let mut sum = 0;
            let mut n = 0;
            while let Some(x) = stream.next().await {
                let v = x.dec();
                ensure!(n < items.len() && v == expected(&items[n]), "lost-element", "element {n} of a list of {} is {v}", items.len());
                sum += v;
                n += 1;
            }
            ensure!(n == items.len(), "lost-element", "a list of {} elements gives {n}", items.len());
            // A list that native code makes.
            let made = strict_list((0..n as u64).map(Any::enc).collect());
            let stream = ffi::future::stream::from_list(made);
            futures::pin_mut!(stream);
            for i in 0..n as u64 {
                let x = stream.next().await.map(|x| x.dec());
                ensure!(x == Some(i), "lost-element", "element {i} of a list of {n} is {x:?}");
            }
            ensure!(stream.next().await.is_none(), "lost-element", "a list of {n} elements has more");
            sum
        }),
        Expr::Shared(n, c) => job(async move {
            let n = *n;
            let i = EVALUATIONS.with(|v| {
                v.push(0);
                v.len() - 1
            });
            let t = thunk(async move {
                EVALUATIONS.with(|v| v[i] += 1);
                Any::enc(eval(c).await)
            });
            let mut sum = 0;
            let (a, b) = join(ffi::future::from_closure::<(), Any>(t.clone()), ffi::future::from_closure::<(), Any>(t.clone())).await;
            sum += a.dec() + b.dec();
            for _ in 2..n {
                sum += ffi::future::from_closure::<(), Any>(t.clone()).await.dec();
            }
            let times = EVALUATIONS.with(|v| v[i]);
            ensure!(times == 1, "evaluated-twice", "a thunk is evaluated {times} times");
            sum
        }),
    }
}

fn eagerly(items: &'static [Expr]) -> List {
    let mut l = strict_list::<Any>(vec![]);
    for e in items.iter().rev() {
        l = prepend_thunk(thunk(async move { Any::enc(eval(e).await) }), l);
    }
    l
}

fn lazily(items: &'static [Expr]) -> List {
    lazy_list(async move {
        match items {
            [] => strict_list::<Any>(vec![]),
            [e, rest @ ..] => {
                let v = Any::enc(eval(e).await);
                lazily(rest).prepend(v)
            }
        }
    })
}

struct Answer {
    value: Option<u64>,
    waker: Option<Waker>,
}

/// Runs a job as a task of its own and awaits it.
async fn in_task(j: Job) -> u64 {
    let slot: &'static Plain<Answer> = kernel(|| Box::leak(Box::new(Plain::new(Answer { value: None, waker: None }))));
    spawn(async move {
        let v = j.await;
        pensim::tsan::release(slot as *const _ as usize);
        let w = slot.with(|s| {
            if s.value.replace(v).is_some() {
                fail("resolved-twice", "a call gives two results");
            }
            s.waker.take()
        });
        if let Some(w) = w {
            w.wake();
        }
    });
    std::future::poll_fn(move |cx| {
        let waker = cx.waker().clone();
        slot.with(|s| match s.value {
            Some(v) => {
                pensim::tsan::acquire(slot as *const _ as usize);
                Poll::Ready(v)
            }
            None => {
                s.waker = Some(waker);
                Poll::Pending
            }
        })
    })
    .await
}

fn leak_plan(e: Expr) -> &'static Expr {
    Box::leak(Box::new(e))
}

fn set_up(depth: u64) -> (Vec<&'static Expr>, usize) {
    faults(&["task.spurious-poll"], 60);
    strict_wakers(config(2) == 0);
    let workers = 1 + config(3) as usize;
    let depth = if config(20) == 19 { 24 } else { depth };
    let tasks = 1 + work(3);
    let plans = (0..tasks)
        .map(|_| {
            let mut size = 4 + work(20);
            leak_plan(plan(depth, &mut size))
        })
        .collect();
    (plans, workers)
}

static RESULTS: Plain<Vec<u64>> = Plain::new(vec![]);

fn run_all(plans: &[&'static Expr], workers: usize) {
    RESULTS.with(|r| *r = vec![0; plans.len()]);
    for (i, e) in plans.iter().enumerate() {
        let e: &'static Expr = e;
        spawn(async move {
            let v = eval(e).await;
            let want = expected(e);
            ensure!(v == want, "wrong-result", "a call gives {v} instead of {want}");
            RESULTS.with(|r| r[i] += 1);
        });
    }
    sim_kit::run(workers);
    RESULTS.with(|r| {
        for (i, n) in r.iter().enumerate() {
            ensure!(*n == 1, "result-count", "the call {i} has ended {n} times");
        }
    });
}

pub fn results() {
    let (plans, workers) = set_up(5);
    if config(3) == 0 {
        detect_races();
    }
    run_all(&plans, workers);
}

pub fn leaks() {
    let (plans, workers) = set_up(5);
    mark_allocations();
    run_all(&plans, workers);
    all_dropped("after every call has ended");
    no_leaks("after every call has ended");
    let wakers = live_wakers();
    ensure!(wakers == 0, "leak", "{wakers} wakers are never dropped");
}

static ABORTED: Plain<u64> = Plain::new(0);

pub fn cancelled() {
    let (plans, workers) = set_up(5);
    let mut victims = vec![];
    for e in plans {
        match work(2) {
            // Dropped by a task that stops waiting for it.
            0 => {
                let patience = work(6);
                let id = spawn(async move {
                    match select(eval(e), Box::pin(later(patience))).await {
                        Either::Left((v, _)) => {
                            let want = expected(e);
                            ensure!(v == want, "wrong-result", "a call gives {v} instead of {want}");
                            probe("the call won");
                        }
                        Either::Right((_, rest)) => {
                            probe("a call is dropped half-way");
                            drop(rest);
                        }
                    }
                });
                let _ = id;
            }
            // Dropped from outside, as a runtime that shuts down does.
            _ => {
                let id = spawn(async move {
                    let v = eval(e).await;
                    let want = expected(e);
                    ensure!(v == want, "wrong-result", "a call gives {v} instead of {want}");
                });
                victims.push(id);
            }
        }
    }
    let killer = (!victims.is_empty()).then(|| {
        std::thread::spawn(move || {
            for v in victims {
                for _ in 0..work(40) {
                    pause();
                }
                if work(2) == 0 {
                    sleep_ns(work(60_000));
                }
                if abort(v) {
                    probe("a suspended call is dropped from outside");
                    ABORTED.with(|a| *a += 1);
                }
            }
        })
    });
    sim_kit::run(workers);
    if let Some(k) = killer {
        k.join().unwrap();
    }
}
