//! The stack of frames itself, driven across suspensions.
use ffi::{
    cps::{AsyncStack, ContinuationFunction, CpsError},
    Arc,
};
use pensim::api::*;
use sim_kit::*;
use std::{future::Future, pin::Pin, task::Poll};

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
struct Odd(u8, u8, u8);
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
struct Wide([u64; 17]);
#[derive(Clone, Copy, PartialEq, Debug)]
struct Nothing;

/// What lies on the stack, by kind and serial number.
#[derive(Clone, Copy, Debug)]
struct Frame(u64, u64);

fn push(stack: &mut AsyncStack<u64>, f: Frame) {
    let n = f.1;
    match f.0 {
        0 => stack.push(n as u8),
        1 => stack.push(n as f64),
        2 => stack.push(Odd(n as u8, !n as u8, 7)),
        3 => stack.push(Wide(std::array::from_fn(|i| n ^ i as u64))),
        4 => stack.push(Nothing),
        5 => stack.push(Arc::new((Tracked::new(), n))),
        6 => stack.push(n as u32),
        _ => stack.push(Box::new((Tracked::new(), n))),
    }
}

fn pop(stack: &mut AsyncStack<u64>, f: Frame) {
    let n = f.1;
    let same = match f.0 {
        0 => stack.pop::<u8>() == n as u8,
        1 => stack.pop::<f64>() == n as f64,
        2 => stack.pop::<Odd>() == Odd(n as u8, !n as u8, 7),
        3 => stack.pop::<Wide>() == Wide(std::array::from_fn(|i| n ^ i as u64)),
        4 => stack.pop::<Nothing>() == Nothing,
        5 => {
            let x = stack.pop::<Arc<(Tracked, u64)>>();
            x.0.touch();
            x.1 == n
        }
        6 => stack.pop::<u32>() == n as u32,
        _ => {
            let x = stack.pop::<Box<(Tracked, u64)>>();
            x.0.touch();
            x.1 == n
        }
    };
    ensure!(same, "corrupt-frame", "the frame {f:?} has changed on the stack");
}

struct Script {
    frames: Vec<Frame>,
    serial: u64,
    left: u64,
    result: u64,
    /// What is suspended: 0 nothing, 1 a future, 2 a trampolined value.
    pending: u64,
}

static SCRIPTS: Plain<Vec<Script>> = Plain::new(vec![]);

fn with<R>(i: u64, f: impl FnOnce(&mut Script) -> R) -> R {
    SCRIPTS.with(|s| f(&mut s[i as usize]))
}

type K = ContinuationFunction<u64, u64>;
type Waiting = Pin<Box<dyn Future<Output = u64>>>;

/// One stretch of compiled code: pushes and pops frames, then suspends, hops or returns.
fn body(stack: &mut AsyncStack<u64>, i: u64) {
    ensure!(stack.context().is_some(), "no-context", "code runs without a context");
    for _ in 0..work(12) {
        let (pop_it, f) = with(i, |s| {
            if !s.frames.is_empty() && pensim::sys::pick(pensim::choice::WORK, 5) >= 3 {
                (true, s.frames.pop().unwrap())
            } else {
                s.serial += 1;
                let f = Frame(pensim::sys::pick(pensim::choice::WORK, 8), s.serial);
                s.frames.push(f);
                (false, f)
            }
        });
        if pop_it {
            pop(stack, f)
        } else {
            push(stack, f)
        }
    }
    let left = with(i, |s| {
        s.left = s.left.saturating_sub(1);
        s.left
    });
    if left == 0 {
        while let Some(f) = with(i, |s| s.frames.pop()) {
            pop(stack, f);
        }
        let r = with(i, |s| s.result);
        stack.resolve(r);
        return;
    }
    match work(2) {
        0 => {
            with(i, |s| s.pending = 2);
            let r = stack.trampoline(hopped, i);
            ensure!(r.is_ok(), "refused", "a legal trampoline fails: {}", r.unwrap_err());
        }
        _ => {
            let n = work(3);
            let mut f: Waiting = Box::pin(async move {
                later(n).await;
                i
            });
            with(i, |s| s.pending = 1);
            match f.as_mut().poll(stack.context().unwrap()) {
                Poll::Ready(j) => {
                    ensure!(j == i, "corrupt-frame", "a future gives {j} instead of {i}");
                    stack.trampoline(hopped, i).unwrap()
                }
                Poll::Pending => {
                    let r = stack.suspend(waited, hopped, f);
                    ensure!(r.is_ok(), "refused", "a legal suspension fails: {}", r.unwrap_err());
                }
            }
        }
    }
}

fn waited(stack: &mut AsyncStack<u64>, k: K) {
    let f = stack.restore::<Waiting>();
    ensure!(f.is_ok(), "refused", "a legal restoration fails");
    let mut f = f.unwrap();
    match f.as_mut().poll(stack.context().unwrap()) {
        Poll::Ready(i) => {
            drop(f);
            k(stack, i)
        }
        Poll::Pending => stack.suspend(waited, k, f).unwrap(),
    }
}

extern "C" fn hopped(stack: &mut AsyncStack<u64>, i: u64) {
    ensure!((i as usize) < SCRIPTS.with(|s| s.len()), "corrupt-frame", "a continuation gets the value {i:#x}");
    let p = with(i, |s| std::mem::replace(&mut s.pending, 0));
    ensure!(p != 0, "resumed-twice", "a continuation runs twice");
    body(stack, i)
}

async fn drive(i: u64, capacity: usize) -> u64 {
    let mut stack = AsyncStack::<u64>::new(capacity);
    let mut started = false;
    let mut next = None;
    std::future::poll_fn(move |cx| {
        ensure!(stack.context().is_none(), "stale-context", "a context outlives the poll it came with");
        stack.run_with_context(cx, |stack| {
            if !std::mem::replace(&mut started, true) {
                body(stack, i)
            } else {
                let (step, k): (fn(&mut AsyncStack<u64>, K), K) = next.take().unwrap();
                step(stack, k)
            }
        });
        ensure!(stack.context().is_none(), "stale-context", "a context outlives the poll it came with");
        match stack.resolved_value() {
            Some(v) => {
                ensure!(stack.resolved_value().is_none(), "resolved-twice", "a result is given twice");
                Poll::Ready(v)
            }
            None => {
                match stack.resume() {
                    Ok(n) => next = Some(n),
                    Err(e) => fail("refused", format!("a legal resumption fails: {e}")),
                }
                Poll::Pending
            }
        }
    })
    .await
}

pub fn frames() {
    faults(&["task.spurious-poll"], 60);
    strict_wakers(config(2) == 0);
    let workers = 1 + config(3) as usize;
    let n = 1 + work(3);
    mark_allocations();
    for i in 0..n {
        let capacity = [1, 8, 16, 64, 1000][config(5) as usize];
        SCRIPTS.with(|s| {
            s.push(Script { frames: vec![], serial: i << 32, left: 1 + pensim::sys::pick(pensim::choice::WORK, 12), result: 100 + i, pending: 0 })
        });
        spawn(async move {
            let v = drive(i, capacity).await;
            ensure!(v == 100 + i, "wrong-result", "a call gives {v} instead of {}", 100 + i);
        });
    }
    sim_kit::run(workers);
    all_dropped("after every frame is popped");
    no_leaks("after every frame is popped");
}

// ---------------------------------------------------------------- misuse

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Suspend,
    Resume,
    Restore,
}

extern "C" fn end(stack: &mut AsyncStack<u64>, v: u64) {
    stack.resolve(v)
}

fn end_step(stack: &mut AsyncStack<u64>, k: K) {
    match stack.restore::<Later>() {
        Ok(_) => k(stack, 1),
        Err(e) => fail("refused", format!("a legal restoration fails: {e}")),
    }
}

/// Calls in the wrong order are refused, whatever came before; those in the right order are not.
pub fn misuse() {
    faults(&["task.spurious-poll"], 20);
    let workers = 1 + config(2) as usize;
    let n = 1 + work(2);
    for _ in 0..n {
        spawn(async move {
            let mut stack = AsyncStack::<u64>::new([1, 64][config(2) as usize]);
            let mut want = Want::Suspend;
            let mut hop = false;
            let mut refused = 0;
            stack.push(Wide([n; 17]));
            for _ in 0..1 + work(16) {
                let attempt = work(4);
                // Each attempt comes in a poll of its own or right after the last.
                if work(2) == 1 {
                    later(1).await;
                }
                let with_context = work(4) != 3;
                let legal = match attempt {
                    0 => want == Want::Suspend,
                    1 => want == Want::Suspend && with_context,
                    2 => want == Want::Resume,
                    _ => want == Want::Restore,
                };
                let mut outcome: Result<(), CpsError> = Ok(());
                let mut now = want;
                std::future::poll_fn(|cx| {
                    let mut act = |stack: &mut AsyncStack<u64>| match attempt {
                        0 => {
                            outcome = stack.suspend(end_step, end, later(0));
                            now = Want::Resume;
                        }
                        1 => {
                            outcome = stack.trampoline(end, 5u64);
                            now = Want::Resume;
                        }
                        2 => {
                            outcome = stack.resume::<u64>().map(|_| ());
                            now = Want::Restore;
                        }
                        _ => {
                            outcome = stack.restore::<Later>().map(|_| ());
                            now = Want::Suspend;
                        }
                    };
                    if with_context {
                        stack.run_with_context(cx, act)
                    } else {
                        act(&mut stack)
                    }
                    Poll::Ready(())
                })
                .await;
                ensure!(!legal || outcome.is_ok(), "refused", "a legal operation {attempt} in the state {want:?} gives {outcome:?} after {refused} refused ones");
                ensure!(legal || outcome.is_err(), "accepted", "the operation {attempt} is accepted in the state {want:?}");
                if !legal {
                    // It has changed nothing: whatever was right before is still.
                    probe("misuse is refused");
                    refused += 1;
                    continue;
                }
                if refused > 0 {
                    probe("right operation after misuse");
                }
                if attempt == 0 {
                    hop = false;
                }
                if attempt == 1 {
                    hop = true;
                }
                if attempt == 2 && hop {
                    // The step of a trampoline takes the value by itself.
                    ensure!(stack.pop::<u64>() == 5, "corrupt-frame", "the value of a trampoline has changed");
                }
                want = now;
                if attempt == 2 && hop {
                    want = Want::Suspend;
                }
            }
            if want == Want::Resume {
                let outcome = stack.resume::<u64>().map(|_| ());
                ensure!(outcome.is_ok(), "refused", "a legal resumption in the end gives {outcome:?}");
                if hop {
                    stack.pop::<u64>();
                } else {
                    want = Want::Restore;
                }
            }
            if want == Want::Restore {
                ensure!(stack.restore::<Later>().is_ok(), "refused", "a legal restoration in the end fails");
            }
            ensure!(stack.pop::<Wide>() == Wide([n; 17]), "corrupt-frame", "what lay on the stack before has changed");
        });
    }
    sim_kit::run(workers);
}
