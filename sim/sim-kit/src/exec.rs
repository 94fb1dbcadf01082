//! A small executor whose every decision belongs to the simulator: which worker polls which task,
//! spurious polls, and which wakers count.
use pensim::{
    api::*,
    sched::{self, block, kernel, me, wake_thread, Cond, NEVER},
    sys, tsan,
};
use std::{
    future::Future,
    pin::Pin,
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
};

type TaskFuture = Pin<Box<dyn Future<Output = ()>>>;

#[derive(Clone, Copy, PartialEq)]
enum State {
    Idle,
    Ready,
    Running,
    Done,
}

struct Task {
    future: Option<TaskFuture>,
    state: State,
    renotify: bool,
    generation: u64,
    aborted: bool,
    polls: u64,
    last: usize,
}

struct Executor {
    tasks: Vec<Task>,
    parked: Vec<usize>,
    live: usize,
    strict: bool,
    closed: bool,
}

static EXECUTOR: Plain<Executor> =
    Plain::new(Executor { tasks: vec![], parked: vec![], live: 0, strict: false, closed: false });

const TASKS: u32 = 7;
const KEY: usize = 0x6000_0000_0000;

fn key(task: usize) -> usize {
    KEY + task * 16
}

fn waker_data(task: usize, generation: u64) -> *const () {
    ((task as u64) << 40 | (generation & 0xff_ffff_ffff)) as *const ()
}

static WAKERS: Plain<i64> = Plain::new(0);

/// Wakers handed out and not dropped again.
pub fn live_wakers() -> i64 {
    WAKERS.with(|w| *w)
}

static TABLE: RawWakerVTable = RawWakerVTable::new(
    |d| {
        WAKERS.with(|w| *w += 1);
        RawWaker::new(d, &TABLE)
    },
    |d| {
        wake(d);
        WAKERS.with(|w| *w -= 1);
    },
    |d| wake(d),
    |_| WAKERS.with(|w| *w -= 1),
);

fn wake(data: *const ()) {
    let d = data as u64;
    let (task, generation) = ((d >> 40) as usize, d & 0xff_ffff_ffff);
    kernel(|| {
        tsan::release(key(task));
        EXECUTOR.with(|e| {
            let strict = e.strict;
            let t = &mut e.tasks[task];
            if strict && t.generation != generation {
                sys::probe("a stale waker was ignored");
                return;
            }
            match t.state {
                State::Idle => {
                    t.state = State::Ready;
                    notify(e);
                }
                State::Running => t.renotify = true,
                _ => {}
            }
        })
    });
    sched::point();
}

fn notify(e: &mut Executor) {
    for t in e.parked.drain(..) {
        wake_thread(t);
    }
}

/// With this on, only the waker passed to the latest poll wakes a task, which is all that the
/// contract of futures promises.
pub fn strict_wakers(on: bool) {
    EXECUTOR.with(|e| e.strict = on)
}

pub fn spawn(future: impl Future<Output = ()> + 'static) -> usize {
    let boxed: TaskFuture = Box::pin(future);
    let id = kernel(|| {
        EXECUTOR.with(|e| {
            let id = e.tasks.len();
            e.tasks.push(Task {
                future: Some(boxed),
                state: State::Ready,
                renotify: false,
                generation: 0,
                aborted: false,
                polls: 0,
                last: usize::MAX,
            });
            e.live += 1;
            tsan::release(key(id));
            notify(e);
            id
        })
    });
    sched::point();
    id
}

/// Cancels a task: its future is dropped as soon as nothing polls it.
pub fn abort(id: usize) -> bool {
    let dropped = kernel(|| {
        EXECUTOR.with(|e| {
            let t = &mut e.tasks[id];
            match t.state {
                State::Done => return None,
                State::Running => {
                    t.aborted = true;
                    return None;
                }
                _ => {}
            }
            t.state = State::Done;
            let f = t.future.take();
            e.live -= 1;
            notify(e);
            tsan::acquire(key(id));
            f
        })
    });
    let r = dropped.is_some();
    drop(dropped);
    r
}

pub fn is_done(id: usize) -> bool {
    EXECUTOR.with(|e| e.tasks[id].state == State::Done)
}

pub fn polls(id: usize) -> u64 {
    EXECUTOR.with(|e| e.tasks[id].polls)
}

pub fn worker() {
    loop {
        enum Next {
            Stop,
            Again,
            Poll(usize, TaskFuture, u64),
        }
        let next = kernel(|| {
            let next = EXECUTOR.with(|e| {
                if e.live == 0 {
                    notify(e);
                    return Next::Stop;
                }
                let mut candidates: Vec<usize> = (0..e.tasks.len()).filter(|&i| e.tasks[i].state == State::Ready).collect();
                let idle: Vec<usize> = (0..e.tasks.len()).filter(|&i| e.tasks[i].state == State::Idle).collect();
                if !idle.is_empty() && sys::fault("task.spurious-poll") {
                    candidates = idle;
                }
                if candidates.is_empty() {
                    e.parked.push(me());
                    return Next::Again;
                }
                let i = candidates[sys::pick(TASKS, candidates.len() as u64) as usize];
                let t = &mut e.tasks[i];
                t.state = State::Running;
                t.renotify = false;
                t.generation += 1;
                t.polls += 1;
                if t.last != usize::MAX && t.last != me() {
                    sys::probe("a task moved to another thread");
                }
                t.last = me();
                tsan::acquire(key(i));
                Next::Poll(i, t.future.take().unwrap(), t.generation)
            });
            if let Next::Again = next {
                block(Cond::None, NEVER);
            }
            next
        });
        match next {
            Next::Stop => return,
            Next::Again => {}
            Next::Poll(i, mut future, generation) => {
                WAKERS.with(|w| *w += 1);
                let waker = unsafe { Waker::from_raw(RawWaker::new(waker_data(i, generation), &TABLE)) };
                let r = future.as_mut().poll(&mut Context::from_waker(&waker));
                let mut garbage = None;
                let done = match r {
                    Poll::Ready(()) => true,
                    Poll::Pending => EXECUTOR.with(|e| e.tasks[i].aborted),
                };
                if done {
                    garbage = Some(future);
                    future = Box::pin(async {});
                    drop(garbage.take());
                }
                kernel(|| {
                    tsan::release(key(i));
                    EXECUTOR.with(|e| {
                        let t = &mut e.tasks[i];
                        if done {
                            t.state = State::Done;
                            e.live -= 1;
                            if e.live == 0 {
                                notify(e);
                            }
                            None
                        } else {
                            t.state = if t.renotify { State::Ready } else { State::Idle };
                            t.future = Some(std::mem::replace(&mut future, Box::pin(async {})));
                            if t.renotify {
                                notify(e);
                            }
                            Some(())
                        }
                    })
                });
                drop(garbage);
                sched::point();
            }
        }
    }
}

/// Runs the executor with this many worker threads until every task has ended.
pub fn run(workers: usize) {
    let handles: Vec<_> = (1..workers).map(|_| std::thread::spawn(worker)).collect();
    worker();
    for h in handles {
        h.join().unwrap();
    }
}

/// Runs a future to its end on the current thread alone, next to whatever runs elsewhere.
pub fn block_on<T: 'static>(future: impl Future<Output = T>) -> T {
    struct Slot {
        woken: bool,
        thread: usize,
    }
    let slot: *mut Slot = kernel(|| Box::into_raw(Box::new(Slot { woken: false, thread: me() })));
    static BLOCK: RawWakerVTable = RawWakerVTable::new(
        |d| RawWaker::new(d, &BLOCK),
        |d| wake_slot(d),
        |d| wake_slot(d),
        |_| {},
    );
    fn wake_slot(d: *const ()) {
        kernel(|| {
            tsan::release(d as usize);
            let s = unsafe { &mut *(d as *mut Slot) };
            s.woken = true;
            wake_thread(s.thread);
        });
        sched::point();
    }
    let waker = unsafe { Waker::from_raw(RawWaker::new(slot as *const (), &BLOCK)) };
    let mut future = std::pin::pin!(future);
    loop {
        kernel(|| unsafe { (*slot).woken = false });
        if let Poll::Ready(v) = future.as_mut().poll(&mut Context::from_waker(&waker)) {
            // The slot outlives wakers that are still around: it is never freed.
            return v;
        }
        kernel(|| unsafe {
            let spurious = sys::fault("task.spurious-poll");
            while !spurious && !(*slot).woken {
                block(Cond::None, NEVER);
            }
            tsan::acquire(slot as usize);
        });
    }
}
