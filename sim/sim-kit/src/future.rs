//! Futures that become ready when the simulator says so.
use pensim::{api::*, sched::kernel, sys};
use std::{
    future::Future,
    pin::Pin,
    task::{Context, Poll, Waker},
};

const LATER: u32 = 8;

/// Suspends a number of times, each ended by an immediate wake, a wake from the timer, or a wake
/// by a helper at a moment of the simulator's choice.
pub struct Later {
    rounds: u64,
    armed: *mut Arm,
}

unsafe impl Send for Later {}
unsafe impl Sync for Later {}

struct Arm {
    fired: bool,
    waker: Option<Waker>,
}

pub fn later(rounds: u64) -> Later {
    Later { rounds, armed: std::ptr::null_mut() }
}

impl Future for Later {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        loop {
            if self.armed.is_null() {
                if self.rounds == 0 {
                    return Poll::Ready(());
                }
                self.rounds -= 1;
                let how = kernel(|| sys::pick(LATER, 4));
                let waker = cx.waker().clone();
                if how == 0 {
                    let arm = kernel(|| Box::into_raw(Box::new(Arm { fired: true, waker: None })));
                    self.armed = arm;
                    waker.wake();
                    return Poll::Pending;
                }
                let arm = kernel(|| Box::into_raw(Box::new(Arm { fired: false, waker: Some(waker) })));
                self.armed = arm;
                let delay = [0, 1, 700, 40_000][how as usize];
                at(delay, move || {
                    let a = unsafe { &mut *arm };
                    a.fired = true;
                    if let Some(w) = a.waker.take() {
                        w.wake();
                    }
                });
                return Poll::Pending;
            }
            let fired = kernel(|| unsafe { (*self.armed).fired });
            if fired {
                self.armed = std::ptr::null_mut();
                continue;
            }
            probe("a future was polled before it was ready");
            let waker = cx.waker().clone();
            kernel(|| unsafe { (*self.armed).waker = Some(waker) });
            return Poll::Pending;
        }
    }
}

/// A latch that tasks wait on.
pub struct Latch {
    open: bool,
    wakers: Vec<Waker>,
}

pub struct LatchCell(pub Plain<Latch>);

impl LatchCell {
    pub const fn new() -> Self {
        Self(Plain::new(Latch { open: false, wakers: vec![] }))
    }
    pub fn open(&self) {
        let wakers = self.0.with(|l| {
            l.open = true;
            std::mem::take(&mut l.wakers)
        });
        for w in wakers {
            w.wake();
        }
    }
    pub fn is_open(&self) -> bool {
        self.0.with(|l| l.open)
    }
    pub fn wait(&'static self) -> impl Future<Output = ()> {
        std::future::poll_fn(move |cx| {
            let waker = cx.waker().clone();
            self.0.with(|l| {
                if l.open {
                    Poll::Ready(())
                } else {
                    l.wakers.push(waker);
                    Poll::Pending
                }
            })
        })
    }
}

impl Default for LatchCell {
    fn default() -> Self {
        Self::new()
    }
}

/// Gives way once.
pub async fn give_way() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}
