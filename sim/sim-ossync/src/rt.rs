//! A Pen program on the synchronous system package: tasks run to their end where they are made.
use ffi::{cps::Stack, Any, Arc, ByteString};
use pensim::api::*;
use sim_kit::*;
use std::{cell::Cell, future::Future, pin::Pin};

extern crate os_sync as _;

type Program = Pin<Box<dyn Future<Output = ()>>>;

/// Whether calls that wait keep other tasks from running.
pub const SYNC: bool = true;
static PROGRAM: Plain<Option<Program>> = Plain::new(None);

#[no_mangle]
unsafe extern "C" fn _pen_main(stack: *mut Stack, k: extern "C" fn(*mut Stack, ffi::None)) {
    let program = PROGRAM.with(|p| p.take()).expect("a program");
    exec::block_on(program);
    k(stack, ffi::None::new())
}

/// Runs the program to its end, as an operating system would, up to the end of the runtime's
/// `main` function.
pub fn start(program: impl Future<Output = ()> + 'static) {
    let program: Program = Box::pin(program);
    let program = Cell::new(Some(program));
    PROGRAM.with(|p| *p = program.take());
    os_sync_app::pensim_main();
}

/// Sets the machine up: the number of processors and how slow its devices are.
pub fn machine() {
    let fs = [0, 0, 2_000, 200_000][config(4) as usize];
    let net = [0, 1_000, 50_000, 400_000][config(4) as usize];
    os(|o| {
        o.fs_latency = fs;
        o.net_latency = net;
    });
}

pub fn s(x: impl AsRef<[u8]>) -> ByteString {
    x.as_ref().into()
}

macro_rules! function {
    ($name:ident($($a:ident: $t:ty),*) -> $r:ty) => {
        async fn $name($($a: $t),*) -> $r {
            ffi::import!($name, fn($($a: $t),*) -> $r);
            unsafe { $name($($a),*) }
        }
    };
}
include!("../../sim-os/src/calls.rs");
ffi::import!(_pen_os_get_time, fn() -> ffi::Number);
ffi::import!(_pen_debug, fn(message: ByteString) -> ffi::None);

/// A task that has ended.
pub struct Ended;

pub async fn task(f: impl Future<Output = ()> + 'static) -> Ended {
    f.await;
    Ended
}

pub async fn yield_() {}

pub async fn wait(_: Ended) {}

pub async fn wait_all(_: Vec<Ended>) {}

/// Injects faults of these kinds that this runtime is to cope with. Operations of a synchronous
/// program report signals that interrupt them as errors, apart from the few that go on.
pub fn system_faults(kinds: &[&'static str], budget: u64) {
    let kinds: Vec<_> = kinds.iter().copied().filter(|k| (!k.ends_with("eintr") || *k == "sleep.eintr") && !k.starts_with("stdin.e") && !k.starts_with("epoll.")).collect();
    faults(&kinds, budget)
}
