//! A Pen program as scenarios write it: `_pen_main` is a future, `go` and `race` are the built-in
//! functions, and the functions of the os package return results.
use ffi::{
    cps::{AsyncStack, ContinuationFunction},
    Any, Arc, ByteString, Closure, List,
};
use pensim::api::*;
use sim_kit::*;
use std::{cell::Cell, future::Future, pin::Pin};

extern crate os as _;

type Program = Pin<Box<dyn Future<Output = ()>>>;

/// Whether calls that wait keep other tasks from running.
pub const SYNC: bool = false;
static PROGRAM: Plain<Option<Program>> = Plain::new(None);

#[no_mangle]
extern "C" fn _pen_main(stack: &mut AsyncStack<()>, k: ContinuationFunction<ffi::None, ()>) {
    let program = PROGRAM.with(|p| p.take()).expect("a program");
    enter(stack, k, async move {
        program.await;
        ffi::None::new()
    })
}

/// Runs the program to its end, as an operating system would, up to the end of the runtime's
/// `main` function.
pub fn start(program: impl Future<Output = ()> + 'static) {
    let program: Program = Box::pin(program);
    let program = Cell::new(Some(program));
    PROGRAM.with(|p| *p = program.take());
    os_app::pensim_main();
}

/// Sets the machine up: the number of processors and how slow its devices are.
pub fn machine() {
    let cpus = 1 + config(3) as usize;
    let fs = [0, 0, 2_000, 200_000][config(4) as usize];
    let net = [0, 1_000, 50_000, 400_000][config(4) as usize];
    os(|o| {
        o.cpus = cpus;
        o.fs_latency = fs;
        o.net_latency = net;
    });
}

pub fn s(x: impl AsRef<[u8]>) -> ByteString {
    x.as_ref().into()
}

ffi::import!(_pen_spawn, async fn(closure: Closure) -> Closure);
ffi::import!(_pen_yield, async fn() -> ffi::None);
ffi::import!(_pen_race, async fn(list: List) -> List);
macro_rules! function {
    ($name:ident($($a:ident: $t:ty),*) -> $r:ty) => { ffi::import!($name, async fn($($a: $t),*) -> $r); };
}
include!("calls.rs");
ffi::import!(_pen_os_run_command, async fn(command: ByteString, arguments: List) -> Any);
ffi::import!(_pen_os_get_time, fn() -> ffi::Number);
ffi::import!(_pen_debug, fn(message: ByteString) -> ffi::None);

/// `go`: the future it returns may be evaluated any number of times.
pub async fn go(f: impl Future<Output = Any> + 'static) -> Closure {
    synchronized(_pen_spawn(thunk(f)).await)
}

/// `go` for work that is only waited for.
pub async fn task(f: impl Future<Output = ()> + 'static) -> Closure {
    go(async move {
        f.await;
        ffi::None::new().into()
    })
    .await
}

pub async fn wait(c: Closure) {
    evaluate(c).await;
}

pub async fn wait_all(cs: Vec<Closure>) {
    for c in cs {
        wait(c).await;
    }
}

/// Runs these concurrently and waits for all of them.
pub async fn all(fs: Vec<Pin<Box<dyn Future<Output = ()>>>>) {
    let mut cs = vec![];
    for f in fs {
        cs.push(task(f).await);
    }
    wait_all(cs).await
}

pub async fn yield_() {
    _pen_yield().await;
}

pub async fn race(list: List) -> List {
    _pen_race(list).await
}

pub async fn run_command(command: &str, arguments: List) -> Result<()> {
    done(_pen_os_run_command(s(command), arguments).await)
}

/// Injects faults of these kinds that this runtime is to cope with.
pub fn system_faults(kinds: &[&'static str], budget: u64) {
    faults(kinds, budget)
}
