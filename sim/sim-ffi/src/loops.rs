//! Loops of compiled code that call native code again and again.
use ffi::{
    cps::{AsyncStack, ContinuationFunction},
    ByteString, Closure, Number,
};
use pensim::{api::*, sched::kernel};
use sim_kit::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Ready,      // a future of Rust that has its result at once
    Suspending, // one that suspends now and then
    Function,   // an asynchronous function of Rust
    Waiting,    // one that suspends now and then
    Thunk,      // a future of Rust that awaits compiled code
    Text,       // an asynchronous function of Rust that takes and returns a string
}

struct Loop {
    kind: Kind,
    turns: u64,
    at: u64,
    rare: u64, // one of how many calls suspends
    /// The deepest address of the native stack of each thread, early and late.
    depths: Vec<[Option<usize>; 2]>,
    live: Vec<u64>,
}

static LOOPS: Plain<Vec<Loop>> = Plain::new(vec![]);
static ALONE: Plain<bool> = Plain::new(false);

#[ffi::bindgen]
async fn _sim_loop_function(x: Number) -> Number {
    (f64::from(x) + 1.0).into()
}

#[ffi::bindgen]
async fn _sim_loop_waiting(x: Number, rounds: Number) -> Number {
    later(f64::from(rounds) as u64).await;
    (f64::from(x) + 1.0).into()
}

#[ffi::bindgen]
async fn _sim_loop_text(x: ByteString) -> ByteString {
    ByteString::from((String::from_utf8_lossy(x.as_slice()).parse::<u64>().unwrap() + 1).to_string())
}

type Entry = extern "C" fn(&mut AsyncStack<()>, ContinuationFunction<Number, ()>, Closure<()>);

extern "C" fn compiled_thunk(stack: &mut AsyncStack<()>, k: ContinuationFunction<Number, ()>, closure: Closure<()>) {
    let x = unsafe { *(closure.payload() as *const u64) };
    drop(closure);
    k(stack, Number::new(x as f64 + 1.0))
}

extern "C" fn turned_text(stack: &mut AsyncStack<()>, x: ByteString) {
    turned(stack, String::from_utf8_lossy(x.as_slice()).parse::<u64>().unwrap() as f64)
}

extern "C" fn turned_number(stack: &mut AsyncStack<()>, x: Number) {
    turned(stack, f64::from(x))
}

/// The loop's body: one more call, or the end.
fn turned(stack: &mut AsyncStack<()>, x: f64) {
    let id = stack.pop::<u64>() as usize;
    let mark = 0u8;
    let address = &mark as *const u8 as usize;
    let thread = pensim::sched::me();
    let alone = ALONE.with(|a| *a);
    let (kind, at, rare, over) = LOOPS.with(|l| {
        let l = &mut l[id];
        ensure!(x == l.at as f64, "wrong-result", "turn {} of the loop {id} gives {x}", l.at);
        while l.depths.len() <= thread {
            l.depths.push([None; 2]);
        }
        let window = if l.at < l.turns / 4 { 0 } else { 1 };
        let d = &mut l.depths[thread][window];
        *d = Some(d.map_or(address, |d: usize| d.min(address)));
        if alone && l.at % 20 == 19 {
            l.live.push(pensim::heap::live_with_marker(1).iter().map(|x| x.1).sum());
        }
        let over = l.at == l.turns;
        l.at += 1;
        (l.kind, l.at - 1, l.rare, over)
    });
    if over {
        let k = stack.pop::<ContinuationFunction<Number, ()>>();
        return k(stack, Number::new(x));
    }
    stack.push(id as u64);
    let rounds = if work(rare) == 0 { 1 } else { 0 };
    match kind {
        Kind::Ready => call(stack, ffi::future::to_closure(async move { Number::new(at as f64 + 1.0) })),
        Kind::Suspending => call(
            stack,
            ffi::future::to_closure(async move {
                later(rounds).await;
                Number::new(at as f64 + 1.0)
            }),
        ),
        Kind::Thunk => call(
            stack,
            ffi::future::to_closure(async move {
                later(rounds).await;
                ffi::future::from_closure::<(), Number>(Closure::new(compiled_thunk as *const u8, at).into_opaque()).await
            }),
        ),
        Kind::Function => _sim_loop_function(stack, turned_number, Number::new(x)),
        Kind::Waiting => _sim_loop_waiting(stack, turned_number, Number::new(x), Number::new(rounds as f64)),
        Kind::Text => _sim_loop_text(stack, turned_text, ByteString::from(at.to_string())),
    }
}

fn call(stack: &mut AsyncStack<()>, c: Closure) {
    let entry: Entry = unsafe { std::mem::transmute(c.entry_function()) };
    entry(stack, turned_number, c)
}

extern "C" fn begin(stack: &mut AsyncStack<()>, k: ContinuationFunction<Number, ()>, closure: Closure<()>) {
    let id = unsafe { *(closure.payload() as *const u64) };
    drop(closure);
    stack.push(k);
    stack.push(id);
    turned(stack, 0.0)
}

/// Loops take as much stack and memory for their last turn as for their first ones.
pub fn loops() {
    faults(&["task.spurious-poll"], 60);
    strict_wakers(config(2) == 0);
    let workers = 1 + config(3) as usize;
    let n = 1 + work(3) as usize;
    ALONE.with(|a| *a = n == 1);
    let kinds = [Kind::Ready, Kind::Suspending, Kind::Function, Kind::Waiting, Kind::Thunk, Kind::Text];
    for _ in 0..n {
        let l = Loop { kind: kinds[work(6) as usize], turns: 100 + work(if n == 1 { 1200 } else { 300 }), at: 0, rare: 2 + work(30), depths: vec![], live: vec![] };
        say!("a loop of {} turns: {:?}", l.turns, l.kind);
        LOOPS.with(|x| x.push(l));
    }
    mark_allocations();
    for i in 0..n {
        spawn(async move {
            let turns = LOOPS.with(|l| l[i].turns);
            let x: Number = ffi::future::from_closure(Closure::new(begin as *const u8, i as u64).into_opaque()).await;
            ensure!(f64::from(x) == turns as f64, "wrong-result", "a loop of {turns} turns gives {}", f64::from(x));
        });
    }
    sim_kit::run(workers);
    kernel(|| {
        LOOPS.with(|l| {
            for l in l.iter() {
                ensure!(l.at == l.turns + 1, "lost-turn", "a loop of {} turns has taken {}", l.turns, l.at);
                for d in &l.depths {
                    if let [Some(early), Some(late)] = d {
                        let more = early.saturating_sub(*late);
                        ensure!(more < 16_000, "deep-stack", "{} turns of a loop take {more} bytes of native stack more than the first ones", l.turns);
                        probe("stack depths were compared");
                    }
                }
                if l.live.len() > 8 {
                    let least = |x: &[u64]| *x.iter().min().unwrap();
                    let (a, b) = (least(&l.live[1..4]), least(&l.live[l.live.len() - 3..]));
                    ensure!(b <= a + 400, "growing-memory", "a loop of {} turns holds {a} bytes first and {b} bytes in the end", l.turns);
                    probe("memory was compared");
                }
            }
        })
    });
    no_leaks("after every loop has ended");
}
