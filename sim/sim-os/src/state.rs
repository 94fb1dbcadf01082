//! Mutable states of the test package.
use crate::rt::*;
use ffi::{Any, Arc};
use pensim::api::*;
use sim_kit::*;

extern crate pen_test as _;

ffi::import!(_pen_test_state_new, fn() -> Arc<Any>);
ffi::import!(_pen_test_state_get, fn(state: Arc<Any>) -> Any);
ffi::import!(_pen_test_state_set, fn(state: Arc<Any>, value: Any) -> ffi::None);
ffi::import!(_pen_test_state_freeze, fn(state: Arc<Any>) -> ffi::None);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Value {
    None,
    Number(u32),
    Text(u32),
    Tracked(u32),
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Get(Value),
    Set(Value),
}

#[ffi::any]
#[derive(Clone)]
struct Payload(std::sync::Arc<(Tracked, u32)>);

fn make(v: Value) -> Any {
    let x: Any = match v {
        Value::None => ffi::None::new().into(),
        Value::Number(n) => ffi::Number::new(n as f64).into(),
        Value::Text(n) => ffi::ByteString::from(format!("text {n}")).into(),
        Value::Tracked(n) => Payload(std::sync::Arc::new((Tracked::new(), n))).into(),
    };
    synchronize_any(&x);
    x
}

fn read(x: Any) -> Value {
    if is_none(&x) {
        Value::None
    } else if let Some(n) = number_of(&x) {
        Value::Number(n as u32)
    } else if let Some(b) = bytes_of(&x) {
        let n = std::str::from_utf8(&b).ok().and_then(|s| s.strip_prefix("text ")?.parse().ok());
        Value::Text(n.unwrap_or_else(|| fail("wrong-value", format!("a text in the state is {b:?}"))))
    } else if let Ok(p) = <&Payload>::try_from(&x) {
        p.0 .0.touch();
        Value::Tracked(p.0 .1)
    } else {
        fail("wrong-value", "the state contains what was never set")
    }
}

/// A state holds the value set last, whoever sets and gets it.
pub fn state() {
    machine();
    faults(&["futex.spurious-wake", "epoll.early-timeout"], 8);
    let tasks = 1 + work(4) as usize;
    let states = 1 + work(2) as usize;
    let per = 1 + work(6) as usize;
    let calls: &'static Plain<Vec<Vec<Call<Op>>>> = Box::leak(Box::new(Plain::new(vec![vec![]; states])));
    start(async move {
        let handles: Vec<Arc<Any>> = (0..states).map(|_| shared_handle(unsafe { _pen_test_state_new() })).collect();
        let mut all = vec![];
        for t in 0..tasks {
            let handles = handles.clone();
            all.push(
                task(async move {
                    for i in 0..per {
                        let k = work(states as u64) as usize;
                        let id = (t * 100 + i) as u32;
                        let set = work(2) == 1;
                        let v = [Value::Number(id), Value::Text(id), Value::Tracked(id), Value::None][work(4) as usize];
                        let x = set.then(|| make(v));
                        let from = steps();
                        let op = match x {
                            Some(x) => {
                                unsafe { _pen_test_state_set(handles[k].clone(), x) };
                                Op::Set(v)
                            }
                            None => Op::Get(read(unsafe { _pen_test_state_get(handles[k].clone()) })),
                        };
                        let to = steps();
                        say!("state {k} [{from}, {to}] {op:?}");
                        calls.with(|c| c[k].push(Call { op, from, to }));
                        if work(3) == 1 {
                            yield_().await;
                        }
                    }
                })
                .await,
            );
        }
        wait_all(all).await;
        for (k, h) in handles.into_iter().enumerate() {
            let from = steps();
            let op = Op::Get(read(unsafe { _pen_test_state_get(h.clone()) }));
            calls.with(|c| c[k].push(Call { op, from, to: steps() }));
            unsafe { _pen_test_state_freeze(h) };
        }
    });
    for k in 0..states {
        let calls = calls.with(|c| c[k].clone());
        let r = linearize(Value::None, &calls, |&s, op| match op {
            Op::Set(v) => vec![*v],
            Op::Get(v) if *v == s => vec![s],
            Op::Get(_) => vec![],
        });
        if let Err(best) = r {
            if torn(&calls) {
                fail("torn-get", format!("a get of state {k} takes the value out and puts it back, which others see: {calls:?}"));
            }
            fail("wrong-value", format!("state {k} has no order of {calls:?}, at most {best:?}"));
        }
    }
    all_dropped("after the program has ended");
}

/// Is this the history of gets that take the value out and put it back later?
fn torn(calls: &[Call<Op>]) -> bool {
    #[derive(Clone)]
    enum Step {
        Set(Value),
        Take(usize, Value),
        Put(usize, Value),
    }
    let mut steps = vec![];
    for (i, c) in calls.iter().enumerate() {
        let mut add = |op| steps.push(Call { op, from: c.from, to: c.to });
        match c.op {
            Op::Set(v) => add(Step::Set(v)),
            Op::Get(v) => {
                add(Step::Take(i, v));
                add(Step::Put(i, v));
            }
        }
    }
    steps.len() < 64
        && linearizable((Value::None, 0u64), &steps, |&(s, taken), op| match op {
            Step::Set(v) => vec![(*v, taken)],
            Step::Take(i, v) if *v == s => vec![(Value::None, taken | 1 << i)],
            Step::Put(i, v) if taken >> i & 1 == 1 => vec![(*v, taken)],
            _ => vec![],
        })
}
