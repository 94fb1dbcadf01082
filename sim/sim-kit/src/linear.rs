//! A linearizability checker: is there an order of the operations that respects real time and that
//! a sequential model allows?
use pensim::api::Plain;
use std::{
    collections::{hash_map::DefaultHasher, HashSet},
    hash::{Hash, Hasher},
    rc::Rc,
};

type Order = Option<Rc<Link>>;
struct Link(usize, Order);

fn digest<T: Hash>(x: &T) -> (u64, u64) {
    let mut a = DefaultHasher::new();
    x.hash(&mut a);
    let mut b = DefaultHasher::new();
    0x9e37_79b9u32.hash(&mut b);
    x.hash(&mut b);
    (a.finish(), b.finish())
}

#[derive(Clone, Debug)]
pub struct Call<O> {
    pub op: O,
    pub from: u64,
    pub to: u64, // u64::MAX: it never returned, so that it may or may not have taken effect
}

/// `apply` gives the states an operation with its recorded outcome may lead to.
pub fn linearizable<S: Clone + Eq + Hash, O>(initial: S, calls: &[Call<O>], apply: impl Fn(&S, &O) -> Vec<S>) -> bool {
    linearize(initial, calls, apply).is_ok()
}

/// The possible states after all operations that returned, or the longest order found. No states
/// at all mean that there were too many orders to search.
pub fn linearize<S: Clone + Eq + Hash, O>(initial: S, calls: &[Call<O>], apply: impl Fn(&S, &O) -> Vec<S>) -> Result<Vec<S>, Vec<usize>> {
    // Outside the simulated heap, which gives nothing back.
    Plain::new(()).with(|_| search(initial, calls, apply))
}

fn search<S: Clone + Eq + Hash, O>(initial: S, calls: &[Call<O>], apply: impl Fn(&S, &O) -> Vec<S>) -> Result<Vec<S>, Vec<usize>> {
    assert!(calls.len() < 64);
    let must: u64 = calls.iter().enumerate().filter(|(_, c)| c.to != u64::MAX).map(|(i, _)| 1 << i).sum();
    let mut seen = HashSet::new();
    let mut ends = HashSet::new();
    let mut stack = vec![(0u64, initial, None)];
    let mut best: (usize, Order) = (0, None);
    while let Some((done, state, order)) = stack.pop() {
        if !seen.insert(digest(&(done, &state))) {
            continue;
        }
        if seen.len() > 500_000 {
            pensim::api::probe("a history had too many orders to search them all");
            return Ok(vec![]);
        }
        if done.count_ones() as usize > best.0 {
            best = (done.count_ones() as usize, order.clone());
        }
        if done & must == must {
            ends.insert(state.clone());
        }
        // Only operations that began before every other pending one returned may come next.
        let limit = calls.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, c)| c.to).min().unwrap_or(u64::MAX);
        for (i, c) in calls.iter().enumerate() {
            if done >> i & 1 == 0 && c.from <= limit {
                for s in apply(&state, &c.op) {
                    stack.push((done | 1 << i, s, Some(Rc::new(Link(i, order.clone())))));
                }
            }
        }
    }
    if ends.is_empty() {
        let mut order = vec![];
        let mut next = best.1;
        while let Some(o) = next {
            order.push(o.0);
            next = o.1.clone();
        }
        order.reverse();
        Err(order)
    } else {
        Ok(ends.into_iter().collect())
    }
}
