//! Values whose lifetime is checked: made once, dropped once, never seen in between or after.
use pensim::api::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Life {
    Live,
    Dropped,
}

static LIVES: Plain<Vec<Life>> = Plain::new(vec![]);
static SUM: Plain<u64> = Plain::new(0);

pub struct Tracked {
    pub id: u64,
    check: u64,
}

const CHECK: u64 = 0x5ca1_ab1e_0ddb_a115;

impl Tracked {
    pub fn new() -> Self {
        let id = LIVES.with(|l| {
            l.push(Life::Live);
            l.len() as u64 - 1
        });
        Self { id, check: id ^ CHECK }
    }
    pub fn touch(&self) -> u64 {
        let (id, check) = (self.id, self.check);
        if check != id ^ CHECK {
            fail("corrupt-value", format!("a live value reads {id:#x}/{check:#x}"));
        }
        if LIVES.with(|l| l.get(id as usize).copied()) != Some(Life::Live) {
            fail("use-after-drop", format!("value {id} is read after its destruction"));
        }
        id
    }
}

impl Default for Tracked {
    fn default() -> Self {
        Self::new()
    }
}

impl Clone for Tracked {
    fn clone(&self) -> Self {
        self.touch();
        Self::new()
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        let (id, check) = (self.id, self.check);
        if check != id ^ CHECK {
            fail("corrupt-value", format!("a value being dropped reads {id:#x}/{check:#x}"));
        }
        let twice = LIVES.with(|l| std::mem::replace(&mut l[id as usize], Life::Dropped) == Life::Dropped);
        if twice {
            fail("double-drop", format!("value {id} is dropped twice"));
        }
        SUM.with(|s| *s += 1);
    }
}

pub fn live_values() -> Vec<u64> {
    LIVES.with(|l| (0..l.len() as u64).filter(|&i| l[i as usize] == Life::Live).collect())
}

pub fn made_values() -> u64 {
    LIVES.with(|l| l.len() as u64)
}

/// Whatever was made has been dropped.
pub fn all_dropped(when: &str) {
    let live = live_values();
    ensure!(live.is_empty(), "leak", "{} of {} values are never dropped ({when})", live.len(), made_values());
}

/// Tags what is allocated from now on, for `no_leaks`.
pub fn mark_allocations() {
    pensim::sched::sim().leak_marker = 1;
}

pub fn unmark_allocations() {
    pensim::sched::sim().leak_marker = 0;
}

pub fn no_leaks(when: &str) {
    pensim::sched::sim().leak_marker = 0;
    let live = pensim::sched::kernel(|| pensim::heap::live_with_marker(1));
    ensure!(
        live.is_empty(),
        "leak",
        "{} allocations of {} bytes in total are never freed ({when})",
        live.len(),
        live.iter().map(|x| x.1).sum::<u64>()
    );
}
