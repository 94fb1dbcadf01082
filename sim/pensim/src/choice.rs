//! Choice streams: every nondeterministic decision of a run is one indexed draw.
//!
//! In generation mode a draw is a pure function of (seed, stream, index); in replay mode it is
//! looked up in the recorded trace and is 0, the simplest alternative, where nothing was recorded.
use std::collections::BTreeMap;

pub const CONFIG: u32 = 0;
pub const WORK: u32 = 1;
pub const FAULT: u32 = 2;
pub const LATENCY: u32 = 3;
pub const ENTROPY: u32 = 4;
/// Scheduling decisions of thread `t` are in stream `SCHED + t`, indexed by that thread's own count.
pub const SCHED: u32 = 16;
pub const BLOCK: u32 = 128;

pub type Trace = Vec<(u32, u64, u64)>;

pub struct Choices {
    pub seed: u64,
    pub replay: bool,
    pub map: BTreeMap<(u32, u64), u64>,
    pub record: Trace,
    counters: [u64; 256],
    pub hash: u64,
}

#[inline(always)]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Choices {
    pub fn new(seed: u64, replay: Option<&Trace>) -> Self {
        Self {
            seed,
            replay: replay.is_some(),
            map: replay.map(|t| t.iter().map(|&(s, i, v)| ((s, i), v)).collect()).unwrap_or_default(),
            record: vec![],
            counters: [0; 256],
            hash: 0,
        }
    }

    #[inline(always)]
    pub fn noise(&self, stream: u32, index: u64) -> u64 {
        mix(self.seed ^ mix(((stream as u64) << 48) ^ index))
    }

    /// A draw at an explicit index.
    #[inline]
    pub fn at(&mut self, stream: u32, index: u64, n: u64, generate: impl FnOnce(u64) -> u64) -> u64 {
        let value = if self.replay {
            self.map.get(&(stream, index)).copied().unwrap_or(0).min(n.saturating_sub(1))
        } else {
            generate(self.noise(stream, index))
        };
        if value != 0 {
            self.record.push((stream, index, value));
            self.hash = mix(self.hash ^ mix(((stream as u64) << 40) ^ index) ^ value);
        }
        value
    }

    pub fn next(&mut self, stream: u32, n: u64, generate: impl FnOnce(u64) -> u64) -> u64 {
        let index = self.counters[stream as usize];
        self.counters[stream as usize] += 1;
        self.at(stream, index, n, generate)
    }
}
