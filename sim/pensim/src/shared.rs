//! The result region a run shares with the driver, and the driver's own output descriptors.
use crate::{heap, sched::*};
use core::sync::atomic::{AtomicU32, Ordering};

#[repr(u32)]
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Running = 0,
    Ok = 1,
    Violation = 2,
    HarnessError = 3,
}

pub const REGION: usize = 64 << 20;
pub static mut BASE: *mut u8 = core::ptr::null_mut();
static mut REAL_STDERR: i32 = 2;

pub fn real_stderr() -> i32 {
    unsafe { REAL_STDERR }
}

pub fn set_real_stderr(fd: i32) {
    unsafe { REAL_STDERR = fd }
}

pub unsafe fn map() -> *mut u8 {
    let p = libc::mmap(
        core::ptr::null_mut(),
        REGION,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

/// What a run reports: a small JSON document.
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub status: u32,
    pub class: String,
    pub message: String,
    pub steps: u64,
    pub switches: u64,
    pub time_ns: u64,
    pub threads: u64,
    pub history: u64,
    pub schedule: u64,
    pub atomics: u64,
    pub allocations: u64,
    pub faults: Vec<(String, u64, u64)>,
    pub probes: Vec<(String, u64)>,
    pub log: Vec<String>,
    pub trace: Vec<(u32, u64, u64)>,
}

struct Writer(*mut u8, usize);

impl Writer {
    fn u64(&mut self, v: u64) {
        self.bytes(&v.to_le_bytes());
    }
    fn bytes(&mut self, b: &[u8]) {
        unsafe {
            if self.1 + b.len() < REGION {
                core::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(self.1), b.len());
            }
        }
        self.1 += b.len();
    }
    fn str(&mut self, s: &str) {
        let n = s.len().min(20000);
        self.u64(n as u64);
        self.bytes(&s.as_bytes()[..n]);
    }
}

struct Reader(*const u8, usize);

impl Reader {
    fn u64(&mut self) -> u64 {
        let mut b = [0; 8];
        unsafe { core::ptr::copy_nonoverlapping(self.0.add(self.1), b.as_mut_ptr(), 8) };
        self.1 += 8;
        u64::from_le_bytes(b)
    }
    fn str(&mut self) -> String {
        let n = self.u64() as usize;
        let s = unsafe { core::slice::from_raw_parts(self.0.add(self.1), n) };
        self.1 += n;
        String::from_utf8_lossy(s).into_owned()
    }
}

pub fn publish(status: Status, class: &str, message: &str) {
    let s = sim();
    unsafe {
        let flag = &*(BASE as *const AtomicU32);
        if flag.load(Ordering::SeqCst) != 0 {
            return;
        }
        let mut w = Writer(BASE, 8);
        w.str(class);
        w.str(message);
        w.u64(s.steps);
        w.u64(s.switches);
        w.u64(s.now);
        w.u64(s.threads.len() as u64);
        w.u64(s.history_hash);
        w.u64(s.choices.hash);
        w.u64(s.tsan.atomics);
        w.u64(heap::ALLOCATIONS);
        w.u64(s.faults.len() as u64);
        for (k, v) in &s.faults {
            w.str(k);
            w.u64(v.1);
            w.u64(v.2);
        }
        w.u64(s.probes.len() as u64);
        for (k, v) in &s.probes {
            w.str(k);
            w.u64(*v);
        }
        if status == Status::Ok && !WANT_LOG {
            w.u64(0);
            w.u64(0);
        } else {
            w.u64(s.log.len() as u64);
            for l in &s.log {
                w.str(l);
            }
            let n = s.choices.record.len().min(1_000_000);
            w.u64(n as u64);
            for &(a, b, c) in &s.choices.record[..n] {
                w.u64(a as u64);
                w.u64(b);
                w.u64(c);
            }
        }
        flag.store(status as u32, Ordering::SeqCst);
    }
}

pub static mut WANT_LOG: bool = false;

pub unsafe fn reset() {
    (*(BASE as *const AtomicU32)).store(0, Ordering::SeqCst);
}

pub unsafe fn read() -> Outcome {
    let status = (*(BASE as *const AtomicU32)).load(Ordering::SeqCst);
    if status == 0 {
        return Outcome::default();
    }
    let mut r = Reader(BASE, 8);
    let mut o = Outcome { status, class: r.str(), message: r.str(), ..Default::default() };
    o.steps = r.u64();
    o.switches = r.u64();
    o.time_ns = r.u64();
    o.threads = r.u64();
    o.history = r.u64();
    o.schedule = r.u64();
    o.atomics = r.u64();
    o.allocations = r.u64();
    for _ in 0..r.u64() {
        let k = r.str();
        o.faults.push((k, r.u64(), r.u64()));
    }
    for _ in 0..r.u64() {
        let k = r.str();
        o.probes.push((k, r.u64()));
    }
    for _ in 0..r.u64() {
        o.log.push(r.str());
    }
    for _ in 0..r.u64() {
        let a = r.u64() as u32;
        let b = r.u64();
        o.trace.push((a, b, r.u64()));
    }
    o
}
