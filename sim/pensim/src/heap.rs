//! The simulated heap: a bump arena at a fixed address that never reuses memory, with redzones and
//! one shadow byte per 8 bytes. Exact detection of use after free, overflow, double free and leaks.
use crate::{sched::*, tsan};
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x1000_0000_0000;
pub const SIZE: usize = 1 << 31;
const SHADOW: usize = 0x1800_0000_0000;
const FREED: u8 = 0xfd;
const LIVE: u64 = 0x4c49_5645_4c49_5645;
const DEAD: u64 = 0x4445_4144_4445_4144;

static mut NEXT: usize = 0;
static mut LAST: usize = 0;
pub static mut LIVE_COUNT: u64 = 0;
pub static mut LIVE_BYTES: u64 = 0;
pub static mut ALLOCATIONS: u64 = 0;

#[repr(C)]
struct Header {
    magic: u64,
    size: u64,
    serial: u64,
    previous: u64,
    tag: u64,
    pad: u64,
}

const HEADER: usize = core::mem::size_of::<Header>();

pub unsafe fn init() {
    for (a, n) in [(BASE, SIZE), (SHADOW, SIZE / 8)] {
        let p = libc::mmap(
            a as _,
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p as usize != a {
            harness_error("cannot map the simulated heap");
        }
    }
    NEXT = BASE + 4096;
}

#[inline(always)]
fn shadow(address: usize) -> *mut u8 {
    (SHADOW + (address - BASE) / 8) as *mut u8
}

#[inline(always)]
pub fn contains(address: usize) -> bool {
    address >= BASE && address < BASE + SIZE
}

#[inline(always)]
pub fn addressable(address: usize, size: usize) -> bool {
    if unsafe { REUSE } {
        return true;
    }
    unsafe {
        let end = address + size;
        let mut a = address & !7;
        while a < end {
            let v = *shadow(a);
            if v != 8 {
                let upto = (end - a).min(8) as u8;
                if v == 0 || v > 8 || upto > v {
                    return false;
                }
            }
            a += 8;
        }
        true
    }
}

unsafe fn header_of(pointer: usize) -> *mut Header {
    (pointer - HEADER) as *mut Header
}

pub fn describe(address: usize) -> String {
    unsafe {
        if !contains(address) {
            return format!("{address:#x}");
        }
        let mut h = LAST;
        while h != 0 {
            let header = header_of(h);
            if h <= address + 16 {
                return format!(
                    "offset {} of the {} {}-byte allocation #{}",
                    address as i64 - h as i64,
                    if (*header).magic == LIVE { "live" } else { "freed" },
                    (*header).size,
                    (*header).serial
                );
            }
            h = (*header).previous as usize;
        }
        format!("{address:#x}")
    }
}

pub fn report(address: usize, size: usize, what: &str) -> ! {
    let freed = unsafe { *shadow(address & !7) == FREED };
    violate(
        if freed { "use-after-free" } else { "out-of-bounds" },
        &format!("{what} of {size} bytes at {}", describe(address)),
    )
}

/// Freed blocks by size class, reused once `REUSE` is set: for programs that allocate a lot.
pub static mut REUSE: bool = false;
static mut FREE: [usize; 40] = [0; 40];

fn class(size: usize) -> usize {
    size.max(16).next_power_of_two().trailing_zeros() as usize
}

unsafe fn allocate_reused(size: usize, align: usize) -> *mut u8 {
    let c = class(size);
    if align <= 16 && FREE[c] != 0 {
        let p = FREE[c];
        FREE[c] = *(p as *const usize);
        (*header_of(p)).magic = LIVE;
        (*header_of(p)).size = size as u64;
        return p as *mut u8;
    }
    let p = (NEXT + HEADER + align.max(16) - 1) & !(align.max(16) - 1);
    let end = p + (1 << c);
    if end + 64 > BASE + SIZE {
        kernel(|| violate("memory", "the program used more memory than the simulation has"));
    }
    NEXT = end;
    ALLOCATIONS += 1;
    *header_of(p) = Header { magic: LIVE, size: size as u64, serial: ALLOCATIONS, previous: 0, tag: 1, pad: align as u64 };
    p as *mut u8
}

unsafe fn release_reused(p: *mut u8) {
    let h = header_of(p as usize);
    if (*h).magic != LIVE {
        kernel(|| violate("invalid-free", "deallocation of a block that is not live"));
    }
    (*h).magic = DEAD;
    if (*h).pad <= 16 {
        let c = class((*h).size as usize);
        *(p as *mut usize) = FREE[c];
        FREE[c] = p as usize;
    }
}

unsafe fn allocate(size: usize, align: usize) -> *mut u8 {
    if REUSE {
        return allocate_reused(size, align);
    }
    let align = align.max(16);
    let p = (NEXT + HEADER + 16 + align - 1) & !(align - 1);
    let end = p + size;
    if end + 64 > BASE + SIZE {
        kernel(|| violate("memory", "the program used more memory than the simulation has"));
    }
    NEXT = (end + 16 + 15) & !15;
    ALLOCATIONS += 1;
    *header_of(p) = Header { magic: LIVE, size: size as u64, serial: ALLOCATIONS, previous: LAST as u64, tag: sim().leak_marker, pad: 0 };
    LAST = p;
    LIVE_COUNT += 1;
    LIVE_BYTES += size as u64;
    let full = size / 8;
    core::ptr::write_bytes(shadow(p), 8, full);
    if size % 8 != 0 {
        *shadow(p + full * 8) = (size % 8) as u8;
    }
    p as *mut u8
}

unsafe fn release(p: *mut u8) {
    let h = header_of(p as usize);
    if REUSE && (*h).previous == 0 && (*h).tag == 1 {
        return release_reused(p);
    }
    if (*h).magic != LIVE {
        let dead = (*h).magic == DEAD;
        kernel(|| {
            violate(
                if dead { "double-free" } else { "invalid-free" },
                &format!("deallocation of {}", describe(p as usize)),
            )
        });
    }
    let size = (*h).size as usize;
    if size > 0 {
        if sim().tsan.races {
            tsan::touch(p as usize, size, true);
        }
        kernel(|| sim().tsan.forget(p as usize, size));
    }
    (*h).magic = DEAD;
    LIVE_COUNT -= 1;
    LIVE_BYTES -= size as u64;
    core::ptr::write_bytes(shadow(p as usize), FREED, (size + 7) / 8);
    // Destroy the contents, so that code outside the instrumented crates notices too.
    core::ptr::write_bytes(p, 0xdd, size.min(4096));
}

/// Live allocations made under the given marker (see `Sim::leak_marker`).
pub fn live_with_marker(marker: u64) -> Vec<(u64, u64)> {
    unsafe {
        let mut r = vec![];
        let mut h = LAST;
        while h != 0 {
            let header = header_of(h);
            if (*header).magic == LIVE && (*header).tag == marker {
                r.push(((*header).serial, (*header).size));
            }
            h = (*header).previous as usize;
        }
        r.reverse();
        r
    }
}

pub struct SimAllocator;

unsafe impl GlobalAlloc for SimAllocator {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if ACTIVE && DEPTH == 0 {
            let p = allocate(layout.size(), layout.align());
            core::ptr::write_bytes(p, 0xcd, layout.size().min(4096));
            p
        } else {
            System.alloc(layout)
        }
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if ACTIVE && DEPTH == 0 {
            // Fresh arena pages are zero already and never reused.
            let p = allocate(layout.size(), layout.align());
            if REUSE {
                core::ptr::write_bytes(p, 0, layout.size());
            }
            p
        } else {
            System.alloc_zeroed(layout)
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        if contains(p as usize) {
            release(p)
        } else if ACTIVE && DEPTH == 0 && (p as usize) < 4096 {
            kernel(|| violate("invalid-free", "deallocation of a null or dangling pointer"))
        } else {
            System.dealloc(p, layout)
        }
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        if contains(p as usize) {
            let old = (*header_of(p as usize)).size as usize;
            let q = self.alloc(Layout::from_size_align_unchecked(size, layout.align().max(8)));
            core::ptr::copy_nonoverlapping(p, q, old.min(size));
            release(p);
            q
        } else if ACTIVE && DEPTH == 0 && !p.is_null() {
            let q = self.alloc(Layout::from_size_align_unchecked(size, layout.align().max(8)));
            core::ptr::copy_nonoverlapping(p, q, layout.size().min(size));
            System.dealloc(p, layout);
            q
        } else {
            System.realloc(p, layout, size)
        }
    }
}

#[global_allocator]
static ALLOCATOR: SimAllocator = SimAllocator;
