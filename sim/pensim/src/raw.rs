//! Raw Linux system calls that never go through the interposed libc symbols.
use core::arch::asm;

#[inline(always)]
pub unsafe fn syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

#[inline(always)]
pub unsafe fn syscall3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    syscall6(n, a, b, c, 0, 0, 0)
}

pub unsafe fn futex_wait(word: *const u32, val: u32) {
    syscall6(libc::SYS_futex, word as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0);
}

pub unsafe fn futex_wake(word: *const u32, n: i32) {
    syscall6(libc::SYS_futex, word as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, n as i64, 0, 0, 0);
}

pub fn exit_group(code: i32) -> ! {
    unsafe {
        syscall3(libc::SYS_exit_group, code as i64, 0, 0);
    }
    loop {}
}

pub fn write_all(fd: i32, mut data: &[u8]) {
    while !data.is_empty() {
        let r = unsafe { syscall3(libc::SYS_write, fd as i64, data.as_ptr() as i64, data.len() as i64) };
        if r == -(libc::EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return;
        }
        data = &data[r as usize..];
    }
}

/// Real monotonic time; only for the driver (budgets, evidence), never visible to simulated code.
pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        syscall3(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0);
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

pub fn getpid() -> i32 {
    unsafe { syscall3(libc::SYS_getpid, 0, 0, 0) as i32 }
}
