//! Real system calls, made with inline assembly so that they never go through the
//! symbols this crate interposes.
use std::sync::atomic::{AtomicU32, Ordering};

#[inline]
pub unsafe fn sys6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
/// libc convention: -1 and errno
pub unsafe fn sys(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r = sys6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
pub fn real_futex_wait(w: &AtomicU32, val: u32) {
    unsafe {
        sys6(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAIT as usize | 128, val as usize, 0, 0, 0);
    }
}
pub fn real_futex_wake(w: &AtomicU32) {
    unsafe {
        sys6(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAKE as usize | 128, 1, 0, 0, 0);
    }
}
pub fn park(w: &AtomicU32) {
    while w.swap(0, Ordering::Acquire) == 0 {
        real_futex_wait(w, 0);
    }
}
pub fn unpark(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    real_futex_wake(w);
}
pub fn real_clock_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { sys6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0, 0, 0, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        sys6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
