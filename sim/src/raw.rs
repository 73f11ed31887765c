//! System calls that bypass every interposed symbol.

use std::arch::asm;

/// Returns the kernel's raw result (negative errno on failure).
#[inline(always)]
pub unsafe fn syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!(
        "syscall",
        inlateout("rax") n as isize => r,
        in("rdi") a,
        in("rsi") b,
        in("rdx") c,
        in("r10") d,
        in("r8") e,
        in("r9") f,
        lateout("rcx") _,
        lateout("r11") _,
        options(nostack)
    );
    r
}

/// As libc's wrappers: -1 and errno on failure.
#[inline(always)]
pub unsafe fn sys(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r = syscall6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        return -1;
    }
    r
}

#[inline(always)]
pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e };
}
