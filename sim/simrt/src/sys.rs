//! Raw system interfaces (no libc crate).
use super::Exit;
use std::sync::atomic::AtomicU32;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn __errno_location() -> *mut i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const u8, flags: i32, ...) -> i32;
}
extern "C" {
    #[link_name = "alarm"]
    fn c_alarm(s: u32) -> u32;
}

/// # Safety
/// raw system call
pub unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
pub fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe { raw6(202, a as *const _ as usize, 128, v as usize, 0, 0, 0) };
}
pub fn futex_wake(a: &AtomicU32) {
    unsafe { raw6(202, a as *const _ as usize, 129, i32::MAX as usize, 0, 0, 0) };
}
pub fn mmap_shared(n: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p
}
pub fn fork_raw() -> i32 {
    let p = unsafe { fork() };
    assert!(p >= 0, "fork failed");
    p
}
pub fn exit_now(c: i32) -> ! {
    unsafe { _exit(c) }
}
pub fn wait(pid: i32) -> Exit {
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && unsafe { *__errno_location() } != 4 {
            return Exit::Code(-1);
        }
    }
    if st & 0x7f == 0 {
        Exit::Code((st >> 8) & 0xff)
    } else {
        Exit::Signal(st & 0x7f)
    }
}
pub fn alarm(s: u32) {
    unsafe { c_alarm(s) };
}
/// No core files, bounded address space.
pub fn limits(mem: u64) {
    unsafe {
        setrlimit(4, &[0, 0]);
        setrlimit(9, &[mem, mem]);
    }
}
pub fn silence_stderr() {
    unsafe {
        let fd = open(b"/dev/null\0".as_ptr(), 1);
        if fd >= 0 {
            dup2(fd, 2);
        }
    }
}
pub fn silence_stderr_if(b: bool) {
    if b {
        silence_stderr()
    }
}
