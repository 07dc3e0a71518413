//! Raw system calls and the few libc declarations the simulator needs.
//! Nothing here goes through the interposed symbols.
use std::arch::asm;

pub const SYS_READ: i64 = 0;
pub const SYS_WRITE: i64 = 1;
pub const SYS_CLOSE: i64 = 3;
pub const SYS_LSEEK: i64 = 8;
pub const SYS_PREAD: i64 = 17;
pub const SYS_PWRITE: i64 = 18;
pub const SYS_READV: i64 = 19;
pub const SYS_WRITEV: i64 = 20;
pub const SYS_ACCESS: i64 = 21;
pub const SYS_SCHED_YIELD: i64 = 24;
pub const SYS_DUP: i64 = 32;
pub const SYS_DUP2: i64 = 33;
pub const SYS_NANOSLEEP: i64 = 35;
pub const SYS_GETPID: i64 = 39;
pub const SYS_SENDFILE: i64 = 40;
pub const SYS_FCNTL: i64 = 72;
pub const SYS_FLOCK: i64 = 73;
pub const SYS_FSYNC: i64 = 74;
pub const SYS_FDATASYNC: i64 = 75;
pub const SYS_TRUNCATE: i64 = 76;
pub const SYS_FTRUNCATE: i64 = 77;
pub const SYS_RENAME: i64 = 82;
pub const SYS_MKDIR: i64 = 83;
pub const SYS_RMDIR: i64 = 84;
pub const SYS_LINK: i64 = 86;
pub const SYS_UNLINK: i64 = 87;
pub const SYS_SYMLINK: i64 = 88;
pub const SYS_READLINK: i64 = 89;
pub const SYS_CHMOD: i64 = 90;
pub const SYS_FCHMOD: i64 = 91;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_FADVISE: i64 = 221;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_CLOCK_NANOSLEEP: i64 = 230;
pub const SYS_EXIT_GROUP: i64 = 231;
pub const SYS_OPENAT: i64 = 257;
pub const SYS_NEWFSTATAT: i64 = 262;
pub const SYS_FSTAT: i64 = 5;
pub const SYS_UNLINKAT: i64 = 263;
pub const SYS_RENAMEAT: i64 = 264;
pub const SYS_LINKAT: i64 = 265;
pub const SYS_FACCESSAT: i64 = 269;
pub const SYS_FALLOCATE: i64 = 285;
pub const SYS_GETCWD: i64 = 79;
pub const SYS_GETPPID: i64 = 110;
pub const SYS_GETRANDOM: i64 = 318;
pub const SYS_STATX: i64 = 332;
pub const SYS_COPY_FILE_RANGE: i64 = 326;
pub const SYS_RENAMEAT2: i64 = 316;

pub const AT_FDCWD: i32 = -100;

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const EXDEV: i32 = 18;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const EROFS: i32 = 30;
pub const ENAMETOOLONG: i32 = 36;
pub const ENOSYS: i32 = 38;
pub const ENOTEMPTY: i32 = 39;
pub const ETIMEDOUT: i32 = 110;
pub const EDQUOT: i32 = 122;
pub const ESTALE: i32 = 116;

#[inline(always)]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn sys3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    sys6(n, a, b, c, 0, 0, 0)
}
pub unsafe fn sys4(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    sys6(n, a, b, c, d, 0, 0)
}

extern "C" {
    fn __errno_location() -> *mut i32;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn mmap64(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn alarm(s: u32) -> u32;
    pub fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn setrlimit(res: i32, r: *const [u64; 2]) -> i32;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
/// Convert a raw kernel result to the libc convention.
pub fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub fn fail(e: i32) -> i64 {
    set_errno(e);
    -1
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        sys3(SYS_EXIT_GROUP, code as i64, 0, 0);
    }
    loop {}
}
pub fn raw_print(s: &str) {
    unsafe {
        sys3(SYS_WRITE, 2, s.as_ptr() as i64, s.len() as i64);
    }
}
