#![allow(unknown_lints, invalid_runtime_symbol_definitions, clashing_extern_declarations)]
//! Definitions of the libc symbols std binds to.  Calls of simulated tasks go
//! to the world, all others to the kernel.
use super::fs::FD_BASE;
use super::raw::*;
use super::{active, sched, simulated, w, Inside, K};
use std::ffi::{c_char, c_int, c_void, CStr};

fn is_sim_fd(fd: c_int) -> bool {
    fd >= FD_BASE && active()
}
fn out(r: Result<i64, i32>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => fail(e),
    }
}
unsafe fn path<'a>(p: *const c_char) -> std::borrow::Cow<'a, str> {
    CStr::from_ptr(p).to_string_lossy()
}
fn with<R>(why: &str, f: impl FnOnce() -> R) -> R {
    sched::point(why, false);
    let _i = Inside::new();
    f()
}

// ---- open ----
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    openat(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    openat(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    openat(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if simulated() {
        return with("open", || out(w().fs_open(&path(p), flags))) as c_int;
    }
    ret(sys4(SYS_OPENAT, d as i64, p as i64, flags as i64, mode as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const c_char, mode: c_int) -> c_int {
    openat(AT_FDCWD, p, 0o1101, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: c_int) -> c_int {
    openat(AT_FDCWD, p, 0o1101, mode)
}

// ---- read ----
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    if is_sim_fd(fd) {
        return with("read", || out(w().fs_read(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), None))) as isize;
    }
    ret(sys3(SYS_READ, fd as i64, b as i64, n as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: usize, off: i64) -> isize {
    if is_sim_fd(fd) {
        return with("read", || out(w().fs_read(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), Some(off as u64)))) as isize;
    }
    ret(sys4(SYS_PREAD, fd as i64, b as i64, n as i64, off)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, off: i64) -> isize {
    pread(fd, b, n, off)
}
#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    if is_sim_fd(fd) {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.len > 0 {
                return read(fd, x.base as *mut c_void, x.len);
            }
        }
        return 0;
    }
    ret(sys3(SYS_READV, fd as i64, v as i64, n as i64)) as isize
}

// ---- write ----
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if is_sim_fd(fd) {
        return with("write", || out(w().fs_write(fd, std::slice::from_raw_parts(b as *const u8, n), None))) as isize;
    }
    if fd == 2 && simulated() && cfg!(feature = "py") {
        // Messages of the code under test are no output of the check.
        return n as isize;
    }
    ret(sys3(SYS_WRITE, fd as i64, b as i64, n as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: usize, off: i64) -> isize {
    if is_sim_fd(fd) {
        return with("write", || out(w().fs_write(fd, std::slice::from_raw_parts(b as *const u8, n), Some(off as u64)))) as isize;
    }
    ret(sys4(SYS_PWRITE, fd as i64, b as i64, n as i64, off)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, off: i64) -> isize {
    pwrite(fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    if is_sim_fd(fd) {
        let mut all = Vec::new();
        {
            let _i = Inside::new();
            for i in 0..n as usize {
                let x = &*v.add(i);
                all.extend_from_slice(std::slice::from_raw_parts(x.base, x.len));
            }
        }
        let r = write(fd, all.as_ptr() as *const c_void, all.len());
        let _i = Inside::new();
        drop(all);
        return r;
    }
    ret(sys3(SYS_WRITEV, fd as i64, v as i64, n as i64)) as isize
}

// ---- seek, close, dup, sync ----
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if is_sim_fd(fd) {
        return with("seek", || out(w().fs_lseek(fd, off, wh)));
    }
    ret(sys3(SYS_LSEEK, fd as i64, off, wh as i64))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
    lseek64(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_sim_fd(fd) {
        return with("close", || out(w().fs_close(fd))) as c_int;
    }
    ret(sys3(SYS_CLOSE, fd as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if is_sim_fd(fd) {
        return with("dup", || out(w().fs_dup(fd))) as c_int;
    }
    ret(sys3(SYS_DUP, fd as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    if is_sim_fd(fd) {
        return match cmd {
            0 | 1030 => with("dup", || out(w().fs_dup(fd))) as c_int,
            1 => 1,
            _ => 0,
        };
    }
    ret(sys3(SYS_FCNTL, fd as i64, cmd as i64, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if is_sim_fd(fd) {
        return with("sync", || out(w().fs_sync(fd))) as c_int;
    }
    ret(sys3(SYS_FSYNC, fd as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if is_sim_fd(fd) {
        return with("sync", || out(w().fs_sync(fd))) as c_int;
    }
    ret(sys3(SYS_FDATASYNC, fd as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if is_sim_fd(fd) {
        return 0;
    }
    ret(sys3(SYS_FLOCK, fd as i64, op as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: i64, b: i64, c: c_int) -> c_int {
    if is_sim_fd(fd) {
        return 0;
    }
    -(sys4(SYS_FADVISE, fd as i64, a, b, c as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if is_sim_fd(fd) {
        return with("truncate", || out(w().fs_ftruncate(fd, n as usize))) as c_int;
    }
    ret(sys3(SYS_FTRUNCATE, fd as i64, n, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: u32) -> c_int {
    if is_sim_fd(fd) {
        return 0;
    }
    ret(sys3(SYS_FCHMOD, fd as i64, m as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: u32) -> c_int {
    if simulated() {
        return with("chmod", || out(w().fs_stat(&path(p)).map(|_| 0))) as c_int;
    }
    ret(sys3(SYS_CHMOD, p as i64, m as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, f: u32) -> isize {
    if is_sim_fd(a) || is_sim_fd(b) {
        return fail(ENOSYS) as isize;
    }
    ret(sys6(SYS_COPY_FILE_RANGE, a as i64, ao as i64, b as i64, bo as i64, n as i64, f as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: usize) -> isize {
    if is_sim_fd(o) || is_sim_fd(i) {
        return fail(ENOSYS) as isize;
    }
    ret(sys4(SYS_SENDFILE, o as i64, i as i64, off as i64, n as i64)) as isize
}

// ---- stat ----
unsafe fn fill_stat(b: *mut u8, r: Result<(u64, bool, usize), i32>) -> c_int {
    match r {
        Err(e) => fail(e) as c_int,
        Ok((size, dir, ino)) => {
            std::ptr::write_bytes(b, 0, 144);
            *(b.add(8) as *mut u64) = 1000 + ino as u64;
            *(b.add(16) as *mut u64) = 1;
            *(b.add(24) as *mut u32) = if dir { 0o040755 } else { 0o100644 };
            *(b.add(48) as *mut i64) = size as i64;
            *(b.add(56) as *mut i64) = 4096;
            *(b.add(64) as *mut i64) = ((size + 511) / 512) as i64;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut u8) -> c_int {
    fstatat64(AT_FDCWD, p, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, b: *mut u8) -> c_int {
    fstatat64(AT_FDCWD, p, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut u8) -> c_int {
    fstatat64(AT_FDCWD, p, b, 0x100)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, b: *mut u8) -> c_int {
    fstatat64(AT_FDCWD, p, b, 0x100)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, b: *mut u8, f: c_int) -> c_int {
    fstatat64(d, p, b, f)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, b: *mut u8, f: c_int) -> c_int {
    if is_sim_fd(d) {
        return fstat64(d, b);
    }
    if simulated() {
        return with("lookup", || fill_stat(b, w().fs_stat(&path(p))));
    }
    ret(sys4(SYS_NEWFSTATAT, d as i64, p as i64, b as i64, f as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut u8) -> c_int {
    if is_sim_fd(fd) {
        return with("fstat", || fill_stat(b, w().fs_fstat(fd)));
    }
    ret(sys3(SYS_FSTAT, fd as i64, b as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, b: *mut u8) -> c_int {
    fstat64(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, m: u32, b: *mut u8) -> c_int {
    let sim = is_sim_fd(d);
    // std probes for statx with a null path.
    if !sim && (!simulated() || p.is_null()) {
        return ret(sys6(SYS_STATX, d as i64, p as i64, f as i64, m as i64, b as i64, 0)) as c_int;
    }
    let r = with("lookup", || if sim { w().fs_fstat(d) } else { w().fs_stat(&path(p)) });
    match r {
        Err(e) => fail(e) as c_int,
        Ok((size, dir, ino)) => {
            std::ptr::write_bytes(b, 0, 256);
            *(b as *mut u32) = 0x17ff;
            *(b.add(4) as *mut u32) = 4096;
            *(b.add(16) as *mut u32) = 1;
            *(b.add(28) as *mut u16) = if dir { 0o040755 } else { 0o100644 };
            *(b.add(32) as *mut u64) = 1000 + ino as u64;
            *(b.add(40) as *mut u64) = size;
            *(b.add(48) as *mut u64) = (size + 511) / 512;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if simulated() {
        return with("lookup", || out(w().fs_stat(&path(p)).map(|_| 0))) as c_int;
    }
    ret(sys3(SYS_ACCESS, p as i64, m as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, f: c_int) -> c_int {
    if simulated() {
        return access(p, m);
    }
    ret(sys4(SYS_FACCESSAT, d as i64, p as i64, m as i64, f as i64)) as c_int
}
extern "C" {
    fn malloc(n: usize) -> *mut c_void;
    fn __realpath_chk(p: *const c_char, o: *mut c_char, n: usize) -> *mut c_char;
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, o: *mut c_char) -> *mut c_char {
    if simulated() {
        return with("lookup", || {
            let s = path(p).to_string();
            match w().fs_stat(&s) {
                Err(e) => {
                    set_errno(e);
                    std::ptr::null_mut()
                }
                Ok(_) => {
                    let n = super::fs::norm(&s);
                    let dst = if o.is_null() { malloc(n.len() + 1) as *mut c_char } else { o };
                    std::ptr::copy_nonoverlapping(n.as_ptr() as *const c_char, dst, n.len());
                    *dst.add(n.len()) = 0;
                    dst
                }
            }
        });
    }
    if o.is_null() {
        let b = malloc(4096) as *mut c_char;
        return __realpath_chk(p, b, 4096);
    }
    __realpath_chk(p, o, 4096)
}

// ---- names ----
macro_rules! name2 {
    ($f:ident, $what:literal, $sys:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(a: *const c_char, b: *const c_char) -> c_int {
            if simulated() {
                return with($what, || out(w().fs_name_op($what, &path(a), &path(b)))) as c_int;
            }
            ret(sys3($sys, a as i64, b as i64, 0)) as c_int
        }
    };
}
name2!(rename, "rename", SYS_RENAME);
name2!(link, "link", SYS_LINK);
name2!(symlink, "symlink", SYS_SYMLINK);
#[no_mangle]
pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    if simulated() {
        return rename(a, b);
    }
    ret(sys4(SYS_RENAMEAT, d as i64, a as i64, e as i64, b as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: u32) -> c_int {
    if simulated() {
        return rename(a, b);
    }
    ret(sys6(SYS_RENAMEAT2, d as i64, a as i64, e as i64, b as i64, f as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    if simulated() {
        return link(a, b);
    }
    ret(sys6(SYS_LINKAT, d as i64, a as i64, e as i64, b as i64, f as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if simulated() {
        return with("unlink", || out(w().fs_name_op("unlink", &path(a), ""))) as c_int;
    }
    ret(sys3(SYS_UNLINK, a as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, f: c_int) -> c_int {
    if simulated() {
        return if f == 0 { unlink(a) } else { rmdir(a) };
    }
    ret(sys3(SYS_UNLINKAT, d as i64, a as i64, f as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: u32) -> c_int {
    if simulated() {
        return with("mkdir", || out(w().fs_name_op("mkdir", &path(a), ""))) as c_int;
    }
    ret(sys3(SYS_MKDIR, a as i64, m as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    if simulated() {
        return with("rmdir", || out(w().fs_name_op("rmdir", &path(a), ""))) as c_int;
    }
    ret(sys3(SYS_RMDIR, a as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(a: *const c_char, b: *mut c_char, n: usize) -> isize {
    if simulated() {
        return with("lookup", || out(w().fs_stat(&path(a)).and_then(|_| Err(EINVAL)))) as isize;
    }
    ret(sys3(SYS_READLINK, a as i64, b as i64, n as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(a: *const c_char, n: i64) -> c_int {
    if simulated() {
        return with("truncate", || {
            out(w().fs_stat(&path(a)).and_then(|x| w().fs_truncate_inode(x.2, n as usize)))
        }) as c_int;
    }
    ret(sys3(SYS_TRUNCATE, a as i64, n, 0)) as c_int
}

// ---- process ----
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if simulated() {
        let _i = Inside::new();
        let w = w();
        if w.pid == 0 {
            w.rnd = w.rnd.wrapping_add(0x9e3779b97f4a7c15);
            w.pid = 2 + (super::mix(w.rnd) % 32_766) as i32;
            let n = w.pid;
            w.ev(32, n as u64, 0, || format!("process number {}", n));
        }
        return w.pid;
    }
    sys3(SYS_GETPID, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> c_int {
    if simulated() {
        return 1;
    }
    sys3(SYS_GETPPID, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: usize) -> *mut c_char {
    if simulated() {
        let cwd = "/sim\0";
        if !b.is_null() && n < cwd.len() {
            set_errno(34);
            return std::ptr::null_mut();
        }
        let dst = if b.is_null() { malloc(n.max(cwd.len())) as *mut c_char } else { b };
        std::ptr::copy_nonoverlapping(cwd.as_ptr() as *const c_char, dst, cwd.len());
        return dst;
    }
    let n = if b.is_null() { n.max(4096) } else { n };
    let dst = if b.is_null() { malloc(n) as *mut c_char } else { b };
    if ret(sys3(SYS_GETCWD, dst as i64, n as i64, 0)) < 0 {
        return std::ptr::null_mut();
    }
    dst
}

// ---- randomness, clock, scheduling ----
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, f: u32) -> isize {
    if simulated() {
        let _i = Inside::new();
        let w = w();
        for i in 0..n {
            if i % 8 == 0 {
                w.rnd = w.rnd.wrapping_add(0x9e3779b97f4a7c15);
            }
            *b.add(i) = (super::mix(w.rnd) >> ((i % 8) * 8)) as u8;
        }
        w.rnd_used += 1;
        w.count(K::OpRandom);
        w.ev(30, n as u64, w.rnd, || format!("random {} bytes", n));
        return n as isize;
    }
    ret(sys3(SYS_GETRANDOM, b as i64, n as i64, f as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut [i64; 2]) -> c_int {
    if simulated() {
        let _i = Inside::new();
        let w = w();
        w.now_ns += 1000;
        w.count(K::OpClock);
        w.ev(31, 0, 0, || "clock read".into());
        let base = if c == 0 { 0 } else { 1_599_999_000_000_000_000 };
        *t = [((w.now_ns - base) / 1_000_000_000) as i64, ((w.now_ns - base) % 1_000_000_000) as i64];
        return 0;
    }
    ret(sys3(SYS_CLOCK_GETTIME, c as i64, t as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, t: *const [i64; 2], r: *mut [i64; 2]) -> c_int {
    if simulated() {
        if f == 0 {
            w().now_ns += (*t)[0] as u64 * 1_000_000_000 + (*t)[1] as u64;
        }
        sched::point("sleep", true);
        return 0;
    }
    -(sys4(SYS_CLOCK_NANOSLEEP, c as i64, f as i64, t as i64, r as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const [i64; 2], r: *mut [i64; 2]) -> c_int {
    if simulated() {
        return clock_nanosleep(1, 0, t, r);
    }
    ret(sys3(SYS_NANOSLEEP, t as i64, r as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if simulated() {
        sched::point("yield", true);
        return 0;
    }
    ret(sys3(SYS_SCHED_YIELD, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if simulated() {
        if n == SYS_FUTEX {
            if let Some(r) = sched::futex(a as usize, b, c, d) {
                return ret(r);
            }
        } else if n == SYS_GETRANDOM {
            return getrandom(a as *mut u8, b as usize, c as u32) as i64;
        } else if n == SYS_STATX {
            return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut u8) as i64;
        }
    }
    ret(sys6(n, a, b, c, d, e, f))
}
