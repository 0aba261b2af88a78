//! The seam: definitions of the libc functions through which the library reaches the operating system. While a library
//! call runs in a simulated thread ("active") they go to the simulator; otherwise they pass through.

#![allow(clippy::missing_safety_doc)]

use crate::fs::Ino;
use crate::sim::{self, k, FD_BASE, MS, SEC};
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::ffi::CStr;

pub struct Tls {
    active: Cell<bool>,
    bb: Cell<u64>,
    bb_next: Cell<u64>,
}

thread_local! {
    static T: Tls = const { Tls { active: Cell::new(false), bb: Cell::new(0), bb_next: Cell::new(u64::MAX) } };
}

#[inline]
pub fn active() -> bool {
    T.try_with(|t| t.active.get()).unwrap_or(false)
}
pub fn set_active(v: bool) -> bool {
    T.with(|t| t.active.replace(v))
}
pub fn set_bb_next(n: u64) {
    T.with(|t| t.bb_next.set(n))
}
pub fn reset_bb() {
    T.with(|t| t.bb.set(0))
}
pub fn bb_count() -> u64 {
    T.with(|t| t.bb.get())
}

/// Run simulator code on behalf of an intercepted call.
#[inline]
fn with<X>(f: impl FnOnce(&'static mut sim::Kernel) -> X) -> X {
    set_active(false);
    let r = f(k());
    set_active(true);
    r
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

fn ret(r: Result<i64, i32>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

pub unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    r
}

macro_rules! real {
    ($name:literal, fn($($t:ty),*) -> $r:ty, $($a:expr),*) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(std::sync::atomic::Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            P.store(p, std::sync::atomic::Ordering::Relaxed);
        }
        let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(p);
        f($($a),*)
    }};
}

unsafe fn cs<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

fn virt(fd: c_int) -> bool {
    fd >= FD_BASE
}

// ------------------------------------------------------------------ open / close

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !active() {
        return real!("open64", fn(*const c_char, c_int, mode_t) -> c_int, path, flags, mode);
    }
    ret(with(|k| k.sys_open(libc::AT_FDCWD, cs(path), flags, mode))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(fd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !active() {
        return real!("openat64", fn(c_int, *const c_char, c_int, mode_t) -> c_int, fd, path, flags, mode);
    }
    ret(with(|k| k.sys_open(fd, cs(path), flags, mode))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(fd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: mode_t) -> c_int {
    open64(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !active() || !virt(fd) {
        return real!("close", fn(c_int) -> c_int, fd);
    }
    ret(with(|k| k.sys_close(fd))) as c_int
}

// ------------------------------------------------------------------ data

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !active() || !virt(fd) {
        return real!("read", fn(c_int, *mut c_void, size_t) -> ssize_t, fd, buf, n);
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    ret(with(|k| k.sys_read(fd, b, None))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if !active() || !virt(fd) {
        return real!("pread64", fn(c_int, *mut c_void, size_t, off64_t) -> ssize_t, fd, buf, n, off);
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    ret(with(|k| k.sys_read(fd, b, Some(off as u64)))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if !active() || !virt(fd) {
        return real!("readv", fn(c_int, *const libc::iovec, c_int) -> ssize_t, fd, iov, cnt);
    }
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return read(fd, v.iov_base, v.iov_len);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !active() || !virt(fd) {
        return real!("write", fn(c_int, *const c_void, size_t) -> ssize_t, fd, buf, n);
    }
    let b = std::slice::from_raw_parts(buf as *const u8, n);
    ret(with(|k| k.sys_write(fd, b, None))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if !active() || !virt(fd) {
        return real!("pwrite64", fn(c_int, *const c_void, size_t, off64_t) -> ssize_t, fd, buf, n, off);
    }
    let b = std::slice::from_raw_parts(buf as *const u8, n);
    ret(with(|k| k.sys_write(fd, b, Some(off as u64)))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if !active() || !virt(fd) {
        return real!("writev", fn(c_int, *const libc::iovec, c_int) -> ssize_t, fd, iov, cnt);
    }
    let mut all = Vec::new();
    set_active(false);
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
    }
    let r = k().sys_write(fd, &all, None);
    drop(all);
    set_active(true);
    ret(r) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if !active() || !virt(fd) {
        return real!("lseek64", fn(c_int, off64_t, c_int) -> off64_t, fd, off, whence);
    }
    ret(with(|k| k.sys_lseek(fd, off, whence)))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if !active() || !virt(fd) {
        return real!("ftruncate64", fn(c_int, off64_t) -> c_int, fd, len);
    }
    ret(with(|k| k.sys_ftruncate(fd, len as u64))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !active() || !virt(fd) {
        return real!("fsync", fn(c_int) -> c_int, fd);
    }
    ret(with(|k| k.sys_fsync(fd))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: off64_t, b: off64_t, c: c_int) -> c_int {
    if !active() || !virt(fd) {
        return real!("posix_fadvise64", fn(c_int, off64_t, off64_t, c_int) -> c_int, fd, a, b, c);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !active() || !virt(fd) {
        return real!("flock", fn(c_int, c_int) -> c_int, fd, op);
    }
    with(|k| k.event("flock", 0));
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !active() || !virt(fd) {
        return real!("fcntl", fn(c_int, c_int, usize) -> c_int, fd, cmd, arg);
    }
    ret(with(|k| {
        match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => k.sys_dup(fd),
            libc::F_GETFL => Ok(k.fd(fd)?.flags as i64),
            _ => Ok(0),
        }
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if !active() {
        return real!("copy_file_range", fn(c_int, *mut off64_t, c_int, *mut off64_t, size_t, c_uint) -> ssize_t, a, b, c, d, n, f);
    }
    set_errno(libc::ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    if !active() {
        return real!("sendfile64", fn(c_int, c_int, *mut off64_t, size_t) -> ssize_t, a, b, o, n);
    }
    set_errno(libc::EINVAL);
    -1
}

// ------------------------------------------------------------------ metadata

unsafe fn fill_stat(ino: Ino, st: *mut libc::stat64) {
    let (dev, mode, size, mtime, nlink) = k().stat_fields(ino);
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    let s = &mut *st;
    s.st_dev = dev;
    s.st_ino = ino as u64 + 1;
    s.st_mode = mode;
    s.st_nlink = nlink as u64;
    s.st_size = size as i64;
    s.st_blksize = 4096;
    s.st_blocks = ((size + 511) / 512) as i64;
    s.st_mtime = mtime.div_euclid(SEC) as i64;
    s.st_mtime_nsec = mtime.rem_euclid(SEC) as i64;
    s.st_ctime = s.st_mtime;
    s.st_atime = s.st_mtime;
}

unsafe fn stat_ret(r: Result<Ino, i32>, st: *mut libc::stat64) -> c_int {
    match r {
        Ok(i) => {
            fill_stat(i, st);
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if !active() {
        return real!("stat64", fn(*const c_char, *mut libc::stat64) -> c_int, path, st);
    }
    let r = with(|k| k.sys_stat(libc::AT_FDCWD, cs(path), true));
    stat_ret(r, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if !active() {
        return real!("lstat64", fn(*const c_char, *mut libc::stat64) -> c_int, path, st);
    }
    let r = with(|k| k.sys_stat(libc::AT_FDCWD, cs(path), false));
    stat_ret(r, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if !active() || !virt(fd) {
        return real!("fstat64", fn(c_int, *mut libc::stat64) -> c_int, fd, st);
    }
    let r = with(|k| k.sys_fstat(fd));
    stat_ret(r, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(fd: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    if !active() {
        return real!("fstatat64", fn(c_int, *const c_char, *mut libc::stat64, c_int) -> c_int, fd, path, st, flags);
    }
    let r = with(|k| {
        if flags & libc::AT_EMPTY_PATH != 0 && cs(path).is_empty() {
            k.sys_fstat(fd)
        } else {
            k.sys_stat(fd, cs(path), flags & libc::AT_SYMLINK_NOFOLLOW == 0)
        }
    });
    stat_ret(r, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: c_uint, sx: *mut libc::statx) -> c_int {
    if !active() || (virt_or_cwd(fd) == false) {
        return real!("statx", fn(c_int, *const c_char, c_int, c_uint, *mut libc::statx) -> c_int, fd, path, flags, mask, sx);
    }
    if path.is_null() || sx.is_null() {
        set_errno(libc::EFAULT);
        return -1;
    }
    let r = with(|k| {
        if flags & libc::AT_EMPTY_PATH != 0 && cs(path).is_empty() {
            k.sys_fstat(fd)
        } else {
            k.sys_stat(fd, cs(path), flags & libc::AT_SYMLINK_NOFOLLOW == 0)
        }
    });
    match r {
        Err(e) => {
            set_errno(e);
            -1
        }
        Ok(ino) => {
            let (dev, mode, size, mtime, nlink) = k().stat_fields(ino);
            std::ptr::write_bytes(sx as *mut u8, 0, std::mem::size_of::<libc::statx>());
            let s = &mut *sx;
            s.stx_mask = libc::STATX_BASIC_STATS;
            s.stx_blksize = 4096;
            s.stx_nlink = nlink;
            s.stx_mode = mode as u16;
            s.stx_ino = ino as u64 + 1;
            s.stx_size = size;
            s.stx_blocks = (size + 511) / 512;
            s.stx_dev_major = 8;
            s.stx_dev_minor = dev as u32;
            s.stx_mtime.tv_sec = mtime.div_euclid(SEC) as i64;
            s.stx_mtime.tv_nsec = mtime.rem_euclid(SEC) as u32;
            s.stx_atime = s.stx_mtime;
            s.stx_ctime = s.stx_mtime;
            0
        }
    }
}
fn virt_or_cwd(fd: c_int) -> bool {
    fd == libc::AT_FDCWD || virt(fd)
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if !active() {
        return real!("access", fn(*const c_char, c_int) -> c_int, path, mode);
    }
    ret(with(|k| k.sys_stat(libc::AT_FDCWD, cs(path), true).map(|_| 0))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(fd: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if !active() {
        return real!("faccessat", fn(c_int, *const c_char, c_int, c_int) -> c_int, fd, path, mode, flags);
    }
    ret(with(|k| k.sys_stat(fd, cs(path), true).map(|_| 0))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    if !active() {
        return real!("chmod", fn(*const c_char, mode_t) -> c_int, path, mode);
    }
    ret(with(|k| {
        let i = k.sys_stat(libc::AT_FDCWD, cs(path), true);
        k.sys_chmod(i, mode)
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if !active() || !virt(fd) {
        return real!("fchmod", fn(c_int, mode_t) -> c_int, fd, mode);
    }
    ret(with(|k| {
        let i = k.sys_fstat(fd);
        k.sys_chmod(i, mode)
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmodat(fd: c_int, path: *const c_char, mode: mode_t, flags: c_int) -> c_int {
    if !active() {
        return real!("fchmodat", fn(c_int, *const c_char, mode_t, c_int) -> c_int, fd, path, mode, flags);
    }
    ret(with(|k| {
        let i = k.sys_stat(fd, cs(path), true);
        k.sys_chmod(i, mode)
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchown(fd: c_int, u: c_uint, g: c_uint) -> c_int {
    if !active() || !virt(fd) {
        return real!("fchown", fn(c_int, c_uint, c_uint) -> c_int, fd, u, g);
    }
    0
}

unsafe fn mtime_of(ts: *const libc::timespec) -> Option<i128> {
    if ts.is_null() {
        return Some(k().real());
    }
    let t = &*ts.add(1);
    match t.tv_nsec {
        libc::UTIME_OMIT => None,
        libc::UTIME_NOW => Some(k().real()),
        n => Some(t.tv_sec as i128 * SEC + n as i128),
    }
}

#[no_mangle]
pub unsafe extern "C" fn utimensat(fd: c_int, path: *const c_char, ts: *const libc::timespec, flags: c_int) -> c_int {
    if !active() {
        return real!("utimensat", fn(c_int, *const c_char, *const libc::timespec, c_int) -> c_int, fd, path, ts, flags);
    }
    if path.is_null() {
        return futimens(fd, ts);
    }
    ret(with(|k| k.sys_utimensat(fd, cs(path), mtime_of(ts), flags & libc::AT_SYMLINK_NOFOLLOW == 0))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const libc::timespec) -> c_int {
    if !active() || !virt(fd) {
        return real!("futimens", fn(c_int, *const libc::timespec) -> c_int, fd, ts);
    }
    ret(with(|k| {
        k.event("futimens", 0);
        let f = k.fd(fd)?.clone();
        let m = mtime_of(ts);
        k.sys_utimens(Ok(f.ino), &f.path, m)
    })) as c_int
}
unsafe fn tv_mtime(tv: *const libc::timeval) -> Option<i128> {
    if tv.is_null() {
        return Some(k().real());
    }
    let t = &*tv.add(1);
    Some(t.tv_sec as i128 * SEC + t.tv_usec as i128 * 1000)
}
#[no_mangle]
pub unsafe extern "C" fn utimes(path: *const c_char, tv: *const libc::timeval) -> c_int {
    if !active() {
        return real!("utimes", fn(*const c_char, *const libc::timeval) -> c_int, path, tv);
    }
    ret(with(|k| k.sys_utimensat(libc::AT_FDCWD, cs(path), tv_mtime(tv), true))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lutimes(path: *const c_char, tv: *const libc::timeval) -> c_int {
    if !active() {
        return real!("lutimes", fn(*const c_char, *const libc::timeval) -> c_int, path, tv);
    }
    ret(with(|k| k.sys_utimensat(libc::AT_FDCWD, cs(path), tv_mtime(tv), false))) as c_int
}

// ------------------------------------------------------------------ names

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if !active() {
        return real!("mkdir", fn(*const c_char, mode_t) -> c_int, path, mode);
    }
    ret(with(|k| k.sys_mkdir(libc::AT_FDCWD, cs(path), mode))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(fd: c_int, path: *const c_char, mode: mode_t) -> c_int {
    if !active() {
        return real!("mkdirat", fn(c_int, *const c_char, mode_t) -> c_int, fd, path, mode);
    }
    ret(with(|k| k.sys_mkdir(fd, cs(path), mode))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if !active() {
        return real!("rmdir", fn(*const c_char) -> c_int, path);
    }
    ret(with(|k| k.sys_rmdir(libc::AT_FDCWD, cs(path)))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if !active() {
        return real!("unlink", fn(*const c_char) -> c_int, path);
    }
    ret(with(|k| k.sys_unlink(libc::AT_FDCWD, cs(path)))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(fd: c_int, path: *const c_char, flags: c_int) -> c_int {
    if !active() {
        return real!("unlinkat", fn(c_int, *const c_char, c_int) -> c_int, fd, path, flags);
    }
    ret(with(|k| if flags & libc::AT_REMOVEDIR != 0 { k.sys_rmdir(fd, cs(path)) } else { k.sys_unlink(fd, cs(path)) })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !active() {
        return real!("rename", fn(*const c_char, *const c_char) -> c_int, a, b);
    }
    ret(with(|k| k.sys_rename(libc::AT_FDCWD, cs(a), libc::AT_FDCWD, cs(b), false))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(f: c_int, a: *const c_char, g: c_int, b: *const c_char) -> c_int {
    if !active() {
        return real!("renameat", fn(c_int, *const c_char, c_int, *const c_char) -> c_int, f, a, g, b);
    }
    ret(with(|k| k.sys_rename(f, cs(a), g, cs(b), false))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(f: c_int, a: *const c_char, g: c_int, b: *const c_char, fl: c_uint) -> c_int {
    if !active() {
        return real!("renameat2", fn(c_int, *const c_char, c_int, *const c_char, c_uint) -> c_int, f, a, g, b, fl);
    }
    ret(with(|k| k.sys_rename(f, cs(a), g, cs(b), fl & 1 != 0))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if !active() {
        return real!("link", fn(*const c_char, *const c_char) -> c_int, a, b);
    }
    ret(with(|k| k.sys_link(libc::AT_FDCWD, cs(a), libc::AT_FDCWD, cs(b)))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(f: c_int, a: *const c_char, g: c_int, b: *const c_char, fl: c_int) -> c_int {
    if !active() {
        return real!("linkat", fn(c_int, *const c_char, c_int, *const c_char, c_int) -> c_int, f, a, g, b, fl);
    }
    ret(with(|k| k.sys_link(f, cs(a), g, cs(b)))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if !active() {
        return real!("symlink", fn(*const c_char, *const c_char) -> c_int, a, b);
    }
    ret(with(|k| k.sys_symlink(cs(a), libc::AT_FDCWD, cs(b)))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if !active() {
        return real!("readlink", fn(*const c_char, *mut c_char, size_t) -> ssize_t, path, buf, n);
    }
    match with(|k| k.sys_readlink(libc::AT_FDCWD, cs(path))) {
        Ok(t) => {
            let m = t.len().min(n);
            std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, m);
            m as ssize_t
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if !active() {
        return real!("realpath", fn(*const c_char, *mut c_char) -> *mut c_char, path, out);
    }
    let r = with(|k| {
        let p = cs(path);
        k.sys_stat(libc::AT_FDCWD, p, true)?;
        let cwd = k.fs.lookup(&k.cwd()).unwrap_or(0);
        Ok(k.fs.normalise(cwd, p))
    });
    match r {
        Ok(p) => {
            let dst = if out.is_null() { libc::malloc(p.len() + 1) as *mut u8 } else { out as *mut u8 };
            std::ptr::copy_nonoverlapping(p.as_ptr(), dst, p.len());
            *dst.add(p.len()) = 0;
            dst as *mut c_char
        }
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if !active() {
        return real!("getcwd", fn(*mut c_char, size_t) -> *mut c_char, buf, n);
    }
    let c = b"/w\0";
    if n < c.len() {
        set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(c.as_ptr(), buf as *mut u8, c.len());
    buf
}

// ------------------------------------------------------------------ directories

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if !active() {
        return real!("opendir", fn(*const c_char) -> *mut libc::DIR, path);
    }
    match with(|k| k.sys_opendir(cs(path))) {
        Ok(p) => p as *mut libc::DIR,
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if !active() || !virt(fd) {
        return real!("fdopendir", fn(c_int) -> *mut libc::DIR, fd);
    }
    match with(|k| k.sys_fdopendir(fd)) {
        Ok(p) => p as *mut libc::DIR,
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if !active() {
        return real!("readdir64", fn(*mut libc::DIR) -> *mut libc::dirent64, d);
    }
    match with(|k| k.sys_readdir(d as usize)) {
        Ok(p) => p,
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if !active() {
        return real!("closedir", fn(*mut libc::DIR) -> c_int, d);
    }
    ret(with(|k| k.sys_closedir(d as usize))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if !active() {
        return real!("dirfd", fn(*mut libc::DIR) -> c_int, d);
    }
    with(|k| k.dirs.get(&(d as usize)).map_or(-1, |(_, d)| d.fd))
}

// ------------------------------------------------------------------ memory maps

#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    if !active() || !virt(fd) {
        return real!("mmap64", fn(*mut c_void, size_t, c_int, c_int, c_int, off64_t) -> *mut c_void, a, len, prot, flags, fd, off);
    }
    match with(|k| k.sys_mmap(len, prot, flags, fd, off)) {
        Ok(p) => p as *mut c_void,
        Err(e) => {
            set_errno(e);
            libc::MAP_FAILED
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    mmap64(a, len, prot, flags, fd, off)
}

// ------------------------------------------------------------------ time, identity, randomness

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if !active() {
        return real!("clock_gettime", fn(libc::clockid_t, *mut libc::timespec) -> c_int, id, ts);
    }
    let t = with(|k| {
        k.event("clock", 0);
        match id {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => k.real(),
            _ => k.mono,
        }
    });
    (*ts).tv_sec = t.div_euclid(SEC) as i64;
    (*ts).tv_nsec = t.rem_euclid(SEC) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if !active() {
        return real!("gettimeofday", fn(*mut libc::timeval, *mut c_void) -> c_int, tv, tz);
    }
    let t = with(|k| k.real());
    (*tv).tv_sec = t.div_euclid(SEC) as i64;
    (*tv).tv_usec = (t.rem_euclid(SEC) / 1000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
    if !active() {
        return real!("time", fn(*mut libc::time_t) -> libc::time_t, p);
    }
    let t = with(|k| k.real()).div_euclid(SEC) as i64;
    if !p.is_null() {
        *p = t;
    }
    t
}
unsafe fn sleep_ts(ts: *const libc::timespec) -> i128 {
    (*ts).tv_sec as i128 * SEC + (*ts).tv_nsec as i128
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !active() {
        return real!("nanosleep", fn(*const libc::timespec, *mut libc::timespec) -> c_int, ts, rem);
    }
    with(|k| k.sleep(sleep_ts(ts)));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !active() {
        return real!("clock_nanosleep", fn(libc::clockid_t, c_int, *const libc::timespec, *mut libc::timespec) -> c_int, id, flags, ts, rem);
    }
    let t = sleep_ts(ts);
    with(|k| {
        let d = if flags & libc::TIMER_ABSTIME != 0 {
            t - if id == libc::CLOCK_REALTIME { k.real() } else { k.mono }
        } else {
            t
        };
        k.sleep(d.max(0))
    });
    0
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    if !active() {
        return real!("usleep", fn(c_uint) -> c_int, us);
    }
    with(|k| k.sleep(us as i128 * MS / 1000));
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !active() {
        return real!("sched_yield", fn() -> c_int,);
    }
    with(|k| k.spin());
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if !active() {
        return raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t;
    }
    with(|k| {
        let p = k.threads[k.cur].proc;
        k.procs[p].pid
    })
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> libc::pid_t {
    if !active() {
        return raw6(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as libc::pid_t;
    }
    with(|k| k.cur as i32 + 100)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if !active() {
        return real!("getrandom", fn(*mut c_void, size_t, c_uint) -> ssize_t, buf, n, flags);
    }
    with(|k| {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for c in b.chunks_mut(8) {
            let x = k.env_rand().to_le_bytes();
            let l = c.len();
            c.copy_from_slice(&x[..l]);
        }
    });
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if !active() {
        return real!("sched_getaffinity", fn(libc::pid_t, size_t, *mut libc::cpu_set_t) -> c_int, pid, n, set);
    }
    std::ptr::write_bytes(set as *mut u8, 0, n);
    let c = k().cfg.cpus.max(1);
    for i in 0..c as usize {
        libc::CPU_SET(i, &mut *set);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if active() && (name == libc::_SC_NPROCESSORS_ONLN || name == libc::_SC_NPROCESSORS_CONF) {
        return k().cfg.cpus.max(1) as c_long;
    }
    real!("sysconf", fn(c_int) -> c_long, name)
}

// ------------------------------------------------------------------ raw system calls

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if active() {
        let p = |x: usize| x as *const c_char;
        match n {
            libc::SYS_futex => return ret(with(|k| k.sys_futex(a, b as i32, c as u32, d))),
            libc::SYS_getrandom => return getrandom(a as *mut c_void, b, c as c_uint) as c_long,
            libc::SYS_gettid => return gettid() as c_long,
            libc::SYS_getpid => return getpid() as c_long,
            libc::SYS_renameat2 => return renameat2(a as c_int, p(b), c as c_int, p(d), e as c_uint) as c_long,
            libc::SYS_rename => return rename(p(a), p(b)) as c_long,
            libc::SYS_utimensat => return utimensat(a as c_int, p(b), c as *const libc::timespec, d as c_int) as c_long,
            libc::SYS_openat => return openat64(a as c_int, p(b), c as c_int, d as mode_t) as c_long,
            libc::SYS_open => return open64(p(a), b as c_int, c as mode_t) as c_long,
            libc::SYS_read => return read(a as c_int, b as *mut c_void, c) as c_long,
            libc::SYS_write => return write(a as c_int, b as *const c_void, c) as c_long,
            libc::SYS_close => return close(a as c_int) as c_long,
            libc::SYS_unlink => return unlink(p(a)) as c_long,
            libc::SYS_unlinkat => return unlinkat(a as c_int, p(b), c as c_int) as c_long,
            libc::SYS_mkdir => return mkdir(p(a), b as mode_t) as c_long,
            libc::SYS_statx => return statx(a as c_int, p(b), c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
            libc::SYS_copy_file_range | libc::SYS_sendfile => {
                set_errno(libc::ENOSYS);
                return -1;
            }
            libc::SYS_sched_yield => return sched_yield() as c_long,
            libc::SYS_clock_gettime => return clock_gettime(a as libc::clockid_t, b as *mut libc::timespec) as c_long,
            _ => {}
        }
    }
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        return -1;
    }
    r as c_long
}

// ------------------------------------------------------------------ dashmap / ahash seams, library basic blocks

#[no_mangle]
pub extern "C" fn vsim_hash_seed() -> u64 {
    if active() {
        with(|k| k.env_rand())
    } else {
        0x1234_5678_9abc_def1
    }
}
#[no_mangle]
pub extern "C" fn vsim_spin_wait() {
    if active() {
        with(|k| k.spin())
    }
}
#[no_mangle]
pub extern "C" fn vsim_lock_point() {
    if active() {
        with(|k| k.event("map-lock", 0))
    }
}

static mut COVMAP: *mut u8 = std::ptr::null_mut();
pub static mut GUARDS: u32 = 0;

pub fn set_covmap(p: *mut u8) {
    unsafe { COVMAP = p }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        GUARDS += 1;
        *p = GUARDS.min(crate::shared::COV as u32 - 1);
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if COVMAP.is_null() {
        return;
    }
    let Ok(hit) = T.try_with(|t| {
        if !t.active.get() {
            return None;
        }
        let n = t.bb.get() + 1;
        t.bb.set(n);
        *COVMAP.add(*g as usize) = 1;
        if n >= t.bb_next.get() {
            Some(n)
        } else {
            None
        }
    }) else {
        return;
    };
    if let Some(n) = hit {
        with(|k| k.bb_preempt(n));
    }
}

/// Called by the allocator when the library exceeds its memory budget.
pub fn memory_limit(ask: u64, total: u64) {
    set_active(false);
    crate::alloc::CAP_LIB.store(i64::MAX, std::sync::atomic::Ordering::Relaxed);
    let kk = k();
    let what = kk.threads[kk.cur].rec.map_or(String::new(), |r| kk.ops[r].what.clone());
    kk.anomaly("MEMORY", format!("{}: asks for {} bytes, {} in use; the repository stores {} bytes", what, ask, total, kk.fs.used));
    kk.finish(crate::shared::ST_TRUNCATED);
}

// ------------------------------------------------------------------ statics of the library

static mut RANGES: Vec<(usize, usize)> = Vec::new();

/// Find the writable static variables of the library in this executable's symbol table. Each simulated process gets its
/// own copy, as separate processes have.
pub fn find_statics() {
    let exe = std::fs::read("/proc/self/exe").expect("own executable");
    let rd = |o: usize, n: usize| -> u64 {
        let mut v = 0u64;
        for i in (0..n).rev() {
            v = v << 8 | exe[o + i] as u64;
        }
        v
    };
    let shoff = rd(0x28, 8) as usize;
    let shentsize = rd(0x3a, 2) as usize;
    let shnum = rd(0x3c, 2) as usize;
    let sec = |i: usize| shoff + i * shentsize;
    // load bias: the address of a known symbol against its value
    let mut bias = None;
    let mut ranges = Vec::new();
    for i in 0..shnum {
        let s = sec(i);
        if rd(s + 4, 4) != 2 {
            continue;
        }
        let off = rd(s + 0x18, 8) as usize;
        let size = rd(s + 0x20, 8) as usize;
        let link = rd(s + 0x28, 4) as usize;
        let stroff = rd(sec(link) + 0x18, 8) as usize;
        let mut e = off;
        while e < off + size {
            let name = stroff + rd(e, 4) as usize;
            let info = exe[e + 4];
            let shndx = rd(e + 6, 2) as usize;
            let value = rd(e + 8, 8) as usize;
            let sz = rd(e + 16, 8) as usize;
            let end = name + exe[name..].iter().position(|&c| c == 0).unwrap();
            let nm = &exe[name..end];
            if nm == b"vsim_hash_seed" {
                bias = Some((vsim_hash_seed as *const () as usize).wrapping_sub(value));
            }
            if info & 15 == 1 && shndx > 0 && shndx < shnum && sz > 0 {
                let flags = rd(sec(shndx) + 8, 8);
                let s = String::from_utf8_lossy(nm);
                const CRATES: &[&str] = &["rusty_git", "num_cpus", "regex", "dashmap", "once_cell", "sha1", "memchr", "bstr", "aho_corasick", "flate2", "miniz"];
                let hit = s.starts_with("_R") && !s.contains("simcheck") && CRATES.iter().any(|c| s.contains(c)) || s.contains("rusty_git");
                if hit && flags & 1 != 0 && flags & 0x400 == 0 {
                    ranges.push((value, sz));
                }
            }
            e += 24;
        }
    }
    let bias = bias.expect("symbol table");
    unsafe {
        RANGES = ranges.into_iter().map(|(v, s)| (v.wrapping_add(bias), s)).collect();
    }
}

#[allow(static_mut_refs)]
pub fn statics_len() -> usize {
    unsafe { RANGES.iter().map(|r| r.1).sum() }
}

#[allow(static_mut_refs)]
pub fn save_statics(buf: &mut Vec<u8>) {
    unsafe {
        buf.clear();
        for &(a, n) in RANGES.iter() {
            buf.extend_from_slice(std::slice::from_raw_parts(a as *const u8, n));
        }
    }
}

#[allow(static_mut_refs)]
pub fn load_statics(buf: &[u8]) {
    unsafe {
        let mut o = 0;
        for &(a, n) in RANGES.iter() {
            std::ptr::copy_nonoverlapping(buf[o..].as_ptr(), a as *mut u8, n);
            o += n;
        }
    }
}

/// A scheduling point inside a library operation, in harness code that runs between two library calls.
pub fn pause(ns: i128) {
    with(|k| {
        if ns > 0 {
            k.sleep(ns)
        } else {
            k.event("pause", 0)
        }
    });
}
