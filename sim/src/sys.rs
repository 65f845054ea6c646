//! Link-time definitions of the libc functions std uses. While the calling
//! thread belongs to a simulated run they act on the simulated world,
//! otherwise they are the plain system calls.
use crate::rt::{active, cx, pause, *};
use crate::sched;
use libc::*;
use std::ffi::CStr;

unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => ret, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
unsafe fn fin(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
macro_rules! real {
    ($n:expr $(, $a:expr)*) => {{
        #[allow(unused_mut)]
        let mut v = [0usize; 6];
        let mut _i = 0;
        $( v[_i] = $a as usize; _i += 1; )*
        fin(raw($n as c_long, v[0], v[1], v[2], v[3], v[4], v[5]))
    }};
}
unsafe fn set(e: i32) -> isize {
    *__errno_location() = e;
    -1
}
unsafe fn res<T>(r: Result<T, i32>, f: impl FnOnce(T) -> isize) -> isize {
    match r {
        Ok(v) => f(v),
        Err(e) => set(e),
    }
}
/// is this call part of the simulated world? (also a scheduling point)
fn sim() -> bool {
    if active() {
        sched::point(1);
        true
    } else {
        false
    }
}
/// is this one of the simulated descriptors, used by a simulated thread?
fn simfd(fd: c_int) -> bool {
    fd >= 1_000_000 && sim()
}
unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

/// remembers what library code asks of the world, if a property wants to know
unsafe fn look(what: &'static str, path: *const c_char) {
    if in_lib() {
        if let Some(l) = &mut cx().looked {
            let p = if path.is_null() { vec![] } else { CStr::from_ptr(path).to_bytes().to_vec() };
            if l.len() < 1000 {
                l.push((what, p));
            }
        }
    }
}
unsafe fn next(name: &CStr) -> *mut c_void {
    dlsym(RTLD_NEXT, name.as_ptr())
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut DIR {
    if active() {
        let _p = pause();
        look("opendir", path);
        set(EACCES);
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut DIR = std::mem::transmute(next(c"opendir"));
    f(path)
}
#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if active() {
        let _p = pause();
        look("socket", std::ptr::null());
        return set(EACCES) as c_int;
    }
    real!(SYS_socket, d, t, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    if active() {
        let _p = pause();
        look("chdir", path);
        return set(EACCES) as c_int;
    }
    real!(SYS_chdir, path) as c_int
}
type Spawn = unsafe extern "C" fn(*mut pid_t, *const c_char, *const posix_spawn_file_actions_t, *const posix_spawnattr_t, *const *mut c_char, *const *mut c_char) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut pid_t,
    path: *const c_char,
    fa: *const posix_spawn_file_actions_t,
    at: *const posix_spawnattr_t,
    argv: *const *mut c_char,
    env: *const *mut c_char,
) -> c_int {
    if active() {
        let _p = pause();
        look("spawn", path);
        return EACCES;
    }
    let f: Spawn = std::mem::transmute(next(c"posix_spawnp"));
    f(pid, path, fa, at, argv, env)
}
extern "C" {
    static environ: *const *const c_char;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let n = CStr::from_ptr(name).to_bytes();
    if active() && in_lib() && !n.starts_with(b"RUST_") {
        let _p = pause();
        look("getenv", name);
        let v = cx().env;
        return v.map_or(std::ptr::null_mut(), |v| v.as_ptr() as *mut c_char);
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = CStr::from_ptr(*e).to_bytes();
        if v.len() > n.len() && v.starts_with(n) && v[n.len()] == b'=' {
            return (*e).add(n.len() + 1) as *mut c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if sim() {
        look(if flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC) == 0 { "open" } else { "create" }, path);
        let _p = pause();
        return res(cx().disk.open(bytes(path), flags), |f| f as isize) as c_int;
    }
    real!(SYS_openat, AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if dir == AT_FDCWD && sim() {
        look(if flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC) == 0 { "open" } else { "create" }, path);
        let _p = pause();
        return res(cx().disk.open(bytes(path), flags), |f| f as isize) as c_int;
    }
    real!(SYS_openat, dir, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd == 0 && active() {
        let _p = pause();
        look("stdin", std::ptr::null());
        return 0;
    }
    if simfd(fd) {
        let _p = pause();
        return res(cx().disk.read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), None), |v| v as isize);
    }
    real!(SYS_read, fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if simfd(fd) {
        let _p = pause();
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        return res(cx().disk.read(fd, b, Some(off as u64)), |v| v as isize);
    }
    real!(SYS_pread64, fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if simfd(fd) {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    real!(SYS_readv, fd, iov, cnt)
}
unsafe fn std_write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let _p = pause();
    let c = cx();
    let e = &mut c.stderr;
    if fd != 2 {
        look("stdout", std::ptr::null());
        return n as isize;
    }
    if c.looked.is_some() && c.said.len() < 100_000 {
        c.said.extend_from_slice(std::slice::from_raw_parts(buf as *const u8, n));
    }
    e.writes += 1;
    if e.errno != 0 && e.writes > e.after {
        count("fault:stderr_errno");
        return set(e.errno);
    }
    if e.short && n > 1 {
        count("fault:stderr_short");
        e.bytes += 1;
        return 1;
    }
    e.bytes += n as u64;
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if (fd == 1 || fd == 2) && active() {
        return std_write(fd, buf, n);
    }
    if simfd(fd) {
        let _p = pause();
        return res(cx().disk.write(fd, std::slice::from_raw_parts(buf as *const u8, n), None), |v| v as isize);
    }
    real!(SYS_write, fd, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if simfd(fd) {
        let _p = pause();
        let b = std::slice::from_raw_parts(buf as *const u8, n);
        return res(cx().disk.write(fd, b, Some(off as u64)), |v| v as isize);
    }
    real!(SYS_pwrite64, fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if ((fd == 1 || fd == 2) && active()) || simfd(fd) {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    real!(SYS_writev, fd, iov, cnt)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if simfd(fd) {
        let _p = pause();
        return res(cx().disk.seek(fd, off, whence), |v| v as isize) as off64_t;
    }
    real!(SYS_lseek, fd, off, whence) as off64_t
}
unsafe fn fill(st: *mut stat64, m: (u32, u64, u64)) -> isize {
    std::ptr::write_bytes(st, 0, 1);
    (*st).st_mode = m.0;
    (*st).st_size = m.1 as i64;
    (*st).st_ino = m.2;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    (*st).st_blocks = m.1.div_ceil(512) as i64;
    (*st).st_dev = 77;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    if simfd(fd) {
        let _p = pause();
        return res(cx().disk.stat(None, fd, true), |m| fill(st, m)) as c_int;
    }
    real!(SYS_fstat, fd, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if sim() {
        look("stat", path);
        let _p = pause();
        return res(cx().disk.stat(Some(bytes(path)), -1, true), |m| fill(st, m)) as c_int;
    }
    real!(SYS_stat, path, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if sim() {
        look("stat", path);
        let _p = pause();
        return res(cx().disk.stat(Some(bytes(path)), -1, false), |m| fill(st, m)) as c_int;
    }
    real!(SYS_lstat, path, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dir: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    if (dir == AT_FDCWD || dir >= 1_000_000) && sim() {
        look("stat", path);
        let _p = pause();
        let p = bytes(path);
        let r = if p.is_empty() {
            cx().disk.stat(None, dir, true)
        } else {
            cx().disk.stat(Some(p), -1, flags & AT_SYMLINK_NOFOLLOW == 0)
        };
        return res(r, |m| fill(st, m)) as c_int;
    }
    real!(SYS_newfstatat, dir, path, st, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if (dir == AT_FDCWD || dir >= 1_000_000) && sim() {
        look("stat", path);
        let _p = pause();
        let p = bytes(path);
        let r = if p.is_empty() {
            cx().disk.stat(None, dir, true)
        } else {
            cx().disk.stat(Some(p), -1, flags & AT_SYMLINK_NOFOLLOW == 0)
        };
        return res(r, |m| {
            std::ptr::write_bytes(out, 0, 1);
            (*out).stx_mask = STATX_BASIC_STATS;
            (*out).stx_mode = m.0 as u16;
            (*out).stx_size = m.1;
            (*out).stx_ino = m.2;
            (*out).stx_nlink = 1;
            (*out).stx_blksize = 4096;
            0
        }) as c_int;
    }
    real!(SYS_statx, dir, path, flags, mask, out) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(dir: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if dir == AT_FDCWD && sim() {
        look("stat", path);
        let _p = pause();
        return res(cx().disk.stat(Some(bytes(path)), -1, true), |m| {
            if mode & W_OK != 0 && m.0 & 0o200 == 0 {
                set(EACCES)
            } else {
                0
            }
        }) as c_int;
    }
    real!(SYS_faccessat, dir, path, mode, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    faccessat(AT_FDCWD, path, mode, 0)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if sim() {
        look("mkdir", path);
        let _p = pause();
        return res(cx().disk.mkdir(bytes(path)), |_| 0) as c_int;
    }
    real!(SYS_mkdir, path, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if sim() {
        look("rmdir", path);
        let _p = pause();
        return res(cx().disk.unlink(bytes(path), true), |_| 0) as c_int;
    }
    real!(SYS_rmdir, path) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if sim() {
        look("unlink", path);
        let _p = pause();
        return res(cx().disk.unlink(bytes(path), false), |_| 0) as c_int;
    }
    real!(SYS_unlink, path) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    if dir == AT_FDCWD && sim() {
        look("unlink", path);
        let _p = pause();
        return res(cx().disk.unlink(bytes(path), flags & AT_REMOVEDIR != 0), |_| 0) as c_int;
    }
    real!(SYS_unlinkat, dir, path, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if sim() {
        look("rename", a);
        look("rename", b);
        let _p = pause();
        return res(cx().disk.rename(bytes(a), bytes(b)), |_| 0) as c_int;
    }
    real!(SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    if d1 == AT_FDCWD && d2 == AT_FDCWD && sim() {
        look("rename", a);
        look("rename", b);
        let _p = pause();
        return res(cx().disk.rename(bytes(a), bytes(b)), |_| 0) as c_int;
    }
    real!(SYS_renameat, d1, a, d2, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if sim() {
        look("link", a);
        look("link", b);
        let _p = pause();
        return res(cx().disk.link(bytes(a), bytes(b)), |_| 0) as c_int;
    }
    real!(SYS_link, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_int) -> c_int {
    if d1 == AT_FDCWD && d2 == AT_FDCWD && sim() {
        look("link", a);
        look("link", b);
        let _p = pause();
        return res(cx().disk.link(bytes(a), bytes(b)), |_| 0) as c_int;
    }
    real!(SYS_linkat, d1, a, d2, b, fl) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if sim() {
        look("symlink", a);
        look("symlink", b);
        let _p = pause();
        return res(cx().disk.symlink(bytes(a), bytes(b)), |_| 0) as c_int;
    }
    real!(SYS_symlink, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if sim() {
        look("readlink", p);
        let _p = pause();
        return res(cx().disk.readlink(bytes(p)), |t| {
            let k = t.len().min(n);
            std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
            k as isize
        });
    }
    real!(SYS_readlink, p, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if simfd(fd) {
        let _p = pause();
        return res(cx().disk.truncate(None, fd, len as u64), |_| 0) as c_int;
    }
    real!(SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if simfd(fd) {
        let _p = pause();
        return res(cx().disk.sync(fd), |_| 0) as c_int;
    }
    real!(SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if simfd(fd) {
        return fsync(fd);
    }
    real!(SYS_fdatasync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 1_000_000 && !ctx_ptr().is_null() {
        let _p = pause();
        return res(cx().disk.close(fd), |_| 0) as c_int;
    }
    real!(SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if simfd(fd) {
        let _p = pause();
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => res(cx().disk.dup(fd), |v| v as isize) as c_int,
            F_GETFL => res(cx().disk.append_flag(fd), |v| v as isize) as c_int,
            _ => 0,
        };
    }
    real!(SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    if sim() {
        look("chmod", p);
        let _p = pause();
        return res(cx().disk.chmod(Some(bytes(p)), -1, mode), |_| 0) as c_int;
    }
    real!(SYS_chmod, p, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if simfd(fd) {
        let _p = pause();
        return res(cx().disk.chmod(None, fd, mode), |_| 0) as c_int;
    }
    real!(SYS_fchmod, fd, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if sim() {
        look("stat", p);
        let _p = pause();
        let im = &cx().disk.img;
        let abs = match im.resolve(bytes(p), true) {
            Ok(i) => {
                let mut a = im.abs(i);
                if a.is_empty() {
                    a.push(b'/');
                }
                a
            }
            Err(e) => {
                set(e);
                return std::ptr::null_mut();
            }
        };
        let dst = if out.is_null() { malloc(abs.len() + 1) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(abs.as_ptr(), dst as *mut u8, abs.len());
        *dst.add(abs.len()) = 0;
        return dst;
    }
    // not needed outside simulated runs
    set(ENOSYS);
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if sim() {
        let _p = pause();
        let d = &cx().disk;
        let mut a = d.img.abs(d.img.cwd);
        if a.is_empty() {
            a.push(b'/');
        }
        if a.len() + 1 > n {
            set(ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(a.as_ptr(), buf as *mut u8, a.len());
        *buf.add(a.len()) = 0;
        return buf;
    }
    let r = real!(SYS_getcwd, buf, n);
    if r < 0 {
        std::ptr::null_mut()
    } else {
        buf
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if simfd(fd) {
        return 0;
    }
    real!(SYS_flock, fd, op) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if simfd(a) || simfd(b) {
        return set(EXDEV);
    }
    real!(SYS_copy_file_range, a, ao, b, bo, n, f)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if simfd(a) || simfd(b) {
        return set(EINVAL);
    }
    real!(SYS_sendfile, a, b, off, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if simfd(a) || simfd(b) {
        return set(EINVAL);
    }
    real!(SYS_splice, a, ao, b, bo, n, f)
}
unsafe fn sim_random(buf: *mut u8, n: usize) {
    let _p = pause();
    count("hash_key_draws");
    let mut i = 0;
    while i < n {
        let w = next_key_word().to_le_bytes();
        for b in w {
            if i < n {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if active() {
        sim_random(buf as *mut u8, n);
        return n as isize;
    }
    real!(SYS_getrandom, buf, n, flags)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if active() {
        let t = cx().clock_ns;
        (*ts).tv_sec = 1_700_000_000 + (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    real!(SYS_clock_gettime, id, ts) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, fl: c_int, ts: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
        if fl == 0 {
            delay(t);
        }
        sched::point(8);
        return 0;
    }
    let r = raw(SYS_clock_nanosleep, id as usize, fl as usize, ts as usize, rem as usize, 0, 0);
    (-r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        sched::yield_now();
        return 0;
    }
    real!(SYS_sched_yield) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if active() {
        return 4242;
    }
    real!(SYS_getpid) as pid_t
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if active() {
        if n == SYS_getrandom {
            sim_random(a as *mut u8, b);
            return b as c_long;
        }
        if n == SYS_futex {
            if let Some(r) = sched::futex(a as *const u32, b as i32, c as u32, d as *const timespec) {
                return if r < 0 { set(-r as i32) as c_long } else { r as c_long };
            }
        }
        if n == SYS_statx {
            return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long;
        }
        if n == SYS_copy_file_range {
            return set(EXDEV) as c_long;
        }
    }
    fin(raw(n, a, b, c, d, e, f)) as c_long
}
