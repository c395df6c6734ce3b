//! The libc boundary. Every function here replaces the C library's for the whole binary: on simulated threads it runs
//! in the simulated kernel, elsewhere it makes the real system call (never on simulated descriptors).
use crate::sys::{self, sc};
use crate::world::*;
use libc::*;
use std::ffi::CStr;

unsafe fn cs<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}
unsafe fn fin(name: &'static str, r: R<i64>, d: impl FnOnce() -> String) -> i64 {
    match r {
        Ok(v) => {
            world().log_ret(name, v, d);
            v
        }
        Err(e) => {
            world().log_ret(name, -(e as i64), d);
            *__errno_location() = e;
            -1
        }
    }
}
fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn virt(fd: c_int) -> bool {
    fd >= VFD_BASE
}
unsafe fn real<T: Copy>(cache: &std::sync::atomic::AtomicUsize, name: &'static [u8]) -> T {
    use std::sync::atomic::Ordering::Relaxed;
    let mut p = cache.load(Relaxed);
    if p == 0 {
        p = dlsym(RTLD_NEXT, name.as_ptr() as *const c_char) as usize;
        cache.store(p, Relaxed);
    }
    std::mem::transmute_copy::<usize, T>(&p)
}
macro_rules! real_fn {
    ($name:literal, $t:ty) => {{
        static C: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        real::<$t>(&C, concat!($name, "\0").as_bytes())
    }};
}

// ---------------------------------------------------------------- open and friends

unsafe fn open_common(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !simulated() {
        return sc(SYS_openat, dirfd as i64, path as i64, flags as i64, mode as i64, 0, 0) as c_int;
    }
    let p = cs(path);
    let cls = if flags & O_CREAT != 0 { Cls::Creat } else { Cls::Open };
    let r = enter(cls, 0).and_then(|_| {
        let w = world();
        let d = w.at(dirfd)?;
        w.do_open(d, p, flags, mode as u32).map(|f| f as i64)
    });
    // Log a constant on success: descriptor numbers are not behaviour.
    let fd = r.unwrap_or(-1);
    fin("open", r.map(|_| 0), || format!("{:?}, {:#o} -> fd {}", lossy(p), flags, fd));
    fd as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_common(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_common(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_common(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_common(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !virt(fd) {
        return sc(SYS_close, fd as i64, 0, 0, 0, 0, 0) as c_int;
    }
    if !simulated() {
        if have_world() {
            let _ = world().close_fd(fd);
        }
        return 0;
    }
    let r = enter(Cls::Close, 0).and_then(|_| world().close_fd(fd)).map(|_| 0);
    fin("close", r, || format!("fd {}", fd)) as c_int
}

unsafe fn read_common(fd: c_int, buf: *mut c_void, n: usize, at: Option<u64>) -> i64 {
    let r = enter(Cls::Read, n).and_then(|dec| {
        let b = if n == 0 { &mut [][..] } else { std::slice::from_raw_parts_mut(buf as *mut u8, n) };
        world().do_read(fd, b, at, dec).map(|x| x as i64)
    });
    fin("read", r, || format!("{}, {}", fdname(fd), n))
}
fn fdname(fd: c_int) -> String {
    let w = world();
    match w.ofd(fd) {
        Ok(o) => format!("fd {} {:?}", fd, w.ofds[o].as_ref().map(|o| o.path.clone()).unwrap_or_default()),
        Err(_) => format!("fd {}", fd),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> ssize_t {
    if !simulated() || !virt(fd) {
        return sc(SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0) as ssize_t;
    }
    read_common(fd, buf, n, None) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> ssize_t {
    if !simulated() || !virt(fd) {
        return sc(SYS_pread64, fd as i64, buf as i64, n as i64, off, 0, 0) as ssize_t;
    }
    read_common(fd, buf, n, Some(off as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if !simulated() || !virt(fd) {
        return sc(SYS_readv, fd as i64, iov as i64, cnt as i64, 0, 0, 0) as ssize_t;
    }
    // A legal short transfer: the first non-empty buffer only.
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return read_common(fd, v.iov_base, v.iov_len, None) as ssize_t;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn preadv(fd: c_int, iov: *const iovec, cnt: c_int, off: i64) -> ssize_t {
    if !simulated() || !virt(fd) {
        return sc(SYS_preadv, fd as i64, iov as i64, cnt as i64, off, 0, 0) as ssize_t;
    }
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return read_common(fd, v.iov_base, v.iov_len, Some(off as u64)) as ssize_t;
        }
    }
    0
}
unsafe fn write_common(fd: c_int, buf: *const c_void, n: usize, at: Option<u64>) -> i64 {
    let r = enter(Cls::Write, n).and_then(|dec| {
        let b = if n == 0 { &[][..] } else { std::slice::from_raw_parts(buf as *const u8, n) };
        world().do_write(fd, b, at, dec).map(|x| x as i64)
    });
    fin("write", r, || format!("{}, {}", fdname(fd), n))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> ssize_t {
    if !simulated() || !virt(fd) {
        return sc(SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0) as ssize_t;
    }
    write_common(fd, buf, n, None) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> ssize_t {
    if !simulated() || !virt(fd) {
        return sc(SYS_pwrite64, fd as i64, buf as i64, n as i64, off, 0, 0) as ssize_t;
    }
    write_common(fd, buf, n, Some(off as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if !simulated() || !virt(fd) {
        return sc(SYS_writev, fd as i64, iov as i64, cnt as i64, 0, 0, 0) as ssize_t;
    }
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return write_common(fd, v.iov_base, v.iov_len, None) as ssize_t;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: c_int, iov: *const iovec, cnt: c_int, off: i64) -> ssize_t {
    if !simulated() || !virt(fd) {
        return sc(SYS_pwritev, fd as i64, iov as i64, cnt as i64, off, 0, 0) as ssize_t;
    }
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return write_common(fd, v.iov_base, v.iov_len, Some(off as u64)) as ssize_t;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if !simulated() || !virt(fd) {
        return sc(SYS_lseek, fd as i64, off, wh as i64, 0, 0, 0);
    }
    let r = enter(Cls::Other, 0).and_then(|_| world().do_lseek(fd, off, wh));
    fin("lseek", r, || format!("fd {}", fd))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if !simulated() || !virt(fd) {
        return sc(SYS_ftruncate, fd as i64, len, 0, 0, 0, 0) as c_int;
    }
    let r = enter(Cls::Trunc, 0).and_then(|_| world().do_ftruncate(fd, len)).map(|_| 0);
    fin("ftruncate", r, || format!("{}, {}", fdname(fd), len)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: i64, len: i64) -> c_int {
    if !simulated() || !virt(fd) {
        return sc(SYS_fallocate, fd as i64, mode as i64, off, len, 0, 0) as c_int;
    }
    *__errno_location() = EOPNOTSUPP;
    -1
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, _off: i64, _len: i64) -> c_int {
    if !simulated() || !virt(fd) {
        return sc(SYS_fallocate, fd as i64, 0, _off, _len, 0, 0) as c_int;
    }
    EOPNOTSUPP
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !simulated() || !virt(fd) {
        return sc(SYS_fsync, fd as i64, 0, 0, 0, 0, 0) as c_int;
    }
    let r = enter(Cls::Sync, 0).map(|_| 0);
    fin("fsync", r, || format!("fd {}", fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if !simulated() || !virt(fd) {
        return sc(SYS_fdatasync, fd as i64, 0, 0, 0, 0, 0) as c_int;
    }
    let r = enter(Cls::Sync, 0).map(|_| 0);
    fin("fdatasync", r, || format!("fd {}", fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !simulated() || !virt(fd) {
        return sc(SYS_flock, fd as i64, op as i64, 0, 0, 0, 0) as c_int;
    }
    let r = enter(Cls::Lock, 0).and_then(|_| do_flock(fd, op)).map(|_| 0);
    fin("flock", r, || format!("{}, {}", fdname(fd), op)) as c_int
}
unsafe fn dup_common(fd: c_int) -> i64 {
    let r = enter(Cls::Other, 0).and_then(|_| {
        let w = world();
        let o = w.ofd(fd)?;
        w.ofds[o].as_mut().unwrap().refs += 1;
        Ok(w.new_fd(o) as i64)
    });
    let nfd = r.unwrap_or(-1);
    fin("dup", r.map(|_| 0), || format!("fd {}", fd));
    nfd
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if !simulated() || !virt(fd) {
        return sc(SYS_dup, fd as i64, 0, 0, 0, 0, 0) as c_int;
    }
    dup_common(fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if !simulated() || !virt(fd) {
        return sc(SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0) as c_int;
    }
    match cmd {
        F_DUPFD | F_DUPFD_CLOEXEC => dup_common(fd) as c_int,
        F_GETFD | F_SETFD | F_GETFL | F_SETFL => {
            if world().cur_dead() || world().ofd(fd).is_ok() {
                0
            } else {
                *__errno_location() = EBADF;
                -1
            }
        }
        _ => {
            *__errno_location() = EINVAL;
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: c_long) -> c_int {
    if !simulated() || !virt(fd) {
        return sc(SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0) as c_int;
    }
    *__errno_location() = ENOTTY;
    -1
}

// ---------------------------------------------------------------- stat family

fn mode_of(w: &World, i: Ino) -> (u32, i64) {
    let n = w.ino(i);
    match &n.kind {
        Kind::File(f) => (S_IFREG | n.mode, f.len() as i64),
        Kind::Dir(d) => (S_IFDIR | n.mode, 64 + d.len() as i64),
        Kind::Link(l) => (S_IFLNK | n.mode, l.len() as i64),
    }
}
unsafe fn fill(w: &World, i: Ino, st: *mut stat64) {
    std::ptr::write_bytes(st, 0, 1);
    let (m, size) = mode_of(w, i);
    let n = w.ino(i);
    let s = &mut *st;
    s.st_dev = 77;
    s.st_ino = i as u64;
    s.st_mode = m;
    s.st_nlink = n.nlink as u64;
    s.st_size = size;
    s.st_blksize = 4096;
    s.st_blocks = (size + 511) / 512;
    s.st_mtime = (n.mtime / 1_000_000_000) as i64;
    s.st_mtime_nsec = (n.mtime % 1_000_000_000) as i64;
    s.st_ctime = s.st_mtime;
    s.st_atime = s.st_mtime;
}
fn stat_lookup(dirfd: c_int, p: &[u8], flags: c_int) -> R<Ino> {
    let w = world();
    if p.is_empty() && flags & AT_EMPTY_PATH != 0 {
        return w.at(dirfd);
    }
    let d = w.at(dirfd)?;
    w.resolve(d, p, flags & AT_SYMLINK_NOFOLLOW == 0)?.2.ok_or(ENOENT)
}
unsafe fn stat_common(dirfd: c_int, path: *const c_char, st: *mut stat64, flags: c_int) -> c_int {
    if !simulated() {
        return sc(SYS_newfstatat, dirfd as i64, path as i64, st as i64, flags as i64, 0, 0) as c_int;
    }
    let p = cs(path);
    let r = enter(Cls::Stat, 0).and_then(|_| stat_lookup(dirfd, p, flags)).map(|i| {
        fill(world(), i, st);
        0
    });
    fin("stat", r, || format!("{:?}", lossy(p))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut stat64) -> c_int {
    stat_common(AT_FDCWD, p, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut stat64) -> c_int {
    stat_common(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut stat64, f: c_int) -> c_int {
    stat_common(d, p, st, f)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    if !simulated() || !virt(fd) {
        return sc(SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0) as c_int;
    }
    let r = enter(Cls::Stat, 0).and_then(|_| world().at(fd)).map(|i| {
        fill(world(), i, st);
        0
    });
    fin("fstat", r, || format!("fd {}", fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if !simulated() || (virt(d) == false && d != AT_FDCWD && !path.is_null() && *path == 0) {
        return sc(SYS_statx, d as i64, path as i64, flags as i64, mask as i64, out as i64, 0) as c_int;
    }
    if path.is_null() || out.is_null() {
        // std's probe whether statx exists.
        *__errno_location() = EFAULT;
        return -1;
    }
    let p = cs(path);
    let r = enter(Cls::Stat, 0).and_then(|_| stat_lookup(d, p, flags)).map(|i| {
        let w = world();
        std::ptr::write_bytes(out, 0, 1);
        let (m, size) = mode_of(w, i);
        let n = w.ino(i);
        let s = &mut *out;
        s.stx_mask = 0x7ff;
        s.stx_blksize = 4096;
        s.stx_nlink = n.nlink;
        s.stx_mode = m as u16;
        s.stx_ino = i as u64;
        s.stx_size = size as u64;
        s.stx_blocks = ((size + 511) / 512) as u64;
        s.stx_mtime.tv_sec = (n.mtime / 1_000_000_000) as i64;
        s.stx_mtime.tv_nsec = (n.mtime % 1_000_000_000) as u32;
        s.stx_ctime = s.stx_mtime;
        s.stx_atime = s.stx_mtime;
        s.stx_dev_minor = 77;
        0
    });
    fin("statx", r, || if p.is_empty() { fdname(d) } else { format!("{:?}", lossy(p)) }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    faccessat(AT_FDCWD, p, mode, 0)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if !simulated() {
        return sc(SYS_faccessat, d as i64, path as i64, mode as i64, 0, 0, 0) as c_int;
    }
    let p = cs(path);
    let r = enter(Cls::Stat, 0).and_then(|_| stat_lookup(d, p, flags)).and_then(|_| {
        if mode & W_OK != 0 && world().readonly {
            Err(EROFS)
        } else {
            Ok(0)
        }
    });
    fin("access", r, || lossy(p)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: usize) -> ssize_t {
    readlinkat(AT_FDCWD, path, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn readlinkat(d: c_int, path: *const c_char, buf: *mut c_char, n: usize) -> ssize_t {
    if !simulated() {
        return sc(SYS_readlinkat, d as i64, path as i64, buf as i64, n as i64, 0, 0) as ssize_t;
    }
    let p = cs(path);
    let r = enter(Cls::Stat, 0).and_then(|_| stat_lookup(d, p, AT_SYMLINK_NOFOLLOW)).and_then(|i| {
        if let Kind::Link(t) = &world().ino(i).kind {
            let m = t.len().min(n);
            std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, m);
            Ok(m as i64)
        } else {
            Err(EINVAL)
        }
    });
    fin("readlink", r, || lossy(p)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, buf: *mut c_char) -> *mut c_char {
    if !simulated() {
        let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = real_fn!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char);
        return f(path, buf);
    }
    let p = cs(path);
    let mut out = String::new();
    let r = enter(Cls::Stat, 0).and_then(|_| stat_lookup(AT_FDCWD, p, 0)).map(|i| {
        let w = world();
        out = match w.ino(i).kind {
            Kind::Dir(_) => w.path_of(i),
            _ => {
                let (d, n, _) = w.resolve(w.cwd, p, true).unwrap();
                let d = w.path_of(d);
                format!("{}/{}", if d == "/" { "" } else { &d }, lossy(&n))
            }
        };
        0
    });
    if fin("realpath", r, || lossy(p)) < 0 {
        return std::ptr::null_mut();
    }
    let b = if buf.is_null() { malloc(4096) as *mut c_char } else { buf };
    std::ptr::copy_nonoverlapping(out.as_ptr(), b as *mut u8, out.len());
    *b.add(out.len()) = 0;
    b
}

// ---------------------------------------------------------------- names

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    unlinkat(AT_FDCWD, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    unlinkat(AT_FDCWD, path, AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    if !simulated() {
        return sc(SYS_unlinkat, d as i64, path as i64, flags as i64, 0, 0, 0) as c_int;
    }
    let p = cs(path);
    let dir = flags & AT_REMOVEDIR != 0;
    let r = enter(if dir { Cls::Rmdir } else { Cls::Unlink }, 0)
        .and_then(|_| {
            let w = world();
            let at = w.at(d)?;
            if dir {
                w.do_rmdir(at, p)
            } else {
                w.do_unlink(at, p)
            }
        })
        .map(|_| 0);
    fin(if dir { "rmdir" } else { "unlink" }, r, || format!("{:?}", lossy(p))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    mkdirat(AT_FDCWD, path, mode)
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, path: *const c_char, mode: mode_t) -> c_int {
    if !simulated() {
        return sc(SYS_mkdirat, d as i64, path as i64, mode as i64, 0, 0, 0) as c_int;
    }
    let p = cs(path);
    let r = enter(Cls::Mkdir, 0)
        .and_then(|_| {
            let w = world();
            let at = w.at(d)?;
            w.do_mkdir(at, p, mode as u32)
        })
        .map(|_| 0);
    fin("mkdir", r, || format!("{:?}", lossy(p))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    renameat2(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    renameat2(d1, a, d2, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, flags: c_uint) -> c_int {
    if !simulated() {
        return sc(SYS_renameat2, d1 as i64, a as i64, d2 as i64, b as i64, flags as i64, 0) as c_int;
    }
    let (pa, pb) = (cs(a), cs(b));
    let r = enter(Cls::Rename, 0)
        .and_then(|_| {
            let w = world();
            let (x, y) = (w.at(d1)?, w.at(d2)?);
            if flags & !1 != 0 {
                return Err(EINVAL);
            }
            w.do_rename(x, pa, y, pb, flags & 1 != 0)
        })
        .map(|_| 0);
    fin("rename", r, || format!("{:?}, {:?}", lossy(pa), lossy(pb))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(AT_FDCWD, a, AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, flags: c_int) -> c_int {
    if !simulated() {
        return sc(SYS_linkat, d1 as i64, a as i64, d2 as i64, b as i64, flags as i64, 0) as c_int;
    }
    let (pa, pb) = (cs(a), cs(b));
    let r = enter(Cls::Rename, 0)
        .and_then(|_| {
            let w = world();
            let (x, y) = (w.at(d1)?, w.at(d2)?);
            w.do_link(x, pa, y, pb)
        })
        .map(|_| 0);
    fin("link", r, || format!("{:?}, {:?}", lossy(pa), lossy(pb))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if !simulated() {
        return sc(SYS_symlink, a as i64, b as i64, 0, 0, 0, 0) as c_int;
    }
    let (pa, pb) = (cs(a), cs(b));
    let r = enter(Cls::Creat, 0)
        .and_then(|_| {
            let w = world();
            let c = w.cwd;
            w.do_symlink(pa, c, pb)
        })
        .map(|_| 0);
    fin("symlink", r, || format!("{:?}, {:?}", lossy(pa), lossy(pb))) as c_int
}
macro_rules! meta_noop {
    ($name:ident, $nr:expr, ($($a:ident : $t:ty),*), $cond:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            if !simulated() || !$cond {
                let v = [$($a as i64),*];
                let g = |i: usize| v.get(i).copied().unwrap_or(0);
                return sc($nr, g(0), g(1), g(2), g(3), g(4), 0) as c_int;
            }
            if world().readonly {
                *__errno_location() = EROFS;
                return -1;
            }
            let r = enter(Cls::Other, 0).map(|_| 0);
            fin(stringify!($name), r, String::new) as c_int
        }
    };
}
meta_noop!(chmod, SYS_chmod, (p: *const c_char, m: mode_t), true);
meta_noop!(fchmod, SYS_fchmod, (fd: c_int, m: mode_t), virt(fd));
meta_noop!(fchmodat, SYS_fchmodat, (d: c_int, p: *const c_char, m: mode_t, f: c_int), true);
meta_noop!(fchown, SYS_fchown, (fd: c_int, u: uid_t, g_: gid_t), virt(fd));
meta_noop!(futimens, SYS_utimensat, (fd: c_int, t: *const timespec), virt(fd));
meta_noop!(utimensat, SYS_utimensat, (d: c_int, p: *const c_char, t: *const timespec, f: c_int), true);

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    if !simulated() {
        let r = sc(SYS_getcwd, buf as i64, n as i64, 0, 0, 0, 0);
        return if r < 0 { std::ptr::null_mut() } else { buf };
    }
    let w = world();
    let p = w.path_of(w.cwd);
    if p.len() + 1 > n {
        *__errno_location() = ERANGE;
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(p.as_ptr(), buf as *mut u8, p.len());
    *buf.add(p.len()) = 0;
    buf
}

// ---------------------------------------------------------------- directory streams

unsafe fn make_dir(fd: c_int) -> R<*mut SimDir> {
    let w = world();
    let ino = w.at(fd)?;
    let ents = w.do_opendir_ino(ino)?;
    let d = Box::new(SimDir { magic: DIR_MAGIC, ents, idx: 0, fd, ent: std::mem::zeroed() });
    Ok(Box::into_raw(d))
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut DIR {
    if !simulated() {
        let f = real_fn!("opendir", unsafe extern "C" fn(*const c_char) -> *mut DIR);
        return f(path);
    }
    let p = cs(path);
    let mut out = std::ptr::null_mut();
    let r = enter(Cls::Opendir, 0).and_then(|_| {
        let w = world();
        let c = w.cwd;
        let fd = w.do_open(c, p, O_RDONLY | O_DIRECTORY, 0)?;
        out = make_dir(fd)? as *mut DIR;
        Ok(0)
    });
    fin("opendir", r, || format!("{:?}", lossy(p)));
    out
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    if !simulated() || !virt(fd) {
        let f = real_fn!("fdopendir", unsafe extern "C" fn(c_int) -> *mut DIR);
        return f(fd);
    }
    let mut out = std::ptr::null_mut();
    let r = enter(Cls::Opendir, 0).and_then(|_| {
        out = make_dir(fd)? as *mut DIR;
        Ok(0)
    });
    fin("fdopendir", r, || format!("fd {}", fd));
    out
}
unsafe fn is_sim_dir(d: *mut DIR) -> bool {
    !d.is_null() && *(d as *const u64) == DIR_MAGIC
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if !is_sim_dir(d) {
        let f = real_fn!("readdir64", unsafe extern "C" fn(*mut DIR) -> *mut dirent64);
        return f(d);
    }
    let sd = &mut *(d as *mut SimDir);
    let mut out = std::ptr::null_mut();
    let mut name = String::new();
    let r = if simulated() { enter(Cls::Readdir, 0) } else { Ok(Dec::Normal) }.and_then(|_| {
        let w = world();
        let dino = w.at(sd.fd)?;
        while sd.idx < sd.ents.len() {
            let (n, ino, t) = &sd.ents[sd.idx];
            sd.idx += 1;
            if !w.readdir_live(dino, n) {
                continue;
            }
            let e = &mut sd.ent;
            e.d_ino = *ino as u64;
            e.d_off = sd.idx as i64;
            e.d_reclen = std::mem::size_of::<dirent64>() as u16;
            e.d_type = *t;
            let m = n.len().min(255);
            std::ptr::copy_nonoverlapping(n.as_ptr() as *const c_char, e.d_name.as_mut_ptr(), m);
            e.d_name[m] = 0;
            name = lossy(n);
            out = e as *mut dirent64;
            return Ok(1);
        }
        Ok(0)
    });
    fin("readdir", r, || format!("{:?}", name));
    out
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if !is_sim_dir(d) {
        let f = real_fn!("closedir", unsafe extern "C" fn(*mut DIR) -> c_int);
        return f(d);
    }
    let b = Box::from_raw(d as *mut SimDir);
    let fd = b.fd;
    drop(b);
    // std asserts that this succeeds; nothing is lost if it does not.
    close(fd);
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    if !is_sim_dir(d) {
        let f = real_fn!("dirfd", unsafe extern "C" fn(*mut DIR) -> c_int);
        return f(d);
    }
    (*(d as *mut SimDir)).fd
}

// ---------------------------------------------------------------- bulk copy: not offered, callers fall back

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut i64, c: c_int, d: *mut i64, n: usize, f: c_uint) -> ssize_t {
    if !simulated() {
        return sc(SYS_copy_file_range, a as i64, b as i64, c as i64, d as i64, n as i64, f as i64) as ssize_t;
    }
    *__errno_location() = ENOSYS;
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, c: *mut i64, n: usize) -> ssize_t {
    if !simulated() {
        return sc(SYS_sendfile, a as i64, b as i64, c as i64, n as i64, 0, 0) as ssize_t;
    }
    *__errno_location() = ENOSYS;
    -1
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, b: *mut i64, c: c_int, d: *mut i64, n: usize, f: c_uint) -> ssize_t {
    if !simulated() {
        return sc(SYS_splice, a as i64, b as i64, c as i64, d as i64, n as i64, f as i64) as ssize_t;
    }
    *__errno_location() = ENOSYS;
    -1
}

// ---------------------------------------------------------------- time, identity, randomness

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, ts: *mut timespec) -> c_int {
    if !simulated() {
        return sc(SYS_clock_gettime, c as i64, ts as i64, 0, 0, 0, 0) as c_int;
    }
    let w = world();
    w.clock += 100;
    let t = if c == CLOCK_REALTIME { w.clock } else { w.clock - 1_699_999_000_000_000_000 };
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
unsafe fn sim_sleep(ns: u64) -> c_int {
    if enter(Cls::Other, 0).is_err() {
        return 0;
    }
    let until = world().clock + ns.max(1);
    block(St::Sleep(until));
    fin("sleep", Ok(0), || format!("{} ns", ns)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, f: c_int, t: *const timespec, rem: *mut timespec) -> c_int {
    if !simulated() {
        return -(sys::raw(SYS_clock_nanosleep, c as i64, f as i64, t as i64, rem as i64, 0, 0) as c_int);
    }
    let ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
    let ns = if f & TIMER_ABSTIME != 0 {
        let now = if c == CLOCK_REALTIME { world().clock } else { world().clock - 1_699_999_000_000_000_000 };
        ns.saturating_sub(now)
    } else {
        ns
    };
    sim_sleep(ns)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const timespec, rem: *mut timespec) -> c_int {
    if !simulated() {
        return sc(SYS_nanosleep, t as i64, rem as i64, 0, 0, 0, 0) as c_int;
    }
    sim_sleep((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !simulated() {
        return sc(SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int;
    }
    world().demote();
    let _ = enter(Cls::Other, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if !simulated() {
        return sc(SYS_getpid, 0, 0, 0, 0, 0, 0) as pid_t;
    }
    let w = world();
    let p = w.th().proc_;
    w.procs[p].pid
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> pid_t {
    if !simulated() {
        return sc(SYS_gettid, 0, 0, 0, 0, 0, 0) as pid_t;
    }
    5000 + world().cur as pid_t
}
unsafe fn fill_random(buf: *mut c_void, n: usize) -> i64 {
    let w = world();
    for i in 0..n {
        *(buf as *mut u8).add(i) = w.env_rng.u64() as u8;
    }
    n as i64
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, f: c_uint) -> ssize_t {
    if !simulated() {
        return sc(SYS_getrandom, buf as i64, n as i64, f as i64, 0, 0, 0) as ssize_t;
    }
    fill_random(buf, n) as ssize_t
}

// ---------------------------------------------------------------- raw syscall(): futexes, and what std probes for

unsafe fn futex(a: *const u32, op: c_int, val: u32, ts: *const timespec) -> i64 {
    let cmd = op & 0x7f;
    let addr = a as usize;
    match cmd {
        0 | 9 => {
            if world().cur_dead() {
                // A dying thread never sleeps; let the others go on.
                let _ = enter(Cls::Other, 0);
                preempt();
                return 0;
            }
            if enter(Cls::Other, 0).is_err() {
                return 0;
            }
            if std::ptr::read_volatile(a) != val {
                *__errno_location() = EAGAIN;
                return -1;
            }
            let w = world();
            let until = if ts.is_null() {
                0
            } else {
                let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                if cmd == 9 {
                    if op & FUTEX_CLOCK_REALTIME != 0 {
                        t
                    } else {
                        t + 1_699_999_000_000_000_000
                    }
                } else {
                    w.clock + t
                }
            };
            w.th().timeout = until;
            block(St::Futex(addr));
            let w = world();
            let timed_out = until != 0 && w.clock >= until;
            w.th().timeout = 0;
            if timed_out {
                *__errno_location() = ETIMEDOUT;
                return -1;
            }
            0
        }
        1 | 10 => {
            let mut n = 0;
            let w = world();
            for t in &mut w.threads {
                if n < val as i64 && t.st == St::Futex(addr) {
                    t.st = St::Run;
                    n += 1;
                }
            }
            let _ = enter(Cls::Other, 0);
            n
        }
        _ => {
            *__errno_location() = ENOSYS;
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if !simulated() {
        return sc(n, a, b, c, d, e, f);
    }
    match n {
        SYS_futex => futex(a as *const u32, b as c_int, c as u32, d as *const timespec),
        SYS_getrandom => fill_random(a as *mut c_void, b as usize),
        SYS_gettid => gettid() as c_long,
        SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
        SYS_renameat2 => renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as c_uint) as c_long,
        _ => {
            *__errno_location() = ENOSYS;
            -1
        }
    }
}

// ---------------------------------------------------------------- threads started by the code under test

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: usize,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    let sem: *const std::sync::atomic::AtomicU32 = &*world().threads[s.tid].sem;
    unsafe { wait_sem(&*sem) };
    TID.with(|t| t.set(s.tid as i32));
    let r = (s.f)(s.arg);
    TID.with(|t| t.set(-1));
    finish();
    r
}
type PCreate = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let rf = real_fn!("pthread_create", PCreate);
    if !simulated() {
        return rf(t, attr, f, arg);
    }
    if enter(Cls::Other, 0).is_err() {
        return EAGAIN;
    }
    let w = world();
    let p = w.th().proc_;
    let op = w.th().op;
    let tid = w.add_thread(p, false);
    w.threads[tid].op = op;
    let s = Box::into_raw(Box::new(Start { f, arg, tid }));
    TID.with(|x| x.set(-1));
    let r = rf(t, attr, trampoline, s as *mut c_void);
    TID.with(|x| x.set(world().cur as i32));
    if r != 0 {
        world().threads[tid].st = St::Done;
    } else {
        world().threads[tid].handle = *t as u64;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    let rf = real_fn!("pthread_join", unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int);
    if !simulated() {
        return rf(t, out);
    }
    let _ = enter(Cls::Other, 0);
    let w = world();
    let child = w.threads.iter().position(|x| x.handle == t as u64 && x.handle != 0);
    if let Some(c) = child {
        w.threads[c].handle = 0;
        if w.threads[c].st != St::Done {
            if w.cur_dead() {
                while world().threads[c].st != St::Done {
                    preempt();
                    let w = world();
                    w.decision += 1;
                    // Force progress: run the child.
                    force(c);
                }
            } else {
                block(St::Join(c));
                while world().threads[c].st != St::Done {
                    force(c);
                }
            }
        }
    }
    let cur = TID.with(|x| x.replace(-1));
    let r = rf(t, out);
    TID.with(|x| x.set(cur));
    r
}
/// Used only while a killed process unwinds.
fn force(c: usize) {
    let w = world();
    if w.threads[c].st == St::Run {
        let me = w.cur;
        let (mine, theirs): (*const _, *const std::sync::atomic::AtomicU32) = (&*w.threads[me].sem, &*w.threads[c].sem);
        let mine: *const std::sync::atomic::AtomicU32 = mine;
        w.cur = c;
        unsafe {
            (*theirs).store(1, std::sync::atomic::Ordering::SeqCst);
            sys::futex_wake(&*theirs);
            wait_sem(&*mine);
        }
    }
}
