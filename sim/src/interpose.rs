#![allow(invalid_runtime_symbol_definitions, non_upper_case_globals)]
//! The libc symbols through which code reaches the outside world.  On a simulated thread they are
//! served by the simulator, on any other thread by the operating system.

#![allow(clippy::missing_safety_doc)]

use crate::kernel::{kern, me, sim, ACTIVE};
use crate::raw::{set_errno, sys};
use crate::scenario::{Class, FaultKind};
use crate::vfs::{Ino, Kind};
use libc::*;
use std::borrow::Cow;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// debugging aid: let the code under test print
pub static SHOW: AtomicUsize = AtomicUsize::new(0);
const VFD: i32 = 1_000_000;

unsafe fn cstr<'a>(p: *const c_char) -> Cow<'a, [u8]> {
    crate::vfs::from_os(std::ffi::CStr::from_ptr(p).to_bytes())
}

fn real(slot: &AtomicUsize, name: &'static [u8]) -> usize {
    let v = slot.load(Relaxed);
    if v != 0 {
        return v;
    }
    let p = unsafe { dlsym(RTLD_NEXT, name.as_ptr() as *const c_char) } as usize;
    assert!(p != 0);
    slot.store(p, Relaxed);
    p
}

macro_rules! real {
    ($name:literal, $ty:ty) => {{
        static SLOT: AtomicUsize = AtomicUsize::new(0);
        std::mem::transmute::<usize, $ty>(real(&SLOT, concat!($name, "\0").as_bytes()))
    }};
}

fn ret(r: Result<i32, i32>) -> i32 {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

fn forbid(what: &str, p: &[u8]) -> i32 {
    let t = me().unwrap();
    let s = sim();
    let path = String::from_utf8_lossy(p).into_owned();
    let _ = s.fsop(t, Class::Other, &path);
    s.violation("write", format!("{what} {path}"));
    set_errno(EROFS);
    -1
}

// ------------------------------------------------------------------ open / close / read

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let _k = kern();
    match me() {
        Some(t) => ret(sim().open(t, &cstr(p), flags)),
        None => sys(SYS_open, p as usize, flags as usize, mode as usize, 0, 0, 0) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let _k = kern();
    open(p, flags, mode)
}
unsafe fn at_path(dir: c_int, p: &[u8]) -> Result<Vec<u8>, i32> {
    if p.first() == Some(&b'/') || dir == AT_FDCWD {
        return Ok(p.to_vec());
    }
    match sim().fds.get(&dir) {
        Some(f) => {
            let mut v = f.path.clone().into_bytes();
            if !p.is_empty() {
                v.push(b'/');
                v.extend_from_slice(p);
            }
            Ok(v)
        }
        None => Err(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let _k = kern();
    match me() {
        Some(t) => ret(at_path(dir, &cstr(p)).and_then(|p| sim().open(t, &p, flags))),
        None => sys(SYS_openat, dir as usize, p as usize, flags as usize, mode as usize, 0, 0) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let _k = kern();
    openat(dir, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const c_char, mode: c_uint) -> c_int {
    let _k = kern();
    open(p, O_WRONLY | O_CREAT | O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _k = kern();
    if me().is_some() && fd >= VFD {
        sim().close(fd);
        return 0;
    }
    sys(SYS_close, fd as usize, 0, 0, 0, 0, 0) as i32
}
unsafe fn vread(t: usize, fd: c_int, buf: *mut c_void, n: size_t, at: Option<usize>) -> ssize_t {
    match sim().read(t, fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), at) {
        Ok(n) => n as ssize_t,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let _k = kern();
    match me() {
        Some(t) if fd >= VFD => vread(t, fd, buf, n, None),
        Some(_) if fd == 0 => 0,
        _ => sys(SYS_read, fd as usize, buf as usize, n, 0, 0, 0),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    let _k = kern();
    match me() {
        Some(t) if fd >= VFD => vread(t, fd, buf, n, Some(off as usize)),
        _ => sys(SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    let _k = kern();
    pread64(fd, buf, n, off)
}
unsafe fn vreadv(t: usize, fd: c_int, iov: *const iovec, n: c_int, at: Option<usize>) -> ssize_t {
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return vread(t, fd, v.iov_base, v.iov_len, at);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    let _k = kern();
    match me() {
        Some(t) if fd >= VFD => vreadv(t, fd, iov, n, None),
        _ => sys(SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0),
    }
}
#[no_mangle]
pub unsafe extern "C" fn preadv(fd: c_int, iov: *const iovec, n: c_int, off: off64_t) -> ssize_t {
    let _k = kern();
    match me() {
        Some(t) if fd >= VFD => vreadv(t, fd, iov, n, Some(off as usize)),
        _ => sys(SYS_preadv, fd as usize, iov as usize, n as usize, off as usize, 0, 0),
    }
}
#[no_mangle]
pub unsafe extern "C" fn preadv64(fd: c_int, iov: *const iovec, n: c_int, off: off64_t) -> ssize_t {
    let _k = kern();
    preadv(fd, iov, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let _k = kern();
    if me().is_some() {
        if fd == 1 || fd == 2 {
            if SHOW.load(Relaxed) != 0 {
                sys(SYS_write, 2, buf as usize, n, 0, 0, 0);
            }
            return n as ssize_t;
        }
        return forbid("write to descriptor", format!("{fd}").as_bytes()) as ssize_t;
    }
    sys(SYS_write, fd as usize, buf as usize, n, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    let _k = kern();
    if me().is_some() {
        if fd == 1 || fd == 2 {
            return (0..n as usize).map(|i| (*iov.add(i)).iov_len as ssize_t).sum();
        }
        return forbid("write to descriptor", format!("{fd}").as_bytes()) as ssize_t;
    }
    sys(SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    let _k = kern();
    if me().is_some() {
        return forbid("write to descriptor", format!("{fd}").as_bytes()) as ssize_t;
    }
    sys(SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    let _k = kern();
    if me().is_some() && fd >= VFD {
        let s = sim();
        let (ino, pos) = match s.fds.get(&fd) {
            Some(f) => (f.ino, f.pos as i64),
            None => {
                set_errno(EBADF);
                return -1;
            }
        };
        let len = match &s.vfs.node(ino).kind {
            Kind::File(d) => d.len() as i64,
            _ => 0,
        };
        let new = match whence {
            SEEK_SET => off,
            SEEK_CUR => pos + off,
            _ => len + off,
        };
        if new < 0 {
            set_errno(EINVAL);
            return -1;
        }
        s.fds.get_mut(&fd).unwrap().pos = new as usize;
        return new;
    }
    sys(SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    let _k = kern();
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let _k = kern();
    if me().is_some() && fd >= VFD {
        return match cmd {
            F_GETFD => FD_CLOEXEC,
            F_DUPFD | F_DUPFD_CLOEXEC => ret(sim().dup(fd)),
            _ => 0,
        };
    }
    sys(SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let _k = kern();
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    let _k = kern();
    if me().is_some() && fd >= VFD {
        return 0;
    }
    sys(SYS_flock, fd as usize, op as usize, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: off64_t, b: off64_t, c: c_int) -> c_int {
    let _k = kern();
    if me().is_some() && fd >= VFD {
        return 0;
    }
    sys(SYS_fadvise64, fd as usize, a as usize, b as usize, c as usize, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    let _k = kern();
    if fd >= VFD && me().is_some() {
        let t = me().unwrap();
        // a private copy of the current contents
        let p = sys(
            SYS_mmap,
            a as usize,
            n,
            (PROT_READ | PROT_WRITE) as usize,
            (MAP_PRIVATE | MAP_ANONYMOUS) as usize,
            usize::MAX,
            0,
        ) as *mut c_void;
        if p != MAP_FAILED && vread(t, fd, p, n, Some(off as usize)) < 0 {
            return MAP_FAILED;
        }
        return p;
    }
    sys(SYS_mmap, a as usize, n, prot as usize, flags as usize, fd as usize, off as usize) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    let _k = kern();
    mmap(a, n, prot, flags, fd, off)
}

// ------------------------------------------------------------------ stat

fn node_of(fd: c_int) -> Result<Ino, i32> {
    sim().fds.get(&fd).map(|f| f.ino).ok_or(EBADF)
}

/// looks a path (or descriptor, with an empty path) up, as one file operation
unsafe fn lookup(t: usize, dir: c_int, p: &[u8], flags: c_int) -> Result<Ino, i32> {
    let s = sim();
    if p.is_empty() {
        if flags & AT_EMPTY_PATH == 0 {
            return Err(ENOENT);
        }
        let path = s.fds.get(&dir).ok_or(EBADF)?.path.clone();
        if let Some(FaultKind::Errno(e)) = s.fsop(t, Class::Fstat, &path) {
            return Err(e);
        }
        return node_of(dir);
    }
    let path = at_path(dir, p)?;
    let ps = String::from_utf8_lossy(&path).into_owned();
    if let Some(FaultKind::Errno(e)) = s.fsop(t, Class::Stat, &ps) {
        return Err(e);
    }
    s.vfs.lookup(&path, flags & AT_SYMLINK_NOFOLLOW == 0)
}

struct Meta {
    dev: u64,
    mode: u32,
    size: u64,
    mtime: i64,
    ino: u64,
    born: i64,
    changed: i64,
}
fn meta(ino: Ino) -> Meta {
    let n = sim().vfs.node(ino);
    let (mode, size) = match &n.kind {
        Kind::File(d) => (S_IFREG | if n.deny { 0 } else { 0o644 }, d.len() as u64),
        Kind::Dir(_) => (S_IFDIR | if n.deny { 0 } else { 0o755 }, 4096),
        Kind::Link(l) => (S_IFLNK | 0o777, l.len() as u64),
        Kind::Special => (S_IFSOCK | 0o755, 0),
    };
    let e = &sim().env;
    let dev = 77 + e.dev + if sim().mounted.contains(&ino) { 5 } else { 0 };
    Meta { dev, mode, size, mtime: n.mtime, ino: n.num.wrapping_mul(e.ino_mul.max(1)).wrapping_add(e.ino_add), born: n.born, changed: n.changed }
}
unsafe fn fill(ino: Ino, st: *mut stat64) {
    let m = meta(ino);
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat64>());
    let st = &mut *st;
    st.st_dev = m.dev;
    st.st_ino = m.ino;
    st.st_nlink = 1;
    st.st_mode = m.mode;
    st.st_size = m.size as i64;
    st.st_blksize = 4096;
    st.st_blocks = (m.size as i64 + 511) / 512;
    st.st_mtime = m.mtime.div_euclid(1_000_000_000);
    st.st_mtime_nsec = m.mtime.rem_euclid(1_000_000_000);
    st.st_ctime = m.changed.div_euclid(1_000_000_000);
    st.st_ctime_nsec = m.changed.rem_euclid(1_000_000_000);
    st.st_atime = st.st_mtime;
    st.st_atime_nsec = st.st_mtime_nsec;
}
unsafe fn vstat(t: usize, dir: c_int, p: &[u8], flags: c_int, st: *mut stat64) -> c_int {
    match lookup(t, dir, p, flags) {
        Ok(i) => {
            fill(i, st);
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut stat64) -> c_int {
    let _k = kern();
    match me() {
        Some(t) => vstat(t, AT_FDCWD, &cstr(p), 0, st),
        None => sys(SYS_stat, p as usize, st as usize, 0, 0, 0, 0) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut stat64) -> c_int {
    let _k = kern();
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut stat64) -> c_int {
    let _k = kern();
    match me() {
        Some(t) => vstat(t, AT_FDCWD, &cstr(p), AT_SYMLINK_NOFOLLOW, st),
        None => sys(SYS_lstat, p as usize, st as usize, 0, 0, 0, 0) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut stat64) -> c_int {
    let _k = kern();
    lstat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    let _k = kern();
    match me() {
        Some(t) if fd >= VFD => vstat(t, fd, b"", AT_EMPTY_PATH, st),
        _ => sys(SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut stat64) -> c_int {
    let _k = kern();
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dir: c_int, p: *const c_char, st: *mut stat64, flags: c_int) -> c_int {
    let _k = kern();
    match me() {
        Some(t) => vstat(t, dir, &cstr(p), flags, st),
        None => sys(SYS_newfstatat, dir as usize, p as usize, st as usize, flags as usize, 0, 0) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(dir: c_int, p: *const c_char, st: *mut stat64, flags: c_int) -> c_int {
    let _k = kern();
    fstatat64(dir, p, st, flags)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    let _k = kern();
    let t = match me() {
        Some(t) => t,
        None => return sys(SYS_statx, dir as usize, p as usize, flags as usize, mask as usize, out as usize, 0) as i32,
    };
    if p.is_null() || out.is_null() {
        set_errno(EFAULT);
        return -1;
    }
    match lookup(t, dir, &cstr(p), flags) {
        Ok(i) => {
            let m = meta(i);
            std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
            let o = &mut *out;
            o.stx_mask = STATX_BASIC_STATS | (mask & STATX_BTIME);
            o.stx_blksize = 4096;
            o.stx_nlink = 1;
            o.stx_mode = m.mode as u16;
            o.stx_ino = m.ino;
            o.stx_size = m.size;
            o.stx_blocks = m.size.div_ceil(512);
            o.stx_dev_minor = m.dev as u32;
            for (ts, x) in [(&mut o.stx_mtime, m.mtime), (&mut o.stx_atime, m.mtime), (&mut o.stx_ctime, m.changed), (&mut o.stx_btime, m.born)] {
                ts.tv_sec = x.div_euclid(1_000_000_000);
                ts.tv_nsec = x.rem_euclid(1_000_000_000) as u32;
            }
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
unsafe fn vaccess(t: usize, dir: c_int, p: &[u8], mode: c_int, flags: c_int) -> c_int {
    match lookup(t, dir, p, flags) {
        Ok(i) => {
            if mode != F_OK && sim().vfs.node(i).deny {
                set_errno(EACCES);
                return -1;
            }
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    let _k = kern();
    match me() {
        Some(t) => vaccess(t, AT_FDCWD, &cstr(p), mode, 0),
        None => sys(SYS_access, p as usize, mode as usize, 0, 0, 0, 0) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(dir: c_int, p: *const c_char, mode: c_int, flags: c_int) -> c_int {
    let _k = kern();
    match me() {
        Some(t) => vaccess(t, dir, &cstr(p), mode, flags),
        None => sys(SYS_faccessat2, dir as usize, p as usize, mode as usize, flags as usize, 0, 0) as i32,
    }
}

// ------------------------------------------------------------------ names

#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let _k = kern();
    let t = match me() {
        Some(t) => t,
        None => return real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, out),
    };
    let s = sim();
    let path = cstr(p);
    let path: &[u8] = &path;
    let ps = String::from_utf8_lossy(path).into_owned();
    let r = match s.fsop(t, Class::Realpath, &ps) {
        Some(FaultKind::Errno(e)) => Err(e),
        _ => s.vfs.realpath(path),
    };
    match r {
        Ok(v) => {
            let v = crate::vfs::to_os(&v);
            let o = if out.is_null() { malloc(v.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(v.as_ptr(), o as *mut u8, v.len());
            *o.add(v.len()) = 0;
            o
        }
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    let _k = kern();
    let t = match me() {
        Some(t) => t,
        None => return sys(SYS_readlink, p as usize, buf as usize, n, 0, 0, 0),
    };
    if !sim().env.exe.is_empty() && &cstr(p)[..] == b"/proc/self/exe" {
        let l = sim().env.exe.as_bytes();
        let k = l.len().min(n);
        std::ptr::copy_nonoverlapping(l.as_ptr(), buf as *mut u8, k);
        return k as ssize_t;
    }
    match lookup(t, AT_FDCWD, &cstr(p), AT_SYMLINK_NOFOLLOW) {
        Ok(i) => match &sim().vfs.node(i).kind {
            Kind::Link(l) => {
                let l = crate::vfs::to_os(l);
                let k = l.len().min(n);
                std::ptr::copy_nonoverlapping(l.as_ptr(), buf as *mut u8, k);
                k as ssize_t
            }
            _ => {
                set_errno(EINVAL);
                -1
            }
        },
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    let _k = kern();
    match me() {
        Some(_) => 4242 + sim().env.pid,
        None => sys(SYS_getpid, 0, 0, 0, 0, 0, 0) as pid_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    let _k = kern();
    if me().is_none() {
        if sys(SYS_getcwd, buf as usize, n, 0, 0, 0, 0) < 0 {
            return std::ptr::null_mut();
        }
        return buf;
    }
    let cwd = &sim().vfs.cwd;
    if cwd == "/nowhere" {
        // it has been deleted
        set_errno(ENOENT);
        return std::ptr::null_mut();
    }
    if n <= cwd.len() {
        set_errno(ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(cwd.as_ptr(), buf as *mut u8, cwd.len());
    *buf.add(cwd.len()) = 0;
    buf
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    let _k = kern();
    if me().is_some() {
        return forbid("chdir", &cstr(p));
    }
    sys(SYS_chdir, p as usize, 0, 0, 0, 0, 0) as i32
}

// the rest of the process is not a call's to change, either
#[no_mangle]
pub unsafe extern "C" fn setenv(k: *const c_char, v: *const c_char, o: c_int) -> c_int {
    let _k = kern();
    if me().is_some() {
        return forbid("setenv", &cstr(k));
    }
    real!("setenv", unsafe extern "C" fn(*const c_char, *const c_char, c_int) -> c_int)(k, v, o)
}
#[no_mangle]
pub unsafe extern "C" fn getenv(k: *const c_char) -> *mut c_char {
    let _k = kern();
    let r = real!("getenv", unsafe extern "C" fn(*const c_char) -> *mut c_char)(k);
    if r.is_null() && me().is_some() && !sim().env.any_var.is_empty() {
        return std::ffi::CString::new(sim().env.any_var.as_str()).unwrap().into_raw();
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(k: *const c_char) -> c_int {
    let _k = kern();
    if me().is_some() {
        return forbid("unsetenv", &cstr(k));
    }
    real!("unsetenv", unsafe extern "C" fn(*const c_char) -> c_int)(k)
}
#[no_mangle]
pub unsafe extern "C" fn umask(m: mode_t) -> mode_t {
    let _k = kern();
    if me().is_some() {
        forbid("umask", b"");
        return 0o022;
    }
    sys(SYS_umask, m as usize, 0, 0, 0, 0, 0) as mode_t
}

// ------------------------------------------------------------------ directories

struct VDir {
    fd: i32,
    list: Vec<(Vec<u8>, Ino, u8)>,
    pos: usize,
    ent: dirent64,
}
const VDIR_TAG: usize = 1;

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let _k = kern();
    let t = match me() {
        Some(t) => t,
        None => return real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut c_void)(p),
    };
    match sim().open(t, &cstr(p), O_RDONLY | O_DIRECTORY) {
        Ok(fd) => vdir(fd),
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
unsafe fn vdir(fd: i32) -> *mut c_void {
    let s = sim();
    let ino = s.fds[&fd].ino;
    let list = match &s.vfs.node(ino).kind {
        Kind::Dir(e) => e
            .iter()
            .map(|(k, i)| {
                let ty = match s.vfs.node(*i).kind {
                    Kind::File(_) => DT_REG,
                    Kind::Dir(_) => DT_DIR,
                    Kind::Link(_) => DT_LNK,
                    Kind::Special => DT_SOCK,
                };
                (k.clone(), *i, ty)
            })
            .collect(),
        _ => vec![],
    };
    let d = Box::new(VDir { fd, list, pos: 0, ent: std::mem::zeroed() });
    (Box::into_raw(d) as usize | VDIR_TAG) as *mut c_void
}
unsafe fn as_vdir(d: *mut c_void) -> Option<*mut VDir> {
    if d as usize & VDIR_TAG != 0 {
        Some((d as usize & !VDIR_TAG) as *mut VDir)
    } else {
        None
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    let _k = kern();
    if me().is_some() && fd >= VFD {
        return vdir(fd);
    }
    real!("fdopendir", unsafe extern "C" fn(c_int) -> *mut c_void)(fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut dirent64 {
    let _k = kern();
    let v = match as_vdir(d) {
        Some(v) => &mut *v,
        None => return real!("readdir64", unsafe extern "C" fn(*mut c_void) -> *mut dirent64)(d),
    };
    if let Some(t) = me() {
        let path = sim().fds.get(&v.fd).map_or(String::new(), |f| f.path.clone());
        if let Some(FaultKind::Errno(e)) = sim().fsop(t, Class::Read, &path) {
            set_errno(e);
            return std::ptr::null_mut();
        }
    }
    if v.pos >= v.list.len() {
        return std::ptr::null_mut();
    }
    let (name, ino, ty) = &v.list[v.pos];
    v.pos += 1;
    v.ent.d_ino = *ino as u64 + 2;
    v.ent.d_type = *ty;
    v.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
    let name = crate::vfs::to_os(name);
    for (i, b) in name.iter().enumerate().take(255) {
        v.ent.d_name[i] = *b as c_char;
    }
    v.ent.d_name[name.len().min(255)] = 0;
    &mut v.ent
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let _k = kern();
    match as_vdir(d) {
        Some(v) => {
            let b = Box::from_raw(v);
            if me().is_some() {
                sim().close(b.fd);
            }
            0
        }
        None => real!("closedir", unsafe extern "C" fn(*mut c_void) -> c_int)(d),
    }
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    let _k = kern();
    match as_vdir(d) {
        Some(v) => (*v).fd,
        None => real!("dirfd", unsafe extern "C" fn(*mut c_void) -> c_int)(d),
    }
}

// ------------------------------------------------------------------ changes: never allowed

macro_rules! forbidden {
    ($($name:ident ( $($arg:ident : $ty:ty),* ) path $p:ident sys $nr:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($arg: $ty),*) -> c_int {
            let _k = kern();
            if me().is_some() {
                return forbid(stringify!($name), &cstr($p));
            }
            let a = [$($arg as usize),*];
            let g = |i: usize| a.get(i).copied().unwrap_or(0);
            sys($nr, g(0), g(1), g(2), g(3), g(4), 0) as c_int
        }
    )*};
}
forbidden! {
    mkdir(p: *const c_char, m: mode_t) path p sys SYS_mkdir;
    mkdirat(d: c_int, p: *const c_char, m: mode_t) path p sys SYS_mkdirat;
    rmdir(p: *const c_char) path p sys SYS_rmdir;
    unlink(p: *const c_char) path p sys SYS_unlink;
    unlinkat(d: c_int, p: *const c_char, f: c_int) path p sys SYS_unlinkat;
    rename(p: *const c_char, q: *const c_char) path p sys SYS_rename;
    renameat(d: c_int, p: *const c_char, e: c_int, q: *const c_char) path p sys SYS_renameat;
    symlink(q: *const c_char, p: *const c_char) path p sys SYS_symlink;
    symlinkat(q: *const c_char, d: c_int, p: *const c_char) path p sys SYS_symlinkat;
    link(q: *const c_char, p: *const c_char) path p sys SYS_link;
    linkat(d: c_int, q: *const c_char, e: c_int, p: *const c_char, f: c_int) path p sys SYS_linkat;
    chmod(p: *const c_char, m: mode_t) path p sys SYS_chmod;
    fchmodat(d: c_int, p: *const c_char, m: mode_t) path p sys SYS_fchmodat;
    chown(p: *const c_char, u: uid_t, g: gid_t) path p sys SYS_chown;
    lchown(p: *const c_char, u: uid_t, g: gid_t) path p sys SYS_lchown;
    truncate64(p: *const c_char, n: off64_t) path p sys SYS_truncate;
    truncate(p: *const c_char, n: off64_t) path p sys SYS_truncate;
    mkfifo(p: *const c_char, m: mode_t) path p sys SYS_mknod;
    utimensat(d: c_int, p: *const c_char, ts: *const timespec, f: c_int) path p sys SYS_utimensat;
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    let _k = kern();
    if me().is_some() {
        return forbid("ftruncate", b"");
    }
    sys(SYS_ftruncate, fd as usize, n as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    let _k = kern();
    if me().is_some() {
        return forbid("fchmod", b"");
    }
    sys(SYS_fchmod, fd as usize, m as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const timespec) -> c_int {
    let _k = kern();
    if me().is_some() {
        return forbid("futimens", b"");
    }
    sys(SYS_utimensat, fd as usize, 0, ts as usize, 0, 0, 0) as c_int
}

// ------------------------------------------------------------------ time, randomness, processors

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    let _k = kern();
    if me().is_some() {
        let s = sim();
        let now = match id {
            CLOCK_REALTIME | CLOCK_REALTIME_COARSE => s.clock,
            _ => s.mono,
        };
        (*ts).tv_sec = now.div_euclid(1_000_000_000);
        (*ts).tv_nsec = now.rem_euclid(1_000_000_000);
        return 0;
    }
    sys(SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, tz: *mut c_void) -> c_int {
    let _k = kern();
    if me().is_some() {
        let now = sim().clock;
        (*tv).tv_sec = now.div_euclid(1_000_000_000);
        (*tv).tv_usec = now.rem_euclid(1_000_000_000) / 1000;
        return 0;
    }
    sys(SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut time_t) -> time_t {
    let _k = kern();
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !out.is_null() {
        *out = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    let _k = kern();
    if let Some(t) = me() {
        sim().sleep(t, (*req).tv_sec.saturating_mul(1_000_000_000).saturating_add((*req).tv_nsec));
        return 0;
    }
    sys(SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    let _k = kern();
    if let Some(t) = me() {
        let s = sim();
        let mut ns = (*req).tv_sec.saturating_mul(1_000_000_000).saturating_add((*req).tv_nsec);
        if flags & TIMER_ABSTIME != 0 {
            ns -= if id == CLOCK_REALTIME { s.clock } else { s.mono };
        }
        s.sleep(t, ns);
        return 0;
    }
    -(crate::raw::syscall6(SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let _k = kern();
    let ts = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    nanosleep(&ts, std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    let _k = kern();
    if let Some(t) = me() {
        sim().yield_now(t);
        return 0;
    }
    sys(SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    let _k = kern();
    if let Some(t) = me() {
        let s = sim();
        s.tasks[t].hash_ctr += 1;
        let mut x = s
            .hash_seed
            .wrapping_mul(0xA24BAED4963EE407)
            .wrapping_add((t as u64) << 32)
            .wrapping_add(s.tasks[t].hash_ctr);
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for c in out.chunks_mut(8) {
            let v = crate::rng::splitmix(&mut x).to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
        return n as ssize_t;
    }
    sys(SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, n: size_t, set: *mut cpu_set_t) -> c_int {
    let _k = kern();
    if me().is_some() {
        std::ptr::write_bytes(set as *mut u8, 0, n);
        for i in 0..sim().cpus as usize {
            CPU_SET(i, &mut *set);
        }
        return 0;
    }
    let r = sys(SYS_sched_getaffinity, pid as usize, n, set as usize, 0, 0, 0);
    if r < 0 {
        return -1;
    }
    std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - r as usize);
    0
}

// ------------------------------------------------------------------ futex and other raw system calls

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let _k = kern();
    let t = match me() {
        Some(t) => t,
        None => return sys(n, a, b, c, d, e, f) as c_long,
    };
    match n {
        SYS_futex => {
            let s = sim();
            let op = b as c_int & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
            match op {
                FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                    let deadline = if d == 0 {
                        None
                    } else {
                        let ts = &*(d as *const timespec);
                        let ns = ts.tv_sec.saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec);
                        Some(if op == FUTEX_WAIT {
                            s.mono.saturating_add(ns)
                        } else if b as c_int & FUTEX_CLOCK_REALTIME != 0 {
                            s.mono.saturating_add(ns - s.clock)
                        } else {
                            ns
                        })
                    };
                    let bits = if op == FUTEX_WAIT { u32::MAX } else { f as u32 };
                    let r = s.futex_wait(t, a, c as u32, deadline, bits);
                    if r != 0 {
                        set_errno(r);
                        return -1;
                    }
                    0
                }
                FUTEX_WAKE => s.futex_wake(t, a, c as u32, u32::MAX) as c_long,
                FUTEX_WAKE_BITSET => s.futex_wake(t, a, c as u32, f as u32) as c_long,
                _ => {
                    s.violation("harness", format!("futex operation {op} is not simulated"));
                    set_errno(ENOSYS);
                    -1
                }
            }
        }
        SYS_getrandom => getrandom(a as *mut c_void, b, c as c_uint) as c_long,
        SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
        SYS_openat => openat(a as c_int, b as *const c_char, c as c_int, d as c_uint) as c_long,
        SYS_gettid => t as c_long + 100_000,
        _ => sys(n, a, b, c, d, e, f) as c_long,
    }
}

// ------------------------------------------------------------------ threads of the code under test

struct Tramp {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    task: usize,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p as *mut Tramp) };
    sim().task_begin(b.task);
    ACTIVE.set(b.task as u32 + 1);
    let r = (b.f)(b.arg);
    ACTIVE.set(0);
    sim().task_end(b.task);
    r
}
type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, StartFn, *mut c_void) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let _k = kern();
    let create = real!("pthread_create", CreateFn);
    let t = match me() {
        Some(t) => t,
        None => return create(out, attr, f, arg),
    };
    let s = sim();
    let task = s.add_task();
    s.tasks[task].of = s.tasks[t].of.or(if s.tasks[t].call.active { Some((t, s.tasks[t].call.id)) } else { None });
    let b = Box::into_raw(Box::new(Tramp { f, arg, task }));
    let r = create(out, attr, trampoline, b as *mut c_void);
    if r == 0 {
        s.tasks[task].pthread = *out as u64;
        s.point(t, 0.5);
    } else {
        s.violation("harness", "pthread_create failed".into());
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: pthread_t, out: *mut *mut c_void) -> c_int {
    let _k = kern();
    if let Some(t) = me() {
        let s = sim();
        if let Some(i) = s.tasks.iter().position(|x| x.pthread == th as u64 && x.pthread != 0) {
            s.join(t, i);
        }
    }
    real!("pthread_join", unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int)(th, out)
}
