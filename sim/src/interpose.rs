//! The seam: the libc entry points Rust's std uses for files and the terminal, defined here so that
//! the linker resolves std's (and termion's) references to them.  On a thread that runs a simulated
//! process they act on the simulated world; on any other thread they are plain system calls.

use crate::sim::*;
use crate::simfs::{DirStream, Node, FD_BASE};
use crate::trace;
use libc::*;
use std::ffi::CStr;

macro_rules! real {
    ($n:expr $(, $a:expr)*) => { syscall($n $(, $a)*) };
}

unsafe fn fail(e: c_int) -> c_int {
    *__errno_location() = e;
    -1
}

unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

fn shown(p: &[u8]) -> String {
    String::from_utf8_lossy(p).into_owned()
}

fn log(kind: &'static str, fd: c_int, res: i64, at: i64) {
    let s = sim();
    let pid = active().unwrap_or(MAIN);
    hash_str(kind.as_bytes());
    hash_mix(((fd as u64) << 40) ^ (res as u64) ^ ((pid as u64) << 60));
    let seq = s.seq;
    if s.fslog.len() < 20_000 {
        s.fslog.push(FsEv {
            seq,
            pid,
            kind,
            fd,
            res,
            at,
        });
    }
}

fn simfd(fd: c_int) -> bool {
    fd >= FD_BASE && active().is_some()
}

// ---------------------------------------------------------------- open / close

unsafe fn do_open(path: &[u8], flags: c_int, mode: c_uint) -> c_int {
    match gate(Op::Open, 0) {
        Gate::Err(e) => {
            trace!("open {} -> errno {}", shown(path), e);
            log("open", -1, -(e as i64), 0);
            fail(e)
        }
        g => {
            let pid = my_pid();
            let trunc = flags & O_TRUNC != 0;
            let r = sim().fs.open(path, flags, mode, pid);
            note_change();
            let out = match r {
                Ok(fd) => {
                    trace!(
                        "open {}{}{} -> fd {}",
                        shown(path),
                        if trunc { " TRUNC" } else { "" },
                        if flags & O_APPEND != 0 { " APPEND" } else { "" },
                        fd - FD_BASE
                    );
                    log(if trunc { "open_trunc" } else { "open" }, fd, 0, 0);
                    fd
                }
                Err(e) => {
                    trace!("open {} -> errno {}", shown(path), e);
                    log("open", -1, -(e as i64), 0);
                    fail(e)
                }
            };
            if let Gate::GoThenDie = g {
                crash_me("after open");
                return fail(EIO);
            }
            out
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if active().is_some() {
        return do_open(bytes(path), flags, mode);
    }
    real!(SYS_openat, AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(
    dir: c_int,
    path: *const c_char,
    flags: c_int,
    mode: c_uint,
) -> c_int {
    if active().is_some() {
        if dir == AT_FDCWD || bytes(path).first() == Some(&b'/') {
            return do_open(bytes(path), flags, mode);
        }
        return fail(ENOSYS);
    }
    real!(SYS_openat, dir, path, flags, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if simfd(fd) {
        if let Gate::Err(e) = gate(Op::Close, 0) {
            let _ = sim().fs.close(fd);
            return fail(e);
        }
        log("close", fd, 0, 0);
        return match sim().fs.close(fd) {
            Ok(()) => 0,
            Err(e) => fail(e),
        };
    }
    real!(SYS_close, fd) as c_int
}

// ---------------------------------------------------------------- read / write

unsafe fn do_read(fd: c_int, buf: *mut u8, len: usize, at: Option<u64>) -> ssize_t {
    let n = match gate(Op::Read, len) {
        Gate::Err(e) => {
            trace!("read fd {} -> errno {}", fd - FD_BASE, e);
            log("read", fd, -(e as i64), 0);
            return fail(e) as ssize_t;
        }
        Gate::GoThenDie => {
            crash_me("at read");
            return fail(EIO) as ssize_t;
        }
        Gate::Short(n) => n.min(len),
        _ => len,
    };
    let b = std::slice::from_raw_parts_mut(buf, n);
    let r = match at {
        None => sim().fs.read(fd, b),
        Some(p) => match sim().fs.fds.get(&fd) {
            Some(f) => {
                let i = f.ino;
                sim().fs.read_at(i, p, b)
            }
            None => Err(EBADF),
        },
    };
    match r {
        Ok(k) => {
            trace!("read fd {} -> {} bytes", fd - FD_BASE, k);
            log("read", fd, k as i64, 0);
            k as ssize_t
        }
        Err(e) => {
            log("read", fd, -(e as i64), 0);
            fail(e) as ssize_t
        }
    }
}

unsafe fn do_write(fd: c_int, buf: *const u8, len: usize, at: Option<u64>) -> ssize_t {
    let g = gate(Op::Write, len);
    let (n, die) = match g {
        Gate::Err(e) => {
            trace!("write fd {} {} bytes -> errno {}", fd - FD_BASE, len, e);
            log("write", fd, -(e as i64), 0);
            return fail(e) as ssize_t;
        }
        Gate::Short(n) => (n, false),
        Gate::TornThenDie(n) => (n, true),
        Gate::GoThenDie => (len, true),
        Gate::Go => (len, false),
    };
    let b = std::slice::from_raw_parts(buf, n);
    let pos = match sim().fs.fds.get(&fd) {
        Some(f) if f.append => match &sim().fs.inodes[f.ino].node {
            Node::File(d) => d.len() as i64,
            _ => 0,
        },
        Some(f) => f.pos as i64,
        None => -1,
    };
    let r = sim().fs.write(fd, at, b);
    note_change();
    match r {
        Ok(k) => {
            trace!("write fd {} {}/{} bytes {:?}", fd - FD_BASE, k, len, shown(&b[..k.min(60)]));
            log("write", fd, k as i64, pos);
            if die {
                if !dead() {
                    crash_me("after write");
                }
                return fail(EIO) as ssize_t;
            }
            k as ssize_t
        }
        Err(e) => {
            trace!("write fd {} {} bytes -> errno {}", fd - FD_BASE, len, e);
            if e == ENOSPC {
                me().hard += 1;
                count("fault.disk_full_hit");
            }
            if die && !dead() {
                crash_me("after write");
            }
            log("write", fd, -(e as i64), pos);
            fail(e) as ssize_t
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if simfd(fd) {
        return do_read(fd, buf as *mut u8, n, None);
    }
    if active().is_some() && fd == 0 {
        return crate::stdio::stdin_read(buf as *mut u8, n);
    }
    real!(SYS_read, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if simfd(fd) || (active().is_some() && fd == 0) {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    real!(SYS_readv, fd, iov, cnt) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if simfd(fd) {
        return do_read(fd, buf as *mut u8, n, Some(off as u64));
    }
    real!(SYS_pread64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if simfd(fd) {
        return do_write(fd, buf as *const u8, n, None);
    }
    if active().is_some() && (fd == 1 || fd == 2) {
        return crate::stdio::stdout_write(fd, buf as *const u8, n);
    }
    real!(SYS_write, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if simfd(fd) || (active().is_some() && (fd == 1 || fd == 2)) {
        // one atomic write of the gathered bytes
        let mut v: Vec<u8> = Vec::new();
        for i in 0..cnt as usize {
            let x = &*iov.add(i);
            v.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
        return write(fd, v.as_ptr() as *const c_void, v.len());
    }
    real!(SYS_writev, fd, iov, cnt) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    if simfd(fd) {
        return do_write(fd, buf as *const u8, n, Some(off as u64));
    }
    real!(SYS_pwrite64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int,
    ao: *mut i64,
    b: c_int,
    bo: *mut i64,
    n: size_t,
    f: c_uint,
) -> ssize_t {
    if simfd(a) || simfd(b) {
        return fail(ENOSYS) as ssize_t;
    }
    real!(SYS_copy_file_range, a, ao, b, bo, n, f) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut i64, n: size_t) -> ssize_t {
    if simfd(a) || simfd(b) {
        return fail(EINVAL) as ssize_t;
    }
    real!(SYS_sendfile, a, b, o, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn splice(
    a: c_int,
    ao: *mut i64,
    b: c_int,
    bo: *mut i64,
    n: size_t,
    f: c_uint,
) -> ssize_t {
    if simfd(a) || simfd(b) {
        return fail(EINVAL) as ssize_t;
    }
    real!(SYS_splice, a, ao, b, bo, n, f) as ssize_t
}

// ---------------------------------------------------------------- seek, truncate, sync, locks

unsafe fn meta_gate() -> Option<c_int> {
    match gate(Op::Meta, 0) {
        Gate::Err(e) => Some(fail(e)),
        Gate::GoThenDie => {
            crash_me("at metadata op");
            Some(fail(EIO))
        }
        _ => None,
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if simfd(fd) {
        // no gate: seeking touches only this description
        if dead() {
            return fail(EIO) as i64;
        }
        return match sim().fs.seek(fd, off, whence) {
            Ok(p) => p as i64,
            Err(e) => fail(e) as i64,
        };
    }
    real!(SYS_lseek, fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if simfd(fd) {
        if let Some(r) = meta_gate() {
            return r;
        }
        let r = sim().fs.truncate(fd, len as u64);
        note_change();
        log("ftruncate", fd, len, 0);
        trace!("ftruncate fd {} {}", fd - FD_BASE, len);
        return match r {
            Ok(()) => 0,
            Err(e) => fail(e),
        };
    }
    real!(SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if simfd(fd) {
        if let Some(r) = meta_gate() {
            return r;
        }
        log("fsync", fd, 0, 0);
        return 0;
    }
    real!(SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if simfd(fd) {
        return fsync(fd);
    }
    real!(SYS_fdatasync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if simfd(fd) {
        if let Some(r) = meta_gate() {
            return r;
        }
        let mut spins = 0;
        loop {
            match sim().fs.flock(fd, op) {
                Ok(()) => {
                    log("flock", fd, op as i64, 0);
                    return 0;
                }
                Err(EWOULDBLOCK) if op & LOCK_NB == 0 => {
                    spins += 1;
                    if spins > 5000 {
                        violate("ANY", "deadlock", "file lock never granted".into());
                        return fail(EDEADLK);
                    }
                    count("lock_wait");
                    yield_point(true);
                    if dead() {
                        return fail(EIO);
                    }
                }
                Err(e) => return fail(e),
            }
        }
    }
    real!(SYS_flock, fd, op) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if simfd(fd) {
        if dead() {
            return fail(EIO);
        }
        return match cmd {
            F_DUPFD_CLOEXEC | F_DUPFD => match sim().fs.dup(fd) {
                Ok(n) => n,
                Err(e) => fail(e),
            },
            F_GETFL => match sim().fs.fds.get(&fd) {
                Some(f) => f.flags,
                None => fail(EBADF),
            },
            _ => 0,
        };
    }
    real!(SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}

// ---------------------------------------------------------------- stat family

unsafe fn fill(ino: usize, st: *mut stat64) {
    std::ptr::write_bytes(st, 0, 1);
    let n = &sim().fs.inodes[ino];
    let (fmt, size) = match &n.node {
        Node::File(d) => (S_IFREG, d.len() as i64),
        Node::Dir(_) => (S_IFDIR, 4096),
        Node::Link(t) => (S_IFLNK, t.len() as i64),
    };
    (*st).st_mode = fmt | n.mode;
    (*st).st_size = size;
    (*st).st_ino = ino as u64 + 1;
    (*st).st_dev = 7;
    (*st).st_nlink = n.nlink as u64;
    // coarse clock: many changes share one timestamp, as with real kernel ticks
    (*st).st_mtime = 1_700_000_000 + (n.mtime / 64) as i64;
    (*st).st_ctime = (*st).st_mtime;
    (*st).st_blksize = 4096;
    (*st).st_blocks = (size + 511) / 512;
}

unsafe fn do_stat(what: Result<usize, &[u8]>, follow: bool, st: *mut stat64) -> c_int {
    match gate(Op::Stat, 0) {
        Gate::Err(e) => return fail(e),
        Gate::GoThenDie => {
            crash_me("at stat");
            return fail(EIO);
        }
        _ => {}
    }
    let ino = match what {
        Ok(i) => Ok(i),
        Err(p) => sim().fs.find(p, follow),
    };
    match ino {
        Ok(i) => {
            fill(i, st);
            log("stat", -1, (*st).st_size, 0);
            trace!("stat -> size {}", (*st).st_size);
            0
        }
        Err(e) => {
            log("stat", -1, -(e as i64), 0);
            trace!("stat -> errno {}", e);
            fail(e)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    if simfd(fd) {
        return match sim().fs.fds.get(&fd).map(|f| f.ino) {
            Some(i) => do_stat(Ok(i), true, st),
            None => fail(if dead() { EIO } else { EBADF }),
        };
    }
    real!(SYS_fstat, fd, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut stat64) -> c_int {
    if active().is_some() {
        return do_stat(Err(bytes(path)), true, st);
    }
    real!(SYS_stat, path, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut stat64) -> c_int {
    if active().is_some() {
        return do_stat(Err(bytes(path)), false, st);
    }
    real!(SYS_lstat, path, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(
    dir: c_int,
    path: *const c_char,
    st: *mut stat64,
    flags: c_int,
) -> c_int {
    if active().is_some() {
        if bytes(path).is_empty() {
            return fstat64(dir, st);
        }
        return do_stat(Err(bytes(path)), flags & AT_SYMLINK_NOFOLLOW == 0, st);
    }
    real!(SYS_newfstatat, dir, path, st, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(
    dir: c_int,
    path: *const c_char,
    flags: c_int,
    mask: c_uint,
    out: *mut statx,
) -> c_int {
    if active().is_some() {
        if path.is_null() {
            return fail(EFAULT);
        }
        let mut st: stat64 = std::mem::zeroed();
        let p = bytes(path);
        let r = if p.is_empty() {
            fstat64(dir, &mut st)
        } else {
            do_stat(Err(p), flags & AT_SYMLINK_NOFOLLOW == 0, &mut st)
        };
        if r != 0 {
            return r;
        }
        std::ptr::write_bytes(out, 0, 1);
        (*out).stx_mask = STATX_BASIC_STATS;
        (*out).stx_mode = st.st_mode as u16;
        (*out).stx_size = st.st_size as u64;
        (*out).stx_ino = st.st_ino;
        (*out).stx_nlink = st.st_nlink as u32;
        (*out).stx_blksize = 4096;
        (*out).stx_blocks = st.st_blocks as u64;
        (*out).stx_mtime.tv_sec = st.st_mtime;
        (*out).stx_ctime.tv_sec = st.st_ctime;
        return 0;
    }
    real!(SYS_statx, dir, path, flags, mask, out) as c_int
}

// ---------------------------------------------------------------- names

macro_rules! name_op {
    ($name:expr, $body:expr) => {{
        if let Some(r) = meta_gate() {
            return r;
        }
        let r: Result<(), c_int> = $body;
        note_change();
        log($name, -1, match &r { Ok(_) => 0, Err(e) => -(*e as i64) }, 0);
        trace!("{} -> {:?}", $name, r);
        match r {
            Ok(()) => 0,
            Err(e) => fail(e),
        }
    }};
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active().is_some() {
        return name_op!("rename", sim().fs.rename(bytes(a), bytes(b)));
    }
    real!(SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if active().is_some() {
        return name_op!("unlink", sim().fs.unlink(bytes(a), false));
    }
    real!(SYS_unlink, a) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, f: c_int) -> c_int {
    if active().is_some() {
        return name_op!("unlink", sim().fs.unlink(bytes(a), f & AT_REMOVEDIR != 0));
    }
    real!(SYS_unlinkat, d, a, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    if active().is_some() {
        return name_op!("rmdir", sim().fs.unlink(bytes(a), true));
    }
    real!(SYS_rmdir, a) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: c_uint) -> c_int {
    if active().is_some() {
        return name_op!("mkdir", sim().fs.mkdir(bytes(a), m));
    }
    real!(SYS_mkdir, a, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(
    d1: c_int,
    a: *const c_char,
    d2: c_int,
    b: *const c_char,
    f: c_int,
) -> c_int {
    if active().is_some() {
        return name_op!("link", sim().fs.link(bytes(a), bytes(b)));
    }
    real!(SYS_linkat, d1, a, d2, b, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if active().is_some() {
        return name_op!("symlink", sim().fs.symlink(bytes(a), bytes(b)));
    }
    real!(SYS_symlink, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, m: c_uint) -> c_int {
    if active().is_some() {
        return name_op!(
            "chmod",
            match sim().fs.find(bytes(a), true) {
                Ok(i) => {
                    sim().fs.inodes[i].mode = m & 0o7777;
                    Ok(())
                }
                Err(e) => Err(e),
            }
        );
    }
    real!(SYS_chmod, a, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: c_uint) -> c_int {
    if simfd(fd) {
        return name_op!(
            "fchmod",
            match sim().fs.fds.get(&fd).map(|f| f.ino) {
                Some(i) => {
                    sim().fs.inodes[i].mode = m & 0o7777;
                    Ok(())
                }
                None => Err(EBADF),
            }
        );
    }
    real!(SYS_fchmod, fd, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchown(fd: c_int, u: uid_t, g: gid_t) -> c_int {
    if simfd(fd) {
        return 0;
    }
    real!(SYS_fchown, fd, u, g) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(a: *const c_char, out: *mut c_char) -> *mut c_char {
    if active().is_some() {
        if meta_gate().is_some() {
            return std::ptr::null_mut();
        }
        return match sim().fs.realpath(bytes(a)) {
            Ok(p) => {
                let o = if out.is_null() {
                    malloc(p.len() + 1) as *mut c_char
                } else {
                    out
                };
                std::ptr::copy_nonoverlapping(p.as_ptr() as *const c_char, o, p.len());
                *o.add(p.len()) = 0;
                o
            }
            Err(e) => {
                fail(e);
                std::ptr::null_mut()
            }
        };
    }
    // never needed by the harness itself
    fail(ENOSYS);
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn readlink(a: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if active().is_some() {
        if let Some(r) = meta_gate() {
            return r as ssize_t;
        }
        return match sim().fs.find(bytes(a), false) {
            Ok(i) => match &sim().fs.inodes[i].node {
                Node::Link(t) => {
                    let k = n.min(t.len());
                    std::ptr::copy_nonoverlapping(t.as_ptr() as *const c_char, buf, k);
                    k as ssize_t
                }
                _ => fail(EINVAL) as ssize_t,
            },
            Err(e) => fail(e) as ssize_t,
        };
    }
    real!(SYS_readlink, a, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if active().is_some() {
        let c = &sim().fs.cwd;
        if c.len() + 1 > n {
            fail(ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(c.as_ptr() as *const c_char, buf, c.len());
        *buf.add(c.len()) = 0;
        return buf;
    }
    if real!(SYS_getcwd, buf, n) > 0 {
        buf
    } else {
        std::ptr::null_mut()
    }
}

// ---------------------------------------------------------------- directories

struct FakeDir {
    magic: u64,
    stream: DirStream,
    ent: dirent64,
}
const MAGIC: u64 = 0x51b0_d1b5_0000_0001;

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut DIR {
    if active().is_some() {
        let p = bytes(path);
        match gate(Op::Dir, 0) {
            Gate::Err(e) => {
                trace!("opendir {} -> errno {}", shown(p), e);
                log("opendir", -1, -(e as i64), 0);
                fail(e);
                return std::ptr::null_mut();
            }
            Gate::GoThenDie => {
                crash_me("at opendir");
                fail(EIO);
                return std::ptr::null_mut();
            }
            _ => {}
        }
        let r = sim().fs.find(p, true).and_then(|i| match &sim().fs.inodes[i].node {
            Node::Dir(d) => Ok(d.iter().map(|(n, i)| (n.clone(), *i)).collect::<Vec<_>>()),
            _ => Err(ENOTDIR),
        });
        return match r {
            Ok(mut names) => {
                // the order of directory entries is not defined: let the simulator decide it
                for i in (1..names.len()).rev() {
                    let j = choose(i as u32 + 1) as usize;
                    names.swap(i, i - j);
                }
                names.insert(0, (b".".to_vec(), 0));
                names.insert(1, (b"..".to_vec(), 0));
                trace!("opendir {} -> {} entries", shown(p), names.len() - 2);
                log("opendir", -1, names.len() as i64, 0);
                sim().dirs_open += 1;
                Box::into_raw(Box::new(FakeDir {
                    magic: MAGIC,
                    stream: DirStream {
                        names,
                        pos: 0,
                        owner: my_pid(),
                        fd: -1,
                    },
                    ent: std::mem::zeroed(),
                })) as *mut DIR
            }
            Err(e) => {
                log("opendir", -1, -(e as i64), 0);
                fail(e);
                std::ptr::null_mut()
            }
        };
    }
    fail(ENOSYS);
    std::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    let f = d as *mut FakeDir;
    if (*f).magic != MAGIC {
        return std::ptr::null_mut();
    }
    match gate(Op::Dir, 0) {
        Gate::Err(e) => {
            trace!("readdir -> errno {}", e);
            log("readdir", -1, -(e as i64), 0);
            // as a real failing readdir: the stream ends after a bounded number of errors
            let st = &mut (*f).stream;
            if dead() {
                st.pos = st.names.len();
                return std::ptr::null_mut();
            }
            if st.pos < st.names.len() {
                st.pos += 1;
            }
            fail(e);
            return std::ptr::null_mut();
        }
        Gate::GoThenDie => {
            crash_me("at readdir");
            fail(EIO);
            return std::ptr::null_mut();
        }
        _ => {}
    }
    let st = &mut (*f).stream;
    if st.pos >= st.names.len() {
        return std::ptr::null_mut();
    }
    let (name, ino) = st.names[st.pos].clone();
    st.pos += 1;
    log("readdir", -1, st.pos as i64, 0);
    sim().dirlog.push(name.clone());
    let e = &mut (*f).ent;
    e.d_ino = ino as u64 + 1;
    e.d_reclen = std::mem::size_of::<dirent64>() as u16;
    e.d_type = if name == b"." || name == b".." {
        DT_DIR
    } else {
        match &sim().fs.inodes[ino].node {
            Node::File(_) => DT_REG,
            Node::Dir(_) => DT_DIR,
            Node::Link(_) => DT_LNK,
        }
    };
    for (i, b) in name.iter().enumerate().take(255) {
        e.d_name[i] = *b as c_char;
    }
    e.d_name[name.len().min(255)] = 0;
    e as *mut dirent64
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    let f = d as *mut FakeDir;
    if (*f).magic == MAGIC {
        (*f).magic = 0;
        sim().dirs_open -= 1;
        drop(Box::from_raw(f));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(_d: *mut DIR) -> c_int {
    -1
}

// ---------------------------------------------------------------- terminal

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_void) -> c_int {
    if active().is_some() {
        return crate::stdio::sim_ioctl(fd, req, arg);
    }
    real!(SYS_ioctl, fd, req, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: c_int, t: *mut termios) -> c_int {
    if active().is_some() {
        return crate::stdio::sim_tcgetattr(fd, t);
    }
    fail(ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: c_int, act: c_int, t: *const termios) -> c_int {
    if active().is_some() {
        return crate::stdio::sim_tcsetattr(fd, act, t);
    }
    fail(ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_fd: c_int) -> c_int {
    if active().is_some() {
        return sim().stdio.is_some() as c_int;
    }
    0
}

// What the code under test does not use today, but a change of it might: time, randomness, identity.

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    if active().is_none() {
        return real!(libc::SYS_getrandom, buf, len, flags) as isize;
    }
    let mut x = 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(choose(64) as u64 + 1);
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *(buf as *mut u8).add(i) = (x >> 32) as u8;
    }
    count("env.random");
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut libc::timespec) -> c_int {
    if active().is_none() {
        return real!(libc::SYS_clock_gettime, clock, ts) as c_int;
    }
    let s = sim();
    s.clock += 1_000 + s.seq;
    count("env.clock");
    let base = if clock == libc::CLOCK_REALTIME { 1_700_000_000 } else { 5_000 };
    (*ts).tv_sec = base + (s.clock / 1_000_000) as i64;
    (*ts).tv_nsec = (s.clock % 1_000_000 * 1_000) as i64;
    0
}

unsafe fn sleep(req: *const libc::timespec) -> c_int {
    let t = &*req;
    sim().clock += t.tv_sec as u64 * 1_000_000 + t.tv_nsec as u64 / 1_000;
    count("env.sleep");
    yield_point(true);
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active().is_none() {
        return real!(libc::SYS_nanosleep, req, rem) as c_int;
    }
    sleep(req)
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active().is_none() {
        return match real!(libc::SYS_clock_nanosleep, clock, flags, req, rem) {
            0 => 0,
            _ => *__errno_location(),
        };
    }
    if flags & libc::TIMER_ABSTIME != 0 {
        count("env.sleep");
        yield_point(true);
        return 0;
    }
    sleep(req)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    match active() {
        Some(p) => 4000 + p as c_int,
        None => real!(libc::SYS_getpid) as c_int,
    }
}
