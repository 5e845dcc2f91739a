//! Interposed libc calls: on a simulated thread they act on the in-memory file system,
//! the simulated clock, the seeded random source and the scheduler; anywhere else they are the real calls.
#![allow(clippy::missing_safety_doc, invalid_runtime_symbol_definitions)]

use libc::{c_char, c_int, c_long, c_void, mode_t, off64_t, size_t, ssize_t};
use std::ffi::CStr;

use crate::choices::S;
use crate::exec::{self, sim, Kernel, EPOCH_S, MS, SEC};
use crate::sock;
use crate::vfs::{DirStream, Ino, Kind, FD_BASE, R, ROOT};

pub mod raw {
    use std::arch::asm;
    use std::sync::atomic::{AtomicU32, Ordering};

    #[inline(always)]
    pub unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        let r: i64;
        asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
             in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
        r
    }

    pub fn wait(a: &AtomicU32) {
        while a.load(Ordering::Acquire) == 0 {
            unsafe { sys(libc::SYS_futex, a as *const _ as i64, 128, 0, 0, 0, 0) };
        }
        a.store(0, Ordering::Release);
    }

    pub fn post(a: &AtomicU32) {
        a.store(1, Ordering::Release);
        unsafe { sys(libc::SYS_futex, a as *const _ as i64, 129, 1, 0, 0, 0) };
    }
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e };
}

fn fin(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

fn res<T: Into<i64>>(r: R<T>) -> i64 {
    match r {
        Ok(v) => v.into(),
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

unsafe fn cs<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

fn ours(fd: c_int) -> bool {
    fd >= FD_BASE
}

pub fn init() {}

// ---------------------------------------------------------------- faults

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Open,
    Create,
    Read,
    Write,
    Rename,
    Unlink,
    Mkdir,
    Opendir,
    Readdir,
    Stat,
    Sync,
    Trunc,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F {
    None,
    CrashAfter,
    Short(u32),
    /// writes a prefix, then fails
    Torn(u32, i32),
    CrashTorn(u32),
}

/// Fault kinds, as drawn from the fault stream (0 = no fault).
pub const K_CRASH: usize = 1;
pub const K_CRASH_AFTER: usize = 2;
pub const K_EIO: usize = 3;
pub const K_FULL: usize = 4;
pub const K_FDS: usize = 5;
pub const K_EINTR: usize = 6;
pub const K_SHORT: usize = 7;
pub const K_STALL: usize = 8;

fn applicable(op: Op, k: usize) -> bool {
    use Op::*;
    match k {
        K_CRASH | K_CRASH_AFTER | K_STALL => true,
        K_EIO => true,
        K_FULL => matches!(op, Create | Write | Rename | Mkdir),
        K_FDS => matches!(op, Open | Create | Opendir),
        K_EINTR => matches!(op, Open | Create | Read | Write),
        K_SHORT => matches!(op, Read | Write),
        _ => false,
    }
}

/// Scheduling point plus fault decision in front of one call. Err: the call fails with that errno.
fn gate(h: usize, op: Op) -> Result<F, i32> {
    if !exec::park(h) {
        return Err(libc::EIO);
    }
    let _k = Kernel::enter();
    let s = sim();
    exec::stat("fs.calls");
    let node = s.helpers[h].node;
    let n = &mut s.nodes[node];
    if n.disk_full > 0 && matches!(op, Op::Create | Op::Write | Op::Rename | Op::Mkdir) {
        n.disk_full -= 1;
        exec::stat("fault.disk_full");
        exec::log(|| format!("n{node} h{h} {op:?}: ENOSPC"));
        return Err(libc::ENOSPC);
    }
    if !n.faults {
        return Ok(F::None);
    }
    let cfg = s.fcfg.clone();
    let crashable = n.crashable;
    let mut w = [0.0f64; 9];
    w[0] = 1.0;
    let mut io = 0;
    for k in K_EIO..=K_STALL {
        if cfg.kinds[k] && applicable(op, k) {
            io += 1;
        }
    }
    for k in K_EIO..=K_STALL {
        if cfg.kinds[k] && applicable(op, k) {
            w[k] = cfg.p_io / io as f64;
        }
    }
    if crashable {
        w[K_CRASH] = cfg.p_crash * 0.6;
        w[K_CRASH_AFTER] = cfg.p_crash * 0.4;
    }
    let k = s.ch.weighted(S::Fault, &w);
    if k == 0 {
        return Ok(F::None);
    }
    exec::log(|| format!("n{node} h{h} fault {k} at {op:?}"));
    match k {
        K_CRASH => {
            if op == Op::Write {
                // the kernel may have taken a prefix of the data
                let p = s.ch.draw(S::Fault, 1000);
                exec::stat("fault.torn_write");
                return Ok(F::CrashTorn(p));
            }
            exec::crash(node);
            Err(libc::EIO)
        }
        K_CRASH_AFTER => Ok(F::CrashAfter),
        K_EIO => {
            exec::stat("fault.eio");
            if op == Op::Write {
                let p = s.ch.draw(S::Fault, 1000);
                return Ok(F::Torn(p, libc::EIO));
            }
            Err(libc::EIO)
        }
        K_FULL => {
            exec::stat("fault.disk_full");
            let len = s.ch.draw(S::Fault, 12);
            s.nodes[node].disk_full = len;
            if op == Op::Write {
                let p = s.ch.draw(S::Fault, 1000);
                return Ok(F::Torn(p, libc::ENOSPC));
            }
            Err(libc::ENOSPC)
        }
        K_FDS => {
            exec::stat("fault.emfile");
            Err(libc::EMFILE)
        }
        K_EINTR => {
            exec::stat("fault.eintr");
            Err(libc::EINTR)
        }
        K_SHORT => {
            exec::stat("fault.short_io");
            Ok(F::Short(s.ch.draw(S::Fault, 1000)))
        }
        K_STALL => {
            exec::stat("fault.stall");
            let ns = [MS, 50 * MS, SEC, 20 * SEC][s.ch.draw(S::Fault, 4) as usize];
            drop(_k);
            exec::stall(h, ns);
            if sim().helpers[h].frozen {
                exec::frozen_call(h);
                return Err(libc::EIO);
            }
            Ok(F::None)
        }
        _ => Ok(F::None),
    }
}

fn after(h: usize, f: F) {
    if f == F::CrashAfter {
        exec::crash(sim().helpers[h].node);
    }
}

fn frozen(h: usize) -> bool {
    sim().helpers[h].frozen
}

fn node(h: usize) -> usize {
    sim().helpers[h].node
}

fn note(h: usize, what: &str, path: &[u8], r: i64) {
    if exec::tracing() {
        exec::log(|| format!("n{} h{h} {what} {} = {r}", node(h), String::from_utf8_lossy(path)));
    } else {
        // keep the hash identical with and without tracing text
        let _k = Kernel::enter();
        let l = format!("n{} h{h} {what} {} = {r}", node(h), String::from_utf8_lossy(path));
        exec::log(move || l);
    }
}

fn at_dir(dfd: c_int) -> R<Ino> {
    if dfd == libc::AT_FDCWD {
        return Ok(ROOT);
    }
    sim().vfs.fds.get(&dfd).map(|f| f.ino).ok_or(libc::EBADF)
}

// ---------------------------------------------------------------- open / read / write

unsafe fn sim_open(h: usize, dfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    let p = cs(path);
    // only the simulated tree is reachable from simulated threads, except devices nobody may damage
    let op = if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 { Op::Create } else { Op::Open };
    let f = match gate(h, op) {
        Ok(f) => f,
        Err(e) => return res::<i32>(Err(e)) as c_int,
    };
    let r = {
        let _k = Kernel::enter();
        let nd = node(h);
        let now = sim().now;
        match at_dir(dfd) {
            Ok(d) => sim().vfs.open(nd, d, p, flags, now),
            Err(e) => Err(e),
        }
    };
    note(h, "open", p, r.map(|v| (v - FD_BASE) as i64).unwrap_or_else(|e| -(e as i64)));
    after(h, f);
    res(r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match exec::me() {
        Some(h) => sim_open(h, libc::AT_FDCWD, path, flags),
        None => fin(raw::sys(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match exec::me() {
        Some(h) => sim_open(h, dfd, path, flags),
        None => fin(raw::sys(libc::SYS_openat, dfd as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn openat(dfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(dfd, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sock::is_sock(fd) {
        return if exec::active() { sock::close(fd) } else { 0 };
    }
    if ours(fd) {
        let _k = Kernel::enter();
        if exec::active() {
            let _ = sim().vfs.close(fd);
        }
        return 0;
    }
    fin(raw::sys(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn sim_read(h: usize, fd: c_int, buf: *mut c_void, n: size_t, at: Option<u64>) -> ssize_t {
    let f = match gate(h, Op::Read) {
        Ok(f) => f,
        Err(e) => return res::<i32>(Err(e)) as ssize_t,
    };
    let r = {
        let _k = Kernel::enter();
        let mut n = n;
        if let F::Short(p) = f {
            if n > 1 {
                n = 1 + (n.min(4096) - 1) * p as usize / 1000;
            }
        }
        sim().vfs.read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), at)
    };
    note(h, "read", &[], r.map(|v| v as i64).unwrap_or_else(|e| -(e as i64)));
    after(h, f);
    res(r.map(|v| v as i64)) as ssize_t
}

unsafe fn sim_write(h: usize, fd: c_int, buf: *const c_void, n: size_t, at: Option<u64>) -> ssize_t {
    let f = match gate(h, Op::Write) {
        Ok(f) => f,
        Err(e) => return res::<i32>(Err(e)) as ssize_t,
    };
    let data = std::slice::from_raw_parts(buf as *const u8, n);
    let _k = Kernel::enter();
    let now = sim().now;
    let part = |p: u32| &data[..(n as u64 * p as u64 / 1000) as usize];
    let r: R<i64> = match f {
        F::CrashTorn(p) => {
            let _ = sim().vfs.write(fd, part(p), at, now);
            exec::crash(node(h));
            Err(libc::EIO)
        }
        F::Torn(p, e) => match part(p) {
            [] => Err(e),
            d => {
                // a short count now, the error on the next call
                let r = sim().vfs.write(fd, d, at, now).map(|v| v as i64);
                if e == libc::EIO {
                    sim().vfs.poisoned.insert(fd);
                } else {
                    let nd = node(h);
                    sim().nodes[nd].disk_full += 1;
                }
                r
            }
        },
        F::Short(p) if n > 1 => sim().vfs.write(fd, &data[..(1 + (n - 1) * p as usize / 1000)], at, now).map(|v| v as i64),
        _ => {
            if sim().vfs.poisoned.remove(&fd) {
                Err(libc::EIO)
            } else {
                sim().vfs.write(fd, data, at, now).map(|v| v as i64)
            }
        }
    };
    drop(_k);
    note(h, "write", &[], r.unwrap_or_else(|e| -(e as i64)));
    after(h, f);
    res(r) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if sock::is_sock(fd) {
        return if exec::active() { sock::recv(fd, buf as *mut u8, n, 0) } else { res::<i32>(Err(libc::EBADF)) as ssize_t };
    }
    match exec::me() {
        Some(h) if ours(fd) => sim_read(h, fd, buf, n, None),
        _ => fin(raw::sys(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if sock::is_sock(fd) {
        return if exec::active() { sock::send(fd, std::slice::from_raw_parts(buf as *const u8, n)) } else { res::<i32>(Err(libc::EBADF)) as ssize_t };
    }
    match exec::me() {
        Some(h) if ours(fd) => sim_write(h, fd, buf, n, None),
        _ => fin(raw::sys(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    match exec::me() {
        Some(h) if ours(fd) => sim_read(h, fd, buf, n, Some(off as u64)),
        _ => fin(raw::sys(libc::SYS_pread64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    match exec::me() {
        Some(h) if ours(fd) => sim_write(h, fd, buf, n, Some(off as u64)),
        _ => fin(raw::sys(libc::SYS_pwrite64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if sock::is_sock(fd) {
        if !exec::active() {
            return res::<i32>(Err(libc::EBADF)) as ssize_t;
        }
        let v = std::slice::from_raw_parts(iov, n as usize);
        return match v.iter().find(|v| v.iov_len > 0) {
            Some(v) => sock::recv(fd, v.iov_base as *mut u8, v.iov_len, 0),
            None => 0,
        };
    }
    match exec::me() {
        Some(h) if ours(fd) => {
            let v = std::slice::from_raw_parts(iov, n as usize);
            match v.iter().find(|v| v.iov_len > 0) {
                Some(v) => sim_read(h, fd, v.iov_base, v.iov_len, None),
                None => 0,
            }
        }
        _ => fin(raw::sys(libc::SYS_readv, fd as i64, iov as i64, n as i64, 0, 0, 0)) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if sock::is_sock(fd) {
        if !exec::active() {
            return res::<i32>(Err(libc::EBADF)) as ssize_t;
        }
        let mut all = Vec::new();
        for v in std::slice::from_raw_parts(iov, n as usize) {
            all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
        return sock::send(fd, &all);
    }
    match exec::me() {
        Some(h) if ours(fd) => {
            let v = std::slice::from_raw_parts(iov, n as usize);
            let mut all = Vec::new();
            for v in v {
                all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
            sim_write(h, fd, all.as_ptr() as *const c_void, all.len(), None)
        }
        _ => fin(raw::sys(libc::SYS_writev, fd as i64, iov as i64, n as i64, 0, 0, 0)) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    match exec::me() {
        Some(h) if ours(fd) => {
            if frozen(h) {
                exec::frozen_call(h);
                return res::<i32>(Err(libc::EIO));
            }
            let _k = Kernel::enter();
            res(sim().vfs.seek(fd, off, whence))
        }
        _ => fin(raw::sys(libc::SYS_lseek, fd as i64, off, whence as i64, 0, 0, 0)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    match exec::me() {
        Some(h) if ours(fd) => {
            let f = match gate(h, Op::Trunc) {
                Ok(f) => f,
                Err(e) => return res::<i32>(Err(e)) as c_int,
            };
            let r = {
                let _k = Kernel::enter();
                sim().vfs.truncate(fd, len as u64)
            };
            note(h, "truncate", &[], len);
            after(h, f);
            res(r.map(|_| 0i64)) as c_int
        }
        _ => fin(raw::sys(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}

unsafe fn sync(fd: c_int, nr: i64) -> c_int {
    match exec::me() {
        Some(h) if ours(fd) => match gate(h, Op::Sync) {
            Ok(f) => {
                after(h, f);
                if sim().vfs.poisoned.remove(&fd) {
                    return res::<i32>(Err(libc::EIO)) as c_int;
                }
                0
            }
            Err(e) => res::<i32>(Err(e)) as c_int,
        },
        _ => fin(raw::sys(nr, fd as i64, 0, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync(fd, libc::SYS_fsync)
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync(fd, libc::SYS_fdatasync)
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, fl: u32) -> ssize_t {
    if ours(a) || ours(b) {
        return res::<i32>(Err(libc::ENOSYS)) as ssize_t;
    }
    fin(raw::sys(libc::SYS_copy_file_range, a as i64, ao as i64, b as i64, bo as i64, n as i64, fl as i64)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if ours(a) || ours(b) {
        return res::<i32>(Err(libc::EINVAL)) as ssize_t;
    }
    fin(raw::sys(libc::SYS_sendfile, a as i64, b as i64, off as i64, n as i64, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: size_t, fl: u32) -> ssize_t {
    if ours(a) || ours(b) {
        return res::<i32>(Err(libc::EINVAL)) as ssize_t;
    }
    fin(raw::sys(libc::SYS_splice, a as i64, ao as i64, b as i64, bo as i64, n as i64, fl as i64)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    match exec::me() {
        Some(h) if ours(fd) => loop {
            if !exec::park(h) {
                return res::<i32>(Err(libc::EIO)) as c_int;
            }
            let k = Kernel::enter();
            let Some(f) = sim().vfs.fds.get(&fd) else { return res::<i32>(Err(libc::EBADF)) as c_int };
            let (ino, id) = (f.ino, f.id);
            if op & libc::LOCK_UN != 0 {
                sim().vfs.unlock(ino, id);
                exec::wake_addr(ino, usize::MAX);
                return 0;
            }
            let ex = op & libc::LOCK_EX != 0;
            let i = sim().vfs.inodes.get_mut(&ino).unwrap();
            let free = match &i.lock {
                None => true,
                Some((e, o)) => (!*e && !ex) || o.iter().all(|x| *x == id),
            };
            if free {
                let mut o = i.lock.take().map(|l| l.1).unwrap_or_default();
                if !o.contains(&id) {
                    o.push(id);
                }
                i.lock = Some((ex, o));
                return 0;
            }
            if op & libc::LOCK_NB != 0 {
                return res::<i32>(Err(libc::EWOULDBLOCK)) as c_int;
            }
            let now = sim().now;
            drop(k);
            // re-check after a while: close() releases locks without waking
            exec::block(h, ino, Some(now + MS));
        },
        _ => fin(raw::sys(libc::SYS_flock, fd as i64, op as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if sock::is_sock(fd) {
        if !exec::active() {
            return res::<i32>(Err(libc::EBADF)) as c_int;
        }
        return match cmd {
            libc::F_DUPFD_CLOEXEC | libc::F_DUPFD => sock::dup(fd),
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_GETFL => libc::O_RDWR | libc::O_NONBLOCK,
            _ => 0,
        };
    }
    if ours(fd) {
        let _k = Kernel::enter();
        return match cmd {
            libc::F_DUPFD_CLOEXEC | libc::F_DUPFD => {
                let v = &mut sim().vfs;
                let Some(f) = v.fds.get(&fd) else { return res::<i32>(Err(libc::EBADF)) as c_int };
                let g = crate::vfs::OpenFile { ino: f.ino, pos: f.pos, append: f.append, read: f.read, write: f.write, node: f.node, id: f.id };
                let n = v.next_fd;
                v.next_fd += 1;
                v.fds.insert(n, g);
                n
            }
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_GETFL => libc::O_RDWR,
            _ => 0,
        };
    }
    fin(raw::sys(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}

// ---------------------------------------------------------------- stat

struct St {
    mode: u32,
    size: u64,
    ino: u64,
    nlink: u64,
    dev: u64,
    mtime: u64,
}

fn st_of(ino: Ino) -> R<St> {
    let i = sim().vfs.inodes.get(&ino).ok_or(libc::ENOENT)?;
    let (mode, size) = match &i.kind {
        Kind::File(d) => (libc::S_IFREG | 0o644, d.len() as u64),
        Kind::Dir { .. } => (libc::S_IFDIR | 0o755, 4096),
    };
    Ok(St { mode, size, ino: ino as u64, nlink: i.nlink as u64, dev: i.dev, mtime: i.mtime })
}

fn sim_stat(h: usize, dfd: c_int, path: Option<&[u8]>) -> R<St> {
    match path {
        None => {
            if frozen(h) {
                exec::frozen_call(h);
                return Err(libc::EIO);
            }
            let _k = Kernel::enter();
            let ino = sim().vfs.fds.get(&dfd).map(|f| f.ino).ok_or(libc::EBADF)?;
            st_of(ino)
        }
        Some(p) => {
            let f = gate(h, Op::Stat)?;
            let r = {
                let _k = Kernel::enter();
                at_dir(dfd).and_then(|d| sim().vfs.resolve(d, p)).and_then(st_of)
            };
            note(h, "stat", p, r.as_ref().map(|_| 0).unwrap_or_else(|e| -(*e as i64)));
            after(h, f);
            r
        }
    }
}

unsafe fn put_stat(r: R<St>, out: *mut libc::stat64) -> c_int {
    match r {
        Err(e) => res::<i32>(Err(e)) as c_int,
        Ok(s) => {
            std::ptr::write_bytes(out, 0, 1);
            let o = &mut *out;
            o.st_mode = s.mode;
            o.st_size = s.size as i64;
            o.st_ino = s.ino;
            o.st_nlink = s.nlink;
            o.st_dev = s.dev;
            o.st_blksize = 4096;
            o.st_mtime = (EPOCH_S + s.mtime / SEC) as i64;
            o.st_mtime_nsec = (s.mtime % SEC) as i64;
            o.st_ctime = o.st_mtime;
            o.st_atime = o.st_mtime;
            0
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut libc::stat64) -> c_int {
    match exec::me() {
        Some(h) if ours(fd) => put_stat(sim_stat(h, fd, None), out),
        _ => fin(raw::sys(libc::SYS_fstat, fd as i64, out as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, out: *mut libc::stat64) -> c_int {
    match exec::me() {
        Some(h) => put_stat(sim_stat(h, libc::AT_FDCWD, Some(cs(p))), out),
        _ => fin(raw::sys(libc::SYS_stat, p as i64, out as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, out: *mut libc::stat64) -> c_int {
    match exec::me() {
        Some(h) => put_stat(sim_stat(h, libc::AT_FDCWD, Some(cs(p))), out),
        _ => fin(raw::sys(libc::SYS_lstat, p as i64, out as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fstatat64(fd: c_int, p: *const c_char, out: *mut libc::stat64, flags: c_int) -> c_int {
    match exec::me() {
        Some(h) => {
            let p = cs(p);
            let r = if p.is_empty() { sim_stat(h, fd, None) } else { sim_stat(h, fd, Some(p)) };
            put_stat(r, out)
        }
        _ => fin(raw::sys(libc::SYS_newfstatat, fd as i64, p as i64, out as i64, flags as i64, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    match exec::me() {
        Some(h) => {
            if p.is_null() || out.is_null() {
                return res::<i32>(Err(libc::EFAULT)) as c_int;
            }
            let p = cs(p);
            let r = if p.is_empty() {
                if fd == libc::AT_FDCWD || !ours(fd) {
                    Err(libc::ENOENT)
                } else {
                    sim_stat(h, fd, None)
                }
            } else {
                sim_stat(h, fd, Some(p))
            };
            match r {
                Err(e) => res::<i32>(Err(e)) as c_int,
                Ok(s) => {
                    std::ptr::write_bytes(out, 0, 1);
                    let o = &mut *out;
                    o.stx_mask = libc::STATX_BASIC_STATS;
                    o.stx_mode = s.mode as u16;
                    o.stx_size = s.size;
                    o.stx_ino = s.ino;
                    o.stx_nlink = s.nlink as u32;
                    o.stx_blksize = 4096;
                    o.stx_dev_minor = s.dev as u32;
                    o.stx_mtime.tv_sec = (EPOCH_S + s.mtime / SEC) as i64;
                    o.stx_mtime.tv_nsec = (s.mtime % SEC) as u32;
                    0
                }
            }
        }
        _ => fin(raw::sys(libc::SYS_statx, fd as i64, p as i64, flags as i64, mask as i64, out as i64, 0)) as c_int,
    }
}

// ---------------------------------------------------------------- names

fn name_op(h: usize, op: Op, what: &str, path: &[u8], f: impl FnOnce(usize) -> R<()>) -> c_int {
    let g = match gate(h, op) {
        Ok(g) => g,
        Err(e) => return res::<i32>(Err(e)) as c_int,
    };
    let r = {
        let _k = Kernel::enter();
        f(node(h))
    };
    note(h, what, path, r.map(|_| 0).unwrap_or_else(|e| -(e as i64)));
    after(h, g);
    res(r.map(|_| 0i64)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    match exec::me() {
        Some(h) => name_op(h, Op::Mkdir, "mkdir", cs(p), |n| { let t = sim().now; sim().vfs.mkdir(n, ROOT, cs(p), t) }),
        None => fin(raw::sys(libc::SYS_mkdir, p as i64, m as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn mkdirat(fd: c_int, p: *const c_char, m: mode_t) -> c_int {
    match exec::me() {
        Some(h) => name_op(h, Op::Mkdir, "mkdir", cs(p), |n| { let t = sim().now; sim().vfs.mkdir(n, at_dir(fd)?, cs(p), t) }),
        None => fin(raw::sys(libc::SYS_mkdirat, fd as i64, p as i64, m as i64, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    match exec::me() {
        Some(h) => name_op(h, Op::Unlink, "rmdir", cs(p), |n| sim().vfs.unlink(n, ROOT, cs(p), true)),
        None => fin(raw::sys(libc::SYS_rmdir, p as i64, 0, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match exec::me() {
        Some(h) => name_op(h, Op::Unlink, "unlink", cs(p), |n| sim().vfs.unlink(n, ROOT, cs(p), false)),
        None => fin(raw::sys(libc::SYS_unlink, p as i64, 0, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn unlinkat(fd: c_int, p: *const c_char, fl: c_int) -> c_int {
    match exec::me() {
        Some(h) => name_op(h, Op::Unlink, "unlinkat", cs(p), |n| sim().vfs.unlink(n, at_dir(fd)?, cs(p), fl & libc::AT_REMOVEDIR != 0)),
        None => fin(raw::sys(libc::SYS_unlinkat, fd as i64, p as i64, fl as i64, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match exec::me() {
        Some(h) => name_op(h, Op::Rename, "rename", cs(b), |n| sim().vfs.rename(n, ROOT, cs(a), ROOT, cs(b), false)),
        None => fin(raw::sys(libc::SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn renameat(x: c_int, a: *const c_char, y: c_int, b: *const c_char) -> c_int {
    match exec::me() {
        Some(h) => name_op(h, Op::Rename, "rename", cs(b), |n| sim().vfs.rename(n, at_dir(x)?, cs(a), at_dir(y)?, cs(b), false)),
        None => fin(raw::sys(libc::SYS_renameat, x as i64, a as i64, y as i64, b as i64, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn renameat2(x: c_int, a: *const c_char, y: c_int, b: *const c_char, fl: u32) -> c_int {
    match exec::me() {
        Some(h) => name_op(h, Op::Rename, "rename", cs(b), |n| sim().vfs.rename(n, at_dir(x)?, cs(a), at_dir(y)?, cs(b), fl & 1 != 0)),
        None => fin(raw::sys(libc::SYS_renameat2, x as i64, a as i64, y as i64, b as i64, fl as i64, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    match exec::me() {
        Some(h) => name_op(h, Op::Create, "link", cs(b), |n| sim().vfs.link(n, ROOT, cs(a), ROOT, cs(b))),
        None => fin(raw::sys(libc::SYS_link, a as i64, b as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn linkat(x: c_int, a: *const c_char, y: c_int, b: *const c_char, fl: c_int) -> c_int {
    match exec::me() {
        Some(h) => name_op(h, Op::Create, "link", cs(b), |n| sim().vfs.link(n, at_dir(x)?, cs(a), at_dir(y)?, cs(b))),
        None => fin(raw::sys(libc::SYS_linkat, x as i64, a as i64, y as i64, b as i64, fl as i64, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    match exec::me() {
        Some(_) => res::<i32>(Err(libc::EPERM)) as c_int,
        None => fin(raw::sys(libc::SYS_symlink, a as i64, b as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    match exec::me() {
        Some(_) => {
            let _k = Kernel::enter();
            let e = match sim().vfs.resolve(ROOT, cs(p)) {
                Ok(_) => libc::EINVAL,
                Err(e) => e,
            };
            res::<i32>(Err(e)) as ssize_t
        }
        None => fin(raw::sys(libc::SYS_readlink, p as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    match exec::me() {
        Some(_) => 0,
        None => fin(raw::sys(libc::SYS_chmod, p as i64, m as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if ours(fd) {
        return 0;
    }
    fin(raw::sys(libc::SYS_fchmod, fd as i64, m as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fchmodat(fd: c_int, p: *const c_char, m: mode_t, fl: c_int) -> c_int {
    match exec::me() {
        Some(_) => 0,
        None => fin(raw::sys(libc::SYS_fchmodat, fd as i64, p as i64, m as i64, fl as i64, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    if ours(fd) {
        return 0;
    }
    fin(raw::sys(libc::SYS_utimensat, fd as i64, 0, t as i64, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn utimensat(fd: c_int, p: *const c_char, t: *const libc::timespec, fl: c_int) -> c_int {
    match exec::me() {
        Some(_) => 0,
        None => fin(raw::sys(libc::SYS_utimensat, fd as i64, p as i64, t as i64, fl as i64, 0, 0)) as c_int,
    }
}

macro_rules! next {
    ($name:literal, $ty:ty) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(std::sync::atomic::Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            P.store(p, std::sync::atomic::Ordering::Relaxed);
        }
        if p == 0 {
            libc::abort();
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}

#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    match exec::me() {
        Some(h) => {
            let path = cs(p);
            let r = gate(h, Op::Stat).and_then(|f| {
                let _k = Kernel::enter();
                let v = &sim().vfs;
                let r = v.resolve(ROOT, path).and_then(|_| v.lookup_parent(ROOT, path)).map(|(d, n, _)| {
                    let mut q = v.path_of(d);
                    if let Some(n) = n {
                        if q != b"/" {
                            q.push(b'/');
                        }
                        q.extend_from_slice(&n);
                    }
                    q
                });
                after(h, f);
                r
            });
            match r {
                Err(e) => {
                    set_errno(e);
                    std::ptr::null_mut()
                }
                Ok(mut q) => {
                    q.push(0);
                    let o = if out.is_null() { libc::malloc(q.len()) as *mut c_char } else { out };
                    std::ptr::copy_nonoverlapping(q.as_ptr() as *const c_char, o, q.len());
                    o
                }
            }
        }
        None => next!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, out),
    }
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    match exec::me() {
        Some(_) if !b.is_null() && n >= 2 => {
            *b = b'/' as c_char;
            *b.add(1) = 0;
            b
        }
        _ => next!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char)(b, n),
    }
}

#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    match exec::me() {
        Some(_) => res::<i32>(Err(libc::EACCES)) as c_int,
        None => fin(raw::sys(libc::SYS_chdir, p as i64, 0, 0, 0, 0, 0)) as c_int,
    }
}

// ---------------------------------------------------------------- directories

const MAGIC: u64 = 0x4859_5053_494D_4452;

#[repr(C)]
struct Dir {
    magic: u64,
    s: DirStream,
}

unsafe fn dir<'a>(d: *mut libc::DIR) -> Option<&'a mut Dir> {
    let p = d as *mut Dir;
    if !p.is_null() && (*(p as *const u64)) == MAGIC {
        Some(&mut *p)
    } else {
        None
    }
}

fn make_stream(h: usize, fd: i32) -> R<*mut libc::DIR> {
    let s = sim();
    let ino = s.vfs.fds.get(&fd).map(|f| f.ino).ok_or(libc::EBADF)?;
    let mut e: Vec<(Vec<u8>, Ino)> = s.vfs.entries(ino)?.iter().map(|(k, v)| (k.clone(), *v)).collect();
    for i in (1..e.len()).rev() {
        let j = s.ch.env.below(i as u64 + 1) as usize;
        e.swap(i, j);
    }
    let listed = e.iter().map(|x| x.0.clone()).collect();
    e.push((b"..".to_vec(), ino));
    e.push((b".".to_vec(), ino));
    let nd = s.helpers[h].node;
    let d = Box::new(Dir {
        magic: MAGIC,
        s: DirStream { ino, node: nd, pending: e, listed, ended: false, ent: Box::new(unsafe { std::mem::zeroed() }), fd },
    });
    Ok(Box::into_raw(d) as *mut libc::DIR)
}

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    match exec::me() {
        Some(h) => {
            let r = gate(h, Op::Opendir).and_then(|f| {
                let r = {
                    let _k = Kernel::enter();
                    let nd = node(h);
                    sim().vfs.open(nd, ROOT, cs(p), libc::O_DIRECTORY, 0).and_then(|fd| make_stream(h, fd))
                };
                note(h, "opendir", cs(p), r.map(|_| 0).unwrap_or_else(|e| -(e as i64)));
                after(h, f);
                r
            });
            match r {
                Ok(d) => d,
                Err(e) => {
                    set_errno(e);
                    std::ptr::null_mut()
                }
            }
        }
        None => next!("opendir", unsafe extern "C" fn(*const c_char) -> *mut libc::DIR)(p),
    }
}

#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    match exec::me() {
        Some(h) if ours(fd) => {
            let _k = Kernel::enter();
            match make_stream(h, fd) {
                Ok(d) => d,
                Err(e) => {
                    set_errno(e);
                    std::ptr::null_mut()
                }
            }
        }
        _ => next!("fdopendir", unsafe extern "C" fn(c_int) -> *mut libc::DIR)(fd),
    }
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    let Some(dd) = dir(d) else {
        return next!("readdir64", unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64)(d);
    };
    let Some(h) = exec::me() else {
        set_errno(0);
        return std::ptr::null_mut();
    };
    let f = match gate(h, Op::Readdir) {
        Ok(f) => f,
        Err(e) => {
            set_errno(e);
            return std::ptr::null_mut();
        }
    };
    let k = Kernel::enter();
    let s = sim();
    let st = &mut dd.s;
    let entry = loop {
        match st.pending.pop() {
            Some((n, i)) => {
                let there = n == b"." || n == b".." || s.vfs.entries(st.ino).ok().map(|e| e.contains_key(&n)).unwrap_or(false);
                // an entry removed since the stream was opened may still be reported
                if there || s.ch.env.below(2) == 0 {
                    break Some((n, i));
                }
            }
            None => {
                if st.ended {
                    break None;
                }
                st.ended = true;
                // entries added since may or may not be reported
                let new: Vec<(Vec<u8>, Ino)> = s.vfs.entries(st.ino).map(|e| e.iter().map(|(k, v)| (k.clone(), *v)).collect()).unwrap_or_default();
                for (n, i) in new {
                    if !st.listed.contains(&n) && s.ch.env.below(2) == 0 {
                        st.listed.push(n.clone());
                        st.pending.push((n, i));
                    }
                }
            }
        }
    };
    let r = match entry {
        None => {
            set_errno(0);
            std::ptr::null_mut()
        }
        Some((n, i)) => {
            let e = &mut *st.ent;
            e.d_ino = i as u64;
            e.d_type = if s.vfs.is_dir(i) { libc::DT_DIR } else { libc::DT_REG };
            e.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
            for (j, b) in n.iter().enumerate().take(255) {
                e.d_name[j] = *b as c_char;
            }
            e.d_name[n.len().min(255)] = 0;
            e as *mut libc::dirent64
        }
    };
    let name: Vec<u8> = if r.is_null() { vec![] } else { cs((*r).d_name.as_ptr()).to_vec() };
    drop(k);
    note(h, "readdir", &name, 0);
    after(h, f);
    if r.is_null() {
        set_errno(0);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut libc::DIR) -> *mut libc::dirent64 {
    readdir64(d)
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if dir(d).is_some() {
        let _k = Kernel::enter();
        let b = Box::from_raw(d as *mut Dir);
        let fd = b.s.fd;
        drop(b);
        if exec::active() {
            let _ = sim().vfs.close(fd);
        }
        return 0;
    }
    next!("closedir", unsafe extern "C" fn(*mut libc::DIR) -> c_int)(d)
}

#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if let Some(dd) = dir(d) {
        return dd.s.fd;
    }
    next!("dirfd", unsafe extern "C" fn(*mut libc::DIR) -> c_int)(d)
}

// ---------------------------------------------------------------- clock, randomness, locks

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if let Some(h) = exec::helper() {
        let s = sim();
        let wall = matches!(id, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI);
        let t = if wall {
            let skew = s.nodes[s.helpers[h].node].skew;
            let t = ((EPOCH_S * SEC + s.now) as i64 + skew).max(0) as u64;
            t - t % s.grain
        } else {
            1000 * SEC + s.now
        };
        (*ts).tv_sec = (t / SEC) as i64;
        (*ts).tv_nsec = (t % SEC) as i64;
        return 0;
    }
    fin(raw::sys(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if exec::helper().is_some() {
        let mut ts: libc::timespec = std::mem::zeroed();
        clock_gettime(libc::CLOCK_REALTIME, &mut ts);
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    fin(raw::sys(libc::SYS_gettimeofday, tv as i64, tz as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if let Some(h) = exec::me() {
        if !frozen(h) {
            exec::stall(h, (*a).tv_sec as u64 * SEC + (*a).tv_nsec as u64);
        }
        return 0;
    }
    fin(raw::sys(libc::SYS_nanosleep, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, fl: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if let Some(h) = exec::me() {
        let want = (*a).tv_sec as u64 * SEC + (*a).tv_nsec as u64;
        let ns = if fl & libc::TIMER_ABSTIME != 0 {
            let mut ts: libc::timespec = std::mem::zeroed();
            clock_gettime(id, &mut ts);
            want.saturating_sub(ts.tv_sec as u64 * SEC + ts.tv_nsec as u64)
        } else {
            want
        };
        if !frozen(h) {
            exec::stall(h, ns);
        }
        return 0;
    }
    -(raw::sys(libc::SYS_clock_nanosleep, id as i64, fl as i64, a as i64, b as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(h) = exec::me() {
        exec::park(h);
        return 0;
    }
    fin(raw::sys(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn sim_random(buf: *mut u8, n: size_t) -> ssize_t {
    let rng = &mut sim().ch.env;
    let mut i = 0;
    while i < n {
        let v = rng.next().to_le_bytes();
        let m = (n - i).min(8);
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf.add(i), m);
        i += m;
    }
    n as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, fl: u32) -> ssize_t {
    if exec::helper().is_some() {
        return sim_random(buf as *mut u8, n);
    }
    fin(raw::sys(libc::SYS_getrandom, buf as i64, n as i64, fl as i64, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: size_t) -> c_int {
    // OpenSSL's own generator, which outlives a run and feeds nothing here (no TLS is spoken):
    // it must not use up the run's randomness
    if exec::helper().is_some() {
        std::ptr::write_bytes(buf as *mut u8, 0x5a, n);
        return 0;
    }
    getrandom(buf, n, 0).min(0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if n == libc::SYS_getrandom && exec::helper().is_some() {
        return sim_random(a as *mut u8, b as usize) as c_long;
    }
    if let Some(h) = exec::me() {
        match n {
            libc::SYS_futex => {
                let op = b as i32 & 0x7f;
                match op {
                    0 | 9 => {
                        let addr = a as *const u32;
                        if std::ptr::read_volatile(addr) != c as u32 {
                            return res::<i32>(Err(libc::EAGAIN));
                        }
                        let ts = d as *const libc::timespec;
                        let deadline = if ts.is_null() {
                            None
                        } else {
                            let t = (*ts).tv_sec as u64 * SEC + (*ts).tv_nsec as u64;
                            let now = sim().now;
                            Some(if op == 0 {
                                now + t
                            } else if b as i32 & libc::FUTEX_CLOCK_REALTIME != 0 {
                                let skew = sim().nodes[node(h)].skew;
                                (t as i64 - skew - (EPOCH_S * SEC) as i64).max(0) as u64
                            } else {
                                t.saturating_sub(1000 * SEC)
                            })
                        };
                        return if exec::block(h, addr as usize, deadline) { res::<i32>(Err(libc::ETIMEDOUT)) } else { 0 };
                    }
                    1 | 10 => {
                        let _k = Kernel::enter();
                        return exec::wake_addr(a as usize, c as u32 as usize) as c_long;
                    }
                    _ => {}
                }
            }
            libc::SYS_getrandom => return sim_random(a as *mut u8, b as usize) as c_long,
            libc::SYS_gettid => return 100 + h as c_long,
            libc::SYS_statx | libc::SYS_copy_file_range => return res::<i32>(Err(libc::ENOSYS)),
            libc::SYS_renameat2 => return renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as u32) as c_long,
            _ => {}
        }
    }
    fin(raw::sys(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- sockets

#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if exec::me().is_some() && (d == libc::AF_INET || d == libc::AF_INET6) {
        return sock::socket(d, t);
    }
    fin(raw::sys(libc::SYS_socket, d as i64, t as i64, p as i64, 0, 0, 0)) as c_int
}

macro_rules! sock_call {
    ($name:ident, $nr:ident, ($($a:ident: $t:ty),*), $body:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, $($a: $t),*) -> c_int {
            if sock::is_sock(fd) {
                return if exec::active() { $body(fd, $($a),*) } else { res::<i32>(Err(libc::EBADF)) as c_int };
            }
            sock_call!(@raw $nr, fd, $($a),*)
        }
    };
    (@raw $nr:ident, $fd:ident, $a:ident) => { fin(raw::sys(libc::$nr, $fd as i64, $a as i64, 0, 0, 0, 0)) as c_int };
    (@raw $nr:ident, $fd:ident, $a:ident, $b:ident) => { fin(raw::sys(libc::$nr, $fd as i64, $a as i64, $b as i64, 0, 0, 0)) as c_int };
    (@raw $nr:ident, $fd:ident, $a:ident, $b:ident, $c:ident) => { fin(raw::sys(libc::$nr, $fd as i64, $a as i64, $b as i64, $c as i64, 0, 0)) as c_int };
    (@raw $nr:ident, $fd:ident, $a:ident, $b:ident, $c:ident, $d:ident) => { fin(raw::sys(libc::$nr, $fd as i64, $a as i64, $b as i64, $c as i64, $d as i64, 0)) as c_int };
}

sock_call!(bind, SYS_bind, (a: *const libc::sockaddr, n: libc::socklen_t), sock::bind);
sock_call!(listen, SYS_listen, (n: c_int), sock::listen);
sock_call!(connect, SYS_connect, (a: *const libc::sockaddr, n: libc::socklen_t), sock::connect);
sock_call!(accept4, SYS_accept4, (a: *mut libc::sockaddr, n: *mut libc::socklen_t, f: c_int), |fd, a, n, _f| sock::accept(fd, a, n));
sock_call!(accept, SYS_accept, (a: *mut libc::sockaddr, n: *mut libc::socklen_t), sock::accept);
sock_call!(shutdown, SYS_shutdown, (how: c_int), sock::shutdown);
sock_call!(getsockname, SYS_getsockname, (a: *mut libc::sockaddr, n: *mut libc::socklen_t), |fd, a, n| sock::name(fd, a, n, false));
sock_call!(getpeername, SYS_getpeername, (a: *mut libc::sockaddr, n: *mut libc::socklen_t), |fd, a, n| sock::name(fd, a, n, true));
sock_call!(setsockopt, SYS_setsockopt, (l: c_int, o: c_int, v: *const c_void, n: libc::socklen_t), sock::setsockopt);
sock_call!(getsockopt, SYS_getsockopt, (l: c_int, o: c_int, v: *mut c_void, n: *mut libc::socklen_t), sock::getsockopt);
sock_call!(epoll_ctl, SYS_epoll_ctl, (op: c_int, other: c_int, ev: *mut libc::epoll_event), sock::epoll_ctl);
sock_call!(epoll_wait, SYS_epoll_wait, (ev: *mut libc::epoll_event, max: c_int, ms: c_int), sock::epoll_wait);

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: c_long) -> c_int {
    if sock::is_sock(fd) {
        return 0;
    }
    fin(raw::sys(libc::SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    if sock::is_sock(fd) {
        return if exec::active() { sock::recv(fd, b as *mut u8, n, fl) } else { res::<i32>(Err(libc::EBADF)) as ssize_t };
    }
    fin(raw::sys(libc::SYS_recvfrom, fd as i64, b as i64, n as i64, fl as i64, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    if sock::is_sock(fd) {
        return if exec::active() { sock::send(fd, std::slice::from_raw_parts(b as *const u8, n)) } else { res::<i32>(Err(libc::EBADF)) as ssize_t };
    }
    fin(raw::sys(libc::SYS_sendto, fd as i64, b as i64, n as i64, fl as i64, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn epoll_create1(fl: c_int) -> c_int {
    if exec::me().is_some() {
        return sock::epoll_create();
    }
    fin(raw::sys(libc::SYS_epoll_create1, fl as i64, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn eventfd(v: libc::c_uint, fl: c_int) -> c_int {
    if exec::me().is_some() {
        return sock::eventfd(v);
    }
    fin(raw::sys(libc::SYS_eventfd2, v as i64, fl as i64, 0, 0, 0, 0)) as c_int
}
