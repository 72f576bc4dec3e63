//! Interposition of the libc file operations: the library under test is linked into this program, so the
//! definitions below take precedence over those of libc. Without a session they pass straight through.
//! In a session, operations on the tracked file are recorded as effects, can be made to fail or to be performed
//! only partly, and are scheduling points.
use libc::{c_int, c_void, iovec, off64_t, size_t, ssize_t};
use std::cell::UnsafeCell;
use std::fs::File;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Eff {
    Write { off: u64, data: Vec<u8> },
    Len(u64),
    Sync,
    /// a marker set by the engine
    Mark(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// the k-th operation fails with this errno; with `true` all later ones too
    Errno(u64, i32, bool),
    /// the k-th operation is a read or write that transfers only half of the bytes (but at least one)
    Short(u64),
    /// the k-th operation transfers only half, and the next one on the file fails
    ShortErr(u64, i32),
    /// the k-th operation, and all operations after it, transfer one byte at a time
    Trickle(u64),
    /// the k-th operation is interrupted
    Intr(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Write,
    Read,
    Seek,
    Len,
    Sync,
    Map,
}
pub struct Session {
    pub log: Vec<Eff>,
    pub fault: Fault,
    /// number of operations on the file so far
    pub count: u64,
    pub hit: Option<Kind>,
    pub kinds: Vec<Kind>,
    fail_next: Option<i32>,
    record: bool,
}
struct Cell_(UnsafeCell<Option<Session>>);
unsafe impl Sync for Cell_ {}
static SESSION: Cell_ = Cell_(UnsafeCell::new(None));
static ON: AtomicBool = AtomicBool::new(false);
static INO: AtomicU64 = AtomicU64::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
static SCHED: AtomicUsize = AtomicUsize::new(0);
/// unmapped regions become inaccessible instead of free for reuse
static GUARD_UNMAP: AtomicBool = AtomicBool::new(false);

fn with<T>(f: impl FnOnce(&mut Session) -> T) -> Option<T> {
    quiet(|| with_(f))
}
fn with_<T>(f: impl FnOnce(&mut Session) -> T) -> Option<T> {
    while LOCK.swap(true, SeqCst) {
        std::hint::spin_loop();
    }
    let h = crate::alloc::enable_hook(false);
    let r = unsafe { (*SESSION.0.get()).as_mut().map(f) };
    crate::alloc::enable_hook(h);
    LOCK.store(false, SeqCst);
    r
}
fn ino(fd: c_int) -> u64 {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) == 0 {
            st.st_ino.wrapping_mul(31).wrapping_add(st.st_dev).wrapping_mul(2) + 1
        } else {
            0
        }
    }
}
/// Start recording the operations on this file (through any descriptor).
pub fn start(f: &File, fault: Fault, record: bool) {
    INO.store(ino(f.as_raw_fd()), SeqCst);
    let s = Session { log: Vec::new(), fault, count: 0, hit: None, kinds: Vec::new(), fail_next: None, record };
    unsafe { *SESSION.0.get() = Some(s) };
    ON.store(true, SeqCst);
}
pub fn mark(n: usize) {
    with(|s| s.log.push(Eff::Mark(n)));
}
pub fn stop() -> Session {
    ON.store(false, SeqCst);
    unsafe { (*SESSION.0.get()).take().expect("no session") }
}
/// end a session that may be there (after a panic)
pub fn abandon() {
    ON.store(false, SeqCst);
    unsafe { *SESSION.0.get() = None };
}
pub fn set_fault(f: Fault) {
    with(|s| {
        s.fault = f;
        s.count = 0;
        s.fail_next = None;
        s.hit = None;
        s.kinds.clear();
    });
}
pub fn hit() -> Option<Kind> {
    with(|s| s.hit).flatten()
}
pub fn count() -> u64 {
    with(|s| s.count).unwrap_or(0)
}
pub fn set_sched(f: Option<fn()>) {
    SCHED.store(f.map(|f| f as usize).unwrap_or(0), SeqCst);
}
pub fn guard_unmap(on: bool) {
    GUARD_UNMAP.store(on, SeqCst);
}
fn tracked(fd: c_int) -> bool {
    quiet(|| ON.load(SeqCst) && fd >= 0 && ino(fd) == INO.load(SeqCst))
}
#[cfg(feature = "sched")]
use crate::sched::quiet;
#[cfg(not(feature = "sched"))]
fn quiet<T>(f: impl FnOnce() -> T) -> T {
    f()
}
fn sched() {
    let p = quiet(|| SCHED.load(SeqCst));
    if p != 0 {
        let f: fn() = unsafe { std::mem::transmute(p) };
        f();
    }
}
fn set_errno(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}
enum Do {
    All,
    Part(usize),
    Fail(i32),
}
fn decide(kind: Kind, len: usize) -> Do {
    with(|s| {
        let k = s.count;
        s.count += 1;
        if s.kinds.len() < 4096 {
            s.kinds.push(kind);
        }
        if let Some(e) = s.fail_next.take() {
            return Do::Fail(e);
        }
        let rw = matches!(kind, Kind::Read | Kind::Write);
        match s.fault {
            Fault::Errno(n, e, perm) if k == n || (perm && k > n) => {
                s.hit = s.hit.or(Some(kind));
                Do::Fail(e)
            }
            Fault::Short(n) if k == n && rw && len > 1 => {
                s.hit = Some(kind);
                Do::Part(len / 2)
            }
            Fault::ShortErr(n, e) if k == n && rw && len > 1 => {
                s.hit = Some(kind);
                s.fail_next = Some(e);
                Do::Part(len / 2)
            }
            Fault::Trickle(n) if k >= n && rw && len > 1 => {
                s.hit = Some(kind);
                Do::Part(1)
            }
            Fault::Intr(n) if k == n && (rw || kind == Kind::Sync || kind == Kind::Len) => {
                s.hit = Some(kind);
                Do::Fail(libc::EINTR)
            }
            _ => Do::All,
        }
    })
    .unwrap_or(Do::All)
}
fn log_write(off: i64, buf: *const c_void, n: isize) {
    if n > 0 {
        with(|s| {
            if s.record {
                let d = unsafe { std::slice::from_raw_parts(buf as *const u8, n as usize) };
                s.log.push(Eff::Write { off: off as u64, data: d.to_vec() });
            }
        });
    }
}
unsafe fn raw_seek(fd: c_int, off: i64, whence: c_int) -> i64 {
    libc::syscall(libc::SYS_lseek, fd, off, whence)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !tracked(fd) {
        return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    }
    sched();
    let n = match decide(Kind::Write, n) {
        Do::All => n,
        Do::Part(k) => k,
        Do::Fail(e) => return set_errno(e),
    };
    let r = libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    if r > 0 {
        log_write(raw_seek(fd, 0, libc::SEEK_CUR) - r as i64, buf, r);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if !tracked(fd) {
        return libc::syscall(libc::SYS_writev, fd, v, n) as ssize_t;
    }
    // performed as a write of everything
    let all = gather(v, n);
    write(fd, all.as_ptr() as *const c_void, all.len())
}
unsafe fn gather(v: *const iovec, n: c_int) -> Vec<u8> {
    quiet(|| {
        let mut all = vec![];
        for i in 0..n as usize {
            let x = &*v.add(i);
            all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
        all
    })
}
unsafe fn scatter(v: *const iovec, n: c_int, d: &[u8]) {
    let mut at = 0;
    for i in 0..n as usize {
        let x = &*v.add(i);
        let k = x.iov_len.min(d.len() - at);
        std::ptr::copy_nonoverlapping(d[at..].as_ptr(), x.iov_base as *mut u8, k);
        at += k;
    }
}
unsafe fn total(v: *const iovec, n: c_int) -> usize {
    (0..n as usize).map(|i| (*v.add(i)).iov_len).sum()
}
#[no_mangle]
pub unsafe extern "C" fn pwritev64(fd: c_int, v: *const iovec, n: c_int, off: off64_t) -> ssize_t {
    if !tracked(fd) {
        return libc::syscall(libc::SYS_pwritev, fd, v, n, off, 0usize) as ssize_t;
    }
    let all = gather(v, n);
    pwrite64(fd, all.as_ptr() as *const c_void, all.len(), off)
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: c_int, v: *const iovec, n: c_int, off: off64_t) -> ssize_t {
    pwritev64(fd, v, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if !tracked(fd) {
        return libc::syscall(libc::SYS_readv, fd, v, n) as ssize_t;
    }
    let mut buf = quiet(|| vec![0u8; total(v, n)]);
    let r = read(fd, buf.as_mut_ptr() as *mut c_void, buf.len());
    if r > 0 {
        scatter(v, n, &buf[..r as usize]);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn preadv64(fd: c_int, v: *const iovec, n: c_int, off: off64_t) -> ssize_t {
    if !tracked(fd) {
        return libc::syscall(libc::SYS_preadv, fd, v, n, off, 0usize) as ssize_t;
    }
    let mut buf = quiet(|| vec![0u8; total(v, n)]);
    let r = pread64(fd, buf.as_mut_ptr() as *mut c_void, buf.len(), off);
    if r > 0 {
        scatter(v, n, &buf[..r as usize]);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn preadv(fd: c_int, v: *const iovec, n: c_int, off: off64_t) -> ssize_t {
    preadv64(fd, v, n, off)
}
/// recorded as a change of the length, if it is one
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    if !tracked(fd) {
        return libc::syscall(libc::SYS_fallocate, fd, mode, off, len) as c_int;
    }
    sched();
    match decide(Kind::Len, 0) {
        Do::Fail(e) => set_errno(e) as c_int,
        _ => {
            let size = |fd| {
                let mut st: libc::stat = std::mem::zeroed();
                libc::fstat(fd, &mut st);
                st.st_size
            };
            let before = size(fd);
            let r = libc::syscall(libc::SYS_fallocate, fd, mode, off, len) as c_int;
            let after = size(fd);
            if r == 0 && after != before {
                with(|s| {
                    if s.record {
                        s.log.push(Eff::Len(after as u64))
                    }
                });
            }
            r
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    fallocate64(fd, mode, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: off64_t, len: off64_t) -> c_int {
    match fallocate64(fd, 0, off, len) {
        0 => 0,
        _ => *libc::__errno_location(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate(fd: c_int, off: off64_t, len: off64_t) -> c_int {
    posix_fallocate64(fd, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if !tracked(fd) {
        return libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t;
    }
    sched();
    let n = match decide(Kind::Write, n) {
        Do::All => n,
        Do::Part(k) => k,
        Do::Fail(e) => return set_errno(e),
    };
    let r = libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t;
    log_write(off, buf, r);
    r
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !tracked(fd) {
        return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t;
    }
    sched();
    match decide(Kind::Read, n) {
        Do::All => libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t,
        Do::Part(k) => libc::syscall(libc::SYS_read, fd, buf, k) as ssize_t,
        Do::Fail(e) => set_errno(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if !tracked(fd) {
        return libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t;
    }
    sched();
    match decide(Kind::Read, n) {
        Do::All => libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t,
        Do::Part(k) => libc::syscall(libc::SYS_pread64, fd, buf, k, off) as ssize_t,
        Do::Fail(e) => set_errno(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if !tracked(fd) {
        return raw_seek(fd, off, whence);
    }
    sched();
    match decide(Kind::Seek, 0) {
        Do::Fail(e) => set_errno(e) as off64_t,
        _ => raw_seek(fd, off, whence),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if !tracked(fd) {
        return libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
    }
    sched();
    match decide(Kind::Len, 0) {
        Do::Fail(e) => set_errno(e) as c_int,
        _ => {
            let r = libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
            if r == 0 {
                with(|s| {
                    if s.record {
                        s.log.push(Eff::Len(len as u64))
                    }
                });
            }
            r
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
unsafe fn do_sync(fd: c_int, nr: libc::c_long) -> c_int {
    if !tracked(fd) {
        return libc::syscall(nr, fd) as c_int;
    }
    sched();
    match decide(Kind::Sync, 0) {
        Do::Fail(e) => set_errno(e) as c_int,
        _ => {
            with(|s| {
                if s.record {
                    s.log.push(Eff::Sync)
                }
            });
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    if flags & libc::MAP_ANONYMOUS == 0 && tracked(fd) {
        sched();
        if let Do::Fail(e) = decide(Kind::Map, 0) {
            set_errno(if e == libc::EIO { libc::ENOMEM } else { e });
            return libc::MAP_FAILED;
        }
    }
    libc::syscall(libc::SYS_mmap, addr, len, prot, flags, fd, off) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    mmap64(addr, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(addr: *mut c_void, len: size_t) -> c_int {
    if quiet(|| GUARD_UNMAP.load(SeqCst)) {
        let len = len.next_multiple_of(4096);
        let r = libc::syscall(libc::SYS_mmap, addr, len, libc::PROT_NONE, libc::MAP_FIXED | libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if r != -1 {
            return 0;
        }
    }
    libc::syscall(libc::SYS_munmap, addr, len) as c_int
}
