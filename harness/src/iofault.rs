//! System calls on files, made to fail on demand. Included (by path) by the checks that inject
//! such faults: the functions below take the place of those of the C library in that program,
//! and pass everything on unless a fault is due.
use libc::{c_char, c_int, c_long, c_uint, c_void, off64_t, size_t, ssize_t};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU8, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Open,
    Read,
    Write,
    Flush,
    Resize,
    Map,
    Seek,
    Remove,
    Copy,
    Stat,
}

static ARMED: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicUsize = AtomicUsize::new(0);
static AT: AtomicUsize = AtomicUsize::new(usize::MAX);
/// 0: the call at AT, 1: that and all later ones (but removals), 2: that transfers one byte only,
/// 3: that transfers one byte only and all later ones (but removals) fail,
/// 4: the process is killed instead of the call, 5: in the middle of it if it transfers something
static MODE: AtomicU8 = AtomicU8::new(0);
static ERRNO: AtomicI32 = AtomicI32::new(0);
/// bytes that read calls gave
static BYTES: AtomicUsize = AtomicUsize::new(0);
/// the longest that a file was made (by resizing and by writes at a position)
static LONGEST: AtomicUsize = AtomicUsize::new(0);
static HITS: Mutex<Vec<Call>> = Mutex::new(vec![]);
/// numbers of the last call that changed a file and of the last that flushed one (from 1)
static CHANGED: AtomicUsize = AtomicUsize::new(0);
static FLUSHED: AtomicUsize = AtomicUsize::new(0);

pub fn arm(at: Option<usize>, mode: u8, errno: i32) {
    HITS.lock().unwrap().clear();
    COUNT.store(0, SeqCst);
    BYTES.store(0, SeqCst);
    LONGEST.store(0, SeqCst);
    CHANGED.store(0, SeqCst);
    FLUSHED.store(0, SeqCst);
    AT.store(at.unwrap_or(usize::MAX), SeqCst);
    MODE.store(mode, SeqCst);
    ERRNO.store(errno, SeqCst);
    ARMED.store(true, SeqCst);
}
/// calls made to fail so far
pub fn hits() -> Vec<Call> {
    HITS.lock().unwrap().clone()
}
/// number of calls since, and those that were made to fail
pub fn disarm() -> (usize, Vec<Call>) {
    ARMED.store(false, SeqCst);
    (COUNT.load(SeqCst), HITS.lock().unwrap().clone())
}

#[allow(dead_code)]
pub fn bytes_read() -> usize {
    BYTES.load(SeqCst)
}
/// whether nothing was changed since the last flush
#[allow(dead_code)]
pub fn flushed() -> bool {
    FLUSHED.load(SeqCst) > CHANGED.load(SeqCst)
}
pub fn die() -> ! {
    unsafe {
        libc::syscall(libc::SYS_kill, libc::getpid(), libc::SIGKILL);
        libc::_exit(99)
    }
}
#[allow(dead_code)]
pub fn longest() -> usize {
    LONGEST.load(SeqCst)
}
fn given(n: ssize_t) -> ssize_t {
    if n > 0 && armed() {
        BYTES.fetch_add(n as usize, SeqCst);
    }
    n
}
fn reach(n: usize) {
    if armed() {
        LONGEST.fetch_max(n, SeqCst);
    }
}

enum What {
    Go,
    Fail,
    Short,
    Torn,
}
fn due(c: Call, transfer: bool) -> What {
    let k = COUNT.fetch_add(1, SeqCst);
    let at = AT.load(SeqCst);
    match c {
        Call::Write | Call::Copy | Call::Resize => CHANGED.fetch_max(k + 1, SeqCst),
        Call::Flush => FLUSHED.fetch_max(k + 1, SeqCst),
        _ => 0,
    };
    match MODE.load(SeqCst) {
        1 if k >= at && c != Call::Remove => {}
        3 if k > at && c != Call::Remove => {}
        2 | 3 if k == at && transfer => {
            HITS.lock().unwrap().push(c);
            return What::Short;
        }
        0 if k == at => {}
        5 if k == at && transfer => return What::Torn,
        4 | 5 if k == at => die(),
        _ => return What::Go,
    }
    HITS.lock().unwrap().push(c);
    unsafe { *libc::__errno_location() = ERRNO.load(SeqCst) };
    What::Fail
}
fn armed() -> bool {
    ARMED.load(SeqCst)
}
unsafe fn regular(fd: c_int) -> bool {
    if !armed() || fd < 3 {
        return false;
    }
    let e = *libc::__errno_location();
    let mut st: libc::stat = std::mem::zeroed();
    let ok = libc::syscall(libc::SYS_fstat, fd, &mut st as *mut _) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFREG;
    *libc::__errno_location() = e;
    ok
}
unsafe fn ours(p: *const c_char) -> bool {
    if !armed() || p.is_null() {
        return false;
    }
    let b = std::ffi::CStr::from_ptr(p).to_bytes();
    !(b.is_empty() || b.starts_with(b"/proc") || b.starts_with(b"/sys") || (b.starts_with(b"/dev") && !b.starts_with(b"/dev/shm")))
}
macro_rules! on {
    ($cond:expr, $call:ident, $fail:expr, $go:expr) => {{
        if $cond {
            if let What::Fail = due(Call::$call, false) {
                return $fail;
            }
        }
        $go
    }};
}
macro_rules! moved {
    ($fd:expr, $call:ident, $n:ident, $go:expr) => {{
        let mut $n = $n;
        if regular($fd) {
            match due(Call::$call, $n > 1) {
                What::Fail => return -1,
                What::Short => $n = 1,
                What::Torn => {
                    $n /= 2;
                    let _ = $go;
                    die()
                }
                What::Go => {}
            }
        }
        $go
    }};
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    on!(ours(p), Open, -1, libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    on!(ours(p), Open, -1, libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    moved!(fd, Read, n, given(libc::syscall(libc::SYS_pread64, fd, b, n, o) as ssize_t))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    pread64(fd, b, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    reach(o as usize + n);
    moved!(fd, Write, n, libc::syscall(libc::SYS_pwrite64, fd, b, n, o) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    pwrite64(fd, b, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    moved!(fd, Read, n, given(libc::syscall(libc::SYS_read, fd, b, n) as ssize_t))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    moved!(fd, Write, n, libc::syscall(libc::SYS_write, fd, b, n) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    moved!(b, Copy, n, given(libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, f) as ssize_t))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(b: c_int, a: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    moved!(b, Copy, n, given(libc::syscall(libc::SYS_sendfile, b, a, o, n) as ssize_t))
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    on!(regular(fd), Flush, -1, libc::syscall(libc::SYS_fsync, fd) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    on!(regular(fd), Flush, -1, libc::syscall(libc::SYS_fdatasync, fd) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn msync(a: *mut c_void, n: size_t, f: c_int) -> c_int {
    on!(armed(), Flush, -1, libc::syscall(libc::SYS_msync, a, n, f) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    reach(n as usize);
    on!(regular(fd), Resize, -1, libc::syscall(libc::SYS_ftruncate, fd, n) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off64_t) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: off64_t, w: c_int) -> off64_t {
    on!(regular(fd), Seek, -1, libc::syscall(libc::SYS_lseek, fd, o, w) as off64_t)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    on!(ours(p), Remove, -1, libc::syscall(libc::SYS_unlink, p) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    on!(fd >= 0 && armed(), Map, libc::MAP_FAILED, libc::syscall(libc::SYS_mmap, a, n, prot as c_long, flags as c_long, fd as c_long, o) as *mut c_void)
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    mmap64(a, n, prot, flags, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, flags: c_int, mask: c_uint, st: *mut c_void) -> c_int {
    let by_fd = !p.is_null() && *p == 0 && regular(dir);
    on!(by_fd || ours(p), Stat, -1, libc::syscall(libc::SYS_statx, dir, p, flags, mask, st) as c_int)
}
