//! libc interposition: randomness, clock, files.
use super::{fs, hid, on, sched};
use crate::core::cx;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};

pub unsafe fn raw(n: c_long, a: [c_long; 6]) -> c_long {
    let ret: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => ret, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
pub fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
pub unsafe fn ret(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}

// ---------------------------------------------------------------- randomness
#[derive(Default)]
pub struct RandState {
    pub draws: u64,
    /// fail (EIO) every draw whose index is >= this
    pub fail_from: Option<u64>,
    /// fail exactly this draw
    pub fail_at: Option<u64>,
    /// serve at most this many bytes per call (short getrandom)
    pub short: Option<usize>,
    /// all bytes served, in order
    pub served: Vec<u8>,
    /// bytes to be served before the PRNG stream
    pub queue: std::collections::VecDeque<u8>,
    /// the next draw of exactly this length is served from `queue32`
    pub canned: Option<Vec<u8>>,
    pub canned_used: bool,
    pub failed: u64,
    /// fail the next draw of exactly this many bytes made by the run's own thread
    pub fail_len: Option<usize>,
    pub failed_by: std::collections::BTreeMap<usize, u64>,
    /// everything served, by thread
    pub by_thread: std::collections::BTreeMap<usize, Vec<u8>>,
    /// everything drawn by the run's own thread in draws of 32 bytes
    pub main32: Vec<Vec<u8>>,
    /// every n-th draw is interrupted by a signal (EINTR) and must be repeated
    pub eintr_every: u64,
    calls: u64,
}
static mut RAND: Option<RandState> = None;
#[allow(static_mut_refs)]
pub fn rand_state() -> &'static mut RandState {
    unsafe { RAND.get_or_insert_with(Default::default) }
}
unsafe fn sim_getrandom(buf: *mut u8, len: usize, flags: c_uint) -> ssize_t {
    let _g = sched::np();
    if sched::racing() {
        sched::point();
    }
    let s = std::slice::from_raw_parts_mut(buf, len);
    if flags == 0 && len > 0 {
        let st = rand_state();
        st.calls += 1;
        if st.eintr_every > 0 && st.calls % (st.eintr_every + 1) == st.eintr_every {
            cx().fault("rng_eintr");
            set_errno(libc::EINTR);
            return -1;
        }
        let i = st.draws;
        st.draws += 1;
        if st.fail_from.map_or(false, |n| i >= n) || st.fail_at == Some(i) {
            st.failed += 1;
            *st.failed_by.entry(sched::me()).or_default() += 1;
            cx().fault("rng_failure");
            set_errno(libc::EIO);
            return -1;
        }
        if st.fail_len == Some(len) && sched::me() <= 1 {
            st.fail_len = None;
            st.failed += 1;
            *st.failed_by.entry(sched::me()).or_default() += 1;
            cx().fault("rng_failure");
            set_errno(libc::EIO);
            return -1;
        }
        if let Some(c) = &st.canned {
            if c.len() == len && sched::me() <= 1 {
                s.copy_from_slice(c);
                st.canned = None;
                st.canned_used = true;
                st.served.extend_from_slice(s);
                return len as ssize_t;
            }
        }
        let n = st.short.unwrap_or(len).min(len).max(1);
        if n < len {
            cx().stat("fault.rng_short");
        }
        cx().ent.fill(&mut s[..n]);
        st.served.extend_from_slice(&s[..n]);
        st.by_thread.entry(sched::me()).or_default().extend_from_slice(&s[..n]);
        if n == 32 && sched::me() <= 1 {
            st.main32.push(s[..n].to_vec());
        }
        return n as ssize_t;
    }
    cx().ent.fill(s);
    len as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if on() {
        return sim_getrandom(buf as *mut u8, len, flags);
    }
    ret(raw(libc::SYS_getrandom, [buf as c_long, len as c_long, flags as c_long, 0, 0, 0])) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if on() {
        if n == libc::SYS_getrandom {
            return sim_getrandom(a as *mut u8, b as usize, c as c_uint) as c_long;
        }
        if let Some(r) = crate::sched_syscall(n, [a, b, c, d, e, f]) {
            return r;
        }
    }
    ret(raw(n, [a, b, c, d, e, f]))
}

// ---------------------------------------------------------------- clock
/// wall clock = EPOCH0 + simulated monotonic time + offset (jumps)
static mut WALL_BASE_S: i64 = 1_700_000_000;
pub fn set_wall(secs: i64) {
    unsafe { WALL_BASE_S = secs - (cx().now_ns / 1_000_000_000) as i64 }
}
pub fn wall() -> i64 {
    unsafe { WALL_BASE_S + (cx().now_ns / 1_000_000_000) as i64 }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if on() {
        let now = cx().now_ns;
        if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
            (*ts).tv_sec = WALL_BASE_S + (now / 1_000_000_000) as i64;
        } else {
            (*ts).tv_sec = 1000 + (now / 1_000_000_000) as i64;
        }
        (*ts).tv_nsec = (now % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, [clk as c_long, ts as c_long, 0, 0, 0, 0])) as c_int
}

// ---------------------------------------------------------------- files
unsafe fn do_open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if on() {
        let _g = sched::np();
        if sched::racing() {
            sched::point();
        }
        if let Some(r) = hid::open(std::ffi::CStr::from_ptr(path).to_bytes(), flags) {
            return match r {
                Ok(fd) => fd,
                Err(e) => {
                    set_errno(e);
                    -1
                }
            };
        }
        if let Some(r) = fs::open(std::ffi::CStr::from_ptr(path).to_bytes(), flags) {
            return match r {
                Ok(fd) => fd,
                Err(e) => {
                    set_errno(e);
                    -1
                }
            };
        }
    }
    ret(raw(libc::SYS_openat, [libc::AT_FDCWD as c_long, path as c_long, flags as c_long, mode as c_long, 0, 0])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
fn conv(r: Result<usize, c_int>) -> ssize_t {
    match r {
        Ok(n) => n as ssize_t,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if hid::is_hid(fd) {
        return conv(hid::read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n)));
    }
    if fs::is_virtual(fd) {
        let _g = sched::np();
        sched::point();
        return conv(fs::read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n)));
    }
    ret(raw(libc::SYS_read, [fd as c_long, buf as c_long, n as c_long, 0, 0, 0])) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if hid::is_hid(fd) {
        return conv(hid::write(fd, std::slice::from_raw_parts(buf as *const u8, n)));
    }
    if fs::is_virtual(fd) {
        let _g = sched::np();
        sched::point();
        return conv(fs::write(fd, std::slice::from_raw_parts(buf as *const u8, n)));
    }
    if on() && (fd == 1 || fd == 2) && !fs::echo() {
        return n as ssize_t; // the code under test prints diagnostics; keep them out of the report
    }
    ret(raw(libc::SYS_write, [fd as c_long, buf as c_long, n as c_long, 0, 0, 0])) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if hid::is_hid(fd) {
        return conv(hid::close(fd).map(|_| 0)) as c_int;
    }
    if fs::is_virtual(fd) {
        let _g = sched::np();
        return conv(fs::close(fd).map(|_| 0)) as c_int;
    }
    ret(raw(libc::SYS_close, [fd as c_long, 0, 0, 0, 0, 0])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fs::is_virtual(fd) {
        return conv(fs::fsync(fd).map(|_| 0)) as c_int;
    }
    ret(raw(libc::SYS_fsync, [fd as c_long, 0, 0, 0, 0, 0])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if fs::is_virtual(fd) {
        return match fs::lseek(fd, off, whence) {
            Ok(v) => v,
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    ret(raw(libc::SYS_lseek, [fd as c_long, off, whence as c_long, 0, 0, 0])) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    if fs::is_virtual(dirfd) {
        let len = fs::shown_len(dirfd);
        std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
        (*buf).stx_mask = libc::STATX_BASIC_STATS;
        (*buf).stx_mode = (libc::S_IFREG | 0o600) as u16;
        (*buf).stx_size = len as u64;
        (*buf).stx_nlink = 1;
        (*buf).stx_ino = 1 + fs::inode(dirfd) as u64;
        (*buf).stx_mtime.tv_sec = fs::mtime(fs::inode(dirfd));
        return 0;
    }
    if on() && !path.is_null() && dirfd == libc::AT_FDCWD {
        if let Some(r) = fs::stat_path(std::ffi::CStr::from_ptr(path).to_bytes()) {
            return match r {
                Ok((len, mtime)) => {
                    std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
                    (*buf).stx_mask = libc::STATX_BASIC_STATS;
                    (*buf).stx_mode = (libc::S_IFREG | 0o600) as u16;
                    (*buf).stx_size = len as u64;
                    (*buf).stx_nlink = 1;
                    (*buf).stx_mtime.tv_sec = mtime;
                    0
                }
                Err(e) => {
                    set_errno(e);
                    -1
                }
            };
        }
    }
    ret(raw(libc::SYS_statx, [dirfd as c_long, path as c_long, flags as c_long, mask as c_long, buf as c_long, 0])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut libc::stat64) -> c_int {
    if fs::is_virtual(fd) {
        std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::stat64>());
        (*buf).st_mode = libc::S_IFREG | 0o600;
        (*buf).st_size = fs::shown_len(fd) as i64;
        (*buf).st_ino = 1 + fs::inode(fd) as u64;
        (*buf).st_mtime = fs::mtime(fs::inode(fd));
        return 0;
    }
    ret(raw(libc::SYS_fstat, [fd as c_long, buf as c_long, 0, 0, 0, 0])) as c_int
}

/// OpenSSL's random numbers come from the run's own stream.
pub fn own_openssl_rand() {
    #[repr(C)]
    struct Method {
        seed: Option<unsafe extern "C" fn(*const c_void, c_int) -> c_int>,
        bytes: Option<unsafe extern "C" fn(*mut u8, c_int) -> c_int>,
        cleanup: Option<unsafe extern "C" fn()>,
        add: Option<unsafe extern "C" fn(*const c_void, c_int, f64) -> c_int>,
        pseudorand: Option<unsafe extern "C" fn(*mut u8, c_int) -> c_int>,
        status: Option<unsafe extern "C" fn() -> c_int>,
    }
    unsafe impl Sync for Method {}
    unsafe extern "C" fn bytes(b: *mut u8, n: c_int) -> c_int {
        let s = std::slice::from_raw_parts_mut(b, n as usize);
        if on() {
            let _g = sched::np();
            cx().ent.fill(s);
        } else {
            let mut p = 0;
            while p < s.len() {
                let r = raw(libc::SYS_getrandom, [s[p..].as_mut_ptr() as c_long, (s.len() - p) as c_long, 0, 0, 0, 0]);
                if r <= 0 {
                    return 0;
                }
                p += r as usize;
            }
        }
        1
    }
    unsafe extern "C" fn status() -> c_int {
        1
    }
    static M: Method = Method { seed: None, bytes: Some(bytes), cleanup: None, add: None, pseudorand: Some(bytes), status: Some(status) };
    extern "C" {
        fn RAND_set_rand_method(m: *const Method) -> c_int;
    }
    assert_eq!(unsafe { RAND_set_rand_method(&M) }, 1);
}
