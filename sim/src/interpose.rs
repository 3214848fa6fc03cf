// `open` is variadic in C; with at most one integer extra argument the x86-64 calling convention is the same.
#![allow(invalid_runtime_symbol_definitions)]
//! Definitions of libc functions that the process's own std uses. Inside a simulation they answer
//! from the simulated clock, disk and entropy; outside they are the plain system calls.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

use libc::{c_char, c_int, c_void, off64_t, size_t, ssize_t};

#[derive(Default)]
pub struct SimClock {
    /// Wall clock at simulation start, nanoseconds since the epoch.
    pub wall0: i128,
    /// (simulated ms since start, wall-clock jump in ns)
    pub jumps: Vec<(u64, i128)>,
    /// Nanoseconds that pass at every read of a clock.
    pub tick: u64,
    /// (index of the read, ns): a stall right before the value is returned.
    pub stalls: Vec<(u64, u64)>,
    pub reads: u64,
    pub extra: u128,
}

thread_local! {
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
    static GUARD: Cell<bool> = const { Cell::new(false) };
    /// Reads of the wall clock are counted and tick only while code under test runs.
    static IN_TASK: Cell<bool> = const { Cell::new(false) };
    static NOW_MS: Cell<u64> = const { Cell::new(0) };
    static EPOCH: Cell<Option<tokio::time::Instant>> = const { Cell::new(None) };
    pub static CLOCK: RefCell<SimClock> = RefCell::new(SimClock::default());
    static FS: RefCell<SimFs> = RefCell::new(SimFs::default());
    static ENTROPY: Cell<u64> = const { Cell::new(0x5eed) };
    static ENTROPY_CALLS: Cell<u64> = const { Cell::new(0) };
}

const MONO_BASE: u128 = 1_000_000_000_000_000;

pub fn enter(clock: SimClock, entropy: u64) {
    CLOCK.with(|c| *c.borrow_mut() = clock);
    FS.with(|f| *f.borrow_mut() = SimFs::default());
    ENTROPY.with(|e| e.set(entropy));
    IN_SIM.with(|c| c.set(true));
}

pub fn set_epoch() {
    EPOCH.with(|e| e.set(Some(tokio::time::Instant::now())));
}

pub fn leave() {
    IN_SIM.with(|c| c.set(false));
}

pub fn set_in_task(v: bool) -> bool {
    IN_TASK.with(|c| c.replace(v))
}

/// Simulated milliseconds since the start of the run (tokio's paused clock).
pub fn now_ms() -> u64 {
    match EPOCH.with(|e| e.get()) {
        None => 0,
        Some(epoch) => {
            let was = GUARD.with(|g| g.replace(true));
            let d = tokio::time::Instant::now().duration_since(epoch);
            GUARD.with(|g| g.set(was));
            let ms = d.as_millis() as u64;
            NOW_MS.with(|n| n.set(ms));
            ms
        }
    }
}

/// The simulated time of the last look at the clock, also after the runtime is gone.
pub fn last_ms() -> u64 {
    NOW_MS.with(|n| n.get())
}

fn wall_at(c: &SimClock, ms: u64) -> i128 {
    let mut w = c.wall0 + i128::from(ms) * 1_000_000 + c.extra as i128;
    for (at, delta) in &c.jumps {
        if *at <= ms {
            w += *delta;
        }
    }
    w
}

/// The wall clock as the process would read it now, without the read having any effect.
pub fn wall_ns() -> i128 {
    let ms = now_ms();
    CLOCK.with(|c| wall_at(&c.borrow(), ms))
}

thread_local! {
    static BLOCKED: Cell<u64> = const { Cell::new(0) };
}

/// Milliseconds that code under test has put its whole thread to sleep for.
pub fn blocked_ms() -> u64 {
    BLOCKED.with(|b| b.get())
}

/// The child's exit status when a poll would wait for a lock for ever, or sleeps on and on.
pub const DEADLOCKED: c_int = 99;
pub const SLEEPS_ON: c_int = 98;

fn in_task() -> bool {
    IN_SIM.try_with(|c| c.get()).unwrap_or(false) && IN_TASK.try_with(|c| c.get()).unwrap_or(false)
}

fn thread_sleeps(ts: *const libc::timespec) -> bool {
    if !in_task() {
        return false;
    }
    thread_sleeps_for(unsafe { (*ts).tv_sec as u128 * 1_000_000_000 + (*ts).tv_nsec as u128 });
    true
}

fn thread_sleeps_for(ns: u128) {
    CLOCK.with(|c| c.borrow_mut().extra += ns);
    let ms = BLOCKED.with(|b| {
        b.set(b.get() + (ns / 1_000_000) as u64 + 1);
        b.get()
    });
    if ms > 36_000_000 {
        unsafe { libc::_exit(SLEEPS_ON) }
    }
}

/// Threads that code under test has started in this process; they run outside the simulation.
static THREADS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_task() {
        thread_sleeps_for(1_000_000);
    }
    libc::syscall(libc::SYS_sched_yield) as c_int
}

unsafe fn next(name: &std::ffi::CStr) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    if in_task() {
        THREADS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
    type F = unsafe extern "C" fn(
        *mut libc::pthread_t,
        *const libc::pthread_attr_t,
        extern "C" fn(*mut c_void) -> *mut c_void,
        *mut c_void,
    ) -> c_int;
    let real: F = std::mem::transmute(next(c"pthread_create"));
    real(t, attr, f, arg)
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, value: *mut *mut c_void) -> c_int {
    if in_task() {
        BLOCKED.with(|b| b.set(b.get() + 1));
    }
    type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
    let real: F = std::mem::transmute(next(c"pthread_join"));
    real(t, value)
}

/// std's locks, condition variables and parking come here.
///
/// # Safety
/// As the libc function.
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: libc::c_long,
    a: libc::c_long,
    b: libc::c_long,
    c: libc::c_long,
    d: libc::c_long,
    e: libc::c_long,
    f: libc::c_long,
) -> libc::c_long {
    if n == libc::SYS_futex {
        let what = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        let waits = what == libc::FUTEX_WAIT || what == libc::FUTEX_WAIT_BITSET;
        if waits && in_task() && (a as *const u32).read_volatile() == c as u32 {
            let until = d as *const libc::timespec;
            if !until.is_null() {
                let mut ns = (*until).tv_sec as u128 * 1_000_000_000 + (*until).tv_nsec as u128;
                if what == libc::FUTEX_WAIT_BITSET {
                    let mut now: libc::timespec = std::mem::zeroed();
                    clock_gettime(libc::CLOCK_MONOTONIC, &mut now);
                    ns = ns.saturating_sub(now.tv_sec as u128 * 1_000_000_000 + now.tv_nsec as u128);
                }
                thread_sleeps_for(ns);
                *libc::__errno_location() = libc::ETIMEDOUT;
                return -1;
            }
            if THREADS.load(std::sync::atomic::Ordering::SeqCst) == 0 {
                // nobody is there to wake it
                libc::_exit(DEADLOCKED);
            }
            BLOCKED.with(|b| b.set(b.get() + 1));
        }
    }
    let r: libc::c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a,
        in("rsi") b,
        in("rdx") c,
        in("r10") d,
        in("r8") e,
        in("r9") f,
        lateout("rcx") _,
        lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: c_int,
    ts: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if flags == 0 && thread_sleeps(ts) {
        return 0;
    }
    if libc::syscall(libc::SYS_clock_nanosleep, clk, flags, ts, rem) == 0 {
        0
    } else {
        *libc::__errno_location()
    }
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if thread_sleeps(ts) {
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, ts, rem) as c_int
}

unsafe fn put(ts: *mut libc::timespec, ns: i128) {
    let max = i128::from(i64::MAX) * 1_000_000_000 + 999_999_999;
    let min = i128::from(i64::MIN) * 1_000_000_000;
    let ns = ns.clamp(min, max);
    (*ts).tv_sec = ns.div_euclid(1_000_000_000) as libc::time_t;
    (*ts).tv_nsec = ns.rem_euclid(1_000_000_000) as libc::c_long;
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    let sim = IN_SIM.try_with(|c| c.get()).unwrap_or(false)
        && !GUARD.try_with(|g| g.get()).unwrap_or(true);
    if !sim {
        if IN_SIM.try_with(|c| c.get()).unwrap_or(false) {
            // tokio asking for its base time
            put(ts, MONO_BASE as i128);
            return 0;
        }
        return libc::syscall(libc::SYS_clock_gettime, clk, ts) as c_int;
    }
    let ms = now_ms();
    let in_task = IN_TASK.with(|c| c.get());
    CLOCK.with(|c| {
        let mut c = c.borrow_mut();
        match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
                if in_task {
                    c.reads += 1;
                    let n = c.reads;
                    c.extra += u128::from(c.tick);
                    let stall: u64 = c.stalls.iter().filter(|(i, _)| *i == n).map(|(_, d)| *d).sum();
                    c.extra += u128::from(stall);
                }
                put(ts, wall_at(&c, ms));
            }
            _ => put(ts, (MONO_BASE + u128::from(ms) * 1_000_000 + c.extra) as i128),
        }
    });
    0
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, _flags: libc::c_uint) -> ssize_t {
    // Deterministic in this process at all times: hash seeds must not differ between runs.
    let p = buf.cast::<u8>();
    let _ = ENTROPY_CALLS.try_with(|c| c.set(c.get() + 1));
    for i in 0..len {
        let v = ENTROPY
            .try_with(|e| {
                let v = crate::prng::mix(e.get());
                e.set(v);
                v
            })
            .unwrap_or(7);
        *p.add(i) = v as u8;
    }
    len as ssize_t
}

// ---------------------------------------------------------------- environment variables

extern "C" {
    static environ: *const *const c_char;
}

thread_local! {
    /// Not 0: variables nobody has set have made-up values while code under test runs.
    static ENV_SALT: Cell<u64> = const { Cell::new(0) };
    static ENV_ASKED: Cell<u64> = const { Cell::new(0) };
}

pub fn salt_environment(salt: u64) {
    ENV_SALT.with(|e| e.set(salt));
}

/// Made-up values given out.
pub fn environment_asked() -> u64 {
    ENV_ASKED.with(|e| e.get())
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let want = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let entry = std::ffi::CStr::from_ptr(*p).to_bytes();
        if entry.len() > want.len() && entry[want.len()] == b'=' && &entry[..want.len()] == want {
            return (*p).add(want.len() + 1).cast_mut();
        }
        p = p.add(1);
    }
    let salt = ENV_SALT.try_with(|e| e.get()).unwrap_or(0);
    let own = !want.to_ascii_uppercase().windows(5).any(|w| w == b"PROXY")
        && ![&b"RUST"[..], b"GCE_METADATA", b"REQUEST_METHOD", b"SSL", b"MALLOC", b"LD_"]
            .iter()
            .any(|x| want.starts_with(x));
    if salt == 0
        || !own
        || !IN_SIM.try_with(|c| c.get()).unwrap_or(false)
        || !IN_TASK.try_with(|c| c.get()).unwrap_or(false)
    {
        return std::ptr::null_mut();
    }
    let _ = ENV_ASKED.try_with(|c| c.set(c.get() + 1));
    let values: &[&std::ffi::CStr] = if want == b"TZ" {
        &[c"JST-9", c"EST5EDT", c"NPT-5:45", c"UTC0"]
    } else {
        &[c"us-west9", c"1", c"true", c"0", c"debug", c"/simfs/none", c"x.example.com"]
    };
    values[(salt % values.len() as u64) as usize].as_ptr().cast_mut()
}

// ---------------------------------------------------------------- simulated disk

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct FileFault {
    /// Sizes of successive reads; the last one repeats. Empty: as asked.
    #[serde(default)]
    pub chunks: Vec<u32>,
    /// Indices of the read calls that fail with EINTR.
    #[serde(default)]
    pub eintr: Vec<u32>,
    /// open is interrupted this many times.
    #[serde(default)]
    pub open_eintr: u32,
    /// open fails with this errno.
    #[serde(default)]
    pub open_errno: Option<i32>,
    /// (offset, errno): a read reaching the offset fails.
    #[serde(default)]
    pub read_errno: Option<(u64, i32)>,
    /// fstat/statx fails with this errno.
    #[serde(default)]
    pub stat_errno: Option<i32>,
    /// size that stat reports, when it differs from the data
    #[serde(default)]
    pub stat_size: Option<u64>,
    #[serde(default)]
    pub seek_errno: Option<i32>,
}

#[derive(Default)]
pub struct SimFile {
    pub data: Vec<u8>,
    pub fault: FileFault,
}

struct OpenFile {
    name: String,
    pos: u64,
    calls: u32,
    reads: u32,
}

#[derive(Default)]
pub struct SimFs {
    files: BTreeMap<String, SimFile>,
    open: BTreeMap<c_int, OpenFile>,
    next: c_int,
    open_eintr_done: BTreeMap<String, u32>,
    pub stats: BTreeMap<&'static str, u64>,
}

const FD_BASE: c_int = 1_500_000_000;
const PREFIX: &str = "/simfs/";

pub fn fs_put(name: &str, file: SimFile) {
    FS.with(|f| f.borrow_mut().files.insert(name.to_string(), file));
}

pub fn fs_open_count() -> usize {
    FS.with(|f| f.borrow().open.len())
}

pub fn fs_stats() -> BTreeMap<&'static str, u64> {
    FS.with(|f| f.borrow().stats.clone())
}

fn fail(errno: c_int) -> c_int {
    unsafe { *libc::__errno_location() = errno };
    -1
}

fn is_sim_fd(fd: c_int) -> bool {
    fd >= FD_BASE
}

unsafe fn sim_open(path: *const c_char) -> Option<c_int> {
    if path.is_null() || !IN_SIM.try_with(|c| c.get()).unwrap_or(false) {
        return None;
    }
    let s = std::ffi::CStr::from_ptr(path).to_bytes();
    if !s.starts_with(PREFIX.as_bytes()) {
        return None;
    }
    let _as = crate::alloc::outside();
    let name = String::from_utf8_lossy(s).into_owned();
    Some(FS.with(|f| {
        let mut f = f.borrow_mut();
        let fault = match f.files.get(&name) {
            None => {
                *f.stats.entry("disk:open-enoent").or_default() += 1;
                return fail(libc::ENOENT);
            }
            Some(file) => file.fault.clone(),
        };
        let done = *f.open_eintr_done.get(&name).unwrap_or(&0);
        if done < fault.open_eintr {
            f.open_eintr_done.insert(name, done + 1);
            *f.stats.entry("disk:open-eintr").or_default() += 1;
            return fail(libc::EINTR);
        }
        if let Some(e) = fault.open_errno {
            *f.stats.entry("disk:open-error").or_default() += 1;
            return fail(e);
        }
        f.next += 1;
        let fd = FD_BASE + f.next;
        f.open.insert(fd, OpenFile { name, pos: 0, calls: 0, reads: 0 });
        fd
    }))
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if let Some(fd) = sim_open(path) {
        return fd;
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode) as c_int
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open64(path, flags, mode)
}

fn sim_read_at(fd: c_int, len: usize, at: Option<u64>) -> Result<Vec<u8>, c_int> {
    FS.with(|f| {
        let mut f = f.borrow_mut();
        let f = &mut *f;
        let Some(o) = f.open.get_mut(&fd) else {
            return Err(libc::EBADF);
        };
        let file = &f.files[&o.name];
        let call = o.calls;
        o.calls += 1;
        if file.fault.eintr.contains(&call) {
            *f.stats.entry("disk:read-eintr").or_default() += 1;
            return Err(libc::EINTR);
        }
        let pos = at.unwrap_or(o.pos);
        if let Some((off, e)) = file.fault.read_errno {
            if pos >= off {
                *f.stats.entry("disk:read-error").or_default() += 1;
                return Err(e);
            }
        }
        let mut n = len;
        if !file.fault.chunks.is_empty() {
            let i = (o.reads as usize).min(file.fault.chunks.len() - 1);
            n = n.min(file.fault.chunks[i].max(1) as usize);
        }
        o.reads += 1;
        if let Some((off, _)) = file.fault.read_errno {
            n = n.min((off - pos) as usize);
        }
        let start = (pos as usize).min(file.data.len());
        let end = (start + n).min(file.data.len());
        if end - start < len && end < file.data.len() {
            *f.stats.entry("disk:short-read").or_default() += 1;
        }
        let out = file.data[start..end].to_vec();
        if at.is_none() {
            o.pos = end as u64;
        }
        Ok(out)
    })
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if is_sim_fd(fd) {
        return match sim_read_at(fd, n, None) {
            Err(e) => fail(e) as ssize_t,
            Ok(v) => {
                std::ptr::copy_nonoverlapping(v.as_ptr(), buf.cast::<u8>(), v.len());
                v.len() as ssize_t
            }
        };
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if is_sim_fd(fd) {
        return match sim_read_at(fd, n, Some(off as u64)) {
            Err(e) => fail(e) as ssize_t,
            Ok(v) => {
                std::ptr::copy_nonoverlapping(v.as_ptr(), buf.cast::<u8>(), v.len());
                v.len() as ssize_t
            }
        };
    }
    libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_sim_fd(fd) {
        return FS.with(|f| match { let _as = crate::alloc::outside(); f.borrow_mut().open.remove(&fd) } {
            Some(_) => 0,
            None => fail(libc::EBADF),
        });
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}

fn sim_size(fd: c_int) -> Result<u64, c_int> {
    FS.with(|f| {
        let mut f = f.borrow_mut();
        let f = &mut *f;
        let Some(o) = f.open.get(&fd) else {
            return Err(libc::EBADF);
        };
        let file = &f.files[&o.name];
        if let Some(e) = file.fault.stat_errno {
            *f.stats.entry("disk:stat-error").or_default() += 1;
            return Err(e);
        }
        if let Some(size) = file.fault.stat_size {
            *f.stats.entry("disk:stat-size-differs").or_default() += 1;
            return Ok(size);
        }
        Ok(file.data.len() as u64)
    })
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if is_sim_fd(fd) {
        return match sim_size(fd) {
            Err(e) => fail(e),
            Ok(n) => {
                std::ptr::write_bytes(st, 0, 1);
                (*st).st_mode = libc::S_IFREG | 0o600;
                (*st).st_size = n as i64;
                0
            }
        };
    }
    libc::syscall(libc::SYS_fstat, fd, st) as c_int
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn statx(
    dirfd: c_int,
    path: *const c_char,
    flags: c_int,
    mask: libc::c_uint,
    st: *mut libc::statx,
) -> c_int {
    if is_sim_fd(dirfd) {
        return match sim_size(dirfd) {
            Err(e) => fail(e),
            Ok(n) => {
                std::ptr::write_bytes(st, 0, 1);
                (*st).stx_mask = mask;
                (*st).stx_mode = (libc::S_IFREG | 0o600) as u16;
                (*st).stx_size = n;
                0
            }
        };
    }
    if !path.is_null() && IN_SIM.try_with(|c| c.get()).unwrap_or(false) {
        let s = std::ffi::CStr::from_ptr(path).to_bytes();
        if s.starts_with(PREFIX.as_bytes()) {
            let _as = crate::alloc::outside();
            let name = String::from_utf8_lossy(s).into_owned();
            return FS.with(|f| match f.borrow().files.get(&name) {
                None => fail(libc::ENOENT),
                Some(file) => {
                    if let Some(e) = file.fault.stat_errno {
                        return fail(e);
                    }
                    std::ptr::write_bytes(st, 0, 1);
                    (*st).stx_mask = mask;
                    (*st).stx_mode = (libc::S_IFREG | 0o600) as u16;
                    (*st).stx_size = file.fault.stat_size.unwrap_or(file.data.len() as u64);
                    0
                }
            });
        }
    }
    libc::syscall(libc::SYS_statx, dirfd, path, flags, mask, st) as c_int
}

/// # Safety
/// As the libc function.
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if is_sim_fd(fd) {
        return FS.with(|f| {
            let _as = crate::alloc::outside();
            let mut f = f.borrow_mut();
            let f = &mut *f;
            let Some(o) = f.open.get_mut(&fd) else {
                return off64_t::from(fail(libc::EBADF));
            };
            let file = &f.files[&o.name];
            if let Some(e) = file.fault.seek_errno {
                *f.stats.entry("disk:seek-error").or_default() += 1;
                return off64_t::from(fail(e));
            }
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => o.pos as i64,
                _ => file.data.len() as i64,
            };
            let n = base + off;
            if n < 0 {
                return off64_t::from(fail(libc::EINVAL));
            }
            o.pos = n as u64;
            n
        });
    }
    libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t
}
