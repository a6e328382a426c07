//! The simulated world: libc entry points, clock, randomness, allocator, scheduler.
//!
//! The functions below carry the names of the libc functions libstd calls, so the whole program
//! (the code under test included) is linked against them. Outside a simulated run they do the plain
//! system call.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};

use libc::{c_char, c_int, c_long, c_uint, c_void, size_t, ssize_t};

use crate::ast::{Delivery, Fail};
use crate::rng::mix;

pub const EXIT_READ_BUDGET: i32 = 78;
pub const EXIT_ALLOC_BUDGET: i32 = 79;
pub const EXIT_DEADLOCK: i32 = 77;

pub const ERRNOS: [c_int; 22] = [
    libc::EIO,
    libc::EAGAIN,
    libc::ETIMEDOUT,
    libc::ESTALE,
    libc::ENOMEM,
    libc::ECONNRESET,
    libc::EACCES,
    libc::EINVAL,
    libc::EPIPE,
    libc::EISDIR,
    libc::EBADF,
    libc::ENXIO,
    libc::ENODATA,
    libc::EOVERFLOW,
    libc::ECONNABORTED,
    libc::ENOTCONN,
    libc::EHOSTUNREACH,
    libc::EPERM,
    libc::EBUSY,
    libc::ENOSPC,
    libc::ENOENT,
    libc::EOPNOTSUPP,
];

pub const KINDS: [io::ErrorKind; 22] = [
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::NotFound,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::WriteZero,
    io::ErrorKind::Unsupported,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::IsADirectory,
    io::ErrorKind::StaleNetworkFileHandle,
];

pub const OPEN_ERRNOS: [c_int; 14] = [
    libc::EACCES,
    libc::EIO,
    libc::EMFILE,
    libc::ELOOP,
    libc::ENOMEM,
    libc::ENOENT,
    libc::ENFILE,
    libc::EPERM,
    libc::ENXIO,
    libc::ENODEV,
    libc::EOVERFLOW,
    libc::EBUSY,
    libc::ESTALE,
    libc::ENOTDIR,
];

// ---------------------------------------------------------------- raw system calls

unsafe fn raw6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let ret: c_long;
    core::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

unsafe fn ret_errno(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}

// ---------------------------------------------------------------- simulated world state

/// A simulated run is on in this process.
static ACTIVE: AtomicBool = AtomicBool::new(false);
static HASH_SEED: AtomicU64 = AtomicU64::new(0);
static HASH_CTR: AtomicU64 = AtomicU64::new(0);
/// nanoseconds since the epoch
static CLOCK: AtomicI64 = AtomicI64::new(0);
/// simulated nanoseconds that passed
pub static ELAPSED: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    /// scheduler slot of this thread
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    /// inside the harness: no scheduling, no simulated faults
    static BYPASS: Cell<bool> = const { Cell::new(false) };
    static ALLOC_ON: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u32> = const { Cell::new(0) };
}

/// A file of the plan, known by its inode.
pub struct SimFile {
    pub dev: u64,
    pub ino: u64,
    pub size: usize,
    pub del: Delivery,
    pub open_err: c_int,
    /// looking at it fails as well
    pub stat_err: c_int,
    pub opens: usize,
    pub used: usize,
}

#[derive(Default)]
pub struct World {
    pub files: Vec<SimFile>,
    pub fds: BTreeMap<c_int, (usize, Dstate)>,
    pub fired: BTreeMap<&'static str, u64>,
    pub log: u64,
    pub events: u64,
    pub trace: Option<Vec<String>>,
    /// reads after the end / after a lasting failure, largest seen
    pub max_after_end: usize,
    pub max_after_fail: usize,
    pub total_reads: u64,
    /// attempts to change something outside the program
    pub touched: Vec<String>,
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);

pub fn bypass<R>(f: impl FnOnce() -> R) -> R {
    let old = BYPASS.with(|b| b.replace(true));
    let old_alloc = ALLOC_ON.with(|b| b.replace(false));
    let r = f();
    ALLOC_ON.with(|b| b.set(old_alloc));
    BYPASS.with(|b| b.set(old));
    r
}

pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    bypass(|| {
        let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
        f(g.get_or_insert_with(World::default))
    })
}

pub fn fired(kind: &'static str) {
    world(|w| *w.fired.entry(kind).or_default() += 1);
}

/// Notes an event in the history of the run.
pub fn event(text: &dyn Fn() -> String) {
    world(|w| {
        let t = text();
        w.log = crate::rng::hash_bytes(w.log, t.as_bytes());
        w.events += 1;
        if let Some(tr) = &mut w.trace {
            if tr.len() < 20000 {
                tr.push(t);
            }
        }
    });
}

pub fn start(hash: u64, clock: i64, files: Vec<SimFile>) {
    HASH_SEED.store(hash, SeqCst);
    HASH_CTR.store(0, SeqCst);
    CLOCK.store(clock.saturating_mul(1_000_000_000), SeqCst);
    world(|w| {
        w.files = files;
        w.fds.clear();
        w.touched.clear();
    });
    ACTIVE.store(true, SeqCst);
}

pub fn stop() -> Vec<SimFile> {
    ACTIVE.store(false, SeqCst);
    world(|w| {
        w.fds.clear();
        std::mem::take(&mut w.files)
    })
}

pub fn jump(seconds: i64) {
    CLOCK.fetch_add(seconds.saturating_mul(1_000_000_000), SeqCst);
    fired(if seconds < 0 { "clock_jump_back" } else { "clock_jump_forward" });
}

fn advance(ns: u64) {
    CLOCK.fetch_add(ns as i64, SeqCst);
    ELAPSED.fetch_add(ns, SeqCst);
}

fn simulated() -> bool {
    ACTIVE.load(Relaxed) && !BYPASS.with(|b| b.get())
}

// ---------------------------------------------------------------- delivery of bytes

#[derive(Default, Clone, Debug)]
pub struct Dstate {
    pub pos: usize,
    pub reads: usize,
    pub good: usize,
    pub pending: Option<u8>,
    pub failed: usize,
    pub after_end: usize,
    pub eintrs: usize,
}

pub enum Step {
    Bytes(usize),
    Interrupted,
    Fail(u8),
}

pub const AFTER_LIMIT: usize = 200;

impl Dstate {
    /// Decides what the next read of up to `want` bytes gives.
    pub fn step(&mut self, d: &Delivery, size: usize, want: usize) -> Step {
        self.reads += 1;
        advance(1_000 + d.delay as u64 * 1_000_000);
        world(|w| w.total_reads += 1);
        let budget = size + self.eintrs + 4 * AFTER_LIMIT;
        if self.reads > budget || self.after_end > AFTER_LIMIT || self.failed > AFTER_LIMIT {
            unsafe { libc::_exit(EXIT_READ_BUDGET) };
        }
        if !d.eintr.is_empty() {
            let n = self
                .pending
                .get_or_insert(d.eintr[self.good % d.eintr.len()]);
            if *n > 0 {
                *n -= 1;
                self.eintrs += 1;
                fired("interrupted_read");
                return Step::Interrupted;
            }
        }
        let mut limit = size;
        if let Some(Fail { at, kind, once }) = &d.fail {
            let at = (*at).min(size);
            if !(*once && self.failed > 0) {
                if self.pos >= at {
                    self.failed += 1;
                    fired("read_error");
                    let failed = self.failed;
                    world(|w| w.max_after_fail = w.max_after_fail.max(failed - 1));
                    return Step::Fail(*kind);
                }
                limit = limit.min(at);
            }
        }
        let chunk = if d.chunks.is_empty() {
            0
        } else {
            d.chunks[self.good % d.chunks.len()] as usize
        };
        self.good += 1;
        self.pending = None;
        let mut n = want.min(limit - self.pos);
        if chunk > 0 && chunk < n {
            n = chunk;
            fired("short_read");
        }
        if n == 0 && want > 0 {
            self.after_end += 1;
            let a = self.after_end;
            world(|w| w.max_after_end = w.max_after_end.max(a - 1));
        }
        self.pos += n;
        Step::Bytes(n)
    }
}

/// The source handed to Journal::read.
pub struct SimReader {
    pub bytes: Vec<u8>,
    pub del: Delivery,
    pub st: Dstate,
}

impl io::Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        yield_point("read");
        bypass(|| {
            let pos = self.st.pos;
            match self.st.step(&self.del, self.bytes.len(), buf.len()) {
                Step::Bytes(n) => {
                    buf[..n].copy_from_slice(&self.bytes[pos..pos + n]);
                    event(&|| format!("t{} source {}..{}", slot_name(), pos, pos + n));
                    Ok(n)
                }
                Step::Interrupted => {
                    event(&|| format!("t{} source EINTR at {}", slot_name(), pos));
                    Err(io::ErrorKind::Interrupted.into())
                }
                Step::Fail(k) => {
                    event(&|| format!("t{} source error {:?} at {}", slot_name(), KINDS[k as usize % KINDS.len()], pos));
                    Err(io::Error::new(KINDS[k as usize % KINDS.len()], "simulated"))
                }
            }
        })
    }
}

fn slot_name() -> i64 {
    SLOT.with(|s| s.get()) as i64
}

// ---------------------------------------------------------------- libc entry points

unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_uint, dir: c_int) -> c_int {
    let sim = simulated();
    if sim {
        yield_point("open");
        if flags & (libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY | libc::O_RDWR | libc::O_APPEND) != 0 {
            return denied("open for writing", path);
        }
    }
    let fd = ret_errno(raw6(
        libc::SYS_openat,
        dir as c_long,
        path as c_long,
        (flags | libc::O_CLOEXEC) as c_long,
        mode as c_long,
        0,
        0,
    )) as c_int;
    if !sim || fd < 0 {
        return fd;
    }
    let mut st: libc::stat = std::mem::zeroed();
    if raw6(libc::SYS_fstat, fd as c_long, &mut st as *mut _ as c_long, 0, 0, 0, 0) != 0 {
        return fd;
    }
    let err = world(|w| {
        let Some(i) = w.files.iter().position(|f| f.dev == st.st_dev && f.ino == st.st_ino) else {
            return 0;
        };
        w.files[i].opens += 1;
        if w.files[i].open_err != 0 {
            *w.fired.entry("open_error").or_default() += 1;
            return w.files[i].open_err;
        }
        w.fds.insert(fd, (i, Dstate::default()));
        0
    });
    if err != 0 {
        raw6(libc::SYS_close, fd as c_long, 0, 0, 0, 0, 0);
        set_errno(err);
        return -1;
    }
    fd
}

/// The library under test has no business changing files: noted, and refused.
unsafe fn denied(what: &str, path: *const c_char) -> c_int {
    world(|w| {
        let p = if path.is_null() {
            String::new()
        } else {
            std::ffi::CStr::from_ptr(path).to_string_lossy().into_owned()
        };
        w.touched.push(format!("{} {}", what, p));
    });
    set_errno(libc::EROFS);
    -1
}

macro_rules! refuse {
    ($name:ident, $nr:expr, ($($a:ident: $t:ty),*), $path:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            if simulated() {
                return denied(stringify!($name), $path as *const c_char);
            }
            let mut v = [0 as c_long; 6];
            let mut i = 0;
            $( v[i] = $a as c_long; i += 1; )*
            let _ = i;
            ret_errno(raw6($nr, v[0], v[1], v[2], v[3], v[4], v[5])) as c_int
        }
    };
}
refuse!(unlink, libc::SYS_unlink, (path: *const c_char), path);
refuse!(rmdir, libc::SYS_rmdir, (path: *const c_char), path);
refuse!(mkdir, libc::SYS_mkdir, (path: *const c_char, mode: c_uint), path);
refuse!(rename, libc::SYS_rename, (path: *const c_char, to: *const c_char), path);
refuse!(link, libc::SYS_link, (path: *const c_char, to: *const c_char), path);
refuse!(symlink, libc::SYS_symlink, (path: *const c_char, to: *const c_char), path);
refuse!(chmod, libc::SYS_chmod, (path: *const c_char, mode: c_uint), path);
refuse!(truncate64, libc::SYS_truncate, (path: *const c_char, len: i64), path);

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    if simulated() {
        return denied("unlinkat", path);
    }
    ret_errno(raw6(libc::SYS_unlinkat, dir as c_long, path as c_long, flags as c_long, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if simulated() && fd == 1 {
        world(|w| w.touched.push(format!("{} bytes to standard output", n)));
        return n as ssize_t;
    }
    ret_errno(raw6(libc::SYS_write, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as ssize_t
}

/// libstd looks at files with this one.
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    let sim = simulated();
    if sim {
        yield_point("stat");
    }
    let r = ret_errno(raw6(
        libc::SYS_statx,
        dir as c_long,
        path as c_long,
        flags as c_long,
        mask as c_long,
        buf as c_long,
        0,
    )) as c_int;
    if sim && r == 0 && !buf.is_null() {
        let (dev, ino) = (libc::makedev((*buf).stx_dev_major, (*buf).stx_dev_minor), (*buf).stx_ino);
        let err = world(|w| {
            let e = w.files.iter().find(|f| f.dev == dev && f.ino == ino).map_or(0, |f| f.stat_err);
            if e != 0 {
                *w.fired.entry("stat_error").or_default() += 1;
            }
            e
        });
        if err != 0 {
            set_errno(err);
            return -1;
        }
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode, libc::AT_FDCWD)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode, libc::AT_FDCWD)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode, dir)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode, dir)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if simulated() {
        world(|w| w.fds.remove(&fd));
    }
    ret_errno(raw6(libc::SYS_close, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if simulated() && world(|w| w.fds.contains_key(&fd)) {
        yield_point("read");
        return bypass(|| {
            let step = world(|w| {
                let (i, mut st) = w.fds.get(&fd).cloned().unwrap();
                let f = &mut w.files[i];
                if st.reads == 0 {
                    f.used += 1;
                }
                (i, f.del.clone(), f.size, std::mem::take(&mut st))
            });
            let (i, del, size, mut st) = step;
            let pos = st.pos;
            let s = st.step(&del, size, n);
            world(|w| {
                if let Some(e) = w.fds.get_mut(&fd) {
                    e.1 = st;
                }
            });
            match s {
                Step::Bytes(0) => {
                    event(&|| format!("t{} file{} end at {}", slot_name(), i, pos));
                    0
                }
                Step::Bytes(k) => {
                    event(&|| format!("t{} file{} {}..{}", slot_name(), i, pos, pos + k));
                    // exactly k bytes of the real file
                    let mut got = 0usize;
                    let mut last = 0;
                    while got < k {
                        let r = raw6(
                            libc::SYS_read,
                            fd as c_long,
                            (buf as *mut u8).add(got) as c_long,
                            (k - got) as c_long,
                            0,
                            0,
                            0,
                        );
                        if r <= 0 {
                            last = r;
                            break;
                        }
                        got += r as usize;
                    }
                    if got == 0 {
                        return ret_errno(last) as ssize_t;
                    }
                    got as ssize_t
                }
                Step::Interrupted => {
                    event(&|| format!("t{} file{} EINTR at {}", slot_name(), i, pos));
                    set_errno(libc::EINTR);
                    -1
                }
                Step::Fail(kind) => {
                    let e = ERRNOS[kind as usize % ERRNOS.len()];
                    event(&|| format!("t{} file{} errno {} at {}", slot_name(), i, e, pos));
                    set_errno(e);
                    -1
                }
            }
        });
    }
    ret_errno(raw6(libc::SYS_read, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if simulated() && world(|w| w.fds.contains_key(&fd)) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret_errno(raw6(libc::SYS_readv, fd as c_long, iov as c_long, n as c_long, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if simulated() && (clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE) {
        advance(1_000);
        CLOCK_READS.fetch_add(1, SeqCst);
        let t = CLOCK.load(SeqCst);
        (*ts).tv_sec = t.div_euclid(1_000_000_000);
        (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
        return 0;
    }
    ret_errno(raw6(libc::SYS_clock_gettime, clk as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}

unsafe fn sim_random(buf: *mut u8, n: usize) {
    for i in 0..n {
        let c = HASH_CTR.fetch_add(1, SeqCst);
        *buf.add(i) = mix(HASH_SEED.load(SeqCst) ^ mix(c)) as u8;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if simulated() {
        sim_random(buf as *mut u8, n);
        return n as ssize_t;
    }
    ret_errno(raw6(libc::SYS_getrandom, buf as c_long, n as c_long, flags as c_long, 0, 0, 0)) as ssize_t
}

/// libstd's locks wait here: a simulated thread gives way instead of blocking.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if simulated() {
        if n == libc::SYS_getrandom {
            sim_random(a as *mut u8, b as usize);
            return b;
        }
        if n == libc::SYS_futex && SLOT.with(|s| s.get()) != usize::MAX {
            let op = (b as c_int) & 0x7f;
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                let mut expired = false;
                if (*(a as *const AtomicU32)).load(SeqCst) == c as u32 {
                    expired = blocked(d != 0);
                }
                set_errno(if expired { libc::ETIMEDOUT } else { libc::EAGAIN });
                return -1;
            }
            if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
                awake();
            }
        }
    }
    ret_errno(raw6(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- scheduler

struct Sched {
    current: usize,
    alive: Vec<bool>,
    choices: Vec<u8>,
    pos: usize,
    /// waits for a lock; looked at again after the next wake-up call of anyone
    waiting: Vec<bool>,
    /// rounds in which every thread waited again without anyone getting on
    stalled: usize,
    switches: u64,
}

static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static SCHED_CV: Condvar = Condvar::new();
static SCHED_ON: AtomicBool = AtomicBool::new(false);
static PREEMPT: AtomicU32 = AtomicU32::new(0);
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);

/// Picks the next thread; prefers another one if `other`.
fn pick(s: &mut Sched, me: usize, other: bool) -> usize {
    let mut list: Vec<usize> = (0..s.alive.len()).filter(|i| s.alive[*i] && !s.waiting[*i]).collect();
    if list.is_empty() {
        // everyone left waits: each may look again
        s.waiting.fill(false);
        list = (0..s.alive.len()).filter(|i| s.alive[*i]).collect();
        s.stalled += 1;
        if s.stalled > 64 {
            unsafe { libc::_exit(EXIT_DEADLOCK) };
        }
    }
    if list.is_empty() {
        return usize::MAX;
    }
    if other && list.len() > 1 {
        list.retain(|i| *i != me);
    }
    if s.choices.is_empty() {
        // no choices: run each thread to its end
        return if s.alive.get(me) == Some(&true) && !other { me } else { list[0] };
    }
    let c = s.choices[s.pos % s.choices.len()] as usize;
    s.pos += 1;
    list[c % list.len()]
}

fn switch(me: usize, other: bool) -> bool {
    let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
    let s = g.as_mut().unwrap();
    let next = pick(s, me, other);
    if next == me || next == usize::MAX {
        return false;
    }
    s.current = next;
    s.switches += 1;
    SWITCHES.fetch_add(1, SeqCst);
    SCHED_CV.notify_all();
    while g.as_ref().unwrap().current != me {
        g = SCHED_CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    true
}

pub fn yield_point(_what: &'static str) {
    if !SCHED_ON.load(Relaxed) || BYPASS.with(|b| b.get()) {
        return;
    }
    let me = SLOT.with(|s| s.get());
    if me == usize::MAX {
        return;
    }
    bypass(|| {
        SCHED.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap().stalled = 0;
        if switch(me, false) {
            event(&|| format!("switch back to t{}", me));
        }
    });
}

/// The thread would block on a lock held by another one. True: its time to wait has passed.
fn blocked(timed: bool) -> bool {
    if !SCHED_ON.load(Relaxed) {
        return false;
    }
    let me = SLOT.with(|s| s.get());
    bypass(|| {
        let before = {
            let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
            let s = g.as_mut().unwrap();
            s.waiting[me] = true;
            s.stalled
        };
        switch(me, true);
        let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
        let s = g.as_mut().unwrap();
        s.waiting[me] = false;
        timed && s.stalled > before
    })
}

/// Someone released a lock or signalled: whoever waits may look again.
fn awake() {
    if SCHED_ON.load(Relaxed) && !BYPASS.with(|b| b.get()) {
        bypass(|| {
            let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
            let s = g.as_mut().unwrap();
            s.waiting.fill(false);
            s.stalled = 0;
        });
    }
}

/// A thread that gives way or sleeps: simulated time passes, others may run.
fn rest(nanos: u64) {
    advance(nanos.max(1_000));
    yield_point("rest");
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if simulated() && SLOT.with(|s| s.get()) != usize::MAX {
        rest(1_000);
        return 0;
    }
    ret_errno(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn span(ts: *const libc::timespec) -> u64 {
    ((*ts).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec.max(0) as u64)
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if simulated() && SLOT.with(|s| s.get()) != usize::MAX {
        rest(span(ts));
        return 0;
    }
    ret_errno(raw6(libc::SYS_nanosleep, ts as c_long, rem as c_long, 0, 0, 0, 0)) as c_int
}

/// returns the error number itself
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: c_int,
    flags: c_int,
    ts: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if simulated() && SLOT.with(|s| s.get()) != usize::MAX {
        rest(if flags == 0 { span(ts) } else { 1_000 });
        return 0;
    }
    -raw6(libc::SYS_clock_nanosleep, clk as c_long, flags as c_long, ts as c_long, rem as c_long, 0, 0) as c_int
}

/// Runs the bodies as threads, one at a time, switching at yield points by `choices`.
pub fn run_threads<R: Send + 'static>(
    bodies: Vec<Box<dyn FnOnce() -> R + Send>>,
    choices: Vec<u8>,
    preempt: u32,
    alloc_mode: u8,
    stack: usize,
) -> Vec<Result<R, String>> {
    let n = bodies.len();
    *SCHED.lock().unwrap() = Some(Sched {
        current: usize::MAX,
        alive: vec![true; n],
        choices,
        pos: 0,
        waiting: vec![false; n],
        stalled: 0,
        switches: 0,
    });
    let results: Arc<Mutex<Vec<Result<R, String>>>> =
        Arc::new(Mutex::new((0..n).map(|_| Err("thread died".to_string())).collect()));
    ALLOC_MODE.store(alloc_mode, SeqCst);
    PREEMPT.store(if n > 1 { preempt } else { 0 }, SeqCst);
    let mut handles = vec![];
    for (i, body) in bodies.into_iter().enumerate() {
        let results = results.clone();
        let h = std::thread::Builder::new()
            .stack_size(if stack == 0 { 32 << 20 } else { stack << 10 })
            .spawn(move || {
                SLOT.with(|s| s.set(i));
                bypass(|| {
                    let mut g = SCHED.lock().unwrap();
                    while g.as_ref().unwrap().current != i {
                        g = SCHED_CV.wait(g).unwrap();
                    }
                });
                ALLOC_ON.with(|a| a.set(true));
                let r = crate::exec::guard(body);
                ALLOC_ON.with(|a| a.set(false));
                BYPASS.with(|b| b.set(true));
                results.lock().unwrap()[i] = r;
                let mut g = SCHED.lock().unwrap();
                let s = g.as_mut().unwrap();
                s.alive[i] = false;
                s.waiting.fill(false);
                s.stalled = 0;
                let next = pick(s, i, true);
                s.current = next;
                SCHED_CV.notify_all();
            })
            .expect("thread");
        handles.push(h);
    }
    SCHED_ON.store(true, SeqCst);
    {
        let mut g = SCHED.lock().unwrap();
        let s = g.as_mut().unwrap();
        s.current = pick(s, usize::MAX, false).min(n);
        SCHED_CV.notify_all();
    }
    for h in handles {
        let _ = h.join();
    }
    SCHED_ON.store(false, SeqCst);
    ALLOC_MODE.store(0, SeqCst);
    PREEMPT.store(0, SeqCst);
    let r = std::mem::take(&mut *results.lock().unwrap());
    r
}

// ---------------------------------------------------------------- allocator

/// 0 the system's, 1 every growth moves and freed memory is poisoned and never reused,
/// 2 freed memory is handed out again at once, poisoned in between
static ALLOC_MODE: AtomicU8 = AtomicU8::new(0);
pub static MOVED: AtomicU64 = AtomicU64::new(0);
pub static POISONED: AtomicU64 = AtomicU64::new(0);
pub static REUSED: AtomicU64 = AtomicU64::new(0);
/// blocks and bytes the simulated code holds
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static BYTES: AtomicI64 = AtomicI64::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
const ALLOC_BUDGET: usize = 1 << 30;

const CLASSES: usize = 256;
const PER_CLASS: usize = 64;
struct Free {
    lock: AtomicBool,
    n: [usize; CLASSES],
    p: [[*mut u8; PER_CLASS]; CLASSES],
}
static mut FREE: Free = Free {
    lock: AtomicBool::new(false),
    n: [0; CLASSES],
    p: [[std::ptr::null_mut(); PER_CLASS]; CLASSES],
};

pub struct SimAlloc;

fn round(l: Layout) -> Layout {
    if l.align() <= 16 {
        unsafe { Layout::from_size_align_unchecked((l.size().max(1) + 15) & !15, 16) }
    } else {
        l
    }
}

fn class(l: &Layout) -> Option<usize> {
    if l.align() != 16 {
        return None;
    }
    let c = l.size() / 16;
    (c < CLASSES).then_some(c)
}

unsafe fn freelist<R>(f: impl FnOnce(&mut Free) -> R) -> R {
    let fr = &mut *std::ptr::addr_of_mut!(FREE);
    while (*std::ptr::addr_of!(fr.lock)).swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let r = f(fr);
    fr.lock.store(false, Release);
    r
}

fn tick() {
    let n = PREEMPT.load(Relaxed);
    if n == 0 || !SCHED_ON.load(Relaxed) || std::thread::panicking() {
        return;
    }
    let c = ALLOCS.with(|a| {
        a.set(a.get().wrapping_add(1));
        a.get()
    });
    if c % n == 0 {
        yield_point("alloc");
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let l = round(layout);
        if ALLOC_ON.with(|a| a.get()) {
            tick();
            BLOCKS.fetch_add(1, Relaxed);
            BYTES.fetch_add(l.size() as i64, Relaxed);
            let live = LIVE.fetch_add(l.size(), Relaxed);
            if live > ALLOC_BUDGET {
                libc::_exit(EXIT_ALLOC_BUDGET);
            }
            match ALLOC_MODE.load(Relaxed) {
                2 => {
                    if let Some(c) = class(&l) {
                        let p = freelist(|f| {
                            if f.n[c] > 0 {
                                f.n[c] -= 1;
                                f.p[c][f.n[c]]
                            } else {
                                std::ptr::null_mut()
                            }
                        });
                        if !p.is_null() {
                            REUSED.fetch_add(1, Relaxed);
                            return p;
                        }
                    }
                }
                1 => {
                    let p = System.alloc(l);
                    if !p.is_null() {
                        std::ptr::write_bytes(p, 0xA5, l.size());
                    }
                    return p;
                }
                _ => {}
            }
        }
        System.alloc(l)
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let l = round(layout);
        if ALLOC_ON.with(|a| a.get()) {
            BLOCKS.fetch_sub(1, Relaxed);
            BYTES.fetch_sub(l.size() as i64, Relaxed);
            match ALLOC_MODE.load(Relaxed) {
                1 => {
                    // poisoned for good: the process ends with the run
                    std::ptr::write_bytes(ptr, 0xDD, l.size());
                    POISONED.fetch_add(1, Relaxed);
                    return;
                }
                2 => {
                    if let Some(c) = class(&l) {
                        std::ptr::write_bytes(ptr, 0xDD, l.size());
                        POISONED.fetch_add(1, Relaxed);
                        let kept = freelist(|f| {
                            if f.n[c] < PER_CLASS {
                                f.p[c][f.n[c]] = ptr;
                                f.n[c] += 1;
                                true
                            } else {
                                false
                            }
                        });
                        if kept {
                            return;
                        }
                    }
                }
                _ => {
                    LIVE.fetch_sub(l.size().min(LIVE.load(Relaxed)), Relaxed);
                }
            }
        }
        System.dealloc(ptr, l)
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new_size, layout.align());
        if ALLOC_ON.with(|a| a.get()) && ALLOC_MODE.load(Relaxed) != 0 {
            MOVED.fetch_add(1, Relaxed);
        }
        let p = self.alloc(nl);
        if !p.is_null() {
            std::ptr::copy_nonoverlapping(ptr, p, layout.size().min(new_size));
            self.dealloc(ptr, layout);
        }
        p
    }
}
