//! Interposed libc symbols.
//!
//! The symbols defined here take precedence over those of libc for every Rust crate linked
//! into this executable (std and ipmb included). With nothing armed they only forward to the
//! kernel. They provide:
//!  - a virtual monotonic clock (`advance`), to explore the passage of time without waiting,
//!  - injection of EINTR and of delays into the blocking system calls (`arm`).
//!
//! The harness itself uses the raw versions in `sys`, which are never perturbed.

use std::{
    arch::asm,
    cell::Cell,
    sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst},
};

#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

// ---------------------------------------------------------------- virtual clock

static OFFSET_NS: AtomicI64 = AtomicI64::new(0);

/// Let the monotonic clock of this process jump forward.
pub fn advance(d: std::time::Duration) {
    let n = OFFSET_NS.fetch_add(d.as_nanos() as i64, SeqCst);
    assert!(n < i64::MAX / 2, "virtual clock exhausted");
}

pub fn offset() -> std::time::Duration {
    std::time::Duration::from_nanos(OFFSET_NS.load(SeqCst) as u64)
}

/// Real monotonic time, not affected by `advance`.
pub fn real_now() -> std::time::Duration {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        raw6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0);
    }
    std::time::Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32)
}

fn shift(ts: &mut libc::timespec, ns: i64) {
    let total = ts.tv_sec as i128 * 1_000_000_000 + ts.tv_nsec as i128 + ns as i128;
    let total = total.max(0);
    ts.tv_sec = (total / 1_000_000_000).min(i64::MAX as i128) as i64;
    ts.tv_nsec = (total % 1_000_000_000) as i64;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = raw6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0);
    if r == 0 && id == libc::CLOCK_MONOTONIC {
        let off = OFFSET_NS.load(SeqCst);
        if off != 0 {
            shift(&mut *ts, off);
        }
    }
    ret(r) as _
}

// std's futex waits use absolute monotonic deadlines computed from the virtual clock
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && (b & 0x7f) == 9 && (b & libc::FUTEX_CLOCK_REALTIME as i64) == 0 && d != 0 {
        let off = OFFSET_NS.load(SeqCst);
        if off != 0 {
            let mut ts = *(d as *const libc::timespec);
            shift(&mut ts, -off);
            return ret(raw6(n, a, b, c, &ts as *const _ as i64, e, f));
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- perturbation

/// What happens on an interposed call.
/// 0 none, 1 EINTR, 2 yield, 3 short sleep, 4 longer sleep
static ARMED: AtomicBool = AtomicBool::new(false);
static SEED: AtomicU64 = AtomicU64::new(0);
static EINTR_PM: AtomicU64 = AtomicU64::new(0);
static DELAY_PM: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);
static EINTRS: AtomicUsize = AtomicUsize::new(0);
static DELAYS: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static STREAK: Cell<u32> = const { Cell::new(0) };
    static LOCAL: Cell<u64> = const { Cell::new(0) };
}

/// Perturb calls from now on: each call fails with EINTR with probability eintr/1000 (never more
/// than 4 times in a row on a thread) and is delayed with probability delay/1000.
pub fn arm(seed: u64, eintr: u64, delay: u64) {
    SEED.store(seed, SeqCst);
    EINTR_PM.store(eintr, SeqCst);
    DELAY_PM.store(delay, SeqCst);
    CALLS.store(0, SeqCst);
    EINTRS.store(0, SeqCst);
    DELAYS.store(0, SeqCst);
    ARMED.store(true, SeqCst);
}

pub fn armed() -> bool {
    ARMED.load(SeqCst)
}

/// Returns the number of calls seen, EINTRs and delays injected since `arm`.
pub fn disarm() -> (usize, usize, usize) {
    ARMED.store(false, SeqCst);
    (CALLS.load(SeqCst), EINTRS.load(SeqCst), DELAYS.load(SeqCst))
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Returns true if the call shall fail with EINTR
fn perturb(may_eintr: bool) -> bool {
    if !ARMED.load(SeqCst) {
        return false;
    }
    let k = CALLS.fetch_add(1, SeqCst) as u64;
    let n = LOCAL.with(|l| {
        l.set(l.get() + 1);
        l.get()
    });
    let h = mix(SEED.load(SeqCst) ^ mix(k ^ (n << 32)));
    if h % 1000 < DELAY_PM.load(SeqCst) {
        DELAYS.fetch_add(1, SeqCst);
        let ns = match (h >> 20) % 8 {
            0..=2 => 0,
            3..=5 => 20_000,
            6 => 200_000,
            _ => 1_500_000,
        };
        unsafe {
            if ns == 0 {
                raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
            } else {
                let ts = libc::timespec { tv_sec: 0, tv_nsec: ns };
                raw6(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0, 0, 0, 0);
            }
        }
    }
    if may_eintr && (h >> 40) % 1000 < EINTR_PM.load(SeqCst) {
        let streak = STREAK.with(|s| {
            s.set(s.get() + 1);
            s.get()
        });
        if streak <= 4 {
            EINTRS.fetch_add(1, SeqCst);
            unsafe { *libc::__errno_location() = libc::EINTR };
            return true;
        }
    }
    STREAK.with(|s| s.set(0));
    false
}

fn perturb_after() {
    let streak = STREAK.with(|s| s.get());
    perturb(false);
    STREAK.with(|s| s.set(streak));
}

unsafe fn would_never_block(fd: i32, flags: i32) -> bool {
    flags & libc::MSG_DONTWAIT != 0
        || raw6(libc::SYS_fcntl, fd as i64, libc::F_GETFL as i64, 0, 0, 0, 0) & libc::O_NONBLOCK as i64 != 0
}

// ---------------------------------------------------------------- refusals

/// System calls which may be refused for lack of a resource
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call {
    Memfd,
    Truncate,
    Mmap,
    Dup,
    Epoll,
    Eventfd,
    Watch,
    Socket,
    Connect,
    Pair,
    Bind,
    Listen,
    Send,
    Accept,
    Thread,
}

impl Call {
    fn errors(self) -> &'static [i32] {
        use libc::*;
        match self {
            Call::Memfd => &[EMFILE, ENFILE, ENOMEM],
            Call::Truncate => &[ENOSPC, ENOMEM, EFBIG],
            Call::Mmap => &[ENOMEM, ENFILE],
            Call::Dup => &[EMFILE],
            Call::Epoll | Call::Eventfd => &[EMFILE, ENFILE, ENOMEM],
            Call::Watch => &[ENOMEM, ENOSPC],
            Call::Socket | Call::Pair => &[EMFILE, ENFILE, ENOMEM, ENOBUFS],
            Call::Connect | Call::Bind => &[ENOMEM],
            Call::Listen => &[ENOBUFS],
            Call::Send => &[ENOBUFS, ENOMEM, ETOOMANYREFS],
            Call::Accept => &[EMFILE, ENFILE, ENOMEM, ENOBUFS],
            Call::Thread => &[EAGAIN],
        }
    }
}

/// The calls of this kind numbered skip..skip+count are refused
#[derive(Clone, Copy)]
pub struct Refusal {
    pub call: Call,
    pub skip: u32,
    pub count: u32,
    pub error: u8,
}

struct Plan {
    refusal: Cell<Option<Refusal>>,
    seen: Cell<u32>,
}

/// Threads which are told apart by their names
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Unknown,
    Other,
    /// Routes messages
    Bus,
    /// Receives messages
    Reader,
}

thread_local! {
    static REFUSE: Plan = const { Plan { refusal: Cell::new(None), seen: Cell::new(0) } };
    static KIND: Cell<Kind> = const { Cell::new(Kind::Unknown) };
}
static OTHERS_REFUSE: AtomicBool = AtomicBool::new(false);
static OTHERS_PLAN: std::sync::Mutex<(Option<(Kind, Refusal)>, u32)> = std::sync::Mutex::new((None, 0));

/// Refuse calls of this thread; returns how many were refused since the last plan
pub fn refuse(r: Option<Refusal>) -> u32 {
    REFUSE.with(|p| {
        let n = hits(p.refusal.get(), p.seen.get());
        p.refusal.set(r);
        p.seen.set(0);
        n
    })
}

/// Refuse calls of the other threads of this kind
pub fn refuse_others(r: Option<(Kind, Refusal)>) -> u32 {
    OTHERS_REFUSE.store(r.is_some(), SeqCst);
    let mut p = OTHERS_PLAN.lock().unwrap();
    let n = hits(p.0.map(|x| x.1), p.1);
    *p = (r, 0);
    n
}

fn hits(r: Option<Refusal>, seen: u32) -> u32 {
    r.map_or(0, |r| seen.saturating_sub(r.skip).min(r.count))
}

fn kind() -> Kind {
    KIND.with(|k| {
        if k.get() == Kind::Unknown {
            let mut name = [0u8; 16];
            unsafe { libc::prctl(libc::PR_GET_NAME, name.as_mut_ptr()) };
            k.set(if name.starts_with(b"ipmb bus") {
                Kind::Bus
            } else if name.starts_with(b"reader") {
                Kind::Reader
            } else {
                Kind::Other
            });
        }
        k.get()
    })
}

fn refused_error(call: Call) -> Option<i32> {
    let pick = |r: Refusal, seen: u32| {
        let e = call.errors();
        (seen >= r.skip && seen - r.skip < r.count).then(|| e[r.error as usize % e.len()])
    };
    let own = REFUSE.with(|p| {
        let r = p.refusal.get().filter(|r| r.call == call)?;
        let seen = p.seen.get();
        p.seen.set(seen + 1);
        pick(r, seen)
    });
    if own.is_some() || !OTHERS_REFUSE.load(SeqCst) {
        return own;
    }
    let kind = kind();
    let mut p = OTHERS_PLAN.lock().unwrap();
    let (_, r) = p.0.filter(|(k, r)| *k == kind && r.call == call)?;
    let seen = p.1;
    p.1 += 1;
    pick(r, seen)
}

fn refused(call: Call) -> bool {
    match refused_error(call) {
        Some(e) => {
            unsafe { *libc::__errno_location() = e };
            true
        }
        None => false,
    }
}

macro_rules! refusable {
    ($name:ident, $nr:expr, $call:expr, ($($a:ident : $t:ty),*)) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> i32 {
            if refused($call) {
                return -1;
            }
            ret(interpose!(@call $nr, $($a),*)) as i32
        }
    };
}

/// `$eintr` tells whether the call may be interrupted: the kernel only does so to calls that may
/// block
macro_rules! interpose {
    ($name:ident, $nr:expr, $eintr:expr, ($($a:ident : $t:ty),*) -> $r:ty) => {
        interpose!($name, $nr, $eintr, false, ($($a : $t),*) -> $r);
    };
    ($name:ident, $nr:expr, $eintr:expr, $refused:expr, ($($a:ident : $t:ty),*) -> $r:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            if $refused {
                return -1;
            }
            if ARMED.load(SeqCst) {
                let may = $eintr;
                if perturb(may) {
                    return -1;
                }
            }
            let r = interpose!(@call $nr, $($a),*);
            if ARMED.load(SeqCst) {
                // what the caller does next may be late
                perturb_after();
            }
            ret(r) as $r
        }
    };
    (@call $nr:expr, $a:ident) => { raw6($nr, $a as i64, 0, 0, 0, 0, 0) };
    (@call $nr:expr, $a:ident, $b:ident) => { raw6($nr, $a as i64, $b as i64, 0, 0, 0, 0) };
    (@call $nr:expr, $a:ident, $b:ident, $c:ident) => { raw6($nr, $a as i64, $b as i64, $c as i64, 0, 0, 0) };
    (@call $nr:expr, $a:ident, $b:ident, $c:ident, $d:ident) => { raw6($nr, $a as i64, $b as i64, $c as i64, $d as i64, 0, 0) };
}

type P<T> = *mut T;
interpose!(sendmsg, libc::SYS_sendmsg, !would_never_block(fd, flags), refused(Call::Send), (fd: i32, hdr: *const libc::msghdr, flags: i32) -> isize);
interpose!(recvmsg, libc::SYS_recvmsg, !would_never_block(fd, flags), (fd: i32, hdr: P<libc::msghdr>, flags: i32) -> isize);
interpose!(accept4, libc::SYS_accept4, !would_never_block(fd, 0), refused(Call::Accept), (fd: i32, addr: P<libc::sockaddr>, len: P<libc::socklen_t>, flags: i32) -> i32);
interpose!(accept, libc::SYS_accept, !would_never_block(fd, 0), (fd: i32, addr: P<libc::sockaddr>, len: P<libc::socklen_t>) -> i32);
// only interrupted when there is no event
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(fd: i32, ev: P<libc::epoll_event>, n: i32, timeout: i32) -> i32 {
    if ARMED.load(SeqCst) {
        if timeout == 0 {
            perturb(false);
        } else {
            // the events of a first look have to be returned, they may be edge-triggered
            let r = raw6(libc::SYS_epoll_wait, fd as i64, ev as i64, n as i64, 0, 0, 0);
            let intr = perturb(r == 0);
            if r != 0 {
                return ret(r) as i32;
            }
            if intr {
                return -1;
            }
        }
    }
    ret(raw6(libc::SYS_epoll_wait, fd as i64, ev as i64, n as i64, timeout as i64, 0, 0)) as i32
}
interpose!(
    poll,
    libc::SYS_poll,
    {
        let r = if timeout == 0 { 1 } else { raw6(libc::SYS_poll, fds as i64, n as i64, 0, 0, 0, 0) };
        r == 0
    },
    (fds: P<libc::pollfd>, n: libc::nfds_t, timeout: i32) -> i32
);
interpose!(connect, libc::SYS_connect, false, refused(Call::Connect), (fd: i32, addr: *const libc::sockaddr, len: libc::socklen_t) -> i32);
interpose!(bind, libc::SYS_bind, false, refused(Call::Bind), (fd: i32, addr: *const libc::sockaddr, len: libc::socklen_t) -> i32);
// never interrupted here, only delayed
interpose!(munmap, libc::SYS_munmap, false, (addr: P<libc::c_void>, len: usize) -> i32);
interpose!(close, libc::SYS_close, false, (fd: i32) -> i32);
interpose!(read, libc::SYS_read, false, (fd: i32, buf: P<libc::c_void>, len: usize) -> isize);
interpose!(write, libc::SYS_write, false, (fd: i32, buf: *const libc::c_void, len: usize) -> isize);
interpose!(fstat, libc::SYS_fstat, false, (fd: i32, st: P<libc::stat>) -> i32);
interpose!(ftruncate, libc::SYS_ftruncate, false, refused(Call::Truncate), (fd: i32, len: libc::off_t) -> i32);
#[no_mangle]
pub unsafe extern "C" fn mmap(addr: P<libc::c_void>, len: usize, prot: i32, flags: i32, fd: i32, off: libc::off_t) -> P<libc::c_void> {
    perturb(false);
    // allocators map anonymous memory
    if fd >= 0 && refused(Call::Mmap) {
        return libc::MAP_FAILED;
    }
    ret(raw6(libc::SYS_mmap, addr as i64, len as i64, prot as i64, flags as i64, fd as i64, off)) as usize as P<libc::c_void>
}
interpose!(listen, libc::SYS_listen, false, refused(Call::Listen), (fd: i32, n: i32) -> i32);

refusable!(memfd_create, libc::SYS_memfd_create, Call::Memfd, (name: *const libc::c_char, flags: u32));
refusable!(epoll_create1, libc::SYS_epoll_create1, Call::Epoll, (flags: i32));
refusable!(eventfd, libc::SYS_eventfd2, Call::Eventfd, (n: u32, flags: i32));
refusable!(socket, libc::SYS_socket, Call::Socket, (domain: i32, kind: i32, protocol: i32));
refusable!(socketpair, libc::SYS_socketpair, Call::Pair, (domain: i32, kind: i32, protocol: i32, fds: P<i32>));

#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(fd: i32, op: i32, other: i32, ev: P<libc::epoll_event>) -> i32 {
    if op == libc::EPOLL_CTL_ADD && refused(Call::Watch) {
        return -1;
    }
    ret(raw6(libc::SYS_epoll_ctl, fd as i64, op as i64, other as i64, ev as i64, 0, 0)) as i32
}

// the third argument is passed the same way as a variable one
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if (cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC) && refused(Call::Dup) {
        return -1;
    }
    ret(raw6(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as i32
}

type Start = extern "C" fn(P<libc::c_void>) -> P<libc::c_void>;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: P<libc::pthread_t>, attr: *const libc::pthread_attr_t, f: Start, arg: P<libc::c_void>) -> i32 {
    if let Some(e) = refused_error(Call::Thread) {
        return e;
    }
    static REAL: AtomicUsize = AtomicUsize::new(0);
    let mut real = REAL.load(SeqCst);
    if real == 0 {
        real = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize;
        assert_ne!(real, 0);
        REAL.store(real, SeqCst);
    }
    let real: unsafe extern "C" fn(P<libc::pthread_t>, *const libc::pthread_attr_t, Start, P<libc::c_void>) -> i32 = std::mem::transmute(real);
    real(t, attr, f, arg)
}

// ---------------------------------------------------------------- sleeping

static FAST_SLEEP: AtomicBool = AtomicBool::new(false);

/// Let sleeps of half a second or more end forty times earlier
pub fn fast_sleep(on: bool) {
    FAST_SLEEP.store(on, SeqCst);
}

unsafe fn shorter(ts: *const libc::timespec) -> Option<libc::timespec> {
    if !FAST_SLEEP.load(SeqCst) || ts.is_null() {
        return None;
    }
    let ns = (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128;
    (ns >= 500_000_000).then(|| {
        let ns = ns / 40;
        libc::timespec { tv_sec: (ns / 1_000_000_000) as i64, tv_nsec: (ns % 1_000_000_000) as i64 }
    })
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: P<libc::timespec>) -> i32 {
    let s = shorter(ts);
    let ts = s.as_ref().map_or(ts, |s| s as *const _);
    ret(raw6(libc::SYS_nanosleep, ts as i64, rem as i64, 0, 0, 0, 0)) as i32
}

/// Returns an error number
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: i32, ts: *const libc::timespec, rem: P<libc::timespec>) -> i32 {
    let mut t = if ts.is_null() { return libc::EFAULT } else { *ts };
    if flags & libc::TIMER_ABSTIME == 0 {
        if let Some(s) = shorter(ts) {
            t = s;
        }
    } else if id == libc::CLOCK_MONOTONIC {
        shift(&mut t, -OFFSET_NS.load(SeqCst));
    }
    -raw6(libc::SYS_clock_nanosleep, id as i64, flags as i64, &t as *const _ as i64, rem as i64, 0, 0) as i32
}
