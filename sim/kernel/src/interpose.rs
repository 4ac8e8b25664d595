//! The libc seam. These symbols take precedence over libc's because they are defined in the
//! executable. Each one forwards to the kernel when the caller is a simulated thread and the
//! object (path, descriptor, clock) is simulated, and performs the plain system call otherwise.
use crate::choice::Kind;
use crate::raw::*;
use crate::sched::*;
use crate::{fs, net};
use libc::*;
use std::ffi::CStr;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

unsafe fn real(name: &'static [u8], slot: &AtomicUsize) -> usize {
    let v = slot.load(Ordering::Relaxed);
    if v != 0 {
        return v;
    }
    let p = dlsym(RTLD_NEXT, name.as_ptr() as *const c_char) as usize;
    if p == 0 {
        exit_now(87);
    }
    slot.store(p, Ordering::Relaxed);
    p
}
macro_rules! real {
    ($n:literal, $t:ty) => {{
        static S: AtomicUsize = AtomicUsize::new(0);
        std::mem::transmute::<usize, $t>(real(concat!($n, "\0").as_bytes(), &S))
    }};
}
fn ret<T: TryInto<i64>>(r: Result<T, i32>) -> i64 {
    match r {
        Ok(v) => v.try_into().ok().unwrap_or(0),
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

// ---------------------------------------------------------------- threads
struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: usize,
    word: *const AtomicU32,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    let Start { f, arg, tid, word } = *s;
    thread_main_enter(tid, word);
    let r = f(arg);
    thread_main_exit();
    r
}
type PCreate = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let rc = real!("pthread_create", PCreate);
    if !in_sim() {
        return rc(t, attr, f, arg);
    }
    let tid = register_thread();
    let word: *const AtomicU32 = &*sim().threads[tid].word;
    let s = Box::into_raw(Box::new(Start { f, arg, tid, word }));
    let r = rc(t, attr, trampoline, s as *mut c_void);
    if r != 0 {
        exit_now(88);
    }
    sim().join_map.push((*t as usize, tid));
    ev(|| format!("spawn T{tid} {}", sim().threads[tid].name));
    mix(tid as u64);
    point(P::Sys);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    let rj = real!("pthread_join", unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int);
    if in_sim() {
        if let Some(i) = sim().join_map.iter().rposition(|(p, _)| *p == t as usize) {
            let tid = sim().join_map[i].1;
            while !thread_over(tid) {
                block(What::Join(tid), None);
            }
            if sim().threads[tid].state == TState::Dead {
                // a killed process: cannot be joined by anybody who is alive
                block(What::Join(tid), None);
            }
            sim().join_map.remove(i);
        }
    }
    rj(t, out)
}
#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(d: unsafe extern "C" fn(*mut u8), o: *mut u8, dso: *mut u8) -> c_int {
    if in_sim() && cur() != 0 {
        sim().threads[cur()].dtors.push((d, o));
        return 0;
    }
    let r = real!("__cxa_thread_atexit_impl", unsafe extern "C" fn(unsafe extern "C" fn(*mut u8), *mut u8, *mut u8) -> c_int);
    r(d, o, dso)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sim() {
        // a yield is a request to run somebody else
        yield_now();
        return 0;
    }
    sys(SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if in_sim() {
        return sim().procs[cur_proc()].pid as pid_t;
    }
    sys(SYS_getpid, 0, 0, 0, 0, 0, 0) as pid_t
}

// ---------------------------------------------------------------- futex, time, randomness
unsafe fn futex(uaddr: usize, op: i32, val: u32, ts: *const timespec) -> i64 {
    let cmd = op & 127;
    match cmd {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            point(P::Sys);
            let w = &*(uaddr as *const AtomicU32);
            if w.load(Ordering::SeqCst) != val {
                set_errno(EAGAIN);
                return -1;
            }
            let sp = sim().cfg.spur_pm;
            if sp > 0 && !sim().faults_off && sim().ch.choose(Kind::Spur, |r| (r.below(1000) < sp) as u64) != 0 {
                fault("futex_spurious_wake");
                set_errno(EINTR);
                return -1;
            }
            let dl = if ts.is_null() {
                None
            } else {
                let t = (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128;
                let abs = if cmd == FUTEX_WAIT {
                    sim().now as i128 + t
                } else if op & FUTEX_CLOCK_REALTIME != 0 {
                    t - sim().rt_off as i128 - sim().procs[cur_proc()].skew as i128
                } else {
                    t
                };
                Some(abs.clamp(0, (INF - 1) as i128) as u64)
            };
            if let Some(d) = dl {
                if d <= sim().now {
                    set_errno(ETIMEDOUT);
                    return -1;
                }
            }
            match block(What::Futex(uaddr), dl) {
                Wake::Timeout => {
                    set_errno(ETIMEDOUT);
                    -1
                }
                Wake::Intr => {
                    set_errno(EINTR);
                    -1
                }
                _ => 0,
            }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => {
            let n = wake_what(What::Futex(uaddr), val as i32 as usize & 0x7fff_ffff) as i64;
            point(P::Sys);
            n
        }
        _ => {
            eprintln!("lksim: futex op {op} not modelled");
            exit_now(89)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if in_sim() {
        match n {
            SYS_futex => return futex(a, b as i32, c as u32, d as *const timespec),
            SYS_getrandom => return getrandom(a as *mut c_void, b, c as c_uint) as c_long,
            SYS_gettid => return (sim().procs[cur_proc()].pid as usize + cur()) as c_long,
            SYS_getpid => return getpid() as c_long,
            SYS_statx => {
                return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long;
            }
            SYS_clock_gettime => return clock_gettime(a as c_int, b as *mut timespec) as c_long,
            SYS_copy_file_range | SYS_splice if sfd(a as c_int) || sfd(c as c_int) => return ret::<i64>(Err(ENOSYS)) as c_long,
            SYS_sendfile if sfd(a as c_int) || sfd(b as c_int) => return ret::<i64>(Err(EINVAL)) as c_long,
            _ => {}
        }
    }
    sys(n, a, b, c, d, e, f) as c_long
}
fn put_ts(ts: *mut timespec, ns: i128) {
    unsafe {
        (*ts).tv_sec = ns.div_euclid(1_000_000_000) as i64;
        (*ts).tv_nsec = ns.rem_euclid(1_000_000_000) as i64;
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if !in_sim() {
        return sys(SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0) as c_int;
    }
    point(P::Clock);
    let s = sim();
    s.now += s.cfg.tick_ns;
    let me = cur();
    let t = &mut s.threads[me];
    if t.points > t.poll_at + 40 {
        t.polls = 0;
    }
    t.poll_at = t.points;
    t.polls += 1;
    let polls = t.polls;
    if polls > 40 && !s.frozen && can_block() {
        // somebody polls the clock: let the others run, or else time pass faster and faster
        let fast = 20_000u64 << ((polls - 40) / 16).min(12);
        let other = |polling: bool| s.threads.iter().enumerate().any(|(i, t)| i != me && matches!(t.state, TState::Runnable) && (t.polls > 40) == polling);
        if other(false) {
            let d = s.now + 20_000;
            block(What::Stall, Some(d));
        } else if other(true) {
            let d = s.now + fast;
            block(What::Stall, Some(d));
        } else if s.next_timer > s.now {
            s.now = s.next_timer.min(s.now + fast);
        }
    }
    let s = sim();
    match id {
        CLOCK_REALTIME | CLOCK_REALTIME_COARSE => {
            if s.cfg.jump_den > 0 && cur() != 0 && !s.faults_off {
                let (den, kinds) = (s.cfg.jump_den, s.cfg.jump_kinds.max(1));
                let v = s.ch.choose(Kind::Clock, |r| if r.below(den) == 0 { 1 + r.below(kinds) } else { 0 });
                const S: i64 = 1_000_000_000;
                let d = match v {
                    0 => 0,
                    1 => -1_000,
                    2 => -S,
                    3 => S,
                    4 => -50_000,
                    5 => 3600 * S,
                    6 => -3600 * S,
                    7 => -5_000_000,
                    _ => 10 * 86400 * S,
                };
                if v > 0 {
                    s.rt_max = s.rt_max.max(rt_ns());
                    s.rt_off += d;
                    if d > 0 {
                        fault("clock_jump_forward");
                    } else {
                        fault("clock_jump_back");
                    }
                }
            }
            put_ts(ts, rt_ns() + s.procs[cur_proc()].skew as i128);
        }
        _ => {
            let now = s.now;
            let t = &mut s.threads[cur()];
            t.past_due += (now >= t.due) as u32;
            put_ts(ts, now as i128)
        }
    }
    0
}
unsafe fn sleep_ns(ns: u64) {
    let dl = sim().now + ns.max(1);
    loop {
        match block(What::Sleep, Some(dl)) {
            Wake::Timeout => return,
            _ if sim().now >= dl => return,
            _ => {}
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !in_sim() {
        return sys(SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0) as c_int;
    }
    sleep_ns((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if !in_sim() {
        let r = sys6(SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0);
        return -r as c_int;
    }
    let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    if flags & TIMER_ABSTIME != 0 {
        sleep_ns(t.saturating_sub(sim().now));
    } else {
        sleep_ns(t);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if !in_sim() {
        return sys(SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0) as ssize_t;
    }
    let s = sim();
    let mut n = len;
    if (s.cfg.rand_fail_pm > 0 || s.cfg.rand_short_pm > 0) && len > 1 && !s.faults_off {
        let (f, sh) = (s.cfg.rand_fail_pm, s.cfg.rand_short_pm);
        let v = s.ch.choose(Kind::Rand, |r| {
            let x = r.below(1000);
            if x < f {
                1 + r.below(2)
            } else if x < f + sh {
                3 + r.below(len as u64 - 1)
            } else {
                0
            }
        });
        match v {
            0 => {}
            1 => {
                fault("getrandom_eintr");
                set_errno(EINTR);
                return -1;
            }
            2 => {
                fault("getrandom_eio");
                set_errno(EIO);
                return -1;
            }
            k => {
                fault("getrandom_short");
                n = (k as usize - 2).min(len);
            }
        }
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    for x in b {
        *x = s.rand_state.next() as u8;
        if let Some((at, mask)) = s.rand_flip {
            if at == s.rand_total {
                *x ^= mask;
            }
        }
        s.rand_total += 1;
    }
    count("getrandom_calls");
    n as ssize_t
}

// ---------------------------------------------------------------- files
unsafe fn cpath<'a>(p: *const c_char) -> Option<&'a str> {
    if !in_sim() {
        return None;
    }
    let c = CStr::from_ptr(p);
    if fs::is_sim_path(c.to_bytes()) {
        c.to_str().ok()
    } else {
        None
    }
}
fn sfd(fd: c_int) -> bool {
    in_sim() && fd >= fs::FD_BASE && fs::owns(fd)
}
fn nfd(fd: c_int) -> bool {
    in_sim() && (net::FD_BASE..fs::FD_BASE).contains(&fd) && net::owns(fd)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match cpath(p) {
        Some(s) => ret(fs::open(s, flags)) as c_int,
        None => sys(SYS_openat, AT_FDCWD as isize as usize, p as usize, flags as usize, mode as usize, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match cpath(p) {
        Some(s) => ret(fs::open(s, flags)) as c_int,
        None => sys(SYS_openat, d as isize as usize, p as usize, flags as usize, mode as usize, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sfd(fd) {
        point(P::Fs);
        fs::close(fd);
        return 0;
    }
    if nfd(fd) {
        net::close(fd);
        return 0;
    }
    if in_sim() && fd >= net::FD_BASE {
        set_errno(EBADF);
        return -1;
    }
    sys(SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int
}
unsafe fn sl<'a>(b: *mut c_void, n: size_t) -> &'a mut [u8] {
    std::slice::from_raw_parts_mut(b as *mut u8, n)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if sfd(fd) {
        return ret(fs::read(fd, sl(b, n), None)) as ssize_t;
    }
    sys(SYS_read, fd as usize, b as usize, n, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if sfd(fd) {
        return ret(fs::write(fd, sl(b as *mut c_void, n), None)) as ssize_t;
    }
    if in_sim() && fd == 2 && !(sim().trace_on && sim().debug) {
        return n as ssize_t;
    }
    sys(SYS_write, fd as usize, b as usize, n, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if sfd(fd) {
        return ret(fs::read(fd, sl(b, n), Some(off as u64))) as ssize_t;
    }
    sys(SYS_pread64, fd as usize, b as usize, n, off as usize, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if sfd(fd) {
        return ret(fs::write(fd, sl(b as *mut c_void, n), Some(off as u64))) as ssize_t;
    }
    sys(SYS_pwrite64, fd as usize, b as usize, n, off as usize, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if sfd(fd) {
        for i in 0..n as usize {
            let io = &*v.add(i);
            if io.iov_len > 0 {
                return read(fd, io.iov_base, io.iov_len);
            }
        }
        return 0;
    }
    sys(SYS_readv, fd as usize, v as usize, n as usize, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if sfd(fd) {
        let mut all = vec![];
        for i in 0..n as usize {
            let io = &*v.add(i);
            all.extend_from_slice(sl(io.iov_base, io.iov_len));
        }
        return ret(fs::write(fd, &all, None)) as ssize_t;
    }
    sys(SYS_writev, fd as usize, v as usize, n as usize, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if sfd(fd) {
        return ret(fs::lseek(fd, off, wh));
    }
    sys(SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    lseek64(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sfd(fd) {
        return ret(fs::fsync(fd)) as c_int;
    }
    sys(SYS_fsync, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sfd(fd) {
        return ret(fs::fsync(fd)) as c_int;
    }
    sys(SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if sfd(fd) {
        return ret(fs::ftruncate(fd, len as u64)) as c_int;
    }
    sys(SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
/// the kernel may always refuse these; their callers fall back to read and write
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(i: c_int, io: *mut off64_t, o: c_int, oo: *mut off64_t, n: size_t, fl: c_uint) -> ssize_t {
    if sfd(i) || sfd(o) {
        return ret::<i64>(Err(ENOSYS)) as ssize_t;
    }
    sys6(SYS_copy_file_range, i as usize, io as usize, o as usize, oo as usize, n, fl as usize) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn splice(i: c_int, io: *mut off64_t, o: c_int, oo: *mut off64_t, n: size_t, fl: c_uint) -> ssize_t {
    if sfd(i) || sfd(o) {
        return ret::<i64>(Err(EINVAL)) as ssize_t;
    }
    sys6(SYS_splice, i as usize, io as usize, o as usize, oo as usize, n, fl as usize) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if sfd(i) || sfd(o) {
        return ret::<i64>(Err(EINVAL)) as ssize_t;
    }
    sys6(SYS_sendfile, o as usize, i as usize, off as usize, n, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    sendfile64(o, i, off, n)
}
/// file times, advice and preallocation have no effect on what the simulated disk holds
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const timespec) -> c_int {
    if sfd(fd) {
        return 0;
    }
    sys6(SYS_utimensat, fd as usize, 0, ts as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(fd: c_int, a: off64_t, b: off64_t, c: c_int) -> c_int {
    if sfd(fd) {
        return 0;
    }
    sys6(SYS_fadvise64, fd as usize, a as usize, b as usize, c as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, a: off64_t, b: off64_t, c: c_uint) -> c_int {
    if sfd(fd) {
        return ret(fs::fsync(fd)) as c_int;
    }
    sys6(SYS_sync_file_range, fd as usize, a as usize, b as usize, c as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if sfd(fd) {
        return ret(fs::flock(fd, op)) as c_int;
    }
    sys(SYS_flock, fd as usize, op as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if sfd(fd) {
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => ret(fs::dup(fd)) as c_int,
            F_GETFL => sim().fs.open[&fd].flags,
            F_GETFD => FD_CLOEXEC,
            F_SETFD | F_SETFL => 0,
            _ => {
                set_errno(EINVAL);
                -1
            }
        };
    }
    if nfd(fd) {
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => net::dup(fd),
            F_GETFL => net::with(fd, |s| if s.nonblock { O_NONBLOCK | O_RDWR } else { O_RDWR }),
            F_SETFL => {
                net::with(fd, |s| s.nonblock = arg as i32 & O_NONBLOCK != 0);
                0
            }
            F_GETFD => FD_CLOEXEC,
            F_SETFD => 0,
            _ => {
                set_errno(EINVAL);
                -1
            }
        };
    }
    sys(SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    if nfd(fd) && req == FIONBIO {
        let v = *(arg as *const c_int) != 0;
        net::with(fd, |s| s.nonblock = v);
        return 0;
    }
    if sfd(fd) {
        set_errno(ENOTTY);
        return -1;
    }
    sys(SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0) as c_int
}
type St = (u64, bool, u64, u32, i128);
unsafe fn put_stat(st: *mut stat64, s: St) {
    std::ptr::write_bytes(st, 0, 1);
    (*st).st_ino = s.0;
    (*st).st_mode = if s.1 { S_IFDIR | 0o755 } else { S_IFREG | 0o644 };
    (*st).st_size = s.2 as i64;
    (*st).st_nlink = s.3 as u64;
    (*st).st_mtime = (s.4 / 1_000_000_000) as i64;
    (*st).st_mtime_nsec = (s.4 % 1_000_000_000) as i64;
    (*st).st_dev = 77;
    (*st).st_blksize = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    if sfd(fd) {
        return match fs::stat_fd(fd) {
            Ok(s) => {
                put_stat(st, s);
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    sys(SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut stat64) -> c_int {
    fstat64(fd, st)
}
unsafe fn stat_common(p: *const c_char, st: *mut stat64, flag: usize) -> c_int {
    if let Some(s) = cpath(p) {
        return match fs::stat_path(s) {
            Ok(s) => {
                put_stat(st, s);
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    sys(SYS_newfstatat, AT_FDCWD as isize as usize, p as usize, st as usize, flag, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut stat64) -> c_int {
    stat_common(p, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut stat64) -> c_int {
    stat_common(p, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut stat64) -> c_int {
    stat_common(p, st, AT_SYMLINK_NOFOLLOW as usize)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut stat64) -> c_int {
    stat_common(p, st, AT_SYMLINK_NOFOLLOW as usize)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if in_sim() {
        let r = if sfd(d) && !p.is_null() && *p == 0 {
            Some(fs::stat_fd(d))
        } else if !p.is_null() {
            cpath(p).map(fs::stat_path)
        } else {
            None
        };
        if let Some(r) = r {
            return match r {
                Ok(s) => {
                    std::ptr::write_bytes(out, 0, 1);
                    (*out).stx_mask = 0x7ff;
                    (*out).stx_ino = s.0;
                    (*out).stx_mode = (if s.1 { S_IFDIR | 0o755 } else { S_IFREG | 0o644 }) as u16;
                    (*out).stx_size = s.2;
                    (*out).stx_nlink = s.3;
                    (*out).stx_blksize = 4096;
                    (*out).stx_mtime.tv_sec = (s.4 / 1_000_000_000) as i64;
                    (*out).stx_mtime.tv_nsec = (s.4 % 1_000_000_000) as u32;
                    0
                }
                Err(e) => {
                    set_errno(e);
                    -1
                }
            };
        }
    }
    sys(SYS_statx, d as isize as usize, p as usize, flags as usize, mask as usize, out as usize, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if let Some(s) = cpath(p) {
        return ret(fs::stat_path(s).map(|_| 0)) as c_int;
    }
    sys(SYS_access, p as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if let Some(s) = cpath(p) {
        return ret(fs::mkdir(s)) as c_int;
    }
    sys(SYS_mkdir, p as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    if cpath(p).is_some() {
        return 0;
    }
    sys(SYS_chmod, p as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if sfd(fd) {
        return 0;
    }
    sys(SYS_fchmod, fd as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(x), Some(y)) = (cpath(a), cpath(b)) {
        return ret(fs::rename(x, y)) as c_int;
    }
    sys(SYS_rename, a as usize, b as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(x), Some(y)) = (cpath(a), cpath(b)) {
        return ret(fs::link(x, y)) as c_int;
    }
    sys(SYS_link, a as usize, b as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(_d: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_int) -> c_int {
    if let (Some(x), Some(y)) = (cpath(a), cpath(b)) {
        return ret(fs::link(x, y)) as c_int;
    }
    sys(SYS_linkat, _d as isize as usize, a as usize, d2 as isize as usize, b as usize, fl as usize, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if let Some(s) = cpath(p) {
        return ret(fs::unlink(s, false)) as c_int;
    }
    sys(SYS_unlink, p as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if let Some(s) = cpath(p) {
        return ret(fs::unlink(s, true)) as c_int;
    }
    sys(SYS_rmdir, p as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(s) = cpath(p) {
        return match fs::stat_path(s) {
            Ok(_) => {
                let n = fs::normalize(s);
                let o = if out.is_null() { malloc(n.len() + 1) as *mut c_char } else { out };
                std::ptr::copy_nonoverlapping(n.as_ptr() as *const c_char, o, n.len());
                *o.add(n.len()) = 0;
                o
            }
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    let r = real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char);
    r(p, out)
}
const DIRMAGIC: u64 = 0x6c6b_7369_6d64_6972;
#[repr(C)]
struct SimDir {
    magic: u64,
    fd: c_int,
    ent: dirent64,
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if let Some(s) = cpath(p) {
        return match fs::open(s, O_DIRECTORY) {
            Ok(fd) => Box::into_raw(Box::new(SimDir { magic: DIRMAGIC, fd, ent: std::mem::zeroed() })) as *mut DIR,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    let r = real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut DIR);
    r(p)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    let s = d as *mut SimDir;
    if in_sim() && (*s).magic == DIRMAGIC {
        return match fs::readdir((*s).fd) {
            None => std::ptr::null_mut(),
            Some((n, ino, is_dir)) => {
                let e = &mut (*s).ent;
                e.d_ino = ino;
                e.d_type = if is_dir { DT_DIR } else { DT_REG };
                e.d_reclen = std::mem::size_of::<dirent64>() as u16;
                let l = n.len().min(255);
                std::ptr::copy_nonoverlapping(n.as_ptr() as *const c_char, e.d_name.as_mut_ptr(), l);
                e.d_name[l] = 0;
                e
            }
        };
    }
    let r = real!("readdir64", unsafe extern "C" fn(*mut DIR) -> *mut dirent64);
    r(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    let s = d as *mut SimDir;
    if in_sim() && (*s).magic == DIRMAGIC {
        let b = Box::from_raw(s);
        fs::close(b.fd);
        return 0;
    }
    let r = real!("closedir", unsafe extern "C" fn(*mut DIR) -> c_int);
    r(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    let s = d as *mut SimDir;
    if in_sim() && (*s).magic == DIRMAGIC {
        return (*s).fd;
    }
    let r = real!("dirfd", unsafe extern "C" fn(*mut DIR) -> c_int);
    r(d)
}

// ---------------------------------------------------------------- sockets
#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    if in_sim() && dom == AF_INET && ty & 0xf == SOCK_DGRAM {
        let fd = net::socket();
        if ty & SOCK_NONBLOCK != 0 {
            net::with(fd, |s| s.nonblock = true);
        }
        return fd;
    }
    sys(SYS_socket, dom as usize, ty as usize, proto as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, name: c_int, v: *const c_void, len: socklen_t) -> c_int {
    if !nfd(fd) {
        return sys(SYS_setsockopt, fd as usize, lvl as usize, name as usize, v as usize, len as usize, 0) as c_int;
    }
    let int = || if len >= 4 { *(v as *const c_int) } else { *(v as *const u8) as c_int };
    match (lvl, name) {
        (SOL_SOCKET, SO_REUSEADDR) => net::with(fd, |s| s.reuse_addr = int() != 0),
        (SOL_SOCKET, SO_REUSEPORT) => net::with(fd, |s| s.reuse_port = int() != 0),
        (SOL_SOCKET, SO_RCVTIMEO) => {
            let t = &*(v as *const timeval);
            net::with(fd, |s| s.rcv_timeo = t.tv_sec as u64 * 1_000_000_000 + t.tv_usec as u64 * 1000)
        }
        (SOL_SOCKET, SO_BINDTODEVICE) => {
            set_errno(EPERM);
            return -1;
        }
        (IPPROTO_IP, IP_MULTICAST_IF) => {
            let a = if len as usize == std::mem::size_of::<ip_mreqn>() {
                (*(v as *const ip_mreqn)).imr_address.s_addr
            } else {
                (*(v as *const in_addr)).s_addr
            };
            net::with(fd, |s| s.mcast_if = u32::from_be(a))
        }
        (IPPROTO_IP, IP_MULTICAST_LOOP) => net::with(fd, |s| s.mcast_loop = int() != 0),
        (IPPROTO_IP, IP_MULTICAST_TTL) => net::with(fd, |s| s.mcast_ttl = int()),
        (IPPROTO_IP, IP_ADD_MEMBERSHIP) => {
            let (g, i) = if len as usize == std::mem::size_of::<ip_mreqn>() {
                let m = &*(v as *const ip_mreqn);
                (m.imr_multiaddr.s_addr, m.imr_address.s_addr)
            } else {
                let m = &*(v as *const ip_mreq);
                (m.imr_multiaddr.s_addr, m.imr_interface.s_addr)
            };
            net::with(fd, |s| s.members.push((u32::from_be(g), u32::from_be(i))))
        }
        _ => {}
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, name: c_int, v: *mut c_void, len: *mut socklen_t) -> c_int {
    if !nfd(fd) {
        return sys(SYS_getsockopt, fd as usize, lvl as usize, name as usize, v as usize, len as usize, 0) as c_int;
    }
    std::ptr::write_bytes(v as *mut u8, 0, *len as usize);
    0
}
unsafe fn addr_in(a: *const sockaddr) -> (u32, u16) {
    let s = &*(a as *const sockaddr_in);
    (u32::from_be(s.sin_addr.s_addr), u16::from_be(s.sin_port))
}
unsafe fn addr_out(a: *mut sockaddr, l: *mut socklen_t, v: (u32, u16)) {
    if a.is_null() {
        return;
    }
    let s = &mut *(a as *mut sockaddr_in);
    std::ptr::write_bytes(s, 0, 1);
    s.sin_family = AF_INET as u16;
    s.sin_addr.s_addr = v.0.to_be();
    s.sin_port = v.1.to_be();
    if !l.is_null() {
        *l = std::mem::size_of::<sockaddr_in>() as u32;
    }
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if !nfd(fd) {
        return sys(SYS_bind, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int;
    }
    let (ip, port) = addr_in(a);
    net::bind(fd, ip, port)
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if !nfd(fd) {
        return sys(SYS_connect, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int;
    }
    let v = addr_in(a);
    net::with(fd, |s| s.peer = Some(v));
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if !nfd(fd) {
        return sys(SYS_getsockname, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int;
    }
    addr_out(a, l, net::with(fd, |s| s.bound.unwrap_or((0, 0))));
    0
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !nfd(fd) {
        return sys(SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0) as c_int;
    }
    net::shutdown(fd);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: size_t, fl: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    if !nfd(fd) {
        return sys(SYS_sendto, fd as usize, b as usize, n, fl as usize, a as usize, l as usize) as ssize_t;
    }
    let dst = if a.is_null() { net::with(fd, |s| s.peer) } else { Some(addr_in(a)) };
    match dst {
        Some((ip, port)) => net::sendto(fd, sl(b as *mut c_void, n), ip, port) as ssize_t,
        None => {
            set_errno(EDESTADDRREQ);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    sendto(fd, b, n, fl, std::ptr::null(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, fl: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    if !nfd(fd) {
        return sys(SYS_recvfrom, fd as usize, b as usize, n, fl as usize, a as usize, l as usize) as ssize_t;
    }
    match net::recvfrom(fd, sl(b, n), fl & MSG_PEEK != 0, fl & MSG_DONTWAIT != 0) {
        Ok((n, src)) => {
            addr_out(a, l, src);
            n as ssize_t
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    recvfrom(fd, b, n, fl, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, fl: c_int) -> ssize_t {
    if !nfd(fd) {
        return sys(SYS_recvmsg, fd as usize, m as usize, fl as usize, 0, 0, 0) as ssize_t;
    }
    let io = &*(*m).msg_iov;
    let mut l = (*m).msg_namelen;
    let r = recvfrom(fd, io.iov_base, io.iov_len, fl, (*m).msg_name as *mut sockaddr, &mut l);
    (*m).msg_namelen = l;
    r
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, fl: c_int) -> ssize_t {
    if !nfd(fd) {
        return sys(SYS_sendmsg, fd as usize, m as usize, fl as usize, 0, 0, 0) as ssize_t;
    }
    let mut all = vec![];
    for i in 0..(*m).msg_iovlen as usize {
        let io = &*(*m).msg_iov.add(i);
        all.extend_from_slice(sl(io.iov_base, io.iov_len));
    }
    sendto(fd, all.as_ptr() as *const c_void, all.len(), fl, (*m).msg_name as *const sockaddr, (*m).msg_namelen)
}
#[no_mangle]
pub unsafe extern "C" fn poll(f: *mut pollfd, n: nfds_t, t: c_int) -> c_int {
    if in_sim() && n == 1 && nfd((*f).fd) {
        // readability of one simulated socket
        let fd = (*f).fd;
        let dl = if t < 0 { None } else { Some(now_ns() + t as u64 * 1_000_000) };
        let ok = net::wait_readable(fd, dl);
        (*f).revents = if ok { POLLIN } else { 0 };
        return ok as c_int;
    }
    sys(SYS_poll, f as usize, n as usize, t as usize, 0, 0, 0) as c_int
}
