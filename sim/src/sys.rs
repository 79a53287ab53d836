//! The process seam: the libc entry points through which the Rust standard library and the
//! crates under test reach clocks, randomness and threads are defined here, so that they resolve
//! to the simulator.  A thread which belongs to a simulated run sees virtual time, seeded
//! randomness, and a seeded scheduler which lets exactly one simulated thread run at a time.
//! Threads outside a run (the driver) see the real system.

use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};

use libc::{c_int, c_long, c_uint, c_void, size_t, ssize_t, timespec};

use crate::rng::Rng;

// ---------------------------------------------------------------------------------------------
// Raw system calls.

#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    r
}

fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        unsafe { *libc::__errno_location() = (-r) as c_int };
        -1
    } else {
        r
    }
}

fn raw_futex_wait(addr: *const AtomicI32, val: i32) {
    unsafe {
        raw6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0);
    }
}

fn raw_futex_wake(addr: *const AtomicI32) {
    unsafe {
        raw6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
    }
}

pub fn real_now_ns() -> i64 {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0) };
    ts.tv_sec * 1_000_000_000 + ts.tv_nsec
}

// ---------------------------------------------------------------------------------------------
// Simulation state.

const MAX_THREADS: usize = 1024;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Unused,
    Runnable,
    /// Blocked in a futex wait on an address, with an optional virtual deadline.
    Futex(usize, Option<i64>, bool),
    Sleep(i64),
    Join(usize),
    /// The run's first thread waiting for everything else to finish.
    Quiesce,
    Done,
}

struct ThreadRec {
    st: St,
    pthread: libc::pthread_t,
    baton: AtomicI32,
    timed_out: bool,
    prio: u64,
}

#[derive(Clone, Debug, Default)]
pub struct SchedStats {
    pub threads: u64,
    pub decisions: u64,
    pub switches: u64,
    pub trace_hash: u64,
    pub futex_blocks: u64,
    pub clock_reads: u64,
    pub jumps: u64,
}

struct Sim {
    threads: Vec<ThreadRec>,
    current: usize,
    rng: Rng,       // scheduling
    entropy: Rng,   // getrandom
    mono_ns: i64,
    wall_off_ns: i64,
    stats: SchedStats,
    /// Probability (percent) of considering a switch at a scheduling point.
    switch_pct: u64,
    /// If set, PCT-style: always run the highest priority runnable thread; priorities change at
    /// a few random points.
    pct_mode: bool,
    pct_points: Vec<u64>,
    record: bool,
    trace: Vec<(u64, u8)>,
    deadlocked: Option<String>,
}

struct Global(UnsafeCell<Option<Sim>>);
unsafe impl Sync for Global {}

static SIM: Global = Global(UnsafeCell::new(None));
static LOCK: AtomicI32 = AtomicI32::new(0);
static NEXT_IS_ROOT: AtomicBool = AtomicBool::new(false);
static MAIN_BATON: AtomicI32 = AtomicI32::new(0);

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static UNSIM: Cell<u32> = const { Cell::new(0) };
}

fn my_tid() -> Option<usize> {
    TID.try_with(|t| t.get())
        .ok()
        .and_then(|t| if t >= 0 { Some(t as usize) } else { None })
}

fn simulated() -> Option<usize> {
    if UNSIM.try_with(|u| u.get()).unwrap_or(0) > 0 {
        return None;
    }
    my_tid()
}

/// Run harness code which must not consume virtual time, entropy or scheduling decisions.
pub fn outside<T, F: FnOnce() -> T>(f: F) -> T {
    UNSIM.with(|u| u.set(u.get() + 1));
    let r = f();
    UNSIM.with(|u| u.set(u.get() - 1));
    r
}

struct Guard;
fn lock() -> Guard {
    loop {
        if LOCK.compare_exchange(0, 1, Ordering::Acquire, Ordering::Relaxed).is_ok() {
            return Guard;
        }
        std::hint::spin_loop();
        unsafe { raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) };
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        LOCK.store(0, Ordering::Release);
    }
}

fn with<T, F: FnOnce(&mut Sim) -> T>(f: F) -> Option<T> {
    let _g = lock();
    let s = unsafe { &mut *SIM.0.get() };
    s.as_mut().map(f)
}

// ---------------------------------------------------------------------------------------------
// Scheduler.

impl Sim {
    fn runnable(&self) -> Vec<usize> {
        self.threads
            .iter()
            .enumerate()
            .filter(|(_, t)| t.st == St::Runnable)
            .map(|(i, _)| i)
            .collect()
    }

    fn choose(&mut self, me: Option<usize>) -> Option<usize> {
        // Fulfil quiesce/join conditions first.
        loop {
            for i in 0..self.threads.len() {
                match self.threads[i].st {
                    St::Join(t) if self.threads[t].st == St::Done => self.threads[i].st = St::Runnable,
                    St::Quiesce => {
                        let others_done = self
                            .threads
                            .iter()
                            .enumerate()
                            .all(|(j, t)| j == i || t.st == St::Done);
                        if others_done {
                            self.threads[i].st = St::Runnable;
                        }
                    }
                    _ => {}
                }
            }
            let r = self.runnable();
            if !r.is_empty() {
                if r.len() == 1 {
                    return Some(r[0]);
                }
                self.stats.decisions += 1;
                let c = if self.pct_mode {
                    if let Some(p) = self.pct_points.last().cloned() {
                        if self.stats.decisions >= p {
                            self.pct_points.pop();
                            if let Some(m) = me {
                                let low = self.threads.iter().map(|t| t.prio).min().unwrap_or(1);
                                self.threads[m].prio = low.saturating_sub(1);
                            }
                        }
                    }
                    let mut best = r[0];
                    for &i in &r {
                        if self.threads[i].prio > self.threads[best].prio {
                            best = i;
                        }
                    }
                    best
                } else {
                    match me {
                        Some(m) if r.contains(&m) && !self.rng.pct(self.switch_pct) => m,
                        _ => *self.rng.pick(&r),
                    }
                };
                let h = self.stats.trace_hash;
                self.stats.trace_hash = crate::rng::fnv(h, &[c as u8, r.len() as u8]);
                if self.record && self.trace.len() < 10_000 {
                    self.trace.push((self.stats.decisions, c as u8));
                }
                return Some(c);
            }
            // Nobody can run: advance virtual time to the earliest timer.
            let mut best: Option<(i64, usize)> = None;
            for (i, t) in self.threads.iter().enumerate() {
                let d = match t.st {
                    St::Futex(_, Some(d), _) => d,
                    St::Sleep(d) => d,
                    _ => continue,
                };
                if best.map_or(true, |(b, _)| d < b) {
                    best = Some((d, i));
                }
            }
            match best {
                Some((d, i)) => {
                    if d > self.mono_ns {
                        self.mono_ns = d;
                    }
                    self.stats.jumps += 1;
                    self.threads[i].timed_out = true;
                    self.threads[i].st = St::Runnable;
                }
                None => {
                    // If the root is only waiting for quiescence, let it observe the stuck threads.
                    for i in 0..self.threads.len() {
                        if self.threads[i].st == St::Quiesce {
                            self.threads[i].st = St::Runnable;
                            self.threads[i].timed_out = true;
                            return Some(i);
                        }
                    }
                    return None;
                }
            }
        }
    }
}

/// Give up the processor in state `st`; returns when scheduled again.  The return value says
/// whether a timeout ended the wait.
fn reschedule(me: usize, st: St) -> bool {
    let mut wake: Option<*const AtomicI32> = None;
    let mut mine: *const AtomicI32 = std::ptr::null();
    let mut dead: Option<String> = None;
    with(|s| {
        s.threads[me].timed_out = false;
        s.threads[me].st = st;
        match s.choose(Some(me)) {
            Some(c) if c == me => {}
            Some(c) => {
                s.stats.switches += 1;
                s.current = c;
                s.threads[me].baton.store(0, Ordering::SeqCst);
                mine = &s.threads[me].baton;
                s.threads[c].baton.store(1, Ordering::SeqCst);
                wake = Some(&s.threads[c].baton);
            }
            None => {
                dead = Some(format!(
                    "deadlock: {:?}",
                    s.threads.iter().map(|t| t.st).collect::<Vec<_>>()
                ));
            }
        }
    });
    if let Some(d) = dead {
        crate::emergency("deadlock", &d);
    }
    if let Some(w) = wake {
        raw_futex_wake(w);
        if st != St::Done {
            unsafe {
                while (*mine).load(Ordering::SeqCst) == 0 {
                    raw_futex_wait(mine, 0);
                }
            }
        }
    }
    if st == St::Done {
        return false;
    }
    with(|s| s.threads[me].timed_out).unwrap_or(false)
}

/// A scheduling point: another runnable simulated thread may be chosen here.
pub fn yield_point() {
    if let Some(me) = simulated() {
        let multi = with(|s| s.runnable().len() > 1).unwrap_or(false);
        if multi {
            reschedule(me, St::Runnable);
        }
    }
}

pub fn sleep_ns(ns: i64) {
    if let Some(me) = simulated() {
        let d = with(|s| s.mono_ns + ns.max(1)).unwrap_or(0);
        reschedule(me, St::Sleep(d));
    }
}

pub fn advance_ns(ns: i64) {
    with(|s| s.mono_ns += ns);
}

pub fn jump_wall_ns(ns: i64) {
    with(|s| s.wall_off_ns += ns);
}

pub fn wall_ns() -> i64 {
    with(|s| s.mono_ns + s.wall_off_ns).unwrap_or(0)
}

pub fn mono_ns() -> i64 {
    with(|s| s.mono_ns).unwrap_or(0)
}

pub fn stats() -> SchedStats {
    with(|s| s.stats.clone()).unwrap_or_default()
}

pub fn sqlite_entropy(buf: &mut [u8]) {
    with(|s| s.entropy.fill(buf));
}

/// Wait until every other simulated thread has finished.  Returns the states of those which
/// never will.
pub fn quiesce() -> Vec<String> {
    let me = match my_tid() {
        Some(m) => m,
        None => return vec![],
    };
    let stuck = reschedule(me, St::Quiesce);
    if stuck {
        with(|s| {
            s.threads
                .iter()
                .enumerate()
                .filter(|(i, t)| *i != me && t.st != St::Done)
                .map(|(i, t)| format!("thread {} {:?}", i, t.st))
                .collect()
        })
        .unwrap_or_default()
    } else {
        vec![]
    }
}

/// Let other threads run until all of them are waiting for something other than time, or done.
pub fn drain() {
    if simulated().is_some() {
        for _ in 0..100_000 {
            let me = my_tid().unwrap();
            let others = with(|s| s.runnable().iter().any(|&i| i != me)).unwrap_or(false);
            if others {
                // Hand over explicitly.
                force_switch(me);
                continue;
            }
            let until = with(|s| {
                let now = s.mono_ns;
                s.threads
                    .iter()
                    .filter_map(|t| match t.st {
                        St::Sleep(d) => Some(d.max(now + 1)),
                        _ => None,
                    })
                    .min()
                    .map(|d| d - now)
            })
            .unwrap_or(None);
            match until {
                Some(ns) => sleep_ns(ns),
                None => return,
            }
        }
    }
}

fn force_switch(me: usize) {
    let mut wake: Option<*const AtomicI32> = None;
    let mut mine: *const AtomicI32 = std::ptr::null();
    with(|s| {
        let r: Vec<usize> = s.runnable().into_iter().filter(|&i| i != me).collect();
        if r.is_empty() {
            return;
        }
        s.stats.decisions += 1;
        let c = *s.rng.pick(&r);
        let h = s.stats.trace_hash;
        s.stats.trace_hash = crate::rng::fnv(h, &[c as u8, 0xff]);
        s.stats.switches += 1;
        s.current = c;
        s.threads[me].baton.store(0, Ordering::SeqCst);
        mine = &s.threads[me].baton;
        s.threads[c].baton.store(1, Ordering::SeqCst);
        wake = Some(&s.threads[c].baton);
    });
    if let Some(w) = wake {
        raw_futex_wake(w);
        unsafe {
            while (*mine).load(Ordering::SeqCst) == 0 {
                raw_futex_wait(mine, 0);
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct SimCfg {
    pub seed: u64,
    pub switch_pct: u64,
    pub pct_depth: u64,
    pub start_wall_ns: i64,
}

/// Run `f` as the first thread of a fresh simulated process.  Returns `f`'s result.
pub fn run<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(cfg: &SimCfg, f: F) -> std::thread::Result<T> {
    assert!(my_tid().is_none());
    let mut rng = Rng::sub(cfg.seed, 0x5c4e_d000);
    let mut pts: Vec<u64> = (0..cfg.pct_depth).map(|_| 1 + rng.below(400)).collect();
    pts.sort_by(|a, b| b.cmp(a));
    {
        let _g = lock();
        unsafe {
            *SIM.0.get() = Some(Sim {
                threads: Vec::with_capacity(MAX_THREADS),
                current: 0,
                rng,
                entropy: Rng::sub(cfg.seed, 0xe27_0b1),
                mono_ns: 1_000_000_000,
                wall_off_ns: cfg.start_wall_ns,
                stats: SchedStats::default(),
                switch_pct: cfg.switch_pct,
                pct_mode: cfg.pct_depth > 0,
                pct_points: pts,
                record: true,
                trace: vec![],
                deadlocked: None,
            });
        }
    }
    NEXT_IS_ROOT.store(true, Ordering::SeqCst);
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(f)
        .expect("spawn root");
    h.join()
}

#[repr(C)]
struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: i32,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    let tid = s.tid as usize;
    TID.with(|t| t.set(s.tid));
    // Wait for the baton.
    let mut mine: *const AtomicI32 = std::ptr::null();
    with(|sim| mine = &sim.threads[tid].baton);
    unsafe {
        while (*mine).load(Ordering::SeqCst) == 0 {
            raw_futex_wait(mine, 0);
        }
    }
    let r = (s.f)(s.arg);
    // Done: hand the baton on; nothing after this point is simulated.
    TID.with(|t| t.set(-1));
    if tid == 0 {
        with(|sim| sim.threads[0].st = St::Done);
        MAIN_BATON.store(1, Ordering::SeqCst);
    } else {
        reschedule(tid, St::Done);
    }
    r
}

type PthreadCreate = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut c_void) -> *mut c_void,
    *mut c_void,
) -> c_int;
type PthreadJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;

static REAL_CREATE: AtomicU64 = AtomicU64::new(0);
static REAL_JOIN: AtomicU64 = AtomicU64::new(0);

unsafe fn next_sym(cache: &AtomicU64, name: &[u8]) -> u64 {
    let v = cache.load(Ordering::Relaxed);
    if v != 0 {
        return v;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as u64;
    assert!(p != 0);
    cache.store(p, Ordering::Relaxed);
    p
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    native: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let real: PthreadCreate = std::mem::transmute(next_sym(&REAL_CREATE, b"pthread_create\0"));
    let root = NEXT_IS_ROOT.swap(false, Ordering::SeqCst);
    if !root && simulated().is_none() {
        return real(native, attr, f, arg);
    }
    let tid = with(|s| {
        let tid = s.threads.len();
        assert!(tid < MAX_THREADS, "too many simulated threads");
        let prio = 1_000_000 + s.rng.below(1_000_000);
        s.threads.push(ThreadRec {
            st: St::Runnable,
            pthread: 0,
            baton: AtomicI32::new(if root { 1 } else { 0 }),
            timed_out: false,
            prio,
        });
        s.stats.threads += 1;
        tid
    })
    .expect("sim");
    let start = Box::into_raw(Box::new(Start { f, arg, tid: tid as i32 }));
    let r = real(native, attr, trampoline, start as *mut c_void);
    if r != 0 {
        let msg = format!("pthread_create failed: {}", r);
        crate::emergency("harness", &msg);
    }
    let p = *native;
    with(|s| s.threads[tid].pthread = p);
    if !root {
        yield_point();
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let real: PthreadJoin = std::mem::transmute(next_sym(&REAL_JOIN, b"pthread_join\0"));
    if let Some(me) = simulated() {
        let target = with(|s| s.threads.iter().position(|x| x.pthread == t)).unwrap_or(None);
        if let Some(target) = target {
            let done = with(|s| s.threads[target].st == St::Done).unwrap_or(true);
            if !done {
                reschedule(me, St::Join(target));
            }
        }
    }
    real(t, out)
}

// ---------------------------------------------------------------------------------------------
// Futexes and getrandom, as the standard library reaches them.

unsafe fn sim_futex(me: usize, addr: *const AtomicI32, op: c_int, val: u32, ts: *const timespec) -> i64 {
    let cmd = op & 0x7f;
    let base = cmd;
    if base == libc::FUTEX_WAIT || base == libc::FUTEX_WAIT_BITSET {
        if (*addr).load(Ordering::SeqCst) as u32 != val {
            *libc::__errno_location() = libc::EAGAIN;
            return -1;
        }
        let deadline = if ts.is_null() {
            None
        } else {
            let ns = (*ts).tv_sec * 1_000_000_000 + (*ts).tv_nsec;
            if base == libc::FUTEX_WAIT {
                Some(with(|s| s.mono_ns).unwrap_or(0) + ns)
            } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                Some(ns - with(|s| s.wall_off_ns).unwrap_or(0))
            } else {
                Some(ns)
            }
        };
        with(|s| s.stats.futex_blocks += 1);
        let timed_out = reschedule(me, St::Futex(addr as usize, deadline, false));
        if timed_out {
            *libc::__errno_location() = libc::ETIMEDOUT;
            return -1;
        }
        0
    } else if base == libc::FUTEX_WAKE || base == libc::FUTEX_WAKE_BITSET {
        let n = with(|s| {
            let mut n = 0i64;
            while n < i64::from(val as i32) {
                let w: Vec<usize> = s
                    .threads
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| match t.st {
                        St::Futex(a, _, _) => a == addr as usize,
                        _ => false,
                    })
                    .map(|(i, _)| i)
                    .collect();
                if w.is_empty() {
                    break;
                }
                let i = if w.len() == 1 { w[0] } else { *s.rng.pick(&w) };
                s.threads[i].st = St::Runnable;
                n += 1;
            }
            n
        })
        .unwrap_or(0);
        yield_point();
        n
    } else {
        crate::emergency("harness", "unsupported futex operation");
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if let Some(me) = simulated() {
        if n == libc::SYS_futex {
            return sim_futex(me, a as *const AtomicI32, b as c_int, c as u32, d as *const timespec);
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b as size_t, c as c_uint) as c_long;
        }
        if n == libc::SYS_clock_gettime {
            return c_long::from(clock_gettime(a as libc::clockid_t, b as *mut timespec));
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if simulated().is_some() {
        let s = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        with(|sim| sim.entropy.fill(s));
        return len as ssize_t;
    }
    ret(raw6(libc::SYS_getrandom, buf as i64, len as i64, i64::from(flags), 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut timespec) -> c_int {
    if simulated().is_some() {
        let ns = with(|s| {
            s.stats.clock_reads += 1;
            s.mono_ns += 1_000;
            if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
                s.mono_ns + s.wall_off_ns
            } else {
                s.mono_ns
            }
        })
        .unwrap_or(0);
        (*ts).tv_sec = ns.div_euclid(1_000_000_000);
        (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
        yield_point();
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, i64::from(id), ts as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if simulated().is_some() {
        sleep_ns((*req).tv_sec * 1_000_000_000 + (*req).tv_nsec);
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if simulated().is_some() {
        let ns = (*req).tv_sec * 1_000_000_000 + (*req).tv_nsec;
        if flags & libc::TIMER_ABSTIME != 0 {
            let now = with(|s| s.mono_ns).unwrap_or(0);
            sleep_ns(ns - now);
        } else {
            sleep_ns(ns);
        }
        return 0;
    }
    (-raw6(libc::SYS_clock_nanosleep, i64::from(id), i64::from(flags), req as i64, rem as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if simulated().is_some() {
        yield_point();
        return 0;
    }
    raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
