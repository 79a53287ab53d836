//! The disk seam: an in-memory SQLite VFS which models what a machine's disk does.
//!
//! Every file has a volatile image (what a running process reads back) and a durable image plus
//! the list of writes which have not been flushed.  A crash kills the machine at a chosen I/O
//! operation: from then on every operation of the dead process fails and changes nothing; a
//! reboot rebuilds each file from its durable image plus a seeded subset of the unflushed writes,
//! possibly torn.  Single-operation faults (errors, full disk, partial writes, failed flushes,
//! refused locks) fire at a chosen operation of a chosen class.

use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet};
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicBool, Ordering};

use libsqlite3_sys as ffi;
use serde::{Deserialize, Serialize};

use crate::rng::Rng;
use crate::sys;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Class {
    Read,
    Write,
    Sync,
    Truncate,
    Open,
    Delete,
    Access,
    FileSize,
    Lock,
    ShmMap,
    ShmLock,
    Malloc,
}

pub const CLASSES: [Class; 12] = [
    Class::Read,
    Class::Write,
    Class::Sync,
    Class::Truncate,
    Class::Open,
    Class::Delete,
    Class::Access,
    Class::FileSize,
    Class::Lock,
    Class::ShmMap,
    Class::ShmLock,
    Class::Malloc,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum FaultKind {
    /// The operation fails with an I/O error and has no effect.
    Error,
    /// Write: half of the bytes land, then the operation fails.
    Partial,
    /// Write: SQLITE_FULL.
    Full,
    /// Sync: fails, and what was not yet durable will never be unless rewritten.
    LostSync,
    /// Lock: SQLITE_BUSY.
    Busy,
    /// Allocation failure.
    NoMem,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fault {
    pub class: Class,
    pub kind: FaultKind,
    /// Fires at the nth (0-based) operation of the class after being armed...
    pub nth: u32,
    /// ...and at this many operations in a row (0: for ever until disarmed).
    pub times: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum CrashKind {
    /// The process dies, the machine stays up: everything written survives.
    Process,
    /// Power loss: only flushed data is sure to survive.
    PowerNone,
    PowerPrefix,
    PowerSubset,
    PowerTorn,
    PowerAll,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct CrashAt {
    /// The nth (0-based) I/O operation of any class.
    pub nth: u32,
    pub kind: CrashKind,
}

#[derive(Clone)]
enum Pend {
    Write(usize, Vec<u8>),
    Truncate(usize),
}

#[derive(Clone, Default)]
struct Shm {
    regions: Vec<*mut u8>,
    size: usize,
    // lock slot -> (exclusive holder, shared holders)
    excl: [u64; 8],
    shared: [u32; 8],
}

#[derive(Default)]
struct Inode {
    cur: Vec<u8>,
    durable: Vec<u8>,
    pending: Vec<Pend>,
    shm: Option<Box<Shm>>,
    locks: BTreeMap<u64, i32>,
    opens: u32,
}

#[derive(Clone, Debug, Default, Serialize)]
pub struct IoStats {
    pub ops: BTreeMap<Class, u64>,
    pub injected: BTreeMap<String, u64>,
}

#[derive(Default)]
struct Machine {
    names: BTreeMap<String, u64>,
    durable_names: BTreeMap<String, u64>,
    dead: bool,
    epoch: u64,
    crash: Option<CrashAt>,
    crash_count: u32,
    crashed_kind: Option<CrashKind>,
    faults: Vec<Fault>,
    fault_counts: BTreeMap<Class, u32>,
    /// Operations performed since `begin_step`.
    step_ops: u32,
    step_class: BTreeMap<Class, u32>,
    fired: Vec<String>,
    last_write: Option<(u64, Pend)>,
}

pub struct Disk {
    inodes: BTreeMap<u64, Inode>,
    machines: BTreeMap<String, Machine>,
    next_id: u64,
    next_handle: u64,
    pub stats: IoStats,
    log: Vec<String>,
    pub log_on: bool,
    log_hash: u64,
}

struct G(UnsafeCell<Option<Disk>>);
unsafe impl Sync for G {}
static DISK: G = G(UnsafeCell::new(None));
static LOCK: AtomicBool = AtomicBool::new(false);

struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        LOCK.store(false, Ordering::Release);
    }
}

pub fn with<T, F: FnOnce(&mut Disk) -> T>(f: F) -> T {
    while LOCK.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let _g = Guard;
    let d = unsafe { &mut *DISK.0.get() };
    if d.is_none() {
        *d = Some(Disk::new());
    }
    f(d.as_mut().unwrap())
}

fn machine_of(path: &str) -> String {
    path.split('/').next().unwrap_or("").to_string()
}

#[derive(Clone)]
pub struct Image {
    pub files: BTreeMap<String, Vec<u8>>,
}

impl Disk {
    fn new() -> Disk {
        Disk {
            inodes: BTreeMap::new(),
            machines: BTreeMap::new(),
            next_id: 1,
            next_handle: 1,
            stats: IoStats::default(),
            log: vec![],
            log_on: false,
            log_hash: 0,
        }
    }

    fn machine(&mut self, m: &str) -> &mut Machine {
        self.machines.entry(m.to_string()).or_default()
    }

    fn note(&mut self, s: &str) {
        self.log_hash = crate::rng::fnv(self.log_hash, s.as_bytes());
        if self.log_on {
            self.log.push(s.to_string());
        }
    }
}

impl Inode {
    fn apply(img: &mut Vec<u8>, p: &Pend) {
        match p {
            Pend::Write(off, data) => {
                let end = off + data.len();
                if img.len() < end {
                    img.resize(end, 0);
                }
                img[*off..end].copy_from_slice(data);
            }
            Pend::Truncate(n) => img.resize(*n, 0),
        }
    }

    fn flush(&mut self) {
        let p = std::mem::take(&mut self.pending);
        for x in &p {
            Inode::apply(&mut self.durable, x);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Control, used by the harness.

/// Forget every file and machine (a fresh world for a run).
pub fn reset() {
    PAUSED.with(|p| p.set(false));
    arm_malloc(&[]);
    collect_garbage();
    with(|d| {
        let log_on = d.log_on;
        for (_, i) in d.inodes.iter_mut() {
            if let Some(s) = i.shm.take() {
                free_shm(*s);
            }
        }
        *d = Disk::new();
        d.log_on = log_on;
    });
    unsafe { ffi::sqlite3_randomness(0, std::ptr::null_mut()) };
}

pub fn install(m: &str, img: &Image) {
    with(|d| {
        for (name, data) in &img.files {
            let id = d.next_id;
            d.next_id += 1;
            d.inodes.insert(
                id,
                Inode { cur: data.clone(), durable: data.clone(), ..Default::default() },
            );
            let path = format!("{}/{}", m, name);
            let mm = d.machine(m);
            mm.names.insert(path.clone(), id);
            mm.durable_names.insert(path, id);
        }
    });
}

/// The volatile contents of a machine's files.
pub fn snapshot(m: &str) -> Image {
    with(|d| {
        let names: Vec<(String, u64)> = d.machine(m).names.clone().into_iter().collect();
        let mut files = BTreeMap::new();
        for (n, id) in names {
            files.insert(n[m.len() + 1..].to_string(), d.inodes[&id].cur.clone());
        }
        Image { files }
    })
}

pub fn begin_step(m: &str, faults: &[Fault], crash: Option<&CrashAt>) {
    with(|d| {
        let mm = d.machine(m);
        mm.faults = faults.to_vec();
        mm.fault_counts.clear();
        mm.crash = crash.cloned();
        mm.crash_count = 0;
        mm.step_ops = 0;
        mm.step_class.clear();
        mm.fired.clear();
    });
    arm_malloc(faults);
}

thread_local! {
    static PAUSED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static SLOW: std::cell::RefCell<Option<(crate::rng::Rng, u64, u64)>> = const { std::cell::RefCell::new(None) };
}

/// From now on, so many of this thread's disk operations in a hundred take up to this long (in
/// microseconds).
pub fn slow(seed: u64, pct: u64, us: u64) {
    SLOW.with(|s| *s.borrow_mut() = if pct == 0 { None } else { Some((crate::rng::Rng::sub(seed, 0x510), pct, us)) });
}

/// Every disk operation begins with this.
fn turn() {
    let wait = SLOW
        .try_with(|s| match &mut *s.borrow_mut() {
            Some((r, pct, us)) => {
                if r.pct(*pct) {
                    r.below(*us) as i64 * 1_000
                } else {
                    0
                }
            }
            None => 0,
        })
        .unwrap_or(0);
    if wait > 0 && !is_paused() {
        sys::sleep_ns(wait);
    } else {
        sys::yield_point();
    }
}

fn is_paused() -> bool {
    PAUSED.try_with(|p| p.get()).unwrap_or(false)
}

/// While the harness itself looks at a store, nothing is injected.
pub fn paused<T, F: FnOnce() -> T>(f: F) -> T {
    let was = PAUSED.with(|p| p.replace(true));
    let r = f();
    PAUSED.with(|p| p.set(was));
    r
}

/// How many injections have fired since `begin_step`.
pub fn fired(m: &str) -> usize {
    let mf = unsafe { (*MALLOC.0.get()).fired } as usize;
    with(|d| d.machine(m).fired.len()) + mf
}

/// Disarm, and say what fired.
pub fn end_step(m: &str) -> (u32, Vec<String>, bool) {
    let mf = disarm_malloc();
    with(|d| {
        let mm = d.machine(m);
        mm.faults.clear();
        mm.crash = None;
        if mf > 0 {
            mm.fired.push("malloc:NoMem".to_string());
            *d.stats.injected.entry("malloc:NoMem".to_string()).or_insert(0) += 1;
        }
        let mm = d.machine(m);
        (mm.step_ops, mm.fired.clone(), mm.dead)
    })
}

pub fn step_class_counts(m: &str) -> BTreeMap<Class, u32> {
    with(|d| d.machine(m).step_class.clone())
}

pub fn disarm(m: &str) {
    let _ = disarm_malloc();
    with(|d| {
        let mm = d.machine(m);
        mm.faults.clear();
        mm.crash = None;
    });
}

pub fn is_dead(m: &str) -> bool {
    with(|d| d.machine(m).dead)
}

/// Kill the machine's process now.
pub fn kill(m: &str, kind: CrashKind) {
    with(|d| {
        let mm = d.machine(m);
        if !mm.dead {
            mm.dead = true;
            mm.crashed_kind = Some(kind);
            mm.last_write = None;
            *d.stats.injected.entry(format!("crash:{:?}", kind)).or_insert(0) += 1;
        }
    });
}

/// Restart a dead machine: what survives is decided by `rng`.
pub fn reboot(m: &str, rng: &mut Rng, sector: usize) -> String {
    with(|d| {
        let (kind, names, dnames, last) = {
            let mm = d.machine(m);
            let kind = mm.crashed_kind.take().unwrap_or(CrashKind::Process);
            mm.dead = false;
            mm.epoch += 1;
            mm.crash = None;
            mm.faults.clear();
            (kind, mm.names.clone(), mm.durable_names.clone(), mm.last_write.take())
        };
        let mut desc = format!("{:?}", kind);
        // The namespace.
        let mut new_names: BTreeMap<String, u64> = BTreeMap::new();
        let all: BTreeSet<String> = names.keys().chain(dnames.keys()).cloned().collect();
        for n in all {
            let c = names.get(&n);
            let u = dnames.get(&n);
            let pick = if c == u {
                c
            } else {
                match kind {
                    CrashKind::Process | CrashKind::PowerAll => c,
                    CrashKind::PowerNone => u,
                    _ => {
                        if rng.pct(50) {
                            c
                        } else {
                            u
                        }
                    }
                }
            };
            if let Some(id) = pick {
                new_names.insert(n, *id);
            }
        }
        // The contents.
        let ids: Vec<u64> = new_names.values().cloned().collect();
        for id in &ids {
            let ino = d.inodes.get_mut(id).unwrap();
            if let Some(s) = ino.shm.take() {
                free_shm(*s);
            }
            ino.locks.clear();
            let mut pend = std::mem::take(&mut ino.pending);
            let total = pend.len();
            if let Some((lid, lp)) = &last {
                if lid == id && kind != CrashKind::Process {
                    pend.push(lp.clone());
                }
            }
            let mut kept = 0;
            match kind {
                CrashKind::Process => {
                    let mut img = ino.cur.clone();
                    if let Some((lid, Pend::Write(off, data))) = &last {
                        // The operation in flight may have been done in part.
                        if lid == id {
                            let k = rng.below(data.len() as u64 + 1) as usize;
                            Inode::apply(&mut img, &Pend::Write(*off, data[..k].to_vec()));
                        }
                    }
                    ino.durable = img;
                    kept = total;
                }
                CrashKind::PowerAll => {
                    for p in &pend {
                        Inode::apply(&mut ino.durable, p);
                        kept += 1;
                    }
                }
                CrashKind::PowerNone => {}
                CrashKind::PowerPrefix => {
                    let k = rng.below(pend.len() as u64 + 1) as usize;
                    for p in &pend[..k] {
                        Inode::apply(&mut ino.durable, p);
                        kept += 1;
                    }
                }
                CrashKind::PowerSubset => {
                    for p in &pend {
                        if rng.pct(50) {
                            Inode::apply(&mut ino.durable, p);
                            kept += 1;
                        }
                    }
                }
                CrashKind::PowerTorn => {
                    for p in &pend {
                        match p {
                            Pend::Write(off, data) => {
                                // Sector by sector.
                                let mut o = 0;
                                while o < data.len() {
                                    let a = (*off + o) % sector;
                                    let n = (sector - a).min(data.len() - o);
                                    if rng.pct(60) {
                                        Inode::apply(
                                            &mut ino.durable,
                                            &Pend::Write(*off + o, data[o..o + n].to_vec()),
                                        );
                                        kept += 1;
                                    }
                                    o += n;
                                }
                            }
                            t => {
                                if rng.pct(50) {
                                    Inode::apply(&mut ino.durable, t)
                                }
                            }
                        }
                    }
                }
            }
            ino.cur = ino.durable.clone();
            if total > 0 {
                desc.push_str(&format!(" [{} of {} unflushed]", kept, total));
            }
        }
        let mm = d.machine(m);
        mm.names = new_names.clone();
        mm.durable_names = new_names;
        let keep: BTreeSet<u64> = mm.names.values().cloned().collect();
        // Other machines' files are none of our business.
        let mine: BTreeSet<u64> = names.values().chain(dnames.values()).cloned().collect();
        let gone: Vec<u64> = mine.difference(&keep).cloned().collect();
        for g in gone {
            // Handles of the dead process may still point here; they check their epoch first.
            if let Some(mut i) = d.inodes.remove(&g) {
                if let Some(s) = i.shm.take() {
                    free_shm(*s);
                }
            }
        }
        desc
    })
}

/// Damage nothing, just report how many bytes a machine's files hold.
pub fn usage(m: &str) -> usize {
    with(|d| {
        let ids: Vec<u64> = d.machine(m).names.values().cloned().collect();
        ids.iter().map(|i| d.inodes[i].cur.len()).sum()
    })
}

pub fn take_log() -> (Vec<String>, u64) {
    with(|d| (std::mem::take(&mut d.log), d.log_hash))
}

pub fn set_log(on: bool) {
    with(|d| d.log_on = on);
}

pub fn io_stats() -> IoStats {
    with(|d| d.stats.clone())
}

pub fn count_injected(k: &str) {
    with(|d| *d.stats.injected.entry(k.to_string()).or_insert(0) += 1);
}

struct GG(UnsafeCell<Vec<(*mut u8, usize)>>);
unsafe impl Sync for GG {}
static GARBAGE: GG = GG(UnsafeCell::new(Vec::new()));

/// A dead process's connection may still map the regions, so they are only freed when the next
/// run starts, by which time every connection of this one is gone.
fn free_shm(s: Shm) {
    let g = unsafe { &mut *GARBAGE.0.get() };
    for r in s.regions {
        g.push((r, s.size));
    }
}

fn collect_garbage() {
    let g = unsafe { &mut *GARBAGE.0.get() };
    for (r, n) in g.drain(..) {
        unsafe {
            let s = std::slice::from_raw_parts_mut(r as *mut u64, (n + 7) / 8);
            drop(Box::from_raw(s as *mut [u64]));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Fault decisions.

enum Verdict {
    Go,
    Dead,
    /// The machine dies at this very operation.
    DieNow,
    Fail(FaultKind),
}

fn decide(d: &mut Disk, m: &str, epoch: u64, class: Class, what: &str) -> Verdict {
    *d.stats.ops.entry(class).or_insert(0) += 1;
    {
        let mm = d.machine(m);
        if mm.dead || mm.epoch != epoch {
            return Verdict::Dead;
        }
        mm.step_ops += 1;
        *mm.step_class.entry(class).or_insert(0) += 1;
    }
    if is_paused() {
        return Verdict::Go;
    }
    let mut verdict = Verdict::Go;
    let mut inj: Option<String> = None;
    {
        let mm = d.machine(m);
        if let Some(c) = mm.crash.clone() {
            if mm.crash_count == c.nth {
                mm.dead = true;
                mm.crashed_kind = Some(c.kind);
                mm.last_write = None;
                mm.fired.push(format!("crash at op {} ({})", c.nth, what));
                inj = Some(format!("crash:{:?}@{:?}", c.kind, class));
                verdict = Verdict::DieNow;
            }
            mm.crash_count += 1;
        }
        if let Verdict::Go = verdict {
            let n = mm.fault_counts.entry(class).or_insert(0);
            let idx = *n;
            *n += 1;
            for f in &mm.faults {
                if f.class == class && idx >= f.nth && (f.times == 0 || idx < f.nth + f.times) {
                    verdict = Verdict::Fail(f.kind);
                    let s = format!("{:?}:{:?}", class, f.kind);
                    mm.fired.push(format!("{} ({})", s, what));
                    inj = Some(s);
                    break;
                }
            }
        }
    }
    if let Some(s) = inj {
        *d.stats.injected.entry(s).or_insert(0) += 1;
    }
    verdict
}

// ---------------------------------------------------------------------------------------------
// The VFS proper.

#[repr(C)]
struct File {
    base: ffi::sqlite3_file,
    inode: u64,
    handle: u64,
    epoch: u64,
    temp: c_int,
    /// The first sync also syncs the directory, as SQLite's does for journals it may create.
    dirsync: c_int,
    level: c_int,
    shm_shared: u32,
    shm_excl: u32,
    machine: *mut String,
    path: *mut String,
}

unsafe fn file<'a>(p: *mut ffi::sqlite3_file) -> &'a mut File {
    &mut *(p as *mut File)
}

const OK: c_int = ffi::SQLITE_OK;
const IOERR: c_int = ffi::SQLITE_IOERR;
const IOERR_READ: c_int = IOERR | (1 << 8);
const IOERR_SHORT_READ: c_int = IOERR | (2 << 8);
const IOERR_WRITE: c_int = IOERR | (3 << 8);
const IOERR_FSYNC: c_int = IOERR | (4 << 8);
const IOERR_TRUNCATE: c_int = IOERR | (6 << 8);
const IOERR_FSTAT: c_int = IOERR | (7 << 8);
const IOERR_DELETE: c_int = IOERR | (10 << 8);
const IOERR_ACCESS: c_int = IOERR | (13 << 8);
const IOERR_LOCK: c_int = IOERR | (15 << 8);
const IOERR_SHMMAP: c_int = IOERR | (21 << 8);
const IOERR_SHMLOCK: c_int = IOERR | (20 << 8);
const IOERR_DELETE_NOENT: c_int = IOERR | (23 << 8);

fn short(p: &str) -> &str {
    p
}

unsafe extern "C" fn x_close(p: *mut ffi::sqlite3_file) -> c_int {
    let f = file(p);
    let m = (*f.machine).clone();
    with(|d| {
        if f.temp == 0 {
            if let Some(i) = d.inodes.get_mut(&f.inode) {
                i.locks.remove(&f.handle);
                i.opens = i.opens.saturating_sub(1);
            }
        } else {
            d.inodes.remove(&f.inode);
        }
        let _ = m;
    });
    drop(Box::from_raw(f.machine));
    drop(Box::from_raw(f.path));
    f.base.pMethods = std::ptr::null();
    OK
}

unsafe extern "C" fn x_read(p: *mut ffi::sqlite3_file, buf: *mut c_void, n: c_int, off: i64) -> c_int {
    turn();
    let f = file(p);
    with(|d| {
        let m = &*f.machine;
        match decide(d, m, f.epoch, Class::Read, &*f.path) {
            Verdict::Go => {}
            _ => return IOERR_READ,
        }
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, n as usize);
        let ino = match d.inodes.get(&f.inode) {
            Some(i) => i,
            None => return IOERR_READ,
        };
        let off = off as usize;
        let avail = ino.cur.len().saturating_sub(off).min(n as usize);
        if avail > 0 {
            out[..avail].copy_from_slice(&ino.cur[off..off + avail]);
        }
        if avail < n as usize {
            for b in &mut out[avail..] {
                *b = 0;
            }
            return IOERR_SHORT_READ;
        }
        OK
    })
}

unsafe extern "C" fn x_write(p: *mut ffi::sqlite3_file, buf: *const c_void, n: c_int, off: i64) -> c_int {
    turn();
    let f = file(p);
    with(|d| {
        let m = (*f.machine).clone();
        let data = std::slice::from_raw_parts(buf as *const u8, n as usize);
        let off = off as usize;
        let v = decide(d, &m, f.epoch, Class::Write, &*f.path);
        let mut take = n as usize;
        let mut rc = OK;
        match v {
            Verdict::Go => {}
            Verdict::DieNow => {
                let w = Pend::Write(off, data.to_vec());
                d.machine(&m).last_write = Some((f.inode, w));
                return IOERR_WRITE;
            }
            Verdict::Dead => return IOERR_WRITE,
            Verdict::Fail(FaultKind::Full) => return ffi::SQLITE_FULL,
            Verdict::Fail(FaultKind::Partial) => {
                take = n as usize / 2;
                rc = IOERR_WRITE;
            }
            Verdict::Fail(_) => return IOERR_WRITE,
        }
        if d.log_on || true {
            let h = crate::rng::fnv(0, data);
            let s = format!("w {} {} {} {:x}", short(&*f.path), off, take, h);
            d.note(&s);
        }
        let ino = match d.inodes.get_mut(&f.inode) {
            Some(i) => i,
            None => return IOERR_WRITE,
        };
        let pend = Pend::Write(off, data[..take].to_vec());
        Inode::apply(&mut ino.cur, &pend);
        ino.pending.push(pend);
        rc
    })
}

unsafe extern "C" fn x_truncate(p: *mut ffi::sqlite3_file, size: i64) -> c_int {
    turn();
    let f = file(p);
    with(|d| {
        match decide(d, &*f.machine, f.epoch, Class::Truncate, &*f.path) {
            Verdict::Go => {}
            _ => return IOERR_TRUNCATE,
        }
        let s = format!("t {} {}", short(&*f.path), size);
        d.note(&s);
        let ino = match d.inodes.get_mut(&f.inode) {
            Some(i) => i,
            None => return IOERR_TRUNCATE,
        };
        let pend = Pend::Truncate(size as usize);
        Inode::apply(&mut ino.cur, &pend);
        ino.pending.push(pend);
        OK
    })
}

unsafe extern "C" fn x_sync(p: *mut ffi::sqlite3_file, _flags: c_int) -> c_int {
    turn();
    let f = file(p);
    with(|d| {
        match decide(d, &*f.machine, f.epoch, Class::Sync, &*f.path) {
            Verdict::Go => {}
            Verdict::Fail(FaultKind::LostSync) => {
                if let Some(i) = d.inodes.get_mut(&f.inode) {
                    i.pending.clear();
                }
                return IOERR_FSYNC;
            }
            _ => return IOERR_FSYNC,
        }
        let s = format!("s {}", short(&*f.path));
        d.note(&s);
        if let Some(ino) = d.inodes.get_mut(&f.inode) {
            ino.flush();
        }
        let inode = f.inode;
        let path = (*f.path).clone();
        let mm = d.machine(&*f.machine);
        if f.dirsync != 0 {
            f.dirsync = 0;
            mm.durable_names = mm.names.clone();
        } else if mm.names.get(&path) == Some(&inode) {
            mm.durable_names.insert(path, inode);
        }
        OK
    })
}

unsafe extern "C" fn x_file_size(p: *mut ffi::sqlite3_file, out: *mut i64) -> c_int {
    let f = file(p);
    with(|d| {
        match decide(d, &*f.machine, f.epoch, Class::FileSize, &*f.path) {
            Verdict::Go => {}
            _ => return IOERR_FSTAT,
        }
        *out = d.inodes.get(&f.inode).map_or(0, |i| i.cur.len() as i64);
        OK
    })
}

// Lock levels as in SQLite: 0 none, 1 shared, 2 reserved, 3 pending, 4 exclusive.
unsafe extern "C" fn x_lock(p: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    turn();
    let f = file(p);
    with(|d| {
        match decide(d, &*f.machine, f.epoch, Class::Lock, &*f.path) {
            Verdict::Go => {}
            Verdict::Fail(FaultKind::Busy) => return ffi::SQLITE_BUSY,
            _ => return IOERR_LOCK,
        }
        let ino = match d.inodes.get_mut(&f.inode) {
            Some(i) => i,
            None => return IOERR_LOCK,
        };
        if f.level >= level {
            return OK;
        }
        let h = f.handle;
        let others = |min: i32| ino.locks.iter().any(|(k, l)| *k != h && *l >= min);
        let got = match level {
            1 => {
                if others(3) {
                    return ffi::SQLITE_BUSY;
                }
                1
            }
            2 => {
                if others(2) {
                    return ffi::SQLITE_BUSY;
                }
                2
            }
            _ => {
                if others(2) {
                    return ffi::SQLITE_BUSY;
                }
                if others(1) {
                    ino.locks.insert(h, 3);
                    f.level = 3;
                    return ffi::SQLITE_BUSY;
                }
                4
            }
        };
        ino.locks.insert(h, got);
        f.level = got;
        OK
    })
}

unsafe extern "C" fn x_unlock(p: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let f = file(p);
    with(|d| {
        if d.machine(&*f.machine).epoch != f.epoch {
            return OK;
        }
        if let Some(ino) = d.inodes.get_mut(&f.inode) {
            if level == 0 {
                ino.locks.remove(&f.handle);
            } else {
                ino.locks.insert(f.handle, level);
            }
        }
        f.level = level;
        OK
    })
}

unsafe extern "C" fn x_check_reserved(p: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    let f = file(p);
    with(|d| {
        let r = d
            .inodes
            .get(&f.inode)
            .map_or(false, |i| i.locks.iter().any(|(k, l)| *k != f.handle && *l >= 2));
        *out = r as c_int;
        OK
    })
}

unsafe extern "C" fn x_file_control(_p: *mut ffi::sqlite3_file, _op: c_int, _arg: *mut c_void) -> c_int {
    ffi::SQLITE_NOTFOUND
}

unsafe extern "C" fn x_sector_size(_p: *mut ffi::sqlite3_file) -> c_int {
    4096
}

unsafe extern "C" fn x_devchar(_p: *mut ffi::sqlite3_file) -> c_int {
    0x0000_1000 // SQLITE_IOCAP_POWERSAFE_OVERWRITE
}

unsafe extern "C" fn x_shm_map(
    p: *mut ffi::sqlite3_file,
    region: c_int,
    size: c_int,
    extend: c_int,
    out: *mut *mut c_void,
) -> c_int {
    turn();
    let f = file(p);
    with(|d| {
        *out = std::ptr::null_mut();
        match decide(d, &*f.machine, f.epoch, Class::ShmMap, &*f.path) {
            Verdict::Go => {}
            _ => return IOERR_SHMMAP,
        }
        let ino = match d.inodes.get_mut(&f.inode) {
            Some(i) => i,
            None => return IOERR_SHMMAP,
        };
        let shm = ino.shm.get_or_insert_with(Default::default);
        shm.size = size as usize;
        while shm.regions.len() <= region as usize {
            if extend == 0 {
                return OK;
            }
            let v: Box<[u64]> = vec![0u64; (size as usize + 7) / 8].into_boxed_slice();
            shm.regions.push(Box::into_raw(v) as *mut u8);
        }
        *out = shm.regions[region as usize] as *mut c_void;
        OK
    })
}

unsafe extern "C" fn x_shm_lock(p: *mut ffi::sqlite3_file, ofst: c_int, n: c_int, flags: c_int) -> c_int {
    let f = file(p);
    let lock = flags & 2 != 0;
    let shared = flags & 4 != 0;
    if lock {
        turn();
    }
    let rc = with(|d| {
        if lock {
            match decide(d, &*f.machine, f.epoch, Class::ShmLock, &*f.path) {
                Verdict::Go => {}
                Verdict::Fail(FaultKind::Busy) => return ffi::SQLITE_BUSY,
                _ => return IOERR_SHMLOCK,
            }
        } else if d.machine(&*f.machine).epoch != f.epoch {
            return OK;
        }
        let ino = match d.inodes.get_mut(&f.inode) {
            Some(i) => i,
            None => return IOERR_SHMLOCK,
        };
        let shm = ino.shm.get_or_insert_with(Default::default);
        let range = ofst as usize..(ofst + n) as usize;
        if lock && shared {
            let i = ofst as usize;
            if f.shm_shared & (1 << i) != 0 {
                return OK;
            }
            if shm.excl[i] != 0 && shm.excl[i] != f.handle {
                return ffi::SQLITE_BUSY;
            }
            shm.shared[i] += 1;
            f.shm_shared |= 1 << i;
        } else if lock {
            for i in range.clone() {
                let mine = if f.shm_shared & (1 << i) != 0 { 1 } else { 0 };
                if (shm.excl[i] != 0 && shm.excl[i] != f.handle) || shm.shared[i] > mine {
                    return ffi::SQLITE_BUSY;
                }
            }
            for i in range {
                shm.excl[i] = f.handle;
                f.shm_excl |= 1 << i;
            }
        } else {
            for i in range {
                if f.shm_excl & (1 << i) != 0 {
                    f.shm_excl &= !(1 << i);
                    if shm.excl[i] == f.handle {
                        shm.excl[i] = 0;
                    }
                }
                if f.shm_shared & (1 << i) != 0 {
                    f.shm_shared &= !(1 << i);
                    shm.shared[i] = shm.shared[i].saturating_sub(1);
                }
            }
        }
        OK
    });
    rc
}

unsafe extern "C" fn x_shm_barrier(_p: *mut ffi::sqlite3_file) {
    std::sync::atomic::fence(Ordering::SeqCst);
}

unsafe extern "C" fn x_shm_unmap(p: *mut ffi::sqlite3_file, delete: c_int) -> c_int {
    let f = file(p);
    with(|d| {
        let same = d.machine(&*f.machine).epoch == f.epoch;
        if !same {
            return OK;
        }
        if let Some(ino) = d.inodes.get_mut(&f.inode) {
            if let Some(shm) = ino.shm.as_mut() {
                for i in 0..8 {
                    if f.shm_excl & (1 << i) != 0 && shm.excl[i] == f.handle {
                        shm.excl[i] = 0;
                    }
                    if f.shm_shared & (1 << i) != 0 {
                        shm.shared[i] = shm.shared[i].saturating_sub(1);
                    }
                }
                f.shm_excl = 0;
                f.shm_shared = 0;
            }
            if delete != 0 {
                if let Some(s) = ino.shm.take() {
                    free_shm(*s);
                }
            }
        }
        OK
    })
}

#[repr(C)]
struct IoMethods {
    i_version: c_int,
    x_close: unsafe extern "C" fn(*mut ffi::sqlite3_file) -> c_int,
    x_read: unsafe extern "C" fn(*mut ffi::sqlite3_file, *mut c_void, c_int, i64) -> c_int,
    x_write: unsafe extern "C" fn(*mut ffi::sqlite3_file, *const c_void, c_int, i64) -> c_int,
    x_truncate: unsafe extern "C" fn(*mut ffi::sqlite3_file, i64) -> c_int,
    x_sync: unsafe extern "C" fn(*mut ffi::sqlite3_file, c_int) -> c_int,
    x_file_size: unsafe extern "C" fn(*mut ffi::sqlite3_file, *mut i64) -> c_int,
    x_lock: unsafe extern "C" fn(*mut ffi::sqlite3_file, c_int) -> c_int,
    x_unlock: unsafe extern "C" fn(*mut ffi::sqlite3_file, c_int) -> c_int,
    x_check_reserved: unsafe extern "C" fn(*mut ffi::sqlite3_file, *mut c_int) -> c_int,
    x_file_control: unsafe extern "C" fn(*mut ffi::sqlite3_file, c_int, *mut c_void) -> c_int,
    x_sector_size: unsafe extern "C" fn(*mut ffi::sqlite3_file) -> c_int,
    x_devchar: unsafe extern "C" fn(*mut ffi::sqlite3_file) -> c_int,
    x_shm_map: unsafe extern "C" fn(*mut ffi::sqlite3_file, c_int, c_int, c_int, *mut *mut c_void) -> c_int,
    x_shm_lock: unsafe extern "C" fn(*mut ffi::sqlite3_file, c_int, c_int, c_int) -> c_int,
    x_shm_barrier: unsafe extern "C" fn(*mut ffi::sqlite3_file),
    x_shm_unmap: unsafe extern "C" fn(*mut ffi::sqlite3_file, c_int) -> c_int,
    x_fetch: usize,
    x_unfetch: usize,
}

static IO: IoMethods = IoMethods {
    i_version: 2,
    x_close,
    x_read,
    x_write,
    x_truncate,
    x_sync,
    x_file_size,
    x_lock,
    x_unlock,
    x_check_reserved,
    x_file_control,
    x_sector_size,
    x_devchar,
    x_shm_map,
    x_shm_lock,
    x_shm_barrier,
    x_shm_unmap,
    x_fetch: 0,
    x_unfetch: 0,
};

unsafe fn cstr(p: *const c_char) -> String {
    std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned()
}

unsafe extern "C" fn v_open(
    _v: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    p: *mut ffi::sqlite3_file,
    flags: c_int,
    out: *mut c_int,
) -> c_int {
    turn();
    let f = file(p);
    f.base.pMethods = std::ptr::null();
    let temp = name.is_null();
    let path = if temp { "temp/x".to_string() } else { cstr(name) };
    let m = machine_of(&path);
    with(|d| {
        let epoch = d.machine(&m).epoch;
        match decide(d, &m, epoch, Class::Open, &path) {
            Verdict::Go => {}
            _ => return ffi::SQLITE_CANTOPEN,
        }
        let inode = match d.machine(&m).names.get(&path).cloned() {
            Some(i) if !temp => i,
            _ => {
                if flags & ffi::SQLITE_OPEN_CREATE == 0 && !temp {
                    return ffi::SQLITE_CANTOPEN;
                }
                let id = d.next_id;
                d.next_id += 1;
                d.inodes.insert(id, Inode::default());
                if !temp {
                    let s = format!("c {}", path);
                    d.note(&s);
                    d.machine(&m).names.insert(path.clone(), id);
                }
                id
            }
        };
        let h = d.next_handle;
        d.next_handle += 1;
        d.inodes.get_mut(&inode).unwrap().opens += 1;
        std::ptr::write(
            p as *mut File,
            File {
                base: ffi::sqlite3_file { pMethods: &IO as *const IoMethods as *const _ },
                inode,
                handle: h,
                epoch,
                temp: temp as c_int,
                dirsync: (flags & ffi::SQLITE_OPEN_CREATE != 0
                    && flags & (ffi::SQLITE_OPEN_MAIN_JOURNAL | ffi::SQLITE_OPEN_MASTER_JOURNAL | ffi::SQLITE_OPEN_WAL) != 0)
                    as c_int,
                level: 0,
                shm_shared: 0,
                shm_excl: 0,
                machine: Box::into_raw(Box::new(m.clone())),
                path: Box::into_raw(Box::new(path.clone())),
            },
        );
        if !out.is_null() {
            *out = flags;
        }
        OK
    })
}

unsafe extern "C" fn v_delete(_v: *mut ffi::sqlite3_vfs, name: *const c_char, sync_dir: c_int) -> c_int {
    turn();
    let path = cstr(name);
    let m = machine_of(&path);
    with(|d| {
        let epoch = d.machine(&m).epoch;
        match decide(d, &m, epoch, Class::Delete, &path) {
            Verdict::Go => {}
            _ => return IOERR_DELETE,
        }
        let s = format!("d {} {}", path, sync_dir);
        d.note(&s);
        let mm = d.machine(&m);
        if mm.names.remove(&path).is_none() {
            return IOERR_DELETE_NOENT;
        }
        if sync_dir != 0 {
            mm.durable_names = mm.names.clone();
        }
        OK
    })
}

unsafe extern "C" fn v_access(_v: *mut ffi::sqlite3_vfs, name: *const c_char, flags: c_int, out: *mut c_int) -> c_int {
    let path = cstr(name);
    let m = machine_of(&path);
    with(|d| {
        let epoch = d.machine(&m).epoch;
        match decide(d, &m, epoch, Class::Access, &path) {
            Verdict::Go => {}
            _ => return IOERR_ACCESS,
        }
        let id = d.machine(&m).names.get(&path).cloned();
        *out = match id {
            Some(i) => {
                if flags == 0 {
                    // SQLITE_ACCESS_EXISTS treats empty files as absent, as the unix VFS does.
                    (d.inodes[&i].cur.len() > 0) as c_int
                } else {
                    1
                }
            }
            None => 0,
        };
        OK
    })
}

unsafe extern "C" fn v_full(_v: *mut ffi::sqlite3_vfs, name: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    let s = std::ffi::CStr::from_ptr(name).to_bytes_with_nul();
    if s.len() > n as usize {
        return ffi::SQLITE_CANTOPEN;
    }
    std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, out, s.len());
    OK
}

unsafe extern "C" fn v_randomness(_v: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    let s = std::slice::from_raw_parts_mut(out as *mut u8, n as usize);
    for b in s.iter_mut() {
        *b = 0;
    }
    sys::sqlite_entropy(s);
    n
}

unsafe extern "C" fn v_sleep(_v: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    sys::sleep_ns(i64::from(us) * 1000);
    us
}

const UNIX_EPOCH_JD_MS: i64 = 210_866_760_000_000;

unsafe extern "C" fn v_time64(_v: *mut ffi::sqlite3_vfs, out: *mut i64) -> c_int {
    *out = UNIX_EPOCH_JD_MS + sys::wall_ns() / 1_000_000;
    OK
}

unsafe extern "C" fn v_time(_v: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    *out = (UNIX_EPOCH_JD_MS + sys::wall_ns() / 1_000_000) as f64 / 86_400_000.0;
    OK
}

unsafe extern "C" fn v_last_error(_v: *mut ffi::sqlite3_vfs, _n: c_int, _out: *mut c_char) -> c_int {
    0
}

// ---------------------------------------------------------------------------------------------
// SQLite's allocator.

struct MallocCtl {
    armed: bool,
    nth: u32,
    times: u32,
    count: u32,
    fired: u32,
}
struct MG(UnsafeCell<MallocCtl>);
unsafe impl Sync for MG {}
static MALLOC: MG = MG(UnsafeCell::new(MallocCtl { armed: false, nth: 0, times: 0, count: 0, fired: 0 }));

fn arm_malloc(faults: &[Fault]) {
    let c = unsafe { &mut *MALLOC.0.get() };
    c.armed = false;
    c.count = 0;
    c.fired = 0;
    for f in faults {
        if f.class == Class::Malloc {
            c.armed = true;
            c.nth = f.nth;
            c.times = f.times;
        }
    }
}

fn disarm_malloc() -> u32 {
    let c = unsafe { &mut *MALLOC.0.get() };
    c.armed = false;
    c.fired
}

fn malloc_fails() -> bool {
    let c = unsafe { &mut *MALLOC.0.get() };
    if !c.armed || is_paused() {
        return false;
    }
    let i = c.count;
    c.count += 1;
    if i >= c.nth && (c.times == 0 || i < c.nth + c.times) {
        c.fired += 1;
        true
    } else {
        false
    }
}

unsafe extern "C" fn m_malloc(n: c_int) -> *mut c_void {
    if malloc_fails() {
        return std::ptr::null_mut();
    }
    let p = libc::malloc(n as usize + 16) as *mut u64;
    if p.is_null() {
        return std::ptr::null_mut();
    }
    *p = n as u64;
    p.add(2) as *mut c_void
}
unsafe extern "C" fn m_free(p: *mut c_void) {
    if !p.is_null() {
        libc::free((p as *mut u64).sub(2) as *mut c_void);
    }
}
unsafe extern "C" fn m_realloc(p: *mut c_void, n: c_int) -> *mut c_void {
    if p.is_null() {
        return m_malloc(n);
    }
    if malloc_fails() {
        return std::ptr::null_mut();
    }
    let q = libc::realloc((p as *mut u64).sub(2) as *mut c_void, n as usize + 16) as *mut u64;
    if q.is_null() {
        return std::ptr::null_mut();
    }
    *q = n as u64;
    q.add(2) as *mut c_void
}
unsafe extern "C" fn m_size(p: *mut c_void) -> c_int {
    if p.is_null() {
        0
    } else {
        *(p as *mut u64).sub(2) as c_int
    }
}
unsafe extern "C" fn m_roundup(n: c_int) -> c_int {
    (n + 7) & !7
}
unsafe extern "C" fn m_init(_: *mut c_void) -> c_int {
    OK
}
unsafe extern "C" fn m_shutdown(_: *mut c_void) {}

/// Install the seam; once per process, before SQLite is used.
pub fn init() {
    unsafe {
        let mm = Box::leak(Box::new(ffi::sqlite3_mem_methods {
            xMalloc: Some(m_malloc),
            xFree: Some(m_free),
            xRealloc: Some(m_realloc),
            xSize: Some(m_size),
            xRoundup: Some(m_roundup),
            xInit: Some(m_init),
            xShutdown: Some(m_shutdown),
            pAppData: std::ptr::null_mut(),
        }));
        let rc = ffi::sqlite3_config(4 /* SQLITE_CONFIG_MALLOC */, mm as *mut _);
        assert_eq!(rc, OK);
        // No lookaside variation: every allocation goes through the seam.
        let rc = ffi::sqlite3_config(13 /* SQLITE_CONFIG_LOOKASIDE */, 0 as c_int, 0 as c_int);
        assert_eq!(rc, OK);
        assert_eq!(ffi::sqlite3_initialize(), OK);
        let v = Box::leak(Box::new(ffi::sqlite3_vfs {
            iVersion: 2,
            szOsFile: std::mem::size_of::<File>() as c_int,
            mxPathname: 512,
            pNext: std::ptr::null_mut(),
            zName: b"sim\0".as_ptr() as *const c_char,
            pAppData: std::ptr::null_mut(),
            xOpen: Some(v_open),
            xDelete: Some(v_delete),
            xAccess: Some(v_access),
            xFullPathname: Some(v_full),
            xDlOpen: None,
            xDlError: None,
            xDlSym: None,
            xDlClose: None,
            xRandomness: Some(v_randomness),
            xSleep: Some(v_sleep),
            xCurrentTime: Some(v_time),
            xGetLastError: Some(v_last_error),
            xCurrentTimeInt64: Some(v_time64),
            xSetSystemCall: None,
            xGetSystemCall: None,
            xNextSystemCall: None,
        }));
        assert_eq!(ffi::sqlite3_vfs_register(v, 1), OK);
    }
}
