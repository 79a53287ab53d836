//! Several stores, one remote transaction log, and a network between them.
//!
//! The syncer (`mentat_tolstoy`) and everything below it runs for real, each client on a machine of
//! its own; the remote log is a stub behind the syncer's own `GlobalTransactionLog` seam, which keeps
//! what it is given as JSON and refuses a head which does not descend from the one it has.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

use mentat::{Queryable, Store};
use mentat_tolstoy::{GlobalTransactionLog, SyncFollowup, SyncReport, Syncer, Tx, TxPart};
use serde::{Deserialize, Serialize};
use tolstoy_traits::errors::TolstoyError;
use uuid::Uuid;

use crate::exec::*;
use crate::model::*;
use crate::plan::*;
use crate::readout::*;
use crate::rng::{mix, Rng};
use crate::value::*;
use crate::vfs::{CrashAt, CrashKind, Fault, FaultKind};
use crate::{sys, vfs};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum NetKind {
    /// The request never arrives.
    Lost,
    /// The request is carried out, but the answer is lost.
    AckLost,
    /// The request is carried out twice.
    Dup,
    /// The answer never comes, and the request is carried out some requests later.
    Late(u32),
    /// This request and all later ones of the step fail.
    Outage,
    /// The answer takes this many milliseconds.
    Slow(i64),
    /// The client's process dies before, or after, the request is carried out.
    DieBefore,
    DieAfter,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct NetFault {
    /// At the nth request of the step.
    pub nth: u32,
    pub kind: NetKind,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SKind {
    /// Transactions, in one commit.
    Write(Vec<Vec<Op>>),
    Sync,
    /// This client and others, at once.
    Race(Vec<usize>),
    Reopen,
    Crash(CrashKind),
    /// Cache one of the attributes the client has.
    Cache(u32, Dir),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SStep {
    pub id: u32,
    pub c: usize,
    pub kind: SKind,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub net: Vec<NetFault>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub crash: Option<CrashAt>,
    #[serde(default)]
    pub jump_ms: i64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SPlan {
    pub seed: u64,
    pub cfg: Cfg,
    pub n: usize,
    /// Nobody writes while somebody else has something unsent: no merges.
    pub linear: bool,
    pub steps: Vec<SStep>,
}

// ---------------------------------------------------------------------------------------------
// The remote log.

type TxId = (E, BTreeSet<Change>);

#[derive(Clone)]
enum Req {
    Chunk(Uuid, String),
    Tx(Uuid, Uuid, Vec<Uuid>),
    Head(Uuid),
}

#[derive(Default)]
struct Remote {
    chunks: HashMap<Uuid, String>,
    txs: HashMap<Uuid, (Uuid, Vec<Uuid>)>,
    head: Uuid,
    /// Requests which have not arrived yet, and how many others come first.
    late: Vec<(u32, Req)>,
    /// Something the remote was told which it must never be told.
    wrong: Option<String>,
    requests: u64,
}

impl Remote {
    /// The transactions up to `to`, the oldest first.
    fn chain(&self, to: Uuid) -> Result<Vec<Uuid>, String> {
        let mut out = vec![];
        let mut at = to;
        while at != Uuid::nil() {
            match self.txs.get(&at) {
                None => return Err(format!("transaction {} was never put", at)),
                Some((p, _)) => {
                    if out.contains(&at) || out.len() > 10_000 {
                        return Err("the parents go round in a circle".to_string());
                    }
                    out.push(at);
                    at = *p;
                }
            }
        }
        out.reverse();
        Ok(out)
    }

    fn parts(&self, tx: &Uuid) -> Result<Vec<TxPart>, String> {
        let (_, chunks) = self.txs.get(tx).ok_or_else(|| format!("transaction {} was never put", tx))?;
        let mut out = vec![];
        for c in chunks {
            let s = self.chunks.get(c).ok_or_else(|| format!("chunk {} of transaction {} was never put", c, tx))?;
            out.push(serde_json::from_str(s).map_err(|e| format!("unreadable chunk: {}", e))?);
        }
        Ok(out)
    }

    fn tx(&self, tx: &Uuid) -> Result<TxId, String> {
        let ps = self.parts(tx)?;
        let id = ps.get(0).map(|p| p.tx).unwrap_or(0);
        let mut set = BTreeSet::new();
        for p in ps {
            if p.tx != id {
                return Err(format!("transaction {} has parts of both {} and {}", tx, id, p.tx));
            }
            if !set.insert((p.e, p.a, V::from_typed(&p.v), p.added)) {
                return Err(format!("transaction {} says one thing twice", tx));
            }
        }
        Ok((id, set))
    }

    fn descends(&self, x: Uuid, from: Uuid) -> bool {
        from == Uuid::nil() || self.chain(x).map_or(false, |c| c.contains(&from))
    }

    fn apply(&mut self, r: &Req) -> Result<(), String> {
        match r {
            Req::Chunk(u, s) => {
                self.chunks.insert(*u, s.clone());
            }
            Req::Tx(u, p, cs) => {
                self.txs.insert(*u, (*p, cs.clone()));
            }
            Req::Head(u) => {
                if !self.descends(*u, self.head) {
                    return Err("somebody else was faster".to_string());
                }
                // The head may only ever name transactions which are all there.
                let ok = self.chain(*u).and_then(|c| {
                    for t in &c {
                        self.tx(t)?;
                    }
                    Ok(())
                });
                if let Err(e) = ok {
                    self.wrong.get_or_insert(format!("the head is moved to {}, but {}", u, e));
                }
                self.head = *u;
            }
        }
        Ok(())
    }

    fn tick(&mut self) {
        self.requests += 1;
        let mut due = vec![];
        for l in self.late.iter_mut() {
            l.0 -= 1;
        }
        let mut i = 0;
        while i < self.late.len() {
            if self.late[i].0 == 0 {
                due.push(self.late.remove(i).1);
            } else {
                i += 1;
            }
        }
        for r in due {
            let _ = self.apply(&r);
        }
    }
}

/// One client's way to the remote.
struct Net {
    remote: Arc<Mutex<Remote>>,
    machine: String,
    faults: Vec<NetFault>,
    calls: u32,
    down: bool,
    rng: Rng,
    /// What went wrong on the way, and what the remote refused.
    fired: Vec<String>,
    refused: u32,
    log: Vec<String>,
}

type R<T> = public_traits::errors::Result<T>;

fn net_err<T>(s: &str) -> R<T> {
    Err(TolstoyError::BadRemoteState(format!("network: {}", s)).into())
}

enum Way {
    Go,
    Twice,
    /// Carried out, but nobody is told.
    Deaf,
    DieAfter,
    Fail,
    Late(u32),
}

impl Net {
    fn way(&mut self, what: &str) -> Way {
        sys::advance_ns(1_000_000 + self.rng.below(40_000_000) as i64);
        sys::yield_point();
        let n = self.calls;
        self.calls += 1;
        if self.log.len() < 400 {
            self.log.push(format!("    request {}: {}", n, what));
        }
        self.remote.lock().unwrap().tick();
        if self.down || vfs::is_dead(&self.machine) {
            return Way::Fail;
        }
        let f = match self.faults.iter().find(|f| f.nth == n) {
            Some(f) => f.kind,
            None => return Way::Go,
        };
        let name = match f {
            NetKind::Lost => "lost",
            NetKind::AckLost => "answer-lost",
            NetKind::Dup => "twice",
            NetKind::Late(_) => "late",
            NetKind::Outage => "outage",
            NetKind::Slow(_) => "slow",
            NetKind::DieBefore => "die-before",
            NetKind::DieAfter => "die-after",
        };
        vfs::count_injected(&format!("net.{}", name));
        self.fired.push(format!("{} at request {} ({})", name, n, what));
        match f {
            NetKind::Lost => Way::Fail,
            NetKind::AckLost => Way::Deaf,
            NetKind::Dup => Way::Twice,
            NetKind::Late(k) => Way::Late(k.max(1)),
            NetKind::Outage => {
                self.down = true;
                Way::Fail
            }
            NetKind::Slow(ms) => {
                sys::advance_ns(ms * 1_000_000);
                Way::Go
            }
            NetKind::DieBefore => {
                vfs::kill(&self.machine, CrashKind::Process);
                Way::Fail
            }
            NetKind::DieAfter => Way::DieAfter,
        }
    }

    fn put(&mut self, what: &str, r: Req) -> R<()> {
        let w = self.way(what);
        let mut rem = self.remote.lock().unwrap();
        let n = match w {
            Way::Fail => return net_err("no connection"),
            Way::Late(k) => {
                rem.late.push((k, r));
                return net_err("timed out");
            }
            Way::Twice => 2,
            _ => 1,
        };
        let mut res = Ok(());
        for _ in 0..n {
            res = rem.apply(&r);
        }
        drop(rem);
        match w {
            Way::Deaf => return net_err("timed out"),
            Way::DieAfter => {
                vfs::kill(&self.machine, CrashKind::Process);
                return net_err("dead");
            }
            _ => {}
        }
        match res {
            Ok(()) => Ok(()),
            Err(e) => {
                self.refused += 1;
                net_err(&e)
            }
        }
    }

    fn get<T, F: FnOnce(&Remote) -> Result<T, String>>(&mut self, what: &str, f: F) -> R<T> {
        match self.way(what) {
            Way::Go | Way::Twice => {}
            Way::DieAfter => {
                vfs::kill(&self.machine, CrashKind::Process);
                return net_err("dead");
            }
            _ => return net_err("no connection"),
        }
        let rem = self.remote.lock().unwrap();
        match f(&rem) {
            Ok(x) => Ok(x),
            Err(e) => {
                drop(rem);
                self.refused += 1;
                net_err(&e)
            }
        }
    }
}

impl GlobalTransactionLog for Net {
    fn head(&self) -> R<Uuid> {
        // The trait asks through a shared reference.
        let me = self as *const Net as *mut Net;
        unsafe { (*me).get("head?", |r| Ok(r.head)) }
    }
    fn transactions_after(&self, tx: &Uuid) -> R<Vec<Tx>> {
        let me = self as *const Net as *mut Net;
        let tx = *tx;
        unsafe {
            (*me).get("transactions?", |r| {
                let c = r.chain(r.head)?;
                let from = if tx == Uuid::nil() {
                    0
                } else {
                    1 + c.iter().position(|x| *x == tx).ok_or_else(|| format!("{} is not in the log", tx))?
                };
                let mut out = vec![];
                for t in &c[from..] {
                    out.push(Tx { tx: *t, parts: r.parts(t)? });
                }
                Ok(out)
            })
        }
    }
    fn set_head(&mut self, tx: &Uuid) -> R<()> {
        self.put("head!", Req::Head(*tx))
    }
    fn put_transaction(&mut self, tx: &Uuid, parent: &Uuid, chunks: &[Uuid]) -> R<()> {
        self.put("transaction!", Req::Tx(*tx, *parent, chunks.to_vec()))
    }
    fn put_chunk(&mut self, c: &Uuid, payload: &TxPart) -> R<()> {
        let s = serde_json::to_string(payload).map_err(|e| TolstoyError::BadRemoteState(format!("{}", e)))?;
        self.put("chunk!", Req::Chunk(*c, s))
    }
}

// ---------------------------------------------------------------------------------------------
// Clients.

type Lines = BTreeMap<i64, BTreeMap<E, BTreeSet<Change>>>;

/// What a client's disk holds.
#[derive(Clone)]
struct Disk {
    datoms: BTreeMap<(E, E, V), E>,
    log: BTreeMap<E, BTreeSet<Change>>,
    known: Uuid,
    tu: BTreeMap<E, Uuid>,
    lines: Lines,
    doubled: usize,
}

#[derive(Clone)]
struct State {
    m: Model,
    h: Handles,
    known: Uuid,
    tu: BTreeMap<E, Uuid>,
    lines: Lines,
}

struct Client {
    name: String,
    store: Option<Store>,
    s: State,
    maybe: Vec<State>,
    faulted: bool,
    /// A merge has freed ids which are in use (see the known findings).
    loose: bool,
    /// It cannot sync any more, for a documented reason.
    stuck: bool,
    cached: BTreeMap<String, Dir>,
}

fn read_disk(c: &rusqlite::Connection) -> Result<Disk, String> {
    let d = dump(c)?;
    let f = || -> Result<(Uuid, BTreeMap<E, Uuid>, Lines), Box<dyn std::error::Error>> {
        let n: i64 = c.query_row(
            "SELECT COUNT(*) FROM sqlite_master WHERE name = 'tolstoy_metadata'",
            rusqlite::params![],
            |r| r.get(0),
        )?;
        let mut tu = BTreeMap::new();
        let mut known = Uuid::nil();
        if n > 0 {
            let b: Vec<u8> = c.query_row(
                "SELECT value FROM tolstoy_metadata WHERE key = 'remote_head'",
                rusqlite::params![],
                |r| r.get(0),
            )?;
            known = Uuid::from_slice(&b)?;
            let mut st = c.prepare("SELECT tx, uuid FROM tolstoy_tu")?;
            let mut rows = st.query(rusqlite::params![])?;
            while let Some(r) = rows.next()? {
                let b: Vec<u8> = r.get(1)?;
                tu.insert(r.get(0)?, Uuid::from_slice(&b)?);
            }
        }
        let mut lines: Lines = BTreeMap::new();
        for (tl, tx, ch) in other_lines(c)? {
            lines.entry(tl).or_default().entry(tx).or_default().insert(ch);
        }
        Ok((known, tu, lines))
    };
    let (known, tu, lines) = f().map_err(|e| format!("{}", e))?;
    Ok(Disk { datoms: d.datoms, log: d.log, known, tu, lines, doubled: d.dup_datoms + d.dup_log })
}

fn fold(log: &BTreeMap<E, BTreeSet<Change>>) -> Model {
    let mut m = Model::default();
    for (tx, cs) in log {
        m.replay(*tx, cs);
        m.log.insert(*tx, Arc::new(cs.clone()));
    }
    m.reindex();
    m
}

/// The first transaction id which is certainly free. Ids skipped by whatever was not kept may be
/// handed out after all, once the store is opened anew.
fn next_tx(m: &Model) -> E {
    m.log.keys().last().map_or(TX0, |t| t + 1)
}

fn log_set(m: &Model) -> BTreeMap<E, BTreeSet<Change>> {
    m.log.iter().map(|(k, v)| (*k, (**v).clone())).collect()
}

/// What a merge must keep of the transactions it sets aside, and what it may make of them. Merging is
/// documented to know entities by their unique attributes only, and not to cope with changes of the
/// schema; for the rest, every entity which said something says it still, and nothing else is said.
fn kept(
    aside: &BTreeMap<E, BTreeSet<Change>>,
    theirs: &[Change],
    old: &Model,
    new: &Model,
    suffix: &[E],
) -> Result<(), String> {
    let schema = |x: &Change| x.1 < USER0 && x.1 != DB_TX_INSTANT;
    if theirs.iter().any(schema) || aside.values().flatten().any(schema) {
        return Ok(());
    }
    let plain = |x: &Change| x.3 && x.1 != DB_TX_INSTANT && !matches!(x.2, V::Ref(_));
    // What each entity said in each transaction, and what of it is still so.
    let mut groups: BTreeMap<BTreeSet<(E, V)>, usize> = BTreeMap::new();
    for cs in aside.values() {
        let mut es: BTreeMap<E, BTreeSet<(E, V)>> = BTreeMap::new();
        let mut unique = BTreeSet::new();
        for x in cs.iter().filter(|x| x.3) {
            if new.attrs.get(&x.1).map_or(true, |d| d.unique.is_some()) {
                unique.insert(x.0);
            }
            if plain(x) && old.datoms.contains_key(&(x.0, x.1, x.2.clone())) {
                es.entry(x.0).or_default().insert((x.1, x.2.clone()));
            }
        }
        for (e, s) in es {
            if !unique.contains(&e) {
                *groups.entry(s).or_insert(0) += 1;
            }
        }
    }
    let mut now: BTreeMap<E, BTreeSet<(E, V)>> = BTreeMap::new();
    for (e, a, v) in new.datoms.keys() {
        now.entry(*e).or_default().insert((*a, v.clone()));
    }
    for (s, n) in groups {
        let k = now.values().filter(|x| s.is_subset(x)).count();
        if k < n {
            let (a, v) = s.iter().next().unwrap();
            return Err(format!("of {} entities which said {} {} and so on, {} are left", n, a, v.edn(), k));
        }
    }
    // Each rebased transaction stems from one which was set aside, in their order.
    let mut left = aside.values();
    for tx in suffix {
        let said: BTreeSet<(E, V)> =
            new.log[tx].iter().filter(|x| plain(x)).map(|x| (x.1, x.2.clone())).collect();
        let found = left.any(|cs| {
            let s: BTreeSet<(E, V)> = cs.iter().filter(|x| plain(x)).map(|x| (x.1, x.2.clone())).collect();
            said.is_subset(&s)
        });
        if !found {
            return Err(format!("transaction {} says what nobody said", tx));
        }
    }
    Ok(())
}

/// One pass of the syncer.
struct Round {
    report: SyncReport,
    /// The remote's head when it began.
    head0: Uuid,
    disk: Disk,
    next: (E, E),
}

enum Stop {
    Done,
    /// The syncer, or the transaction around it, failed: nothing may have changed.
    Failed(String),
    /// The commit failed: who knows.
    Commit(String),
    Panic(String),
    Dead,
}

fn rounds(store: &mut Store, net: &mut Net) -> (Vec<Round>, Stop) {
    let mut out = vec![];
    for _ in 0..6 {
        let head0 = net.remote.lock().unwrap().head;
        let mut report = None;
        let r = guard(|| -> Result<Result<(), String>, String> {
            let mut ip = store.begin_transaction().map_err(|e| text(&e))?;
            report = Some(Syncer::sync(&mut ip, net).map_err(|e| text(&e))?);
            Ok(ip.commit().map_err(|e| text(&e)))
        });
        if vfs::is_dead(&net.machine) {
            return (out, Stop::Dead);
        }
        match r {
            Err(p) => return (out, Stop::Panic(panic_text(&p))),
            Ok(Err(e)) => return (out, Stop::Failed(e)),
            Ok(Ok(Err(e))) => return (out, Stop::Commit(e)),
            Ok(Ok(Ok(()))) => {}
        }
        let seen = vfs::paused(|| {
            let d = read_disk(store.sqlite_mut())?;
            let ip = store.begin_transaction().map_err(|e| text(&e))?;
            let g = |p: &str| ip.partition_map.get(p).map(|x| x.next_entid()).unwrap_or(-1);
            Ok::<_, String>((d, (g(":db.part/user"), g(":db.part/tx"))))
        });
        let (disk, next) = match seen {
            Ok(x) => x,
            Err(_) if vfs::is_dead(&net.machine) => return (out, Stop::Dead),
            Err(e) => return (out, Stop::Panic(format!("unreadable after a sync: {}", e))),
        };
        let report = report.unwrap();
        let more = report == SyncReport::Merge(SyncFollowup::FullSync);
        out.push(Round { report, head0, disk, next });
        if !more {
            return (out, Stop::Done);
        }
    }
    (out, Stop::Failed("no end of follow-ups".to_string()))
}

pub struct Sync {
    plan: SPlan,
    remote: Arc<Mutex<Remote>>,
    cl: Vec<Client>,
    /// The names of entities as of each transaction in the remote log.
    names: HashMap<Uuid, Handles>,
    pub cov: Cov,
    pub trace: Vec<String>,
    verbose: bool,
    step: u32,
    /// Violations which do not keep the run from going on.
    soft: Vec<Violation>,
}

pub fn machine(i: usize) -> String {
    format!("m{}", i)
}

impl Sync {
    pub fn new(plan: SPlan, verbose: bool) -> Sync {
        Sync {
            plan,
            remote: Arc::new(Mutex::new(Remote::default())),
            cl: vec![],
            names: HashMap::new(),
            cov: Cov::default(),
            trace: vec![],
            verbose,
            step: 0,
            soft: vec![],
        }
    }

    fn bad<T>(&self, tag: &str, what: String) -> Res<T> {
        Err(Violation { tag: tag.to_string(), what, step: self.step })
    }

    fn say(&mut self, s: String) {
        if self.verbose {
            self.trace.push(s);
        }
    }

    fn open(&mut self, c: usize) -> Result<(), String> {
        let path = format!("{}/db", self.cl[c].name);
        match guard(|| Store::open(&path)) {
            Ok(Ok(mut s)) => {
                if let Some(n) = self.plan.cfg.var_limit {
                    s.sqlite_mut().set_limit(rusqlite::limits::Limit::SQLITE_LIMIT_VARIABLE_NUMBER, n);
                }
                self.cl[c].store = Some(s);
                self.cl[c].cached.clear();
                Ok(())
            }
            Ok(Err(e)) => Err(text(&e)),
            Err(p) => Err(format!("PANIC {}", panic_text(&p))),
        }
    }

    pub fn run(&mut self) -> Res<()> {
        for c in 0..self.plan.n {
            self.cl.push(Client {
                name: machine(c),
                store: None,
                s: State {
                    m: crate::golden(),
                    h: Handles::new(),
                    known: Uuid::nil(),
                    tu: BTreeMap::new(),
                    lines: BTreeMap::new(),
                },
                maybe: vec![],
                faulted: false, loose: false, stuck: false, cached: BTreeMap::new() });
            if let Err(e) = self.open(c) {
                return self.bad("reopen:refused", format!("a fresh store does not open: {}", e));
            }
            let d = match vfs::paused(|| dump(self.cl[c].store.as_mut().unwrap().sqlite_mut())) {
                Ok(d) => d,
                Err(e) => return self.bad("bootstrap", e),
            };
            self.cl[c].s.m = model_of(&d);
        }
        for s in self.plan.steps.clone() {
            self.one(&s)?;
        }
        self.finish()
    }

    pub fn abandon(&mut self) {
        for c in self.cl.iter_mut() {
            vfs::disarm(&c.name);
            if let Some(s) = c.store.take() {
                let _ = guard(move || drop(s));
            }
        }
        let _ = sys::quiesce();
    }

    /// Whether the client has transactions the remote does not have, as far as it knows.
    fn ahead(&self, c: usize) -> bool {
        let s = &self.cl[c].s;
        match s.m.log.keys().last() {
            Some(t) => s.m.log.len() > 1 && !s.tu.contains_key(t),
            None => false,
        }
    }

    fn one(&mut self, s: &SStep) -> Res<()> {
        self.step = s.id;
        if s.c >= self.plan.n {
            return Ok(());
        }
        if s.jump_ms != 0 {
            sys::jump_wall_ns(s.jump_ms * 1_000_000);
            self.cov.hit("clock.jump");
        }
        let mut c = s.c;
        if let (SKind::Write(_), true) = (&s.kind, self.plan.linear) {
            // Whoever has something unsent writes; otherwise whoever writes catches up first.
            match (0..self.plan.n).find(|x| self.ahead(*x)) {
                Some(d) => c = d,
                None => {
                    let head = self.remote.lock().unwrap().head;
                    if self.cl[c].s.known != head {
                        self.sync(c, &[])?;
                        if self.cl[c].s.known != self.remote.lock().unwrap().head {
                            return Ok(());
                        }
                    }
                }
            }
        }
        self.say(format!(
            "step {}: client {}: {}{}{}{}",
            s.id,
            c,
            match &s.kind {
                SKind::Write(_) => "write".to_string(),
                k => format!("{:?}", k),
            },
            if s.net.is_empty() { String::new() } else { format!(" network {:?}", s.net) },
            if s.faults.is_empty() { String::new() } else { format!(" faults {:?}", s.faults) },
            match &s.crash {
                None => String::new(),
                Some(c) => format!(" crash {:?} at i/o {}", c.kind, c.nth),
            }
        ));
        if self.cl[c].store.is_none() {
            vfs::disarm(&self.cl[c].name);
            if let Err(e) = self.open(c) {
                return self.bad("reopen:refused", format!("the store does not open: {}", e));
            }
        }
        if self.cl[c].loose && matches!(s.kind, SKind::Write(_)) {
            // Whatever it would create now would get the ids of entities which exist. Opened anew, it
            // knows better.
            self.close(c);
            self.cl[c].loose = false;
            self.reopened(c, "reopen")?;
            if self.cl[c].store.is_none() || vfs::is_dead(&self.cl[c].name) {
                return Ok(());
            }
        }
        for d in 0..self.plan.n {
            if !vfs::is_dead(&self.cl[d].name) {
                vfs::begin_step(&self.cl[d].name, &[], None);
            }
        }
        let name = self.cl[c].name.clone();
        vfs::begin_step(&name, &s.faults, s.crash.as_ref());
        let r = match &s.kind {
            SKind::Write(parts) => self.write(c, parts),
            SKind::Sync => self.sync(c, &s.net),
            SKind::Race(others) => self.race(c, others, &s.net),
            SKind::Reopen => {
                self.close(c);
                self.reopened(c, "reopen")
            }
            SKind::Crash(k) => {
                vfs::kill(&name, *k);
                Ok(())
            }
            SKind::Cache(k, dir) => self.cache(c, *k, *dir),
        };
        let (_, fired, _) = vfs::end_step(&name);
        for f in &fired {
            self.say(format!("    injected: {}", f));
        }
        if !fired.is_empty() {
            self.cl[c].faulted = true;
        }
        r?;
        self.remote_ok()?;
        for d in 0..self.plan.n {
            if vfs::is_dead(&self.cl[d].name) {
                self.crashed(d)?;
            }
        }
        for d in 0..self.plan.n {
            self.sweep(d)?;
        }
        Ok(())
    }

    fn cache(&mut self, c: usize, k: u32, d: Dir) -> Res<()> {
        let a = {
            let m = &self.cl[c].s.m;
            let mut names: Vec<&String> = m.idents.iter().filter(|(_, e)| **e >= USER0 && m.attrs.contains_key(e)).map(|x| x.0).collect();
            names.sort();
            if names.is_empty() {
                return Ok(());
            }
            names[k as usize % names.len()].clone()
        };
        let mut store = match self.cl[c].store.take() {
            Some(s) => s,
            None => return Ok(()),
        };
        let key = kw(&a);
        let r = guard(|| store.cache(&key, cache_direction(d)));
        self.cl[c].store = Some(store);
        match r {
            Ok(Ok(())) => {
                self.cl[c].cached.insert(a, d);
                self.cov.hit("cache.registered");
                Ok(())
            }
            _ if vfs::fired(&self.cl[c].name) > 0 || vfs::is_dead(&self.cl[c].name) => Ok(()),
            Ok(Err(e)) => self.bad("refused:cache", format!("client {} cannot cache {}: {}", c, a, text(&e))),
            Err(p) => self.bad("panic:cache", format!("client {} caching {}: {}", c, a, panic_text(&p))),
        }
    }

    /// Ask for what the caches hold.
    fn sweep(&mut self, c: usize) -> Res<()> {
        let store = match self.cl[c].store.take() {
            Some(s) => s,
            None => return Ok(()),
        };
        let mut r = Ok(());
        {
            let cl = &self.cl[c];
            // What has been set aside is what a cache is the likeliest to remember.
            let extra: Vec<Change> = cl.s.lines.iter().rev().flat_map(|x| x.1.values().flatten().cloned()).take(60).collect();
            let schema = store.conn().current_schema();
            for q in sweep_queries(&cl.s.m, &cl.cached, &extra, u64::from(self.step)) {
                let a = vfs::paused(|| guard(|| ask(&store, &schema, &cl.s.m, &cl.s.h, &q, false)));
                self.cov.hit("cache.swept");
                r = match a {
                    Ok(Answer::Wrong(s)) => Err(("query:cached", s)),
                    Ok(Answer::Failed(s)) => Err(("query:cached:refused", s)),
                    Err(p) => Err(("panic:query", panic_text(&p))),
                    _ => Ok(()),
                };
                if r.is_err() {
                    break;
                }
            }
        }
        self.cl[c].store = Some(store);
        match r {
            Ok(()) => Ok(()),
            Err((t, s)) => self.bad(t, format!("client {}: {}", c, s)),
        }
    }

    fn remote_ok(&self) -> Res<()> {
        match &self.remote.lock().unwrap().wrong {
            Some(w) => self.bad("remote:incomplete", w.clone()),
            None => Ok(()),
        }
    }

    fn close(&mut self, c: usize) {
        if let Some(s) = self.cl[c].store.take() {
            let _ = guard(move || drop(s));
        }
    }

    fn crashed(&mut self, c: usize) -> Res<()> {
        self.cov.hit("crashes");
        self.close(c);
        let _ = sys::quiesce();
        let mut rng = Rng::sub(self.plan.seed, 0xc4a5_0000 + u64::from(self.step) + ((c as u64) << 32));
        let name = self.cl[c].name.clone();
        let how = vfs::reboot(&name, &mut rng, self.plan.cfg.sector);
        self.say(format!("    client {} rebooted: {}", c, how));
        self.reopened(c, "crash")
    }

    /// After a restart: the acknowledged state, or one an unreported commit led to.
    fn reopened(&mut self, c: usize, tag: &str) -> Res<()> {
        if let Err(e) = self.open(c) {
            if vfs::is_dead(&self.cl[c].name) {
                return Ok(());
            }
            if vfs::fired(&self.cl[c].name) == 0 {
                return self.bad("reopen:refused", format!("client {} does not open: {}", c, e));
            }
            vfs::disarm(&self.cl[c].name);
            if let Err(e) = self.open(c) {
                return self.bad("reopen:refused", format!("client {} does not open once faults stop: {}", c, e));
            }
        }
        if vfs::is_dead(&self.cl[c].name) {
            return Ok(());
        }
        self.recover(c, tag)
    }

    fn recover(&mut self, c: usize, tag: &str) -> Res<()> {
        let d = match self.cl[c].store.as_mut() {
            None => return Ok(()),
            Some(s) => vfs::paused(|| {
                if !s.sqlite_mut().is_autocommit() {
                    let _ = s.q_once("[:find ?e . :where [?e :db/ident :db/ident]]", None);
                }
                read_disk(s.sqlite_mut())
            }),
        };
        let d = match d {
            Ok(d) => d,
            Err(e) => return self.bad(&format!("{}:unreadable", tag), e),
        };
        let same = |s: &State| {
            s.known == d.known && s.tu == d.tu && s.lines == d.lines && log_set(&s.m) == d.log && s.m.datoms == d.datoms
        };
        let old = self.cl[c].s.clone();
        if same(&old) {
            self.cov.hit(&format!("{}.recovered.acknowledged", tag));
        } else if let Some(x) = self.cl[c].maybe.iter().rev().find(|x| same(x)).cloned() {
            self.cov.hit(&format!("{}.recovered.interrupted", tag));
            self.cl[c].s = x;
            self.cl[c].maybe.push(old);
        } else if d.known != old.known {
            // A sync whose commit was never acknowledged: it must be all there.
            let s = self.synced(c, &old, &d, None, tag)?;
            self.cov.hit(&format!("{}.recovered.synced", tag));
            self.cl[c].s = s;
            self.cl[c].maybe.push(old);
        } else {
            let mut why = vec![];
            let x = Dump { datoms: d.datoms.clone(), dup_datoms: 0, log: d.log.clone(), dup_log: 0, other_timelines: 0 };
            why.extend(diff_log(&x, &old.m));
            why.extend(diff_facts(&x, &old.m));
            if d.tu != old.tu {
                why.push("the table of uploaded transactions differs".to_string());
            }
            if d.lines != old.lines {
                why.push("the transactions set aside differ".to_string());
            }
            return self.bad(
                &format!("{}:state", tag),
                format!("client {} is neither as it was nor as an interrupted commit would have it: {}", c, first(&why)),
            );
        }
        self.memory(c, tag)
    }

    /// What the store has in memory, against the model.
    fn memory(&mut self, c: usize, tag: &str) -> Res<()> {
        let cl = &mut self.cl[c];
        let m = &cl.s.m;
        let store = match cl.store.as_mut() {
            Some(s) => s,
            None => return Ok(()),
        };
        let r = vfs::paused(|| {
            if !store.sqlite_mut().is_autocommit() {
                let _ = store.q_once("[:find ?e . :where [?e :db/ident :db/ident]]", None);
                if !store.sqlite_mut().is_autocommit() {
                    return Err(("left-open", "a transaction is still open".to_string()));
                }
            }
            let ds = diff_schema(&store.conn().current_schema(), m);
            if !ds.is_empty() {
                return Err(("schema", first(&ds)));
            }
            match store.begin_transaction() {
                Err(e) => Err(("refused", text(&e))),
                Ok(ip) => {
                    let g = |p: &str| ip.partition_map.get(p).map(|x| x.next_entid()).unwrap_or(-1);
                    Ok((g(":db.part/user"), g(":db.part/tx")))
                }
            }
        });
        match r {
            Err((t, e)) => self.bad(&format!("{}:{}", tag, t), format!("client {}: {}", c, e)),
            Ok((u, t)) => {
                if (u < m.floor_user() && !cl.loose) || t < next_tx(m) {
                    let what = format!(
                        "client {} would next hand out {} and {}, but {} and {} are the first free ones",
                        c,
                        u,
                        t,
                        m.floor_user(),
                        next_tx(m)
                    );
                    return self.bad(&format!("{}:ids", tag), what);
                }
                self.cl[c].s.m.next_user = u;
                self.cl[c].s.m.next_tx = t;
                Ok(())
            }
        }
    }

    // -----------------------------------------------------------------------------------------

    fn write(&mut self, c: usize, parts: &[Vec<Op>]) -> Res<()> {
        let mut store = match self.cl[c].store.take() {
            Some(s) => s,
            None => return Ok(()),
        };
        let r = self.write_in(c, &mut store, parts);
        self.cl[c].store = Some(store);
        match r? {
            None => {
                if !vfs::is_dead(&self.cl[c].name) {
                    // Nothing was committed: nothing may have changed.
                    self.unchanged(c, "abandon")?;
                }
            }
            Some((m, h, ok)) => {
                let old = self.cl[c].s.clone();
                let new = State { m, h, ..old };
                if ok {
                    self.cov.hit("commits");
                    self.cl[c].s = new;
                    self.cl[c].maybe.clear();
                } else {
                    self.cl[c].maybe.push(new);
                }
            }
        }
        Ok(())
    }

    fn unchanged(&mut self, c: usize, tag: &str) -> Res<()> {
        let d = match self.cl[c].store.as_mut() {
            None => return Ok(()),
            Some(s) => vfs::paused(|| {
                if !s.sqlite_mut().is_autocommit() {
                    let _ = s.q_once("[:find ?e . :where [?e :db/ident :db/ident]]", None);
                }
                read_disk(s.sqlite_mut())
            }),
        };
        let d = match d {
            Ok(d) => d,
            Err(e) => return self.bad(&format!("{}:unreadable", tag), e),
        };
        let s = &self.cl[c].s;
        let x = Dump { datoms: d.datoms.clone(), dup_datoms: d.doubled, log: d.log.clone(), dup_log: 0, other_timelines: 0 };
        let mut why = diff_log(&x, &s.m);
        why.extend(diff_facts(&x, &s.m));
        if d.known != s.known {
            why.push("the known remote head has moved".to_string());
        }
        if d.tu != s.tu {
            why.push("the table of uploaded transactions differs".to_string());
        }
        if d.lines != s.lines {
            why.push("the transactions set aside differ".to_string());
        }
        if !why.is_empty() {
            return self.bad(&format!("{}:state", tag), format!("client {} has changed: {}", c, first(&why)));
        }
        self.memory(c, tag)
    }

    /// None: nothing was committed. Otherwise the state it leads to, and whether it was acknowledged.
    fn write_in(&mut self, c: usize, store: &mut Store, parts: &[Vec<Op>]) -> Res<Option<(Model, Handles, bool)>> {
        let name = self.cl[c].name.clone();
        let mut cur = Cur { m: self.cl[c].s.m.clone(), h: self.cl[c].s.h.clone(), txs: vec![], wrote: false };
        let mut ip = match guard(|| store.begin_transaction()) {
            Ok(Ok(ip)) => ip,
            Ok(Err(e)) => {
                if vfs::fired(&name) > 0 || vfs::is_dead(&name) {
                    return Ok(None);
                }
                return self.bad("refused:begin", format!("cannot begin a transaction: {}", text(&e)));
            }
            Err(p) => {
                if vfs::is_dead(&name) {
                    return Ok(None);
                }
                return self.bad("panic:begin", panic_text(&p));
            }
        };
        let step = self.step;
        let faulted = self.cl[c].faulted;
        for ops in parts {
            let ops: Vec<Op> = ops.iter().filter(|o| o.known(&cur.h)).cloned().collect();
            if ops.is_empty() {
                continue;
            }
            let mut j = Judge {
                cov: &mut self.cov,
                trace: &mut self.trace,
                verbose: self.verbose,
                step,
                machine: &name,
                recovering: faulted,
            };
            let expect = match j.expect(&cur, &ops) {
                Some(x) => x,
                None => continue,
            };
            let bad = expect.is_err();
            let edn = ops_edn(&ops, &cur.h);
            if j.verbose {
                j.trace.push(format!("    transact {}", edn.replace('\n', " ")));
            }
            let w0 = sys::wall_ns();
            let got = match guard(|| ip.transact(edn.as_str()).map_err(|e| text(&e))) {
                Ok(x) => x,
                Err(p) => {
                    if vfs::is_dead(&name) {
                        return Ok(None);
                    }
                    return self.bad("panic:transact", format!("transact {}: {}", edn.replace('\n', " "), panic_text(&p)));
                }
            };
            let w1 = sys::wall_ns();
            let failed = got.is_err();
            j.outcome(&mut cur, &ops, expect, got, (w0, w1), &ip.transaction, true)?;
            if vfs::is_dead(&name) {
                return Ok(None);
            }
            if bad || failed {
                // A failed transact leaves the transaction unusable.
                drop(ip);
                return Ok(None);
            }
            let g = |p: &str| ip.partition_map.get(p).map(|x| x.next_entid()).unwrap_or(-1);
            if g(":db.part/user") < cur.m.next_user {
                return self.bad("ids", format!("next id is {} and not {}", g(":db.part/user"), cur.m.next_user));
            }
            cur.m.next_user = g(":db.part/user");
        }
        if !cur.wrote {
            drop(ip);
            return Ok(None);
        }
        let r = guard(|| ip.commit().map_err(|e| text(&e)));
        if vfs::is_dead(&name) {
            return Ok(Some((cur.m, cur.h, false)));
        }
        match r {
            Ok(Ok(())) => Ok(Some((cur.m, cur.h, true))),
            Ok(Err(e)) => {
                if vfs::fired(&name) == 0 {
                    return self.bad("refused:commit", format!("commit failed: {}", e));
                }
                Ok(Some((cur.m, cur.h, false)))
            }
            Err(p) => self.bad("panic:commit", panic_text(&p)),
        }
    }

    // -----------------------------------------------------------------------------------------

    fn net(&self, c: usize, faults: &[NetFault]) -> Net {
        Net {
            remote: self.remote.clone(),
            machine: self.cl[c].name.clone(),
            faults: faults.to_vec(),
            calls: 0,
            down: false,
            rng: Rng::sub(self.plan.seed, mix(u64::from(self.step), c as u64 + 77)),
            fired: vec![],
            refused: 0,
            log: vec![],
        }
    }

    fn sync(&mut self, c: usize, faults: &[NetFault]) -> Res<()> {
        let mut net = self.net(c, faults);
        let mut store = match self.cl[c].store.take() {
            Some(s) => s,
            None => return Ok(()),
        };
        let (rs, stop) = rounds(&mut store, &mut net);
        self.cl[c].store = Some(store);
        self.judge(c, rs, stop, net)
    }

    fn race(&mut self, c: usize, others: &[usize], faults: &[NetFault]) -> Res<()> {
        let mut who = vec![c];
        for o in others {
            if *o < self.plan.n && !who.contains(o) {
                if self.cl[*o].store.is_none() {
                    vfs::disarm(&self.cl[*o].name);
                    if let Err(e) = self.open(*o) {
                        return self.bad("reopen:refused", format!("the store does not open: {}", e));
                    }
                }
                who.push(*o);
            }
        }
        let mut hs = vec![];
        for w in who {
            let mut net = self.net(w, if w == c { faults } else { &[] });
            let mut store = match self.cl[w].store.take() {
                Some(s) => s,
                None => continue,
            };
            // Waiting on a channel is something the scheduler sees; joining a thread is not.
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let (rs, stop) = rounds(&mut store, &mut net);
                let _ = tx.send((store, rs, stop, net));
            });
            hs.push((w, rx));
        }
        let mut done = vec![];
        for (w, h) in hs {
            match h.recv() {
                Ok((store, rs, stop, net)) => {
                    self.cl[w].store = Some(store);
                    done.push((w, rs, stop, net));
                }
                Err(_) => return self.bad("panic:sync", "a syncing thread died".to_string()),
            }
        }
        self.cov.hit("sync.races");
        for (w, rs, stop, net) in done {
            self.judge(w, rs, stop, net)?;
        }
        Ok(())
    }

    fn judge(&mut self, c: usize, rs: Vec<Round>, stop: Stop, net: Net) -> Res<()> {
        let name = self.cl[c].name.clone();
        if self.verbose {
            let l = net.log.clone();
            self.trace.extend(l.into_iter().filter(|x| !x.contains("chunk")));
            for f in &net.fired {
                self.trace.push(format!("    network: {}", f));
            }
        }
        self.cov.hit("syncs");
        for r in rs {
            let old = self.cl[c].s.clone();
            if self.verbose {
                self.trace.push(format!("    client {}: {:?}; {} transactions", c, r.report, r.disk.log.len()));
            }
            self.cov.hit(&format!(
                "sync.{}",
                match r.report {
                    SyncReport::NoChanges => "nothing",
                    SyncReport::RemoteFastForward => "sent",
                    SyncReport::LocalFastForward => "received",
                    SyncReport::Merge(SyncFollowup::None) => "merged-away",
                    SyncReport::Merge(SyncFollowup::FullSync) => "merged",
                    SyncReport::BadRemoteState(_) => "bad-remote",
                    SyncReport::IncompatibleRemoteBootstrap(..) => "incompatible",
                }
            ));
            match &r.report {
                SyncReport::BadRemoteState(s) => {
                    return self.bad("sync:refused", format!("client {} calls the remote's state bad: {}", c, s))
                }
                SyncReport::IncompatibleRemoteBootstrap(a, b) => {
                    return self.bad("sync:refused", format!("client {} calls the remote incompatible: {} {}", c, a, b))
                }
                _ => {}
            }
            let s = self.synced(c, &old, &r.disk, Some(&r.report), "sync")?;
            // It must have caught up with what was there when it began.
            {
                let rem = self.remote.lock().unwrap();
                if !rem.descends(r.disk.known, r.head0) {
                    return self.bad(
                        "sync:behind",
                        format!("client {} says {:?} but has not caught up with the remote", c, r.report),
                    );
                }
            }
            self.cl[c].s = s;
            self.cl[c].stuck = false;
            if r.report != SyncReport::NoChanges {
                // Whatever was left of an interrupted commit has been overwritten.
                self.cl[c].maybe.clear();
            }
            let (u, t) = r.next;
            let m = &self.cl[c].s.m;
            if (u < m.floor_user() && !self.cl[c].loose) || t < next_tx(m) {
                let merge = matches!(r.report, SyncReport::Merge(_)) && t >= next_tx(m);
                let v = Violation {
                    step: self.step,
                    tag: "sync:ids".to_string(),
                    what: format!(
                        "client {} after {:?} would next hand out {} and {}, but {} and {} are the first free ones",
                        c,
                        r.report,
                        u,
                        t,
                        m.floor_user(),
                        next_tx(m)
                    ),
                };
                if !merge {
                    return Err(v);
                }
                self.cl[c].loose = true;
                self.soft.push(v);
            }
        }
        let trouble = !net.fired.is_empty() || net.refused > 0 || vfs::fired(&name) > 0;
        match stop {
            Stop::Done => {
                self.memory(c, "sync")?;
                if !trouble && self.ahead(c) {
                    return self.bad("sync:unsent", format!("client {} has synced, but something is still unsent", c));
                }
            }
            Stop::Dead => {}
            Stop::Panic(p) => return self.bad("panic:sync", format!("client {}: {}", c, p)),
            Stop::Failed(e) => {
                self.say(format!("    client {}: sync failed: {}", c, e));
                if !trouble {
                    match self.excuse(c, &e) {
                        Some(x) => {
                            self.cl[c].stuck = true;
                            self.cov.hit(&format!("sync.excused.{}", x))
                        }
                        None => return self.bad("sync:refused", format!("client {} cannot sync: {}", c, e)),
                    }
                }
                self.cov.hit("sync.failed");
                self.unchanged(c, "syncfail")?;
            }
            Stop::Commit(e) => {
                self.say(format!("    client {}: commit failed: {}", c, e));
                if !trouble {
                    return self.bad("refused:commit", format!("client {} cannot commit a sync: {}", c, e));
                }
                self.cov.hit("sync.commit-failed");
                // Find out by asking the disk.
                self.close(c);
                vfs::disarm(&name);
                if !vfs::is_dead(&name) {
                    self.reopened(c, "syncfail")?;
                }
            }
        }
        Ok(())
    }

    /// What the unsent transactions of a client hold.
    fn unsent(&self, c: usize) -> Vec<Change> {
        let s = &self.cl[c].s;
        let n = self.remote.lock().unwrap().chain(s.known).map(|x| x.len().max(1)).unwrap_or(1);
        s.m.log.values().skip(n).flat_map(|v| v.iter().cloned()).collect()
    }

    /// Merging is documented not to cope with changes of the schema, and with contradictory claims
    /// about who somebody is.
    fn excuse(&self, c: usize, e: &str) -> Option<&'static str> {
        let mine = self.unsent(c);
        if mine.is_empty() {
            return None;
        }
        let theirs: Vec<Change> = {
            let rem = self.remote.lock().unwrap();
            let n = rem.chain(self.cl[c].s.known).map(|x| x.len()).unwrap_or(0);
            let all = rem.chain(rem.head).unwrap_or_default();
            all.iter().skip(n.max(1)).filter_map(|u| rem.tx(u).ok()).flat_map(|t| t.1).collect()
        };
        let schema = mine.iter().chain(&theirs).any(|x| x.1 < USER0 && x.1 != DB_TX_INSTANT);
        if schema && (e.contains("schema") || e.contains("not permitted") || e.contains("no ident found for entid") || e.contains("is not the expected Mentat value type")) {
            return Some("schema");
        }
        let m = &self.cl[c].s.m;
        let unique = schema || mine.iter().any(|x| m.attrs.get(&x.1).map_or(false, |d| d.unique.is_some()));
        if unique && (e.contains("conflicting upserts") || e.contains("cardinality conflicts") || e.contains("not already present")) {
            return Some("conflict");
        }
        None
    }

    /// What a completed sync must have left: the remote's transactions, word for word, and after
    /// them what is not sent yet.
    fn synced(&mut self, c: usize, old: &State, d: &Disk, report: Option<&SyncReport>, tag: &str) -> Res<State> {
        let t = |x: &str| format!("{}:{}", tag, x);
        if d.doubled > 0 {
            return self.bad(&t("facts"), format!("client {} stores {} facts twice", c, d.doubled));
        }
        let (ids, chain): (Vec<Uuid>, Vec<TxId>) = {
            let rem = self.remote.lock().unwrap();
            match rem.chain(d.known).and_then(|c| c.iter().map(|u| rem.tx(u)).collect::<Result<Vec<_>, _>>().map(|t| (c, t))) {
                Ok(x) => x,
                Err(e) => {
                    drop(rem);
                    return self.bad(&t("head"), format!("client {} believes in head {}: {}", c, d.known, e));
                }
            }
        };
        let txs: Vec<(&E, &BTreeSet<Change>)> = d.log.iter().collect();
        if txs.len() < chain.len() {
            return self.bad(
                &t("log"),
                format!("client {} claims {} remote transactions but has {}", c, chain.len(), txs.len()),
            );
        }
        for (i, (id, set)) in chain.iter().enumerate().skip(1) {
            if *txs[i].0 != *id || txs[i].1 != set {
                let mut why = vec![];
                for x in set.difference(txs[i].1) {
                    why.push(format!("missing {}{}", sign(x.3), describe(&old.m, &(x.0, x.1, x.2.clone()))));
                }
                for x in txs[i].1.difference(set) {
                    why.push(format!("unexpected {}{}", sign(x.3), describe(&old.m, &(x.0, x.1, x.2.clone()))));
                }
                return self.bad(
                    &t("log"),
                    format!(
                        "transaction {} of the remote log ({}) is {} at client {}: {}",
                        i,
                        id,
                        txs[i].0,
                        c,
                        first(&why)
                    ),
                );
            }
        }
        let n = if chain.is_empty() { 1 } else { chain.len() };
        let suffix: Vec<E> = txs[n..].iter().map(|x| *x.0).collect();
        let old_n = {
            let rem = self.remote.lock().unwrap();
            rem.chain(old.known).map(|c| c.len().max(1)).unwrap_or(1)
        };
        let old_log = log_set(&old.m);
        let old_local: BTreeMap<E, BTreeSet<Change>> = old_log.iter().skip(old_n).map(|(k, v)| (*k, v.clone())).collect();
        let untouched = d.log == old_log;
        let mut merged: Option<BTreeMap<E, BTreeSet<Change>>> = None;
        if untouched {
            if d.lines != old.lines {
                return self.bad(&t("timeline"), format!("client {} set transactions aside for no reason", c));
            }
        } else if old_local.is_empty() {
            if !suffix.is_empty() || d.lines != old.lines {
                return self.bad(&t("log"), format!("client {} made up transactions {:?}", c, suffix));
            }
        } else if old_log.iter().zip(&d.log).all(|(a, b)| a == b) && d.log.len() > old_log.len() {
            // Its own transactions were there already, and somebody built on them.
            if !suffix.is_empty() || d.lines != old.lines {
                return self.bad(&t("log"), format!("client {} made up transactions {:?}", c, suffix));
            }
        } else {
            // What had been uploaded without its getting to know stays where it is.
            let at = |i: usize| -> (TxId, E) { (chain[i].clone(), *txs[i].0) };
            let own = old_local
                .iter()
                .enumerate()
                .take_while(|(i, (k, v))| {
                    old_n + i < chain.len() && at(old_n + i).1 == **k && chain[old_n + i].1 == **v
                })
                .count();
            let aside: BTreeMap<E, BTreeSet<Change>> = old_local.iter().skip(own).map(|(k, v)| (*k, v.clone())).collect();
            let mut want = old.lines.clone();
            if let Some(first_local) = aside.keys().next() {
                want.insert(first_local - 1, aside.clone());
            }
            if d.lines != want {
                let show = |l: &Lines| -> Vec<(i64, Vec<(E, usize)>)> {
                    l.iter().map(|(k, v)| (*k, v.iter().map(|(a, b)| (*a, b.len())).collect())).collect()
                };
                let what = format!(
                    "client {} did not set its own transactions aside as they were: {:?} instead of {:?}",
                    c,
                    show(&d.lines),
                    show(&want)
                );
                return self.bad(&t("timeline"), what);
            }
            merged = Some(aside);
        }
        match report {
            Some(SyncReport::NoChanges) | Some(SyncReport::RemoteFastForward) => {
                if !untouched || !suffix.is_empty() {
                    return self.bad(&t("log"), format!("client {} says {:?}, but its log is another", c, report.unwrap()));
                }
            }
            Some(SyncReport::LocalFastForward) | Some(SyncReport::Merge(SyncFollowup::None)) => {
                if !suffix.is_empty() {
                    return self.bad(&t("unsent"), format!("client {} says {:?}, but has unsent transactions", c, report.unwrap()));
                }
            }
            _ => {}
        }
        // What is sent is known to be, and nothing else.
        for (tx, u) in &d.tu {
            match ids.iter().position(|x| x == u) {
                Some(0) => {}
                Some(i) if chain[i].0 == *tx => {}
                _ => return self.bad(&t("mapping"), format!("client {} takes {} for the remote's {}", c, tx, u)),
            }
        }
        if let Some(last) = ids.last() {
            let tx = txs[n - 1].0;
            if d.tu.get(tx) != Some(last) {
                return self.bad(&t("mapping"), format!("client {} does not know that {} is the remote's {}", c, tx, last));
            }
        }
        let m = fold(&d.log);
        if m.datoms != d.datoms {
            let x = Dump { datoms: d.datoms.clone(), dup_datoms: 0, log: d.log.clone(), dup_log: 0, other_timelines: 0 };
            return self.bad(
                &t("facts"),
                format!("client {} does not hold what its log says: {}", c, first(&diff_facts(&x, &m))),
            );
        }
        let mut h = match ids.last().and_then(|u| self.names.get(u)) {
            Some(h) => h.clone(),
            None => old.h.clone(),
        };
        if let Some(aside) = &merged {
            self.cov.hit("sync.merges-judged");
            let theirs: Vec<Change> = chain[old_n.min(chain.len())..].iter().flat_map(|t| t.1.iter().cloned()).collect();
            if let Err(e) = kept(aside, &theirs, &old.m, &m, &suffix) {
                return self.bad(&t("lost"), format!("client {} merged, but {}", c, e));
            }
        } else {
            h = if untouched { old.h.clone() } else { h };
        }
        // Names are as good as the entities they name.
        let live: BTreeSet<E> = m.datoms.keys().map(|k| k.0).collect();
        h.retain(|_, e| live.contains(e));
        if suffix.is_empty() && d.known != Uuid::nil() {
            self.names.insert(d.known, h.clone());
        }
        Ok(State { m, h, known: d.known, tu: d.tu.clone(), lines: d.lines.clone() })
    }

    // -----------------------------------------------------------------------------------------

    /// Once faults stop, everyone ends up with the same log.
    fn finish(&mut self) -> Res<()> {
        self.step = 999_999;
        self.remote.lock().unwrap().late.clear();
        for c in 0..self.plan.n {
            vfs::begin_step(&self.cl[c].name, &[], None);
            if self.cl[c].store.is_none() {
                if let Err(e) = self.open(c) {
                    return self.bad("reopen:refused", format!("the store does not open: {}", e));
                }
            }
        }
        self.say("faults stop".to_string());
        for c in 0..self.plan.n {
            self.sweep(c)?;
        }
        // Two rounds, and more for as long as the log keeps growing.
        let mut quiet = 0;
        for _ in 0..8 {
            let before = self.remote.lock().unwrap().head;
            for c in 0..self.plan.n {
                self.sync(c, &[])?;
                self.remote_ok()?;
            }
            for c in 0..self.plan.n {
                self.sweep(c)?;
            }
            quiet = if self.remote.lock().unwrap().head == before { quiet + 1 } else { 0 };
            if quiet == 2 {
                break;
            }
        }
        let head = self.remote.lock().unwrap().head;
        let chain = match self.remote.lock().unwrap().chain(head) {
            Ok(x) => x.len(),
            Err(e) => return self.bad("remote:incomplete", e),
        };
        for c in (0..self.plan.n).filter(|c| !self.cl[*c].stuck) {
            if self.cl[c].s.known != head || self.cl[c].s.m.log.len() != chain.max(1) {
                return self.bad("converge", format!("client {} has not converged", c));
            }
            let strip = |m: &Model| -> BTreeMap<(E, E, V), E> {
                m.datoms.iter().filter(|x| *x.1 != TX0).map(|(k, v)| (k.clone(), *v)).collect()
            };
            let other = (0..self.plan.n).find(|c| !self.cl[*c].stuck).unwrap_or(c);
            if strip(&self.cl[c].s.m) != strip(&self.cl[other].s.m) {
                return self.bad("converge", format!("clients {} and {} do not hold the same facts", other, c));
            }
        }
        self.cov.hit("converged");
        // What is in memory is what is on disk.
        for c in 0..self.plan.n {
            self.close(c);
            self.reopened(c, "reopen")?;
            self.close(c);
        }
        let stuck = sys::quiesce();
        if !stuck.is_empty() {
            return self.bad("stuck", format!("threads which never finish: {:?}", stuck));
        }
        if let Some(v) = self.soft.drain(..).next() {
            return Err(v);
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Plans.

#[derive(Clone, Debug)]
pub struct SProfile {
    pub name: &'static str,
    pub linear: bool,
    pub base: crate::gen::Profile,
    pub net_pct: u64,
    pub crash_pct: u64,
    pub fault_pct: u64,
    pub race_pct: u64,
    pub cache_pct: u64,
}

pub fn plan(seed: u64, p: &SProfile) -> SPlan {
    let base = crate::gen::plan(seed, &p.base);
    let mut r = Rng::sub(seed, 0x57ac);
    let n = 2 + r.below(2) as usize;
    let mut steps: Vec<SStep> = vec![];
    let mut id = 0;
    let mut mk = |c: usize, kind: SKind| {
        id += 1;
        SStep { id, c, kind, net: vec![], faults: vec![], crash: None, jump_ms: 0 }
    };
    let sync_every = *r.pick(&[30u64, 60, 60, 90]);
    let net_pct = if r.pct(25) { 0 } else { p.net_pct };
    let mut first = true;
    for b in base.steps {
        let parts: Vec<Vec<Op>> = match b.kind {
            Kind::Auto(ops) => vec![ops],
            Kind::Txn { parts, end: End::Commit } => parts
                .into_iter()
                .filter_map(|x| match x {
                    Part::Ops(o) | Part::Built(o) => Some(o),
                    _ => None,
                })
                .collect(),
            Kind::Reopen => {
                let s = mk(r.below(n as u64) as usize, SKind::Reopen);
                steps.push(s);
                continue;
            }
            _ => continue,
        };
        let c = if first { 0 } else { r.below(n as u64) as usize };
        if !first && r.pct(p.cache_pct) {
            let k = SKind::Cache(r.below(64) as u32, *r.pick(&[Dir::Forward, Dir::Reverse, Dir::Both, Dir::Both]));
            steps.push(mk(r.below(n as u64) as usize, k));
        }
        let mut s = mk(c, SKind::Write(parts));
        s.jump_ms = b.jump_ms;
        s.faults = b.faults;
        s.faults.retain(|f| f.kind != FaultKind::LostSync);
        s.crash = b.crash;
        steps.push(s);
        while r.pct(if first { 100 } else { sync_every }) {
            let d = if first || r.pct(60) { c } else { r.below(n as u64) as usize };
            let mut s = if r.pct(p.race_pct) {
                mk(d, SKind::Race((0..n).filter(|x| *x != d).collect()))
            } else {
                mk(d, SKind::Sync)
            };
            if !first && r.pct(net_pct) {
                for _ in 0..1 + r.below(2) {
                    let kind = match r.below(12) {
                        0 | 1 => NetKind::Lost,
                        2 | 3 => NetKind::AckLost,
                        4 => NetKind::Dup,
                        5 => NetKind::Late(1 + r.below(12) as u32),
                        6 | 7 => NetKind::Outage,
                        8 => NetKind::Slow(1000 + r.below(600_000) as i64),
                        9 => NetKind::DieBefore,
                        _ => NetKind::DieAfter,
                    };
                    let nth = match r.below(3) {
                        0 => r.below(3),
                        1 => r.below(12),
                        _ => r.below(40),
                    } as u32;
                    s.net.push(NetFault { nth, kind });
                }
            }
            if r.pct(p.crash_pct) {
                let kind = *r.pick(&[CrashKind::Process, CrashKind::PowerNone, CrashKind::PowerPrefix, CrashKind::PowerAll]);
                s.crash = Some(CrashAt { nth: r.below(*r.clone().pick(&[10u64, 40, 120])) as u32, kind });
            } else if !first && r.pct(p.fault_pct) {
                let mut f = crate::gen::fault(&mut r, &p.base, 2);
                if f.kind == FaultKind::LostSync {
                    f.kind = FaultKind::Error;
                }
                s.faults.push(f);
            }
            steps.push(s);
            if first {
                // Everybody starts from the same schema, or not.
                let k = if p.base.schema_pct == 0 { n } else { r.below(n as u64 + 1) as usize };
                for e in 1..k {
                    let s = mk(e, SKind::Sync);
                    steps.push(s);
                }
                first = false;
            }
        }
        first = false;
    }
    SPlan { seed, cfg: base.cfg, n, linear: p.linear, steps }
}

/// Simpler plans, the biggest cuts first.
pub fn shrink(p: &SPlan) -> Vec<SPlan> {
    let mut out = vec![];
    let n = p.steps.len();
    let mut k = n / 2;
    while k >= 1 {
        let mut i = 0;
        while i < n {
            let mut q = p.clone();
            q.steps.drain(i..(i + k).min(n));
            out.push(q);
            i += k;
        }
        k /= 2;
    }
    if p.n > 2 {
        let mut q = p.clone();
        q.n -= 1;
        out.push(q);
    }
    for (i, s) in p.steps.iter().enumerate() {
        let mut put = |f: &dyn Fn(&mut SStep)| {
            let mut q = p.clone();
            f(&mut q.steps[i]);
            if q != *p {
                out.push(q);
            }
        };
        put(&|s| s.jump_ms = 0);
        put(&|s| s.faults.clear());
        put(&|s| s.crash = None);
        put(&|s| s.net.clear());
        if s.net.len() > 1 {
            put(&|s| {
                s.net.pop();
            });
        }
        match &s.kind {
            SKind::Race(_) => put(&|s| s.kind = SKind::Sync),
            SKind::Write(parts) => {
                for j in 0..parts.len() {
                    if parts.len() > 1 {
                        let mut ps = parts.clone();
                        ps.remove(j);
                        put(&|s| s.kind = SKind::Write(ps.clone()));
                    }
                    for o in crate::scn::shrink_ops(&parts[j]) {
                        let mut ps = parts.clone();
                        ps[j] = o;
                        put(&|s| s.kind = SKind::Write(ps.clone()));
                    }
                }
            }
            _ => {}
        }
    }
    let mut q = p.clone();
    q.cfg.var_limit = None;
    q.cfg.switch_pct = 0;
    q.cfg.pct_depth = 0;
    if q != *p {
        out.push(q);
    }
    out
}
