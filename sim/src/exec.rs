//! Runs a plan against the real code on the simulated machine, judging it as it goes.

use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

use mentat::{Binding, HasSchema, InProgress, Pullable, QueryInputs, Queryable, Store, TxObserver, TxReport, Variable};
use mentat_transaction::{CacheAction, CacheDirection};

use crate::model::*;
use crate::plan::*;
use crate::query::{self, Cl, El, Find, DQ, PT, Q};
use crate::readout::*;
use crate::rng::{fnv, Rng};
use crate::value::*;
use crate::{mangle, sys, vfs};

pub const M: &str = "m0";
pub const PATH: &str = "m0/db";

#[derive(Clone, Debug)]
pub struct Violation {
    /// Which oracle.
    pub tag: String,
    pub what: String,
    pub step: u32,
}

pub type Res<T> = Result<T, Violation>;

#[derive(Clone, Debug, Default)]
pub struct Cov {
    pub counts: BTreeMap<String, u64>,
    /// What happened, step by step, hashed.
    pub sig: u64,
    /// The schedule, hashed.
    pub sched: u64,
    pub sim_ns: i64,
}

impl Cov {
    pub fn hit(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn note(&mut self, s: &str) {
        self.sig = fnv(self.sig, s.as_bytes());
    }
}

#[derive(Clone)]
pub struct TxInfo {
    pub tx: E,
    pub effective: BTreeSet<E>,
    pub attempted: BTreeSet<E>,
}

/// One commit, as an observer may hear of it.
struct Told {
    txs: Vec<(E, bool, BTreeSet<E>, BTreeSet<E>)>,
    must: bool,
}

type Calls = Arc<Mutex<Vec<Vec<(E, BTreeSet<E>)>>>>;

struct Obs {
    attrs: BTreeSet<E>,
    expect: Vec<Told>,
    got: Calls,
    live: bool,
    key: String,
    panics: bool,
}

/// The state a transaction in progress works on.
#[derive(Clone)]
pub struct Cur {
    pub m: Model,
    pub h: Handles,
    pub txs: Vec<TxInfo>,
    pub wrote: bool,
}

/// What an unacknowledged commit would have led to.
pub enum Att {
    Done(Model, Handles),
    /// Ids and instant unknown.
    Auto(Vec<Op>),
}

impl Att {
    /// The state this commit leads to, if the disk can be explained by it.
    fn explain(&self, d: &Dump, base: &Model, bh: &Handles) -> Option<(Model, Handles)> {
        match self {
            Att::Done(m, h) => {
                if diff_facts(d, m).is_empty() && diff_log(d, m).is_empty() {
                    Some((m.clone(), h.clone()))
                } else {
                    None
                }
            }
            Att::Auto(ops) => {
                let p = match base.prepare(ops, bh) {
                    Verdict::Ok(p) => p,
                    _ => return None,
                };
                let instant = d.log.get(&p.tx)?.iter().find_map(|c| match (&c.1, &c.2) {
                    (a, V::Inst(us)) if c.0 == p.tx && *a == DB_TX_INSTANT && c.3 => Some(*us),
                    _ => None,
                })?;
                let prov = base.provisional(&p);
                let want = match base.apply(&p, &prov, instant) {
                    Verdict::Ok(a) => a.changes,
                    _ => return None,
                };
                let got = d.log.get(&p.tx)?;
                let g = crate::iso::assign(&want, &prov, &BTreeMap::new(), got, base.next_user, crate::model::TX0)?;
                let ids: Vec<E> = prov.iter().map(|x| g[x]).collect();
                if let Verdict::Ok(a) = base.apply(&p, &ids, instant) {
                    if diff_facts(d, &a.model).is_empty() && diff_log(d, &a.model).is_empty() {
                        let mut h = bh.clone();
                        for (i, t) in p.temps.iter().enumerate() {
                            if let Some(n) = t {
                                match p.class[i] {
                                    Cls::Known(e) => h.insert(n.clone(), e),
                                    Cls::New(k) if k < ids.len() => h.insert(n.clone(), ids[k]),
                                    _ => None,
                                };
                            }
                        }
                        return Some((a.model, h));
                    }
                }
                None
            }
        }
    }
}

pub struct World {
    pub plan: Plan,
    pub m: Model,
    pub h: Handles,
    pub store: Option<Store>,
    /// Commits which failed: until the next success, a restart may still make one of them true.
    pub maybe: Vec<Att>,
    pub cached: BTreeMap<String, Dir>,
    obs: Vec<Obs>,
    /// Who was told of what, in the order it happened.
    told: Arc<Mutex<Vec<(String, E)>>>,
    pub cov: Cov,
    pub trace: Vec<String>,
    pub verbose: bool,
    pub step: u32,
    pub rng: Rng,
    pub faulted: bool,
    pub known: BTreeSet<String>,
}

pub fn text(e: &dyn std::fmt::Display) -> String {
    let s = format!("{}", e);
    s.split('\n').next().unwrap_or("").chars().take(160).collect()
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    crate::LAST_PANIC.with(|l| {
        let s = l.borrow().clone();
        if !s.is_empty() {
            return s;
        }
        if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

pub fn first(v: &[String]) -> String {
    let mut s = v.iter().take(3).cloned().collect::<Vec<_>>().join("; ");
    if v.len() > 3 {
        s.push_str(&format!("; and {} more", v.len() - 3));
    }
    s
}

pub fn slug(s: &str) -> String {
    s.chars().map(|c| if c.is_alphanumeric() { c.to_ascii_lowercase() } else { '-' }).take(48).collect()
}

fn ev(e: &EP, h: &Handles, m: &Model) -> Option<E> {
    match e {
        EP::H(n) => h.get(n).cloned(),
        EP::Raw(e) => Some(*e),
        EP::Ident(k) => m.idents.get(k).cloned(),
        _ => None,
    }
}

fn unpause<T>(r: std::thread::Result<T>) -> std::thread::Result<T> {
    r
}

pub fn guard<T, F: FnOnce() -> T>(f: F) -> std::thread::Result<T> {
    crate::LAST_PANIC.with(|l| l.borrow_mut().clear());
    unpause(catch_unwind(AssertUnwindSafe(f)))
}

/// Judge one transact call made inside an open transaction.
pub struct Judge<'a> {
    pub cov: &'a mut Cov,
    pub trace: &'a mut Vec<String>,
    pub verbose: bool,
    pub step: u32,
    pub machine: &'a str,
    pub recovering: bool,
}

impl<'a> Judge<'a> {
    pub fn bad<T>(&self, tag: &str, what: String) -> Res<T> {
        Err(Violation { tag: tag.to_string(), what, step: self.step })
    }

    /// None: the model does not say, do not do it.
    pub fn expect(&mut self, cur: &Cur, ops: &[Op]) -> Option<Result<(Prepared, Applied), String>> {
        let p = match cur.m.prepare(ops, &cur.h) {
            Verdict::Ok(p) => p,
            Verdict::Err(s) => {
                self.cov.hit(&format!("tx.err.{}", slug(&s)));
                return Some(Err(s));
            }
            Verdict::Skip(s) => {
                self.cov.hit(&format!("tx.skip.{}", slug(&s)));
                return None;
            }
        };
        match cur.m.apply(&p, &cur.m.provisional(&p), 0) {
            Verdict::Ok(a) => {
                self.cov.hit("tx.ok");
                if p.upserts > 0 {
                    self.cov.hit("tx.ok.upsert");
                }
                if p.unified > 0 {
                    self.cov.hit("tx.ok.unify");
                }
                if a.schema_changed {
                    self.cov.hit("tx.ok.schema");
                }
                Some(Ok((p, a)))
            }
            Verdict::Err(s) => {
                self.cov.hit(&format!("tx.err.{}", slug(&s)));
                Some(Err(s))
            }
            Verdict::Skip(s) => {
                self.cov.hit(&format!("tx.skip.{}", slug(&s)));
                None
            }
        }
    }

    /// What came of a transact call, against what was expected; on success `cur` moves on.
    pub fn outcome(
        &mut self,
        cur: &mut Cur,
        ops: &[Op],
        expect: Result<(Prepared, Applied), String>,
        got: Result<TxReport, String>,
        wall: (i64, i64),
        conn: &rusqlite::Connection,
        named: bool,
    ) -> Res<()> {
        let fired = vfs::fired(self.machine) > 0 || vfs::is_dead(self.machine);
        let edn = || ops_edn(ops, &cur.h).replace('\n', " ");
        match (expect, got) {
            (Err(why), Err(e)) => {
                self.cov.note("E");
                if self.verbose {
                    self.trace.push(format!("    refused as it should be ({}): {}", why, e));
                }
                Ok(())
            }
            (Err(why), Ok(_)) => {
                let t = format!("accepted:{}", slug(&why));
                self.bad(&t, format!("{} was accepted, but: {}", edn(), why))
            }
            (Ok(_), Err(e)) => {
                if fired {
                    self.cov.hit("tx.failed-by-fault");
                    self.cov.note("F");
                    Ok(())
                } else {
                    let tag = if self.recovering { "refused:transact:after-fault" } else { "refused:transact" };
                    self.bad(tag, format!("{} was refused: {}", edn(), e))
                }
            }
            (Ok((p, _)), Ok(report)) => {
                self.cov.note("O");
                if vfs::is_dead(self.machine) {
                    return Ok(());
                }
                let machine = self.machine;
                let _ = machine;
                if report.tx_id != p.tx {
                    return self.bad("txid", format!("transaction id {} and not {}", report.tx_id, p.tx));
                }
                // Resolve the fresh ids.
                let next = cur.m.next_user;
                let mut ids: Vec<Option<E>> = vec![None; p.n_new];
                let mut seen: BTreeSet<String> = BTreeSet::new();
                if named {
                    for (i, t) in p.temps.iter().enumerate() {
                        let name = match t {
                            Some(n) => n,
                            None => continue,
                        };
                        let want = match p.class[i] {
                            Cls::New(k) if k == usize::MAX => continue,
                            c => c,
                        };
                        seen.insert(name.clone());
                        let got = match report.tempids.get(name) {
                            Some(e) => *e,
                            None => return self.bad("tempids", format!("tempid {:?} is not in the report of {}", name, edn())),
                        };
                        match want {
                            Cls::Known(e) => {
                                if e != got {
                                    return self.bad(
                                        "upsert",
                                        format!("tempid {:?} should be {} but is {} in {}", name, e, got, edn()),
                                    );
                                }
                            }
                            Cls::New(k) => {
                                if got < next || got >= crate::model::TX0 {
                                    let tag = if cur.m.datoms.keys().any(|d| d.0 == got) { "upsert" } else { "ids" };
                                    return self.bad(
                                        tag,
                                        format!(
                                            "tempid {:?} was given {}, which is not a fresh id ({} onwards) in {}",
                                            name,
                                            got,
                                            next,
                                            edn()
                                        ),
                                    );
                                }
                                match ids[k] {
                                    None => {
                                        if ids.contains(&Some(got)) {
                                            return self.bad(
                                                "upsert",
                                                format!("two different entities were both given {} in {}", got, edn()),
                                            );
                                        }
                                        ids[k] = Some(got)
                                    }
                                    Some(x) if x != got => {
                                        return self.bad(
                                            "upsert",
                                            format!("one entity was given both {} and {} in {}", x, got, edn()),
                                        )
                                    }
                                    _ => {}
                                }
                            }
                        }
                    }
                    for k in report.tempids.keys() {
                        if !seen.contains(k) {
                            return self.bad("tempids", format!("unknown tempid {:?} in the report of {}", k, edn()));
                        }
                    }
                }
                let instant = report.tx_instant.timestamp() * 1_000_000 + i64::from(report.tx_instant.timestamp_subsec_micros());
                // Unnamed entities: find the assignment which explains the log, if there is one.
                let rows = match vfs::paused(|| log_of(conn, p.tx)) {
                    Ok(r) => r,
                    Err(e) => return self.bad("effects", format!("cannot read back the log of {}: {}", p.tx, e)),
                };
                let prov = cur.m.provisional(&p);
                let known: BTreeMap<E, E> =
                    ids.iter().enumerate().filter_map(|(k, x)| x.map(|x| (prov[k], x))).collect();
                let guess = match cur.m.apply(&p, &prov, instant) {
                    Verdict::Ok(a) => {
                        crate::iso::assign(&a.changes, &prov, &known, &rows, next, crate::model::TX0)
                    }
                    _ => None,
                };
                let full: Vec<E> = prov
                    .iter()
                    .enumerate()
                    .map(|(k, x)| match &guess {
                        Some(g) => g[x],
                        None => ids[k].unwrap_or(*x),
                    })
                    .collect();
                let best = match cur.m.apply(&p, &full, instant) {
                    Verdict::Ok(a) => Some((full, a)),
                    _ => None,
                };
                let (full, a) = match best {
                    Some(x) => x,
                    None => return self.bad("effects", "the model cannot apply it".to_string()),
                };
                match a.explicit_instant {
                    Some(us) => {
                        if us != instant {
                            return self.bad("instant", format!("instant {} and not the given {}", instant, us));
                        }
                        self.cov.hit("tx.ok.explicit-instant");
                    }
                    None => {
                        let lo = wall.0.div_euclid(1000);
                        let hi = wall.1.div_euclid(1000);
                        if instant < lo || instant > hi {
                            return self.bad(
                                "instant",
                                format!("instant {} is not between {} and {}", instant, lo, hi),
                            );
                        }
                    }
                }
                if a.changes != rows {
                    let mut d = vec![];
                    for x in a.changes.difference(&rows) {
                        d.push(format!("missing {}{}", sign(x.3), describe(&cur.m, &(x.0, x.1, x.2.clone()))));
                    }
                    for x in rows.difference(&a.changes) {
                        d.push(format!("unexpected {}{}", sign(x.3), describe(&cur.m, &(x.0, x.1, x.2.clone()))));
                    }
                    let tag = if p.upserts + p.unified > 0 { "effects-upsert" } else { "effects" };
                    return self.bad(tag, format!("{} recorded the wrong changes: {}", edn(), first(&d)));
                }
                for (i, t) in p.temps.iter().enumerate() {
                    if let Some(n) = t {
                        let e = match p.class[i] {
                            Cls::Known(e) => e,
                            Cls::New(k) if k < full.len() => full[k],
                            _ => continue,
                        };
                        cur.h.insert(n.clone(), e);
                    }
                }
                if !a.changes.is_empty() {
                    self.cov.note(&format!("{:?}", a.changes.iter().filter(|c| c.1 != DB_TX_INSTANT).collect::<Vec<_>>()));
                }
                for c in &a.changes {
                    self.cov.hit(if c.3 { "datoms.asserted" } else { "datoms.retracted" });
                }
                let mut attempted = a.attempted.clone();
                attempted.insert(DB_TX_INSTANT);
                cur.txs.push(TxInfo {
                    tx: p.tx,
                    effective: a.changes.iter().map(|c| c.1).collect(),
                    attempted,
                });
                cur.m = a.model;
                cur.wrote = true;
                Ok(())
            }
        }
    }
}

pub fn log_of(c: &rusqlite::Connection, tx: E) -> Result<BTreeSet<Change>, String> {
    log_rows(c, tx)
}

impl World {
    pub fn new(plan: Plan, verbose: bool) -> World {
        let rng = Rng::sub(plan.seed, 0x3141);
        World {
            plan,
            m: Model::default(),
            h: Handles::new(),
            store: None,
            maybe: vec![],
            cached: BTreeMap::new(),
            obs: vec![],
            told: Arc::new(Mutex::new(vec![])),
            cov: Cov::default(),
            trace: vec![],
            verbose,
            step: 0,
            rng,
            faulted: false,
            known: BTreeSet::new(),
        }
    }

    pub fn bad<T>(&self, tag: &str, what: String) -> Res<T> {
        Err(Violation { tag: tag.to_string(), what, step: self.step })
    }

    fn say(&mut self, s: String) {
        if self.verbose {
            self.trace.push(s);
        }
    }

    fn tune(&mut self) {
        let cfg = self.plan.cfg.clone();
        if let Some(s) = self.store.as_mut() {
            let c = s.sqlite_mut();
            vfs::paused(|| {
                if let Some(n) = cfg.var_limit {
                    c.set_limit(rusqlite::limits::Limit::SQLITE_LIMIT_VARIABLE_NUMBER, n);
                }
                if let Some(n) = cfg.cache_pages {
                    let _ = c.execute_batch(&format!("PRAGMA cache_size={}", n));
                }
                if let Some(n) = cfg.autockpt {
                    let _ = c.query_row(&format!("PRAGMA wal_autocheckpoint={}", n), rusqlite::params![], |r| {
                        r.get::<_, i64>(0)
                    });
                }
            })
        }
    }

    fn open(&mut self) -> Result<(), String> {
        match guard(|| Store::open(PATH)) {
            Ok(Ok(s)) => {
                self.store = Some(s);
                self.tune();
                Ok(())
            }
            Ok(Err(e)) => Err(text(&e)),
            Err(p) => Err(format!("PANIC {}", panic_text(&p))),
        }
    }

    /// Everything the store holds, on disk and in memory, against the model.
    pub fn check_state(&mut self, tag: &str) -> Res<()> {
        let store = match self.store.as_mut() {
            Some(s) => s,
            None => return Ok(()),
        };
        let m = &self.m;
        let r: Result<(), (String, Vec<String>)> = vfs::paused(|| {
            if !store.sqlite_mut().is_autocommit() {
                // A rollback which failed: the next use of the store has to deal with it.
                let _ = store.q_once("[:find ?e . :where [?e :db/ident :db/ident]]", None);
                if !store.sqlite_mut().is_autocommit() {
                    return Err((format!("{}:left-open", tag), vec!["a transaction is still open".to_string()]));
                }
            }
            let d = match dump(store.sqlite_mut()) {
                Ok(d) => d,
                Err(e) => return Err((format!("{}:unreadable", tag), vec![e])),
            };
            let df = diff_facts(&d, m);
            if !df.is_empty() {
                return Err((format!("{}:facts", tag), df));
            }
            let dl = diff_log(&d, m);
            if !dl.is_empty() {
                return Err((format!("{}:log", tag), dl));
            }
            let schema = store.conn().current_schema();
            let ds = diff_schema(&schema, m);
            if !ds.is_empty() {
                return Err((format!("{}:schema", tag), ds));
            }
            if store.last_tx_id() + 1 != m.next_tx {
                return Err((
                    format!("{}:txid", tag),
                    vec![format!("the last transaction is said to be {} and not {}", store.last_tx_id(), m.next_tx - 1)],
                ));
            }
            Ok(())
        });
        match r {
            Ok(()) => Ok(()),
            Err((t, d)) => self.bad(&t, first(&d)),
        }
    }

    fn next_ids(&self, ip: &InProgress) -> (E, E) {
        let g = |p: &str| ip.partition_map.get(p).map(|x| x.next_entid()).unwrap_or(-1);
        (g(":db.part/user"), g(":db.part/tx"))
    }

    pub fn run(&mut self) -> Res<()> {
        let steps = self.plan.steps.clone();
        if self.plan.cfg.bare {
            // The first step opens.
        } else if let Err(e) = self.open() {
            return self.bad("reopen:refused", format!("a fresh store does not open: {}", e));
        } else {
            let d = dump(self.store.as_mut().unwrap().sqlite_mut());
            self.m = match d {
                Ok(d) => model_of(&d),
                Err(e) => return self.bad("bootstrap", e),
            };
        }
        for s in steps {
            self.one(&s)?;
        }
        self.finish()
    }

    fn finish(&mut self) -> Res<()> {
        self.step = 999_999;
        if self.store.is_none() && (!self.m.datoms.is_empty()) {
            if let Err(e) = self.open() {
                return self.bad("reopen:refused", format!("the store does not open: {}", e));
            }
        }
        if self.store.is_some() {
            sys::drain();
            self.check_observers(true)?;
            self.check_state("end")?;
            // One more restart: what memory says must be what disk says.
            self.reopen(false)?;
        }
        self.store = None;
        let stuck = sys::quiesce();
        if !stuck.is_empty() {
            return self.bad("stuck", format!("threads which never finish: {:?}", stuck));
        }
        Ok(())
    }

    /// Whatever happened, leave nothing running.
    pub fn abandon(&mut self) {
        vfs::disarm(M);
        if let Some(s) = self.store.take() {
            let _ = guard(move || drop(s));
        }
        let _ = sys::quiesce();
    }

    fn check_ids(&mut self, tag: &str) -> Res<()> {
        let (mu, mt) = (self.m.floor_user(), self.m.next_tx);
        let mut store = self.store.take().unwrap();
        let r = vfs::paused(|| match guard(|| store.begin_transaction().map(|ip| self.next_ids(&ip))) {
            Ok(Ok(x)) => Ok(x),
            Ok(Err(e)) => Err(text(&e)),
            Err(p) => Err(format!("PANIC {}", panic_text(&p))),
        });
        self.store = Some(store);
        match r {
            Err(e) => self.bad("refused:begin", format!("cannot begin a transaction: {}", e)),
            Ok((u, t)) => {
                if u < mu || t != mt {
                    self.bad(
                        &format!("{}:ids", tag),
                        format!("next ids are {} and {} and not {} and {}", u, t, mu, mt),
                    )
                } else {
                    // Ids may be skipped, never reused.
                    self.m.next_user = u;
                    Ok(())
                }
            }
        }
    }

    fn one(&mut self, s: &Step) -> Res<()> {
        self.step = s.id;
        self.rng = Rng::sub(self.plan.seed, 0x9_0000 + u64::from(s.id));
        if s.jump_ms != 0 {
            sys::jump_wall_ns(s.jump_ms * 1_000_000);
            self.cov.hit("clock.jump");
        }
        if !s.faults.is_empty() {
            self.cov.hit("steps.armed");
        }
        let label = match &s.kind {
            Kind::Txn { parts, end } => format!("txn of {} parts, {:?}", parts.len(), end),
            Kind::Auto(o) => format!("transact {}", ops_edn(o, &self.h).replace('\n', " ")),
            k => format!("{:?}", k),
        };
        self.say(format!(
            "step {}: {}{}{}",
            s.id,
            label,
            if s.faults.is_empty() { String::new() } else { format!(" faults {:?}", s.faults) },
            match &s.crash {
                None => String::new(),
                Some(c) => format!(" crash {:?} at i/o {}", c.kind, c.nth),
            }
        ));
        let needs_store = !matches!(s.kind, Kind::Open | Kind::Crash(_) | Kind::Settle);
        if needs_store && self.store.is_none() {
            if let Err(e) = self.ensure_open() {
                return self.bad("reopen:refused", format!("the store does not open: {}", e));
            }
        }
        if s.faults.iter().any(|f| f.class == vfs::Class::Read) {
            // Nothing to read if it is all in memory.
            if let Some(st) = self.store.as_mut() {
                let _ = st.sqlite_mut().execute_batch("PRAGMA shrink_memory");
            }
        }
        vfs::begin_step(M, &s.faults, s.crash.as_ref());
        let mut attempted: Option<Att> = None;
        let before = self.m.log.len();
        let mut committed = false;
        let r = match &s.kind {
            Kind::Open => self.step_open(),
            Kind::Txn { parts, end } => self.step_txn(parts, *end, &mut attempted, &mut committed),
            Kind::Auto(ops) => self.step_auto(ops, &mut attempted, &mut committed),
            Kind::Query { q, via } => self.step_query(q, *via),
            Kind::Reopen => self.reopen(true),
            Kind::Crash(k) => {
                vfs::kill(M, *k);
                Ok(())
            }
            Kind::Cache(a, d) => self.step_cache(a, *d),
            Kind::Observe { key, attrs } => {
                self.step_observe(key, attrs);
                Ok(())
            }
            Kind::Unobserve(key) => {
                self.step_unobserve(key);
                Ok(())
            }
            Kind::Settle => {
                sys::drain();
                self.check_observers(false)
            }
            Kind::Vocabs => self.step_vocabs(),
            Kind::Odd { ops, salt } => self.step_odd(ops, *salt),
            Kind::Apart { cache, ops, qs } => self.step_apart(cache, ops, qs, &mut attempted, &mut committed),
        };
        let (_ops, fired, dead) = vfs::end_step(M);
        for f in &fired {
            self.say(format!("    injected: {}", f));
        }
        if !fired.is_empty() {
            self.faulted = true;
            self.cov.note("f");
        }
        r?;
        if dead {
            return self.crashed(attempted, committed);
        }
        if self.m.log.len() > before {
            self.check_state("commit")?;
        } else if self.store.is_some() {
            let tag = if !fired.is_empty() { "fault" } else { "abandon" };
            self.check_state(tag)?;
        }
        self.sweep()?;
        if let Some(x) = attempted {
            if !committed {
                self.maybe.push(x);
            }
        }
        // Only a commit which wrote something puts an end to what an earlier one may have left.
        if committed && self.m.log.len() > before {
            self.maybe.clear();
        }
        Ok(())
    }

    fn ensure_open(&mut self) -> Result<(), String> {
        vfs::disarm(M);
        self.open()
    }

    fn close(&mut self) -> Res<()> {
        self.cached.clear();
        for o in self.obs.iter_mut() {
            o.live = false;
            for t in o.expect.iter_mut() {
                t.must = false;
            }
        }
        if let Some(s) = self.store.take() {
            if let Err(p) = guard(move || drop(s)) {
                if !vfs::is_dead(M) {
                    return self.bad("panic:close", format!("closing the store: {}", panic_text(&p)));
                }
            }
        }
        self.obs.clear();
        self.told = Arc::new(Mutex::new(vec![]));
        Ok(())
    }

    fn step_open(&mut self) -> Res<()> {
        if self.store.is_some() {
            return Ok(());
        }
        match self.open() {
            Ok(()) => {
                let fresh = self.m.datoms.is_empty();
                if fresh && !vfs::is_dead(M) {
                    let d = match vfs::paused(|| dump(self.store.as_mut().unwrap().sqlite_mut())) {
                        Ok(d) => d,
                        Err(e) => return self.bad("bootstrap", e),
                    };
                    self.adopt_bootstrap(d)?;
                }
                Ok(())
            }
            Err(e) => {
                if vfs::is_dead(M) {
                    return Ok(());
                }
                if e.starts_with("PANIC") {
                    return self.bad("panic:open", format!("opening: {}", e));
                }
                if vfs::fired(M) == 0 {
                    return self.bad("reopen:refused", format!("the store does not open: {}", e));
                }
                Ok(())
            }
        }
    }

    /// A store which has just been created holds exactly the core schema.
    fn adopt_bootstrap(&mut self, d: Dump) -> Res<()> {
        let m = model_of(&d);
        let g = crate::golden();
        let strip = |m: &Model| -> BTreeSet<(E, E, V)> {
            m.datoms.keys().filter(|k| k.1 != DB_TX_INSTANT).cloned().collect()
        };
        if strip(&m) != strip(&g) || m.log.len() != g.log.len() || m.attrs != g.attrs || m.idents != g.idents {
            return self.bad("bootstrap", "a new store does not hold the core schema".to_string());
        }
        self.m = m;
        self.cov.hit("bootstraps");
        Ok(())
    }

    fn reopen(&mut self, armed: bool) -> Res<()> {
        self.close()?;
        self.cov.hit("reopens");
        match self.open() {
            Ok(()) => {}
            Err(e) => {
                if vfs::is_dead(M) {
                    return Ok(());
                }
                if e.starts_with("PANIC") {
                    return self.bad("panic:open", format!("opening: {}", e));
                }
                if !armed || vfs::fired(M) == 0 {
                    return self.bad("reopen:refused", format!("the store does not open: {}", e));
                }
                vfs::disarm(M);
                if let Err(e) = self.open() {
                    return self.bad("reopen:refused", format!("the store does not open once faults stop: {}", e));
                }
            }
        }
        if vfs::is_dead(M) {
            return Ok(());
        }
        self.recovered("reopen", "clean")
    }

    fn crashed(&mut self, attempted: Option<Att>, committed: bool) -> Res<()> {
        self.cov.hit("crashes");
        self.close()?;
        // The dead process's threads end one way or another.
        let _ = sys::quiesce();
        let sector = self.plan.cfg.sector;
        let mut rng = Rng::sub(self.plan.seed, 0xc4a5_0000 + u64::from(self.step));
        let how = vfs::reboot(M, &mut rng, sector);
        self.say(format!("    rebooted: {}", how));
        if let Err(e) = self.open() {
            return self.bad("crash:refused", format!("the store does not open after a crash ({}): {}", how, e));
        }
        let _ = committed;
        if let Some(x) = attempted {
            if !committed {
                self.maybe.push(x);
            }
        }
        self.recovered("crash", &how)
    }

    /// After a restart: the state must be the acknowledged one, or that of a commit whose outcome
    /// was never reported (or reported as a failure).
    fn recovered(&mut self, tag: &str, how: &str) -> Res<()> {
        let d = match vfs::paused(|| dump(self.store.as_mut().unwrap().sqlite_mut())) {
            Ok(d) => d,
            Err(e) => return self.bad(&format!("{}:unreadable", tag), e),
        };
        // Creating the store may have been reported as a failure, and done again.
        let fresh = self.plan.cfg.bare && self.faulted && self.m.log.len() == crate::golden().log.len() && self.maybe.is_empty();
        if self.m.datoms.is_empty() || fresh {
            return self.adopt_bootstrap(d);
        }
        let mut why: Vec<String> = diff_facts(&d, &self.m);
        why.extend(diff_log(&d, &self.m));
        let maybe = std::mem::replace(&mut self.maybe, vec![]);
        if why.is_empty() {
            self.cov.hit(&format!("{}.recovered.acknowledged", tag));
            self.cov.note("a");
            self.say("    recovered to the acknowledged state".to_string());
            // What an unreported commit wrote may still be lying about.
            self.maybe = maybe;
        } else {
            let x = maybe.iter().rev().find_map(|c| c.explain(&d, &self.m, &self.h));
            match x {
                Some((m, h)) => {
                    self.cov.hit(&format!("{}.recovered.interrupted", tag));
                    self.cov.note("i");
                    self.say("    recovered to the state of the interrupted commit".to_string());
                    // Nobody was ever told of that commit: until something is committed on top of it
                    // it may also go away again.
                    let old = std::mem::replace(&mut self.m, m);
                    let oldh = std::mem::replace(&mut self.h, h);
                    self.maybe.push(Att::Done(old, oldh));
                }
                None => {
                    // Which promise is broken: an acknowledged fact lost, or half of something kept?
                    let lost = self.m.log.keys().any(|t| !d.log.contains_key(t))
                        || self.m.datoms.keys().any(|k| !d.datoms.contains_key(k));
                    let tag = if tag != "crash" {
                        format!("{}:facts", tag)
                    } else if lost {
                        "crash:lost".to_string()
                    } else {
                        "crash:partial".to_string()
                    };
                    let n = maybe.len();
                    return self.bad(
                        &tag,
                        format!(
                            "after a restart ({}) the store is not in the acknowledged state{}: {}",
                            how,
                            if n > 0 { " nor in that of an interrupted commit" } else { "" },
                            first(&why)
                        ),
                    );
                }
            }
        }
        self.check_state(tag)?;
        self.check_ids(tag)
    }

    fn step_txn(
        &mut self,
        parts: &[Part],
        end: End,
        attempted: &mut Option<Att>,
        committed: &mut bool,
    ) -> Res<()> {
        let mut store = self.store.take().unwrap();
        let r = self.txn_in(&mut store, parts, end, attempted, committed);
        self.store = Some(store);
        r
    }

    fn txn_in(
        &mut self,
        store: &mut Store,
        parts: &[Part],
        end: End,
        attempted: &mut Option<Att>,
        committed: &mut bool,
    ) -> Res<()> {
        let mut ip = match guard(|| store.begin_transaction()) {
            Ok(Ok(ip)) => ip,
            Ok(Err(e)) => {
                if vfs::fired(M) > 0 || vfs::is_dead(M) {
                    self.cov.hit("begin.failed-by-fault");
                    return Ok(());
                }
                let tag = if self.faulted { "refused:begin:after-fault" } else { "refused:begin" };
                return self.bad(tag, format!("cannot begin a transaction: {}", text(&e)));
            }
            Err(p) => {
                if vfs::is_dead(M) {
                    return Ok(());
                }
                return self.bad("panic:begin", format!("begin_transaction: {}", panic_text(&p)));
            }
        };
        let ids = self.next_ids(&ip);
        if ids.0 < self.m.next_user || ids.1 != self.m.next_tx {
            return self.bad(
                "ids",
                format!("next ids are {:?} and not {:?}", ids, (self.m.next_user, self.m.next_tx)),
            );
        }
        // Ids may be skipped, never reused.
        self.m.next_user = ids.0;
        let mut cur = Cur { m: self.m.clone(), h: self.h.clone(), txs: vec![], wrote: false };
        let mut cached = self.cached.clone();
        let mut end = end;
        let mut saved: Vec<(u8, Cur, BTreeMap<String, Dir>)> = vec![];
        for part in parts {
            if vfs::is_dead(M) {
                break;
            }
            match part {
                Part::Save(n) | Part::Back(n) | Part::Keep(n) => {
                    let at = saved.iter().rposition(|s| s.0 == *n);
                    if at.is_none() && !matches!(part, Part::Save(_)) {
                        continue;
                    }
                    let name = format!("sp{}", n);
                    let r = guard(|| match part {
                        Part::Save(_) => ip.savepoint(&name),
                        Part::Back(_) => ip.rollback_savepoint(&name),
                        _ => ip.release_savepoint(&name),
                    });
                    match r {
                        Ok(Ok(())) => {}
                        Err(p) if !vfs::is_dead(M) => {
                            return self.bad("panic:savepoint", format!("{:?}: {}", part, panic_text(&p)))
                        }
                        Ok(Err(e)) if vfs::fired(M) == 0 && !vfs::is_dead(M) => {
                            return self.bad("refused:savepoint", format!("{:?}: {}", part, text(&e)))
                        }
                        _ => {
                            // Whoever cannot go back to where they want to be gives up.
                            end = End::Drop;
                            break;
                        }
                    }
                    self.say(format!("    {:?}", part));
                    match part {
                        Part::Save(_) => saved.push((*n, cur.clone(), cached.clone())),
                        Part::Back(_) => {
                            let at = at.unwrap();
                            saved.truncate(at + 1);
                            cur = saved[at].1.clone();
                            cached = saved[at].2.clone();
                            self.cov.hit("savepoint.rolled-back");
                            let ids = self.next_ids(&ip);
                            if ids.0 < cur.m.next_user || ids.1 != cur.m.next_tx {
                                let want = (cur.m.next_user, cur.m.next_tx);
                                return self.bad("savepoint:ids", format!("next ids are {:?} and not {:?}", ids, want));
                            }
                            cur.m.next_user = ids.0;
                            let ds = diff_schema(&ip.schema, &cur.m);
                            if !ds.is_empty() {
                                return self.bad("savepoint:schema", first(&ds));
                            }
                            if !cached.is_empty() && ip.use_caching && !vfs::is_dead(M) {
                                self.sweep_in(&ip, &cur, &cached)?;
                            }
                        }
                        _ => {
                            saved.truncate(at.unwrap());
                            self.cov.hit("savepoint.released");
                        }
                    }
                }
                Part::Ops(ops) | Part::Built(ops) => {
                    let built = matches!(part, Part::Built(_));
                    self.transact_in(&mut ip, &mut cur, ops, built)?;
                    if !cached.is_empty() && ip.use_caching && !vfs::is_dead(M) {
                        self.sweep_in(&ip, &cur, &cached)?;
                    }
                }
                Part::Query(q) => {
                    self.query_in(&ip, &cur, q, !cached.is_empty())?;
                }
                Part::Ensure(e) => {
                    if self.ensure_in(&mut ip, &mut cur, e)? {
                        break;
                    }
                    if !cached.is_empty() && ip.use_caching && !vfs::is_dead(M) {
                        self.sweep_in(&ip, &cur, &cached)?;
                    }
                }
                Part::Vocabs => {
                    let defs = self.definitions();
                    let r = guard(|| crate::vocab::look(&ip, &cur.m, &defs));
                    self.vocabs_seen(r)?;
                }
                Part::UseCaching(b) => ip.use_caching(*b),
                Part::Cache(a, d) => {
                    self.cache_in(&mut ip, &cur, a, Some(*d), &mut cached)?;
                }
                Part::Uncache(a) => {
                    self.cache_in(&mut ip, &cur, a, None, &mut cached)?;
                }
            }
        }
        match end {
            End::Commit => {
                *attempted = Some(Att::Done(cur.m.clone(), cur.h.clone()));
                match guard(|| ip.commit()) {
                    Ok(Ok(())) => {
                        if vfs::is_dead(M) {
                            // The process died during the call: nobody was told.
                            return Ok(());
                        }
                        *committed = true;
                        self.cov.hit("commits");
                        self.cov.note("C");
                        self.m = cur.m;
                        self.h = cur.h;
                        self.cached = cached;
                        self.tell(cur.txs);
                        Ok(())
                    }
                    Ok(Err(e)) => {
                        self.cov.note("c");
                        if vfs::fired(M) > 0 || vfs::is_dead(M) {
                            self.cov.hit("commit.failed-by-fault");
                            self.say(format!("    commit failed: {}", text(&e)));
                            return Ok(());
                        }
                        let tag = if self.faulted { "refused:commit:after-fault" } else { "refused:commit" };
                        self.bad(tag, format!("commit refused: {}", text(&e)))
                    }
                    Err(p) => {
                        if vfs::is_dead(M) {
                            return Ok(());
                        }
                        self.bad("panic:commit", format!("commit: {}", panic_text(&p)))
                    }
                }
            }
            End::Rollback => {
                self.cov.hit("rollbacks");
                match guard(|| ip.rollback()) {
                    Ok(Ok(())) => Ok(()),
                    Ok(Err(e)) => {
                        if vfs::fired(M) > 0 || vfs::is_dead(M) {
                            return Ok(());
                        }
                        self.bad("refused:rollback", format!("rollback refused: {}", text(&e)))
                    }
                    Err(p) => {
                        if vfs::is_dead(M) {
                            return Ok(());
                        }
                        self.bad("panic:rollback", format!("rollback: {}", panic_text(&p)))
                    }
                }
            }
            End::Drop => {
                self.cov.hit("drops");
                match guard(move || drop(ip)) {
                    Ok(()) => Ok(()),
                    Err(p) => {
                        if vfs::is_dead(M) {
                            return Ok(());
                        }
                        self.bad("panic:rollback", format!("drop: {}", panic_text(&p)))
                    }
                }
            }
        }
    }

    fn transact_in(&mut self, ip: &mut InProgress, cur: &mut Cur, ops: &[Op], built: bool) -> Res<()> {
        let ops: Vec<Op> = ops.iter().filter(|o| o.known(&cur.h)).cloned().collect();
        if ops.is_empty() {
            return Ok(());
        }
        let faulted = self.faulted;
        let step = self.step;
        let mut j = Judge {
            cov: &mut self.cov,
            trace: &mut self.trace,
            verbose: self.verbose,
            step,
            machine: M,
            recovering: faulted,
        };
        let expect = match j.expect(cur, &ops) {
            Some(x) => x,
            None => return Ok(()),
        };
        let edn = ops_edn(&ops, &cur.h);
        if j.verbose {
            j.trace.push(format!("    transact {}", edn.replace('\n', " ")));
        }
        let w0 = sys::wall_ns();
        let use_builder = built && crate::build::can_build(&ops);
        let r = guard(|| {
            if use_builder {
                crate::build::transact(ip, &ops, &cur.h, &|a| cur.m.idents.get(a).and_then(|e| cur.m.attrs.get(e)).map_or(false, |d| d.vt == Vt::Ref))
            } else {
                ip.transact(edn.as_str()).map_err(|e| text(&e))
            }
        });
        let w1 = sys::wall_ns();
        if use_builder {
            j.cov.hit("tx.built");
        }
        let got = match r {
            Ok(x) => x,
            Err(p) => {
                if vfs::is_dead(M) {
                    return Ok(());
                }
                return j.bad("panic:transact", format!("transact {}: {}", edn.replace('\n', " "), panic_text(&p)));
            }
        };
        j.outcome(cur, &ops, expect, got, (w0, w1), &ip.transaction, true)?;
        if !vfs::is_dead(M) {
            // The schema the rest of the transaction works with.
            let ds = diff_schema(&ip.schema, &cur.m);
            if !ds.is_empty() {
                return self.bad("inprogress:schema", first(&ds));
            }
            let ids = self.next_ids(ip);
            if ids.0 < cur.m.next_user || ids.1 != cur.m.next_tx {
                return self.bad(
                    "ids",
                    format!("next ids in the transaction are {:?} and not {:?}", ids, (cur.m.next_user, cur.m.next_tx)),
                );
            }
            cur.m.next_user = ids.0;
        }
        Ok(())
    }

    fn ensure_in(&mut self, ip: &mut InProgress, cur: &mut Cur, e: &crate::vocab::Ensure) -> Res<bool> {
        let (faulted, step) = (self.faulted, self.step);
        let mut j = Judge {
            cov: &mut self.cov,
            trace: &mut self.trace,
            verbose: self.verbose,
            step,
            machine: M,
            recovering: faulted,
        };
        match j.ensure(ip, cur, e)? {
            crate::vocab::After::Look if !vfs::is_dead(M) => {}
            crate::vocab::After::Lost => return Ok(true),
            _ => return Ok(false),
        }
        let ds = diff_schema(&ip.schema, &cur.m);
        if !ds.is_empty() {
            return self.bad("vocab:schema", first(&ds));
        }
        let ids = self.next_ids(ip);
        if ids.0 < cur.m.next_user || ids.1 != cur.m.next_tx {
            let want = (cur.m.next_user, cur.m.next_tx);
            return self.bad("vocab:ids", format!("next ids are {:?} and not {:?}", ids, want));
        }
        cur.m.next_user = ids.0;
        Ok(false)
    }

    /// Every vocabulary definition in the plan.
    fn definitions(&self) -> Vec<crate::vocab::VDef> {
        let mut out = vec![];
        for s in &self.plan.steps {
            if let Kind::Txn { parts, .. } = &s.kind {
                for p in parts {
                    if let Part::Ensure(e) = p {
                        out.extend(e.defs.iter().cloned());
                    }
                }
            }
        }
        out
    }

    /// Whatever is given, it's refused or not; and it's gone when the transaction is.
    fn step_odd(&mut self, ops: &[Op], salt: u64) -> Res<()> {
        let t = match mangle::mangle(&ops_edn(ops, &self.h), salt) {
            Some(t) => t,
            None => return Ok(()),
        };
        let mut store = self.store.take().unwrap();
        let r = guard(|| -> Result<Option<bool>, String> {
            let mut ip = match store.begin_transaction() {
                Ok(ip) => ip,
                Err(e) => return Err(text(&e)),
            };
            let ok = ip.transact(t.as_str()).is_ok();
            match salt % 4 {
                0 | 1 if !ok => ip.commit().map_err(|e| text(&e))?,
                2 => ip.rollback().map_err(|e| text(&e))?,
                _ => drop(ip),
            }
            Ok(Some(ok))
        });
        self.store = Some(store);
        match r {
            Ok(Ok(ok)) => {
                self.cov.hit(if ok == Some(true) { "odd.transaction.taken" } else { "odd.transaction.refused" });
                Ok(())
            }
            Ok(Err(_)) if vfs::fired(M) > 0 || vfs::is_dead(M) => Ok(()),
            Ok(Err(e)) => self.bad("refused:odd", format!("around {}: {}", t, e)),
            Err(_) if vfs::is_dead(M) => Ok(()),
            Err(p) => self.bad("panic:odd", format!("{}: {}", t, panic_text(&p))),
        }
    }

    fn step_vocabs(&mut self) -> Res<()> {
        let mut store = self.store.take().unwrap();
        let defs = self.definitions();
        let m = &self.m;
        let r = guard(|| match store.begin_read() {
            Ok(r) => crate::vocab::look(&r.in_progress, m, &defs),
            Err(e) => Err(text(&e)),
        });
        self.store = Some(store);
        self.vocabs_seen(r)
    }

    fn vocabs_seen(&mut self, r: std::thread::Result<Result<Vec<String>, String>>) -> Res<()> {
        if vfs::is_dead(M) {
            return Ok(());
        }
        match r {
            Ok(Ok(d)) if d.is_empty() => {
                self.cov.hit("vocab.read");
                Ok(())
            }
            Ok(Ok(d)) => self.bad("vocab:read", first(&d)),
            Ok(Err(_)) if vfs::fired(M) > 0 => Ok(()),
            Ok(Err(e)) => self.bad("vocab:read:refused", e),
            Err(p) => self.bad("panic:vocab", panic_text(&p)),
        }
    }

    fn step_auto(&mut self, ops: &[Op], attempted: &mut Option<Att>, committed: &mut bool) -> Res<()> {
        let ops: Vec<Op> = ops.iter().filter(|o| o.known(&self.h)).cloned().collect();
        if ops.is_empty() {
            return Ok(());
        }
        let mut cur = Cur { m: self.m.clone(), h: self.h.clone(), txs: vec![], wrote: false };
        let mut store = self.store.take().unwrap();
        let faulted = self.faulted;
        let step = self.step;
        let mut j = Judge {
            cov: &mut self.cov,
            trace: &mut self.trace,
            verbose: self.verbose,
            step,
            machine: M,
            recovering: faulted,
        };
        let seed = self.plan.seed;
        let r = (|| {
            let expect = match j.expect(&cur, &ops) {
                Some(x) => x,
                None => return Ok(()),
            };
            if expect.is_ok() {
                *attempted = Some(Att::Auto(ops.clone()));
            }
            let edn = ops_edn(&ops, &cur.h);
            let w0 = sys::wall_ns();
            let mut way = Rng::sub(seed, 0xb1_0000 + u64::from(step));
            let built = if crate::build::can_build(&ops) && way.pct(30) { Some(way.below(3)) } else { None };
            if built.is_some() {
                j.cov.hit("tx.built.alone");
            }
            let is_ref = |a: &str| cur.m.idents.get(a).and_then(|e| cur.m.attrs.get(e)).map_or(false, |d| d.vt == Vt::Ref);
            let got = match guard(|| match built {
                Some(w) => crate::build::commit(&mut store, &ops, &cur.h, &is_ref, w),
                None => store.transact(edn.as_str()).map_err(|e| text(&e)),
            }) {
                Ok(x) => x,
                Err(p) => {
                    if vfs::is_dead(M) {
                        return Ok(());
                    }
                    return j.bad("panic:transact", format!("transact {}: {}", edn.replace('\n', " "), panic_text(&p)));
                }
            };
            let w1 = sys::wall_ns();
            let ok = got.is_ok();
            if vfs::is_dead(M) {
                return Ok(());
            }
            j.outcome(&mut cur, &ops, expect, got, (w0, w1), store.sqlite_mut(), true)?;
            if ok {
                *committed = true;
            }
            Ok(())
        })();
        self.store = Some(store);
        r?;
        if *committed {
            self.cov.hit("commits");
            self.cov.note("C");
            self.m = cur.m;
            self.h = cur.h;
            self.tell(cur.txs);
        }
        Ok(())
    }

    /// Take the store apart, and go on with what it was made of.
    fn step_apart(
        &mut self,
        cache: &Option<(String, Dir)>,
        ops: &[Op],
        qs: &[Q],
        attempted: &mut Option<Att>,
        committed: &mut bool,
    ) -> Res<()> {
        let ops: Vec<Op> = ops.iter().filter(|o| o.known(&self.h)).cloned().collect();
        let (mut sqlite, mut conn) = self.store.take().unwrap().dismantle();
        let mut cur = Cur { m: self.m.clone(), h: self.h.clone(), txs: vec![], wrote: false };
        let faulted = self.faulted;
        let step = self.step;
        let mut j = Judge {
            cov: &mut self.cov,
            trace: &mut self.trace,
            verbose: self.verbose,
            step,
            machine: M,
            recovering: faulted,
        };
        j.cov.hit("apart");
        let mut told = vec![];
        let r = (|| {
            if let Some((a, d)) = cache {
                if cur.m.attr(a).is_some() {
                    let k = kw(a);
                    let schema = conn.current_schema();
                    let r = guard(|| conn.cache(&mut sqlite, &schema, &k, cache_direction(*d), mentat::CacheAction::Register));
                    match r {
                        _ if vfs::is_dead(M) => return Ok(()),
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => return j.bad("refused:cache", format!("cannot cache {}: {}", a, text(&e))),
                        Err(p) => return j.bad("panic:cache", format!("caching {}: {}", a, panic_text(&p))),
                    }
                }
            }
            if !ops.is_empty() {
                if let Some(expect) = j.expect(&cur, &ops) {
                    if expect.is_ok() {
                        *attempted = Some(Att::Auto(ops.clone()));
                    }
                    let edn = ops_edn(&ops, &cur.h);
                    let w0 = sys::wall_ns();
                    let got = match guard(|| conn.transact(&mut sqlite, edn.as_str()).map_err(|e| text(&e))) {
                        Ok(x) => x,
                        Err(_) if vfs::is_dead(M) => return Ok(()),
                        Err(p) => return j.bad("panic:transact", format!("transact {}: {}", edn.replace('\n', " "), panic_text(&p))),
                    };
                    let w1 = sys::wall_ns();
                    let ok = got.is_ok();
                    if vfs::is_dead(M) {
                        return Ok(());
                    }
                    j.outcome(&mut cur, &ops, expect, got, (w0, w1), &mut sqlite, true)?;
                    if ok {
                        *committed = true;
                        told = cur.txs.clone();
                    } else {
                        cur.txs.clear();
                    }
                }
            }
            let last = cur.m.log.keys().next_back().cloned();
            if last.map_or(false, |t| t != conn.last_tx_id()) {
                return j.bad("last-tx", format!("the last transaction is said to be {} and is {:?}", conn.last_tx_id(), last));
            }
            if let Some((a, _)) = cache {
                let mut all = BTreeMap::new();
                all.insert(a.clone(), Dir::Both);
                for q in sweep_queries(&cur.m, &all, &[], u64::from(step)) {
                    apart_answer(&mut j, &sqlite, &mut conn, &cur, &q, 0)?;
                }
            }
            for (i, q) in qs.iter().enumerate() {
                apart_answer(&mut j, &sqlite, &mut conn, &cur, q, i as u32 + step)?;
                if vfs::is_dead(M) {
                    return Ok(());
                }
                let (m, h) = (&cur.m, &cur.h);
                let a = guard(|| match if i % 2 == 0 { conn.begin_read(&mut sqlite) } else { conn.begin_uncached_read(&mut sqlite) } {
                    Ok(r) => {
                        let s = r.in_progress.schema.clone();
                        ask(&r, &s, m, h, q, false)
                    }
                    Err(e) => Answer::Failed(text(&e)),
                });
                apart_judged(&mut j, a, q, &cur.h)?;
            }
            if let Some((a, _)) = cache {
                let k = kw(a);
                let schema = conn.current_schema();
                if cur.m.attr(a).is_some() {
                    let r = guard(|| conn.cache(&mut sqlite, &schema, &k, CacheDirection::Both, mentat::CacheAction::Deregister));
                    match r {
                        _ if vfs::is_dead(M) => return Ok(()),
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => return j.bad("refused:cache", format!("cannot stop caching {}: {}", a, text(&e))),
                        Err(p) => return j.bad("panic:cache", format!("no longer caching {}: {}", a, panic_text(&p))),
                    }
                    let mut all = BTreeMap::new();
                    all.insert(a.clone(), Dir::Both);
                    for q in sweep_queries(&cur.m, &all, &[], u64::from(step) + 1) {
                        apart_answer(&mut j, &sqlite, &mut conn, &cur, &q, 0)?;
                    }
                }
            }
            Ok(())
        })();
        if r.is_ok() && *committed {
            self.cov.hit("commits");
            self.cov.note("C");
            self.m = cur.m;
            self.h = cur.h;
            self.tell(told);
        }
        if let Err(p) = guard(move || {
            drop(conn);
            drop(sqlite);
        }) {
            if !vfs::is_dead(M) {
                return self.bad("panic:close", format!("closing what the store was made of: {}", panic_text(&p)));
            }
        }
        r?;
        if vfs::is_dead(M) {
            return Ok(());
        }
        self.reopen(true)
    }

    // -----------------------------------------------------------------------------------------
    // Observers.

    fn tell(&mut self, txs: Vec<TxInfo>) {
        for o in self.obs.iter_mut().filter(|o| o.live) {
            let list: Vec<(E, bool, BTreeSet<E>, BTreeSet<E>)> = txs
                .iter()
                .filter(|t| t.attempted.iter().any(|a| o.attrs.contains(a)))
                .map(|t| {
                    (t.tx, t.effective.iter().any(|a| o.attrs.contains(a)), t.effective.clone(), t.attempted.clone())
                })
                .collect();
            if !list.is_empty() {
                let must = list.iter().any(|x| x.1);
                o.expect.push(Told { txs: list, must });
            }
        }
    }

    fn step_observe(&mut self, key: &str, attrs: &[String]) {
        let set: BTreeSet<E> = attrs.iter().filter_map(|a| self.m.attr(a).map(|x| x.0)).collect();
        if set.is_empty() {
            return;
        }
        // Registering under the same key replaces.
        let n = self.obs.len();
        for o in self.obs.iter_mut() {
            if o.live && o.key == key {
                o.live = false;
                for t in o.expect.iter_mut() {
                    t.must = false;
                }
            }
        }
        let got: Calls = Arc::new(Mutex::new(vec![]));
        let g = got.clone();
        let panics = key.starts_with('!');
        let dawdle: u64 = match key.as_bytes()[0] {
            b'~' => [50_000, 5_000_000, 3_000_000_000][(n + self.step as usize) % 3],
            _ => 0,
        };
        let told = self.told.clone();
        let me = key.to_string();
        let obs = Arc::new(TxObserver::new(set.clone(), move |_key, reports| {
            let call: Vec<(E, BTreeSet<E>)> = reports.iter().map(|(t, a)| (**t, (*a).clone())).collect();
            told.lock().unwrap_or_else(|e| e.into_inner()).extend(call.iter().map(|c| (me.clone(), c.0)));
            g.lock().unwrap_or_else(|e| e.into_inner()).push(call);
            if dawdle > 0 {
                std::thread::sleep(std::time::Duration::from_nanos(dawdle));
            }
            if panics {
                panic!("an observer misbehaves");
            }
        }));
        let k = key.to_string();
        if let Some(s) = self.store.as_mut() {
            s.register_observer(k.clone(), obs);
            self.obs.push(Obs { attrs: set, expect: vec![], got, live: true, key: k, panics });
            self.cov.hit("observers.registered");
            if panics {
                self.cov.hit("observers.panicking");
            }
            if dawdle > 0 {
                self.cov.hit("observers.slow");
            }
        }
    }

    fn step_unobserve(&mut self, key: &str) {
        if let Some(s) = self.store.as_mut() {
            s.unregister_observer(key);
            for o in self.obs.iter_mut() {
                if o.live && o.key == key {
                    o.live = false;
                    for t in o.expect.iter_mut() {
                        t.must = false;
                    }
                }
            }
            self.cov.hit("observers.unregistered");
        }
    }

    /// `settled`: everything which is going to be delivered has been.
    fn check_observers(&mut self, _settled: bool) -> Res<()> {
        let mut hits = 0;
        let mut problem: Option<String> = None;
        {
            // Whoever registers again under the same name is told of later commits later.
            let told = self.told.lock().unwrap_or_else(|e| e.into_inner());
            let mut last: BTreeMap<&str, E> = BTreeMap::new();
            for (k, tx) in told.iter() {
                if let Some(l) = last.insert(k, *tx) {
                    if l > *tx {
                        problem = Some(format!("observer {} was told of {} after {}", k, tx, l));
                    }
                }
            }
        }
        for o in &self.obs {
            let got = o.got.lock().unwrap_or_else(|e| e.into_inner()).clone();
            let mut gi = 0;
            for t in &o.expect {
                let here = got.get(gi).and_then(|c| c.first()).map(|x| x.0);
                let mine = here.map_or(false, |tx| t.txs.iter().any(|x| x.0 == tx));
                if !mine {
                    if t.must {
                        problem = Some(format!(
                            "observer {} was not told of transaction {:?}; it was told {:?}",
                            o.key,
                            t.txs.iter().filter(|x| x.1).map(|x| x.0).collect::<Vec<_>>(),
                            got.iter().map(|c| c.iter().map(|x| x.0).collect::<Vec<_>>()).collect::<Vec<_>>()
                        ));
                        break;
                    }
                    continue;
                }
                let call = &got[gi];
                gi += 1;
                hits += 1;
                let mut last = 0;
                for (tx, attrs) in call {
                    match t.txs.iter().find(|x| x.0 == *tx) {
                        None => {
                            problem = Some(format!("observer {} was told of {}, which does not concern it", o.key, tx))
                        }
                        Some(x) => {
                            if !x.2.is_subset(attrs) || !attrs.is_subset(&x.3) {
                                problem = Some(format!(
                                    "observer {} was told {} touched {:?}; it changed {:?} and mentioned {:?}",
                                    o.key, tx, attrs, x.2, x.3
                                ));
                            }
                        }
                    }
                    if *tx <= last {
                        problem = Some(format!("observer {} was told of {} after {}", o.key, tx, last));
                    }
                    last = *tx;
                }
                for x in t.txs.iter().filter(|x| x.1) {
                    if t.must && !call.iter().any(|c| c.0 == x.0) {
                        problem = Some(format!("observer {} was not told of transaction {}", o.key, x.0));
                    }
                }
            }
            if problem.is_none() && gi < got.len() {
                problem = Some(format!(
                    "observer {} was told of {:?}, which was not committed, not its business, or told before",
                    o.key,
                    got[gi].iter().map(|x| x.0).collect::<Vec<_>>()
                ));
            }
            if problem.is_some() {
                break;
            }
        }
        *self.cov.counts.entry("observers.notified".into()).or_insert(0) += hits;
        match problem {
            Some(p) => self.bad("observer", p),
            None => Ok(()),
        }
    }

    // -----------------------------------------------------------------------------------------
    // Caches.

    fn step_cache(&mut self, a: &str, d: Dir) -> Res<()> {
        if self.m.attr(a).is_none() {
            return Ok(());
        }
        let mut store = self.store.take().unwrap();
        let k = kw(a);
        let r = guard(|| store.cache(&k, cache_direction(d)));
        self.store = Some(store);
        match r {
            Ok(Ok(())) => {
                self.cached.insert(a.to_string(), d);
                self.cov.hit("cache.registered");
                Ok(())
            }
            Ok(Err(e)) => {
                if vfs::fired(M) > 0 || vfs::is_dead(M) {
                    self.cov.hit("cache.failed-by-fault");
                    return Ok(());
                }
                self.bad("refused:cache", format!("cannot cache {}: {}", a, text(&e)))
            }
            Err(p) => {
                if vfs::is_dead(M) {
                    return Ok(());
                }
                self.bad("panic:cache", format!("caching {}: {}", a, panic_text(&p)))
            }
        }
    }

    /// Ask for what the caches hold: the facts about some of the entities which have, or once had,
    /// values of each cached attribute.
    fn sweep(&mut self) -> Res<()> {
        if self.cached.is_empty() || self.store.is_none() {
            return Ok(());
        }
        let mut store = self.store.take().unwrap();
        let qs = sweep_queries(&self.m, &self.cached, &[], u64::from(self.step));
        let (m, h) = (&self.m, &self.h);
        let schema = store.conn().current_schema();
        let mut r = Ok(());
        for q in qs {
            let a = vfs::paused(|| guard(|| ask(&store, &schema, m, h, &q, false)));
            self.cov.hit("cache.swept");
            r = match a {
                Ok(Answer::Wrong(s)) => Err(("query:cached", s)),
                Ok(Answer::Failed(s)) => Err(("query:cached:refused", s)),
                Err(p) => Err(("panic:query", panic_text(&p))),
                _ => Ok(()),
            };
            if r.is_err() {
                break;
            }
        }
        self.store = Some(store);
        match r {
            Ok(()) => Ok(()),
            Err((t, s)) => self.bad(t, s),
        }
    }

    fn sweep_in(&mut self, ip: &InProgress, cur: &Cur, cached: &BTreeMap<String, Dir>) -> Res<()> {
        for q in sweep_queries(&cur.m, cached, &[], u64::from(self.step)) {
            self.query_in(ip, cur, &q, true)?;
        }
        Ok(())
    }

    fn cache_in(
        &mut self,
        ip: &mut InProgress,
        cur: &Cur,
        a: &str,
        d: Option<Dir>,
        cached: &mut BTreeMap<String, Dir>,
    ) -> Res<()> {
        if cur.m.attr(a).is_none() {
            return Ok(());
        }
        let k = kw(a);
        let dir = match d {
            Some(Dir::Forward) => CacheDirection::Forward,
            Some(Dir::Reverse) => CacheDirection::Reverse,
            _ => CacheDirection::Both,
        };
        let act = if d.is_some() { CacheAction::Register } else { CacheAction::Deregister };
        match guard(|| ip.cache(&k, dir, act)) {
            Ok(Ok(())) => {
                match d {
                    Some(d) => {
                        cached.insert(a.to_string(), d);
                        self.cov.hit("cache.registered-in-progress");
                    }
                    None => {
                        cached.remove(a);
                        self.cov.hit("cache.deregistered");
                    }
                }
                Ok(())
            }
            Ok(Err(e)) => {
                if vfs::fired(M) > 0 || vfs::is_dead(M) {
                    return Ok(());
                }
                self.bad("refused:cache", format!("cannot cache {}: {}", a, text(&e)))
            }
            Err(p) => {
                if vfs::is_dead(M) {
                    return Ok(());
                }
                self.bad("panic:cache", format!("caching {}: {}", a, panic_text(&p)))
            }
        }
    }

    // -----------------------------------------------------------------------------------------
    // Queries.

    fn query_in(&mut self, ip: &InProgress, cur: &Cur, q: &Q, cached: bool) -> Res<()> {
        let r = guard(|| ask(ip, &ip.schema, &cur.m, &cur.h, q, false));
        self.answer(r, if cached && ip.use_caching { "query:cached" } else { "query:in-progress" }, q)
    }

    fn step_query(&mut self, q: &Q, via: Via) -> Res<()> {
        let mut store = self.store.take().unwrap();
        let cached = !self.cached.is_empty();
        let (m, h) = (&self.m, &self.h);
        let r = match via {
            Via::Store => {
                let s = store.conn().current_schema();
                guard(|| ask(&store, &s, m, h, q, false))
            }
            Via::Prepared => {
                let s = store.conn().current_schema();
                guard(|| ask(&store, &s, m, h, q, true))
            }
            Via::Builder => match q {
                Q::D(d) => guard(|| ask_builder(&mut store, m, h, d)),
                q => {
                    let s = store.conn().current_schema();
                    guard(|| ask(&store, &s, m, h, q, false))
                }
            },
            Via::Explain => {
                let s = store.conn().current_schema();
                guard(|| match q {
                    Q::D(d) => ask_datalog(m, h, d, |edn| {
                        // What an explanation says is nobody's business; that it comes, and changes nothing, is.
                        store.q_explain(edn, inputs(d)).map_err(|e| text(&e))?;
                        let r = store.begin_read().map_err(|e| text(&e))?;
                        r.q_explain(edn, inputs(d)).map_err(|e| text(&e))?;
                        let a = r.q_once(edn, inputs(d)).map_err(|e| text(&e))?.results;
                        drop(r);
                        Ok(vec![a, store.q_once(edn, inputs(d)).map_err(|e| text(&e))?.results])
                    }),
                    q => ask(&store, &s, m, h, q, false),
                })
            }
            Via::Read => guard(|| match store.begin_read() {
                Ok(r) => {
                    let s = r.in_progress.schema.clone();
                    ask(&r, &s, m, h, q, false)
                }
                Err(e) => Answer::Failed(text(&e)),
            }),
            Via::Uncached => guard(|| match store.begin_read() {
                Ok(mut r) => {
                    r.in_progress.use_caching(false);
                    let s = r.in_progress.schema.clone();
                    ask(&r, &s, m, h, q, false)
                }
                Err(e) => Answer::Failed(text(&e)),
            }),
        };
        self.store = Some(store);
        let tag = if cached && via != Via::Uncached { "query:cached" } else { "query" };
        self.answer(r, tag, q)
    }

    fn answer(&mut self, r: std::thread::Result<Answer>, tag: &str, q: &Q) -> Res<()> {
        let kind = match q {
            Q::D(_) => "query.datalog",
            Q::Lookup { .. } => "query.lookup",
            Q::Pull { .. } | Q::PullQ { .. } => "query.pull",
            Q::PullF { .. } => "query.pull.find",
            Q::Idents => "query.idents",
            Q::Odd { .. } => "query.odd",
        };
        match r {
            Ok(Answer::Unclear) => {
                self.cov.hit("query.unclear");
                Ok(())
            }
            Ok(Answer::Good(n)) => {
                self.cov.hit(kind);
                if n > 0 {
                    self.cov.hit("query.nonempty");
                }
                self.cov.note(&format!("q{}", n));
                Ok(())
            }
            Ok(Answer::Cross(_)) if vfs::fired(M) > 0 || vfs::is_dead(M) => Ok(()),
            Ok(Answer::Cross(s)) => self.bad("query:types", s),
            Ok(Answer::Wrong(s)) => {
                if vfs::is_dead(M) {
                    return Ok(());
                }
                let t = if vfs::fired(M) > 0 { "query:wrong-under-fault".to_string() } else { tag.to_string() };
                self.bad(&t, s)
            }
            Ok(Answer::Failed(e)) => {
                if vfs::fired(M) > 0 || vfs::is_dead(M) {
                    self.cov.hit("query.failed-by-fault");
                    return Ok(());
                }
                self.bad(&format!("{}:refused", tag), format!("{}: {}", show_q(q, &self.h), e))
            }
            Err(p) => {
                if vfs::is_dead(M) {
                    return Ok(());
                }
                let t = if vfs::fired(M) > 0 { "panic:query:fault" } else { "panic:query" };
                self.bad(t, format!("{}: {}", show_q(q, &self.h), panic_text(&p)))
            }
        }
    }
}

/// The two halves of a store which was taken apart.
struct Apart<'a> {
    sqlite: &'a rusqlite::Connection,
    conn: &'a mentat::Conn,
    uncached: bool,
}

impl<'a> Queryable for Apart<'a> {
    fn q_explain<T>(&self, query: &str, inputs: T) -> mentat::errors::Result<mentat::QueryExplanation>
    where
        T: Into<Option<QueryInputs>>,
    {
        self.conn.q_explain(self.sqlite, query, inputs)
    }
    fn q_once<T>(&self, query: &str, inputs: T) -> mentat::errors::Result<mentat::QueryOutput>
    where
        T: Into<Option<QueryInputs>>,
    {
        if self.uncached {
            self.conn.q_uncached(self.sqlite, query, inputs)
        } else {
            self.conn.q_once(self.sqlite, query, inputs)
        }
    }
    fn q_prepare<T>(&self, query: &str, inputs: T) -> mentat::query::PreparedResult<'_>
    where
        T: Into<Option<QueryInputs>>,
    {
        self.conn.q_prepare(self.sqlite, query, inputs)
    }
    fn lookup_values_for_attribute<X>(&self, entity: X, attribute: &mentat::Keyword) -> mentat::errors::Result<Vec<mentat::TypedValue>>
    where
        X: Into<mentat::Entid>,
    {
        self.conn.lookup_values_for_attribute(self.sqlite, entity.into(), attribute)
    }
    fn lookup_value_for_attribute<X>(&self, entity: X, attribute: &mentat::Keyword) -> mentat::errors::Result<Option<mentat::TypedValue>>
    where
        X: Into<mentat::Entid>,
    {
        self.conn.lookup_value_for_attribute(self.sqlite, entity.into(), attribute)
    }
}

impl<'a> Pullable for Apart<'a> {
    fn pull_attributes_for_entities<X, A>(
        &self,
        entities: X,
        attributes: A,
    ) -> mentat::errors::Result<BTreeMap<mentat::Entid, edn::ValueRc<mentat::StructuredMap>>>
    where
        X: IntoIterator<Item = mentat::Entid>,
        A: IntoIterator<Item = mentat::Entid>,
    {
        self.conn.pull_attributes_for_entities(self.sqlite, entities, attributes)
    }
    fn pull_attributes_for_entity<A>(&self, entity: mentat::Entid, attributes: A) -> mentat::errors::Result<mentat::StructuredMap>
    where
        A: IntoIterator<Item = mentat::Entid>,
    {
        self.conn.pull_attributes_for_entity(self.sqlite, entity, attributes)
    }
}

fn apart_answer(j: &mut Judge, sqlite: &rusqlite::Connection, conn: &mut mentat::Conn, cur: &Cur, q: &Q, way: u32) -> Res<()> {
    let s = conn.current_schema();
    let a = guard(|| {
        let x = Apart { sqlite, conn, uncached: way % 3 == 1 };
        ask(&x, &s, &cur.m, &cur.h, q, way % 3 == 2)
    });
    apart_judged(j, a, q, &cur.h)
}

fn apart_judged(j: &mut Judge, a: std::thread::Result<Answer>, q: &Q, h: &Handles) -> Res<()> {
    if vfs::is_dead(M) {
        return Ok(());
    }
    match a {
        Ok(Answer::Good(_)) => {
            j.cov.hit("query.apart");
            Ok(())
        }
        Ok(Answer::Unclear) => Ok(()),
        Ok(Answer::Cross(s)) => j.bad("query:types", s),
        Ok(Answer::Wrong(s)) => j.bad("query", format!("of what the store was made of: {}", s)),
        Ok(Answer::Failed(e)) => j.bad("query:refused", format!("of what the store was made of: {}: {}", show_q(q, h), e)),
        Err(p) => j.bad("panic:query", format!("of what the store was made of: {}: {}", show_q(q, h), panic_text(&p))),
    }
}

pub fn cache_direction(d: Dir) -> CacheDirection {
    match d {
        Dir::Forward => CacheDirection::Forward,
        Dir::Reverse => CacheDirection::Reverse,
        Dir::Both => CacheDirection::Both,
    }
}

pub fn sweep_queries(m: &Model, cached: &BTreeMap<String, Dir>, extra: &[Change], salt: u64) -> Vec<Q> {
    let mut out = vec![];
    for (name, dir) in cached {
        let (a, d) = match m.attr(name) {
            Some(x) => x,
            None => continue,
        };
        let fwd = |e: E| Cl::Pat { e: PT::C(V::Ref(e)), a: PT::C(V::Kw(name.clone())), v: PT::Var("?v".into()), tx: None };
        let rev = |v: V| Cl::Pat { e: PT::Var("?e".into()), a: PT::C(V::Kw(name.clone())), v: PT::C(v), tx: None };
        let dq = |find: Find, c: Cl| {
            Q::D(DQ { find, with: vec![], ins: vec![], clauses: vec![c], order: vec![], limit: None, limit_in: false, wild: false })
        };
        // The latest changes are the likeliest to have gone astray.
        let mut seen: Vec<(E, V)> = vec![];
        for c in extra.iter().filter(|c| c.1 == a).take(6) {
            seen.push((c.0, c.2.clone()));
        }
        for (_, l) in m.log.iter().rev().take(12) {
            for c in l.iter().filter(|c| c.1 == a) {
                seen.push((c.0, c.2.clone()));
            }
            if seen.len() > 24 {
                break;
            }
        }
        let mut es: Vec<E> = vec![];
        let mut vs: Vec<V> = vec![];
        for (e, v) in seen {
            if !es.contains(&e) && es.len() < 5 {
                es.push(e);
            }
            if !vs.contains(&v) && vs.len() < 4 {
                vs.push(v);
            }
        }
        let k = m.datoms.keys().filter(|k| k.1 == a).count() as u64;
        if k > 0 {
            if let Some(x) = m.datoms.keys().filter(|k| k.1 == a).nth((salt.wrapping_mul(0x9e37_79b9) % k) as usize) {
                if !es.contains(&x.0) {
                    es.push(x.0);
                }
            }
        }
        if *dir != Dir::Reverse {
            for e in es {
                out.push(dq(Find::Coll(El::Var("?v".into())), fwd(e)));
                if !d.many {
                    out.push(dq(Find::Scalar(El::Var("?v".into())), fwd(e)));
                }
            }
        }
        if *dir != Dir::Forward {
            for v in vs {
                out.push(dq(Find::Coll(El::Var("?e".into())), rev(v)));
            }
        }
    }
    out
}

pub fn show_q(q: &Q, h: &Handles) -> String {
    match q {
        Q::D(d) => d.edn(h),
        Q::Odd { q, salt } => odd_text(q, h).and_then(|t| mangle::mangle(&t, *salt)).unwrap_or_default(),
        q => format!("{:?}", q),
    }
}

/// What's to be put out of shape.
fn odd_text(q: &Q, h: &Handles) -> Option<String> {
    match q {
        Q::D(d) => Some(d.edn(h)),
        Q::PullF { shape, p, p2, by, order, limit } => Some(query::pull_find(*shape, p, p2, by, *order, *limit)),
        _ => None,
    }
}

/// Inputs, not always those asked for.
fn odd_inputs(q: &Q, salt: u64) -> Option<QueryInputs> {
    let d = match q {
        Q::D(d) => d,
        _ => return None,
    };
    let mut r = Rng::sub(salt, 0x1b);
    let mut ins: Vec<(Variable, mentat::TypedValue)> = vec![];
    for (n, v) in &d.ins {
        if r.pct(10) {
            continue;
        }
        let v = match r.below(10) {
            0 => mentat::TypedValue::Long(-3),
            1 => mentat::TypedValue::typed_string("x"),
            2 => mentat::TypedValue::Ref(99999),
            _ => v.to_typed(),
        };
        ins.push((Variable::from_valid_name(n), v));
    }
    if let (Some(l), true) = (d.limit, d.limit_in) {
        let l = if r.pct(30) { *r.pick(&[0i64, -1, i64::MAX, i64::MIN]) } else { l as i64 };
        ins.push((Variable::from_valid_name(query::LIMIT), mentat::TypedValue::Long(l)));
    }
    if r.pct(6) {
        ins.push((Variable::from_valid_name("?v1"), mentat::TypedValue::Boolean(true)));
    }
    if ins.is_empty() {
        None
    } else {
        Some(QueryInputs::with_value_sequence(ins))
    }
}

pub enum Answer {
    Good(usize),
    Wrong(String),
    /// Wrong, in a question where values of different types came together that are stored alike.
    Cross(String),
    Failed(String),
    Unclear,
}

fn inputs(d: &DQ) -> Option<QueryInputs> {
    let mut ins: Vec<_> = d.ins.iter().map(|(n, v)| (Variable::from_valid_name(n), v.to_typed())).collect();
    if let (Some(l), true) = (d.limit, d.limit_in) {
        ins.push((Variable::from_valid_name(query::LIMIT), mentat::TypedValue::Long(l as i64)));
    }
    if ins.is_empty() {
        None
    } else {
        Some(QueryInputs::with_value_sequence(ins))
    }
}

fn sbind(b: &Binding, m: &Model, d: &AttrDef, want: &[V]) -> Result<(), String> {
    let _ = m;
    let got: Vec<V> = match b {
        Binding::Scalar(t) => {
            if d.many {
                return Err("one value where a vector was expected".to_string());
            }
            vec![V::from_typed(t)]
        }
        Binding::Vec(vs) => {
            if !d.many {
                return Err("a vector where one value was expected".to_string());
            }
            let mut out = vec![];
            for v in vs.iter() {
                match v {
                    Binding::Scalar(t) => out.push(V::from_typed(t)),
                    _ => return Err("odd nested value".to_string()),
                }
            }
            out
        }
        _ => return Err("odd value".to_string()),
    };
    let mut a = got.clone();
    a.sort();
    let mut b = want.to_vec();
    b.sort();
    if a != b {
        return Err(format!("{:?} and not {:?}", a, b));
    }
    Ok(())
}

fn check_map(
    sm: &mentat::StructuredMap,
    e: E,
    attrs: &[(String, E, AttrDef)],
    m: &Model,
) -> Result<usize, String> {
    let mut n = 0;
    let mut seen = 0;
    for (name, a, d) in attrs {
        let want = m.values(e, *a);
        match sm.0.get(&kw(name)) {
            None => {
                if !want.is_empty() {
                    return Err(format!("pull of {} lacks {}", e, name));
                }
            }
            Some(b) => {
                seen += 1;
                if want.is_empty() {
                    return Err(format!("pull of {} has {}, which it does not have", e, name));
                }
                if let Err(x) = sbind(b, m, d, &want) {
                    return Err(format!("pull of {}: {}: {}", e, name, x));
                }
                n += 1;
            }
        }
    }
    if seen != sm.0.len() {
        return Err(format!("pull of {} has {} keys, {} were asked for", e, sm.0.len(), seen));
    }
    Ok(n)
}

type Pulled = Vec<(String, Option<(E, AttrDef)>)>;

/// The keys of the map that is to be pulled, and the attributes they are for (none for the entity itself).
fn pull_want(p: &[query::PA], m: &Model) -> Option<Pulled> {
    use query::PA;
    let mut out: Pulled = vec![];
    for x in p {
        match x {
            PA::Attr(a) => out.push((a.clone(), Some(m.attr(a).map(|(e, d)| (e, d.clone()))?))),
            PA::As(a, b) => out.push((b.clone(), Some(m.attr(a).map(|(e, d)| (e, d.clone()))?))),
            PA::Id => out.push((":db/id".into(), None)),
            PA::IdAs(b) => out.push((b.clone(), None)),
            PA::All => {
                for (e, d) in &m.attrs {
                    out.push((m.names.get(e)?.clone(), Some((*e, d.clone()))));
                }
            }
        }
    }
    let keys: BTreeSet<&String> = out.iter().map(|x| &x.0).collect();
    if keys.len() != out.len() {
        return None;
    }
    Some(out)
}

/// The map pulled for that entity, in a form that compares.
fn pull_of(p: &Pulled, e: E, m: &Model) -> BTreeMap<String, (bool, Vec<V>)> {
    let mut out = BTreeMap::new();
    for (k, a) in p {
        match a {
            None => {
                out.insert(k.clone(), (false, vec![V::Ref(e)]));
            }
            Some((a, d)) => {
                let mut vs = m.values(e, *a);
                if !vs.is_empty() {
                    vs.sort();
                    out.insert(k.clone(), (d.many, vs));
                }
            }
        }
    }
    out
}

fn pull_got(b: &Binding) -> Result<BTreeMap<String, (bool, Vec<V>)>, String> {
    let sm = match b {
        Binding::Map(sm) => sm,
        x => return Err(format!("{:?} where a map was expected", x)),
    };
    let one = |b: &Binding| match b {
        Binding::Scalar(t) => Ok(V::from_typed(t)),
        x => Err(format!("odd value {:?}", x)),
    };
    let mut out = BTreeMap::new();
    for (k, b) in sm.0.iter() {
        let x = match b {
            Binding::Vec(vs) => {
                let mut vs = vs.iter().map(one).collect::<Result<Vec<V>, String>>()?;
                vs.sort();
                (true, vs)
            }
            b => (false, vec![one(b)?]),
        };
        out.insert(k.to_string(), x);
    }
    Ok(out)
}

fn judge_pulls(
    shape: u8,
    p: &Pulled,
    p2: &Pulled,
    by: E,
    order: Option<bool>,
    limit: Option<u64>,
    m: &Model,
    got: mentat::QueryResults,
) -> Result<usize, String> {
    use mentat::QueryResults as R;
    let facts: Vec<(E, V)> = m.datoms.keys().filter(|k| k.1 == by).map(|k| (k.0, k.2.clone())).collect();
    let ents: BTreeSet<E> = facts.iter().map(|x| x.0).collect();
    let same = |b: &Binding, p: &Pulled, e: E| -> Result<(), String> {
        let (g, w) = (pull_got(b)?, pull_of(p, e, m));
        if g == w {
            Ok(())
        } else {
            Err(format!("for {} pulled {:?} and not {:?}", e, g, w))
        }
    };
    let ent = |b: &Binding| match b {
        Binding::Scalar(mentat::TypedValue::Ref(e)) => Ok(*e),
        x => Err(format!("odd entity {:?}", x)),
    };
    let many = |n: usize| limit.map_or(n, |l| n.min(l as usize));
    match (shape, got) {
        (2, R::Coll(rows)) => {
            // Entities of which there is nothing to pull may be left out.
            let mut left: Vec<_> = ents.iter().map(|e| pull_of(p, *e, m)).collect();
            let n = rows.len();
            for b in &rows {
                let g = pull_got(b)?;
                match left.iter().position(|w| *w == g) {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => return Err(format!("pulled {:?}, which no entity has (or fewer do)", g)),
                }
            }
            if limit.is_none() && left.iter().any(|w| !w.is_empty()) {
                return Err(format!("did not pull {:?}", left.iter().find(|w| !w.is_empty())));
            }
            if n > many(ents.len()) {
                return Err(format!("{} results", n));
            }
            Ok(n)
        }
        (3, R::Scalar(r)) => match r {
            None if ents.is_empty() => Ok(0),
            None => Err("nothing".to_string()),
            Some(b) => {
                let g = pull_got(&b)?;
                if ents.iter().any(|e| pull_of(p, *e, m) == g) {
                    Ok(1)
                } else {
                    Err(format!("pulled {:?}, which no entity has", g))
                }
            }
        },
        (4, R::Tuple(r)) => match r {
            None if ents.is_empty() => Ok(0),
            None => Err("nothing".to_string()),
            Some(row) => {
                let e = ent(&row[0])?;
                if row.len() != 2 || !ents.contains(&e) {
                    return Err(format!("{:?}", row));
                }
                same(&row[1], p, e)?;
                Ok(1)
            }
        },
        (0, R::Rel(r)) => {
            let mut left: Vec<_> = ents.iter().map(|e| pull_of(p, *e, m)).collect();
            let mut n = 0;
            for row in r.rows() {
                let g = pull_got(&row[0])?;
                match left.iter().position(|w| *w == g) {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => return Err(format!("pulled {:?}, which no entity has (or fewer do)", g)),
                }
                n += 1;
            }
            if n != many(ents.len()) {
                return Err(format!("{} rows and not {}", n, many(ents.len())));
            }
            Ok(n)
        }
        (1, R::Rel(r)) | (5, R::Rel(r)) | (6, R::Rel(r)) | (7, R::Rel(r)) => {
            let mut seen: BTreeSet<(E, Option<V>)> = BTreeSet::new();
            let mut last: Option<E> = None;
            let mut n = 0;
            for row in r.rows() {
                let e = ent(&row[0])?;
                if !ents.contains(&e) {
                    return Err(format!("{} is none of the entities", e));
                }
                let mut key = (e, None);
                match shape {
                    1 => {
                        same(&row[1], p, e)?;
                        same(&row[2], p2, e)?;
                    }
                    6 => {
                        let c = facts.iter().filter(|x| x.0 == e).count() as i64;
                        match &row[1] {
                            Binding::Scalar(mentat::TypedValue::Long(x)) if *x == c => {}
                            x => return Err(format!("the count for {} is {:?} and not {}", e, x, c)),
                        }
                        same(&row[2], p, e)?;
                    }
                    _ => {
                        same(&row[1], p, e)?;
                        let v = match &row[2] {
                            Binding::Scalar(t) => V::from_typed(t),
                            x => return Err(format!("odd value {:?}", x)),
                        };
                        if !facts.contains(&(e, v.clone())) {
                            return Err(format!("{} does not have {:?}", e, v));
                        }
                        if shape == 7 {
                            same(&row[3], p2, ent(&row[2])?)?;
                        }
                        key.1 = Some(v);
                    }
                }
                if !seen.insert(key) {
                    return Err(format!("{} twice", e));
                }
                if let (Some(asc), Some(l)) = (order, last) {
                    if if asc { l > e } else { l < e } {
                        return Err(format!("{} after {}", e, l));
                    }
                }
                last = Some(e);
                n += 1;
            }
            let all = if shape == 1 || shape == 6 { ents.len() } else { facts.len() };
            if n != many(all) {
                return Err(format!("{} rows and not {}", n, many(all)));
            }
            if let (Some(asc), Some(_)) = (order, limit) {
                // The first or last ones, and not just any.
                let best: BTreeSet<E> = if asc { ents.iter().take(n).cloned().collect() } else { ents.iter().rev().take(n).cloned().collect() };
                if seen.iter().any(|x| !best.contains(&x.0)) {
                    return Err("not the ones that come first".to_string());
                }
            }
            Ok(n)
        }
        (_, r) => Err(format!("result of the wrong shape: {:?}", r)),
    }
}

/// Ask, in whatever way, and judge all the answers given.
fn ask_datalog(m: &Model, h: &Handles, d: &DQ, run: impl FnOnce(&str) -> Result<Vec<mentat::QueryResults>, String>) -> Answer {
    query::crossed();
    let want = match query::rows(m, h, d) {
        Ok(w) => Some(w),
        // Zero or nothing, but an answer it must be.
        Err(u) if u.0.starts_with(query::OVER_NOTHING) => None,
        Err(_) => return Answer::Unclear,
    };
    let crossed = query::crossed();
    let edn = d.edn(h);
    let all = match run(edn.as_str()) {
        // The schema may have changed since the question was made up.
        Err(e) if d.wild && e.contains("invalid argument to") && !e.contains("fulltext") => return Answer::Unclear,
        Err(e) if d.wild && e.contains("cannot apply projection operation") && query::hopeless(m, d) => return Answer::Unclear,
        Err(e) if crossed => return Answer::Cross(format!("{}: {}", edn, e)),
        Err(e) => return Answer::Failed(e),
        Ok(x) => x,
    };
    let want = match want {
        Some(w) => w,
        None => return Answer::Unclear,
    };
    for (i, x) in all.iter().enumerate() {
        let again = if i > 0 { " again" } else { "" };
        match query::judge(d, &want, x) {
            Ok(()) => {}
            Err(e) if crossed => return Answer::Cross(format!("{}{}: {}", edn, again, e)),
            Err(e) => return Answer::Wrong(format!("{}{}: {}", edn, again, e)),
        }
    }
    Answer::Good(want.len())
}

/// A question put together with the `QueryBuilder`, whose inputs are given one by one.
fn ask_builder(store: &mut Store, m: &Model, h: &Handles, d: &DQ) -> Answer {
    use mentat::QueryResults;
    ask_datalog(m, h, d, |edn| {
        let mut b = mentat::QueryBuilder::new(store, edn);
        let mut out = vec![];
        for typed in [false, true].iter() {
            for (n, v) in &d.ins {
                match v {
                    V::Ref(e) => match m.idents.iter().find(|x| x.1 == e) {
                        Some((k, _)) if *typed => {
                            b.bind_ref_from_kw(n, kw(k)).map_err(|e| text(&e))?;
                        }
                        _ => {
                            b.bind_ref(n, *e);
                        }
                    },
                    V::Long(x) => {
                        b.bind_long(n, *x);
                    }
                    V::Inst(x) if !*typed => {
                        b.bind_instant(n, *x);
                    }
                    V::Inst(_) => {
                        if let mentat::TypedValue::Instant(t) = v.to_typed() {
                            b.bind_date_time(n, t);
                        }
                    }
                    v => {
                        b.bind_value(n, v.to_typed());
                    }
                }
                if *typed {
                    b.bind_type(n, v.to_typed().value_type());
                }
            }
            if let (Some(l), true) = (d.limit, d.limit_in) {
                b.bind_long(query::LIMIT, l as i64);
            }
            let e = |e| text(&e);
            out.push(if !*typed {
                b.execute().map_err(e)?.results
            } else {
                match d.find {
                    Find::Scalar(_) => QueryResults::Scalar(b.execute_scalar().map_err(e)?),
                    Find::Coll(_) => QueryResults::Coll(b.execute_coll().map_err(e)?),
                    Find::Tuple(_) => QueryResults::Tuple(b.execute_tuple().map_err(e)?),
                    Find::Rel(_) => QueryResults::Rel(b.execute_rel().map_err(e)?),
                }
            });
        }
        Ok(out)
    })
}

/// Ask the store, and judge the answer by the model.
pub fn ask<S: Queryable + Pullable>(
    s: &S,
    schema: &mentat::Schema,
    m: &Model,
    h: &Handles,
    q: &Q,
    prepared: bool,
) -> Answer {
    match q {
        Q::D(d) => ask_datalog(m, h, d, |edn| {
            if prepared {
                let mut p = s.q_prepare(edn, inputs(d)).map_err(|e| text(&e))?;
                // A prepared query may be run again.
                Ok(vec![p.run(None).map_err(|e| text(&e))?.results, p.run(None).map_err(|e| text(&e))?.results])
            } else {
                Ok(vec![s.q_once(edn, inputs(d)).map_err(|e| text(&e))?.results])
            }
        }),
        Q::Lookup { e, a, all } => {
            let (ae, d) = match m.attr(a) {
                Some(x) => x,
                None => return Answer::Unclear,
            };
            let _ = d;
            let en = match ev(e, h, m) {
                Some(e) => e,
                None => return Answer::Unclear,
            };
            let mut want = m.values(en, ae);
            want.sort();
            if *all {
                match s.lookup_values_for_attribute(en, &kw(a)) {
                    Err(e) => Answer::Failed(text(&e)),
                    Ok(vs) => {
                        let mut got: Vec<V> = vs.iter().map(V::from_typed).collect();
                        got.sort();
                        if got == want {
                            Answer::Good(want.len())
                        } else {
                            Answer::Wrong(format!("values of {} for {} are {:?} and not {:?}", a, en, got, want))
                        }
                    }
                }
            } else {
                match s.lookup_value_for_attribute(en, &kw(a)) {
                    Err(e) => Answer::Failed(text(&e)),
                    Ok(v) => match v.map(|v| V::from_typed(&v)) {
                        None => {
                            if want.is_empty() {
                                Answer::Good(0)
                            } else {
                                Answer::Wrong(format!("{} for {} is absent and not {:?}", a, en, want))
                            }
                        }
                        Some(v) => {
                            if want.contains(&v) {
                                Answer::Good(1)
                            } else {
                                Answer::Wrong(format!("{} for {} is {:?} and not {:?}", a, en, v, want))
                            }
                        }
                    },
                }
            }
        }
        Q::Pull { es, attrs, many } => {
            let mut specs: Vec<(String, E, AttrDef)> = vec![];
            for a in attrs {
                match m.attr(a) {
                    Some((e, d)) => specs.push((a.clone(), e, d.clone())),
                    None => return Answer::Unclear,
                }
            }
            let mut ents: Vec<E> = vec![];
            for e in es {
                match ev(e, h, m) {
                    Some(e) => ents.push(e),
                    None => return Answer::Unclear,
                }
            }
            ents.sort();
            ents.dedup();
            let ids: Vec<E> = specs.iter().map(|x| x.1).collect();
            let mut n = 0;
            if *many {
                match s.pull_attributes_for_entities(ents.clone(), ids) {
                    Err(e) => return Answer::Failed(text(&e)),
                    Ok(r) => {
                        for e in &ents {
                            let has = specs.iter().any(|x| !m.values(*e, x.1).is_empty());
                            match r.get(e) {
                                None => {
                                    if has {
                                        return Answer::Wrong(format!("pull has nothing for {}", e));
                                    }
                                }
                                Some(sm) => match check_map(sm, *e, &specs, m) {
                                    Ok(k) => n += k,
                                    Err(x) => return Answer::Wrong(x),
                                },
                            }
                        }
                        if r.keys().any(|k| !ents.contains(k)) {
                            return Answer::Wrong("pull has an entity which was not asked for".to_string());
                        }
                    }
                }
            } else {
                for e in &ents {
                    match s.pull_attributes_for_entity(*e, ids.clone()) {
                        Err(e) => return Answer::Failed(text(&e)),
                        Ok(sm) => match check_map(&sm, *e, &specs, m) {
                            Ok(k) => n += k,
                            Err(x) => return Answer::Wrong(x),
                        },
                    }
                }
            }
            Answer::Good(n)
        }
        Q::PullQ { attrs, by } => {
            let mut specs: Vec<(String, E, AttrDef)> = vec![];
            for a in attrs {
                match m.attr(a) {
                    Some((e, d)) => specs.push((a.clone(), e, d.clone())),
                    None => return Answer::Unclear,
                }
            }
            let bye = match m.attr(by) {
                Some((e, _)) => e,
                None => return Answer::Unclear,
            };
            let edn = format!("[:find ?e (pull ?e [{}]) :where [?e {} _]]", attrs.join(" "), by);
            let ents: BTreeSet<E> = m.datoms.keys().filter(|k| k.1 == bye).map(|k| k.0).collect();
            match s.q_once(edn.as_str(), None) {
                Err(e) => Answer::Failed(text(&e)),
                Ok(out) => {
                    let rows = match out.results {
                        mentat::QueryResults::Rel(r) => r,
                        _ => return Answer::Wrong("result of the wrong shape".to_string()),
                    };
                    let mut got: BTreeSet<E> = BTreeSet::new();
                    let mut n = 0;
                    for row in rows.rows() {
                        let e = match &row[0] {
                            Binding::Scalar(mentat::TypedValue::Ref(e)) => *e,
                            _ => return Answer::Wrong("odd entity in pull".to_string()),
                        };
                        if !got.insert(e) {
                            return Answer::Wrong(format!("{}: {} twice", edn, e));
                        }
                        match &row[1] {
                            Binding::Map(sm) => match check_map(sm, e, &specs, m) {
                                Ok(k) => n += k,
                                Err(x) => return Answer::Wrong(format!("{}: {}", edn, x)),
                            },
                            _ => return Answer::Wrong("odd map in pull".to_string()),
                        }
                    }
                    let with_any: BTreeSet<E> = ents
                        .iter()
                        .filter(|e| specs.iter().any(|x| !m.values(**e, x.1).is_empty()))
                        .cloned()
                        .collect();
                    if !got.is_subset(&ents) || !with_any.is_subset(&got) {
                        return Answer::Wrong(format!("{}: entities {:?} and not {:?}", edn, got, ents));
                    }
                    Answer::Good(n)
                }
            }
        }
        Q::PullF { shape, p, p2, by, order, limit } => {
            let edn = query::pull_find(*shape, p, p2, by, *order, *limit);
            let bye = match m.attr(by) {
                Some((e, _)) => e,
                None => return Answer::Unclear,
            };
            let (p, p2) = match (pull_want(p, m), pull_want(p2, m)) {
                (Some(a), Some(b)) => (a, b),
                _ => return Answer::Unclear,
            };
            match s.q_once(edn.as_str(), None) {
                Err(e) => Answer::Failed(format!("{} ({})", text(&e), edn)),
                Ok(out) => match judge_pulls(*shape, &p, &p2, bye, *order, *limit, m, out.results) {
                    Ok(n) => Answer::Good(n),
                    Err(x) => Answer::Wrong(format!("{}: {}", edn, x)),
                },
            }
        }
        Q::Odd { q, salt } => {
            let edn = match odd_text(q, h).and_then(|t| mangle::mangle(&t, *salt)) {
                Some(t) if !mangle::costly(&t) => t,
                _ => return Answer::Unclear,
            };
            let ins = || odd_inputs(q, *salt);
            // Nobody knows what it means, if anything; but it means the same however it's asked.
            let one = s.q_once(edn.as_str(), ins()).map_err(|e| text(&e)).map(|o| o.results.len());
            let two = s.q_prepare(edn.as_str(), ins()).and_then(|mut p| p.run(None)).map_err(|e| text(&e)).map(|o| o.results.len());
            let three = s.q_explain(edn.as_str(), ins()).map_err(|e| text(&e));
            if vfs::fired(M) > 0 || vfs::is_dead(M) {
                return Answer::Good(0);
            }
            match (one, two, three) {
                (Ok(a), Ok(b), Ok(_)) if a == b => Answer::Good(0),
                // A count of nothing is zero or nothing.
                (Ok(a), Ok(b), Ok(_)) if a + b == 1 => Answer::Good(0),
                (Err(_), Err(_), Err(_)) => Answer::Good(0),
                // What cannot match anything is not looked at any closer, by some.
                (Err(_), Err(_), Ok(_)) | (Err(_), Ok(0), _) | (Ok(0), Err(_), _) => Answer::Good(0),
                (a, b, c) => Answer::Wrong(format!("{}: {:?} at once, {:?} prepared, {:?} explained", edn, a, b, c.map(|_| "fine"))),
            }
        }
        Q::Idents => {
            let d = diff_schema(schema, m);
            if d.is_empty() {
                for (k, e) in m.idents.iter().filter(|x| *x.1 >= USER0) {
                    if schema.get_entid(&kw(k)).map(|x| x.0) != Some(*e) {
                        return Answer::Wrong(format!("ident {} does not name {}", k, e));
                    }
                }
                Answer::Good(m.idents.len())
            } else {
                Answer::Wrong(first(&d))
            }
        }
    }
}

pub fn scalar_find(q: &DQ) -> bool {
    matches!(q.find, Find::Scalar(_) | Find::Tuple(_))
}
