//! One store on one disk, a writer, and readers on connections of their own, all at once.
//!
//! Every state the writer commits is kept.  Whatever a reader sees in one read transaction must be
//! exactly one of those states: none older than what had been acknowledged when it began, and none
//! that had not been attempted by then.

use std::collections::BTreeMap;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};

use mentat::{Pullable, Queryable, Store};
use mentat_transaction::query::{self as mq, Known};
use serde::{Deserialize, Serialize};

use crate::exec::*;
use crate::model::*;
use crate::plan::*;
use crate::query::Q;
use crate::readout::*;
use crate::rng::Rng;
use crate::value::*;
use crate::vfs::{CrashAt, CrashKind};
use crate::{sys, vfs};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Open,
    /// One read transaction: these questions, with pauses in between.
    Read(Vec<Q>),
    /// These questions, each on its own.
    Ask(Vec<Q>),
    /// Let this many milliseconds pass.
    Pause(u32),
    Close,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum CKind {
    /// Transactions in one commit, or given up in the end.
    Write { parts: Vec<Vec<Op>>, abort: bool },
    Cache(u32, Dir),
    /// Something for a reader to do while the writer goes on.
    Reader(usize, Vec<Act>),
    /// A reader takes hold of the schema, the caches and the facts as they are now, and asks its
    /// questions while the writer goes on.
    Hold(usize, Vec<Vec<Q>>),
    Pause(u32),
    /// Until all readers are done.
    Wait,
    Reopen,
    Crash(CrashKind),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CStep {
    pub id: u32,
    pub kind: CKind,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub crash: Option<CrashAt>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CPlan {
    pub seed: u64,
    pub cfg: Cfg,
    /// How many readers.
    pub n: usize,
    pub steps: Vec<CStep>,
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
struct State {
    m: Arc<Model>,
    h: Arc<Handles>,
    /// The last transaction.
    tx: E,
}

/// What has been, or might have been, committed.
struct Hist {
    states: Vec<State>,
    /// Of those, the last one whoever wrote it knows to be there.
    acked: usize,
    /// The last one anybody has seen.
    seen: usize,
    bad: Option<Violation>,
    cov: Cov,
    step: u32,
}

enum Cmd {
    Do(Vec<Act>),
    Hold { schema: Arc<mentat::Schema>, cache: mentat_db::cache::SQLiteAttributeCache, cached: BTreeMap<String, Dir>, k: usize, qs: Vec<Vec<Q>>, ready: Sender<bool> },
    /// Say so when everything before this is done.
    Sync(Sender<()>),
}

fn last_tx(m: &Model) -> E {
    m.log.keys().last().cloned().unwrap_or(TX0)
}

// ---------------------------------------------------------------------------------------------
// What a reader holds on to: a transaction on a connection of its own, and the schema and caches as
// they were.

struct Snap<'a> {
    sqlite: &'a rusqlite::Connection,
    schema: &'a mentat::Schema,
    cache: &'a mentat_db::cache::SQLiteAttributeCache,
}

impl<'a> Snap<'a> {
    fn known(&self) -> Known {
        Known::new(self.schema, Some(self.cache))
    }
}

type PR<T> = public_traits::errors::Result<T>;

impl<'a> Queryable for Snap<'a> {
    fn q_explain<T>(&self, query: &str, inputs: T) -> PR<mq::QueryExplanation>
    where
        T: Into<Option<mq::QueryInputs>>,
    {
        mq::q_explain(self.sqlite, self.known(), query, inputs)
    }
    fn q_once<T>(&self, query: &str, inputs: T) -> PR<mq::QueryOutput>
    where
        T: Into<Option<mq::QueryInputs>>,
    {
        mq::q_once(self.sqlite, self.known(), query, inputs)
    }
    fn q_prepare<T>(&self, query: &str, inputs: T) -> mq::PreparedResult
    where
        T: Into<Option<mq::QueryInputs>>,
    {
        mq::q_prepare(self.sqlite, self.known(), query, inputs)
    }
    fn lookup_values_for_attribute<X>(&self, e: X, a: &edn::Keyword) -> PR<Vec<core_traits::TypedValue>>
    where
        X: Into<core_traits::Entid>,
    {
        mq::lookup_values_for_attribute(self.sqlite, self.known(), e.into(), a)
    }
    fn lookup_value_for_attribute<X>(&self, e: X, a: &edn::Keyword) -> PR<Option<core_traits::TypedValue>>
    where
        X: Into<core_traits::Entid>,
    {
        mq::lookup_value_for_attribute(self.sqlite, self.known(), e.into(), a)
    }
}

impl<'a> Pullable for Snap<'a> {
    fn pull_attributes_for_entities<X, A>(
        &self,
        es: X,
        attrs: A,
    ) -> PR<BTreeMap<core_traits::Entid, mentat_core::ValueRc<core_traits::StructuredMap>>>
    where
        X: IntoIterator<Item = core_traits::Entid>,
        A: IntoIterator<Item = core_traits::Entid>,
    {
        mentat_query_pull::pull_attributes_for_entities(self.schema, self.sqlite, es, attrs).map_err(|e| e.into())
    }
    fn pull_attributes_for_entity<A>(&self, e: core_traits::Entid, attrs: A) -> PR<core_traits::StructuredMap>
    where
        A: IntoIterator<Item = core_traits::Entid>,
    {
        mentat_query_pull::pull_attributes_for_entity(self.schema, self.sqlite, e, attrs).map_err(|e| e.into())
    }
}

// Asks once, and gives the same answer again to whoever wants to compare it with something else.

#[derive(Clone)]
enum Said {
    Rows(mq::QueryOutput),
    Values(Vec<core_traits::TypedValue>),
    Value(Option<core_traits::TypedValue>),
}

struct Once<'a> {
    store: &'a Store,
    said: std::cell::RefCell<Option<(String, Said)>>,
}

impl<'a> Once<'a> {
    fn once<F: FnOnce() -> PR<Said>>(&self, what: String, f: F) -> PR<Said> {
        let mut s = self.said.borrow_mut();
        match &*s {
            Some((w, x)) if *w == what => Ok(x.clone()),
            Some(_) => Err(mentat::MentatError::InvalidVocabularyVersion),
            None => {
                let x = f()?;
                *s = Some((what, x.clone()));
                Ok(x)
            }
        }
    }
}

impl<'a> Queryable for Once<'a> {
    fn q_explain<T>(&self, query: &str, inputs: T) -> PR<mq::QueryExplanation>
    where
        T: Into<Option<mq::QueryInputs>>,
    {
        self.store.q_explain(query, inputs)
    }
    fn q_once<T>(&self, query: &str, inputs: T) -> PR<mq::QueryOutput>
    where
        T: Into<Option<mq::QueryInputs>>,
    {
        match self.once(format!("q {}", query), || self.store.q_once(query, inputs).map(Said::Rows))? {
            Said::Rows(x) => Ok(x),
            _ => unreachable!(),
        }
    }
    fn q_prepare<T>(&self, query: &str, inputs: T) -> mq::PreparedResult
    where
        T: Into<Option<mq::QueryInputs>>,
    {
        self.store.q_prepare(query, inputs)
    }
    fn lookup_values_for_attribute<X>(&self, e: X, a: &edn::Keyword) -> PR<Vec<core_traits::TypedValue>>
    where
        X: Into<core_traits::Entid>,
    {
        let e: core_traits::Entid = e.into();
        match self.once(format!("vs {} {}", e, a), || self.store.lookup_values_for_attribute(e, a).map(Said::Values))? {
            Said::Values(x) => Ok(x),
            _ => unreachable!(),
        }
    }
    fn lookup_value_for_attribute<X>(&self, e: X, a: &edn::Keyword) -> PR<Option<core_traits::TypedValue>>
    where
        X: Into<core_traits::Entid>,
    {
        let e: core_traits::Entid = e.into();
        match self.once(format!("v {} {}", e, a), || self.store.lookup_value_for_attribute(e, a).map(Said::Value))? {
            Said::Value(x) => Ok(x),
            _ => unreachable!(),
        }
    }
}

impl<'a> Pullable for Once<'a> {
    fn pull_attributes_for_entities<X, A>(
        &self,
        es: X,
        attrs: A,
    ) -> PR<BTreeMap<core_traits::Entid, mentat_core::ValueRc<core_traits::StructuredMap>>>
    where
        X: IntoIterator<Item = core_traits::Entid>,
        A: IntoIterator<Item = core_traits::Entid>,
    {
        self.store.pull_attributes_for_entities(es, attrs)
    }
    fn pull_attributes_for_entity<A>(&self, e: core_traits::Entid, attrs: A) -> PR<core_traits::StructuredMap>
    where
        A: IntoIterator<Item = core_traits::Entid>,
    {
        self.store.pull_attributes_for_entity(e, attrs)
    }
}

// ---------------------------------------------------------------------------------------------

struct Reader {
    id: usize,
    hist: Arc<Mutex<Hist>>,
    store: Option<Store>,
    /// The last state it saw.
    last: usize,
    rng: Rng,
    var_limit: Option<i32>,
}

impl Reader {
    fn bad(&self, tag: &str, what: String) {
        if vfs::is_dead(M) {
            return;
        }
        let mut h = self.hist.lock().unwrap();
        if h.bad.is_none() {
            let step = h.step;
            h.bad = Some(Violation { tag: tag.to_string(), what: format!("reader {}: {}", self.id, what), step });
        }
    }

    fn hit(&self, k: &str) {
        self.hist.lock().unwrap().cov.hit(k);
    }

    fn stopped(&self) -> bool {
        vfs::is_dead(M) || self.hist.lock().unwrap().bad.is_some()
    }

    fn main(mut self, rx: Receiver<Cmd>) {
        // Some disks are slow.
        let pct = *self.rng.pick(&[0, 0, 5, 30]);
        vfs::slow(self.rng.next(), pct, 4_000);
        if pct > 0 {
            self.hit("reader.slow");
        }
        while let Ok(c) = rx.recv() {
            match c {
                Cmd::Sync(tx) => {
                    if vfs::is_dead(M) {
                        self.close();
                    }
                    let _ = tx.send(());
                }
                Cmd::Do(acts) => {
                    for a in acts {
                        if self.stopped() {
                            break;
                        }
                        match a {
                            Act::Open => self.open(),
                            Act::Close => self.close(),
                            Act::Pause(ms) => sys::sleep_ns(i64::from(ms) * 1_000_000),
                            Act::Read(qs) => {
                                if self.store.is_none() {
                                    self.open();
                                }
                                self.read(&qs)
                            }
                            Act::Ask(qs) => {
                                if self.store.is_none() {
                                    self.open();
                                }
                                if let Some(s) = self.store.take() {
                                    for q in &qs {
                                        self.ask_once(&s, q);
                                    }
                                    self.store = Some(s);
                                }
                            }
                        }
                    }
                }
                Cmd::Hold { schema, cache, cached, k, qs, ready } => self.hold(&schema, &cache, &cached, k, &qs, ready),
            }
        }
        self.close();
    }

    fn close(&mut self) {
        if let Some(s) = self.store.take() {
            if let Err(p) = guard(move || drop(s)) {
                self.bad("panic:close", panic_text(&p));
            }
        }
    }

    fn open(&mut self) {
        self.close();
        let lo = self.hist.lock().unwrap().acked;
        match guard(open_store) {
            Ok(Ok(mut s)) => {
                if let Some(n) = self.var_limit {
                    s.sqlite_mut().set_limit(rusqlite::limits::Limit::SQLITE_LIMIT_VARIABLE_NUMBER, n);
                }
                self.hit("reader.opens");
                // Whatever it takes for the schema must have been the schema.
                let schema = s.conn().current_schema();
                let t = s.conn().last_tx_id();
                let h = self.hist.lock().unwrap();
                let states: Vec<State> = h.states[lo..].to_vec();
                drop(h);
                if !vfs::is_dead(M) && !states.is_empty() {
                    match states.iter().find(|x| x.tx == t) {
                        None => self.bad(
                            "reader:opened",
                            format!("it takes {} for the last transaction, which was never that of a commit since", t),
                        ),
                        Some(x) => {
                            let d = diff_schema(&schema, &x.m);
                            if !d.is_empty() {
                                self.bad("reader:opened", format!("the schema it opened with: {}", first(&d)));
                            }
                        }
                    }
                }
                self.store = Some(s);
            }
            Ok(Err(e)) => self.bad("reader:refused", format!("cannot open the store: {}", text(&e))),
            Err(p) => self.bad("panic:open", panic_text(&p)),
        }
    }

    fn read(&mut self, qs: &[Q]) {
        let mut store = match self.store.take() {
            Some(s) => s,
            None => return,
        };
        self.read_in(&mut store, qs);
        self.store = Some(store);
    }

    fn read_in(&mut self, store: &mut Store, qs: &[Q]) {
        let lo = self.hist.lock().unwrap().acked.max(self.last);
        let schema = store.conn().current_schema();
        let r = guard(|| -> Result<(), (&'static str, String)> {
            let rd = store.begin_read().map_err(|e| ("reader:refused", format!("cannot begin to read: {}", text(&e))))?;
            let conn: &rusqlite::Connection = &rd.in_progress.transaction;
            let t = max_tx(&rd)?;
            let (k, st) = self.place(lo, t)?;
            self.last = k;
            let known = diff_schema(&schema, &st.m).is_empty();
            for q in qs {
                if self.rng.pct(40) {
                    sys::sleep_ns(1_000_000 * if self.rng.pct(4) { 12_000 } else { self.rng.below(30) as i64 });
                }
                if known {
                    let p = self.rng.pct(25);
                    self.judge(ask(&rd, &schema, &st.m, &st.h, q, p), "reader:query")?;
                }
            }
            self.whole(conn, &st)?;
            if max_tx(&rd)? != t {
                return Err(("reader:moved", "the last transaction has changed during a read transaction".to_string()));
            }
            drop(rd);
            self.hit(if known { "reader.reads" } else { "reader.reads-schema-moved-on" });
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err((t, s))) => self.bad(t, s),
            Err(p) => self.bad("panic:reader", panic_text(&p)),
        }
    }

    /// A question outside of any transaction: the answer must be that of one state.
    fn ask_once(&mut self, store: &Store, q: &Q) {
        if self.stopped() {
            return;
        }
        // A pull takes several statements, and whoever wants isolation is to have a transaction: that's
        // what it says at `q_once`.
        if let Q::Pull { .. } | Q::PullQ { .. } | Q::PullF { .. } = q {
            return;
        }
        let lo = self.hist.lock().unwrap().acked.max(self.last);
        let schema = store.conn().current_schema();
        let r = guard(|| -> Result<(), (&'static str, String)> {
            let once = Once { store, said: std::cell::RefCell::new(None) };
            let first = self.hist.lock().unwrap().states[lo].clone();
            if !diff_schema(&schema, &first.m).is_empty() {
                return Ok(());
            }
            let a = ask(&once, &schema, &first.m, &first.h, q, false);
            let why = match a {
                Answer::Wrong(s) => s,
                a => return self.judge(a, "reader:once"),
            };
            let others: Vec<State> = self.hist.lock().unwrap().states[lo + 1..].to_vec();
            self.hit("reader.asked-meanwhile");
            for st in &others {
                if !diff_schema(&schema, &st.m).is_empty() {
                    return Ok(());
                }
                match ask(&once, &schema, &st.m, &st.h, q, false) {
                    Answer::Wrong(_) => {}
                    _ => return Ok(()),
                }
            }
            Err(("reader:once", format!("the answer is that of no one state: {} (as of {}, and none of the {} after that)", why, first.tx, others.len())))
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err((t, s))) => self.bad(t, s),
            Err(p) => self.bad("panic:reader", panic_text(&p)),
        }
    }

    fn judge(&self, a: Answer, tag: &'static str) -> Result<(), (&'static str, String)> {
        match a {
            Answer::Wrong(s) => Err((tag, s)),
            Answer::Failed(s) => Err(("reader:refused", s)),
            _ => {
                self.hit("reader.questions");
                Ok(())
            }
        }
    }

    /// Everything, fact by fact.
    fn whole(&self, conn: &rusqlite::Connection, st: &State) -> Result<(), (&'static str, String)> {
        let d = vfs::paused(|| dump(conn)).map_err(|e| ("reader:refused", e))?;
        let mut why = diff_facts(&d, &st.m);
        why.extend(diff_log(&d, &st.m));
        if !why.is_empty() {
            return Err(("reader:facts", format!("what it reads is not what was committed as of {}: {}", st.tx, first(&why))));
        }
        Ok(())
    }

    /// Which of the states it is whose last transaction is `t`.
    fn place(&self, lo: usize, t: E) -> Result<(usize, State), (&'static str, String)> {
        let mut h = self.hist.lock().unwrap();
        match h.states.iter().position(|s| s.tx == t) {
            None => Err(("reader:torn", format!("the last transaction it sees is {}, which is none that was ever committed", t))),
            Some(k) if k < lo => Err((
                "reader:stale",
                format!("the last transaction it sees is {}, but {} had been committed before it began", t, h.states[lo].tx),
            )),
            Some(k) => {
                h.seen = h.seen.max(k);
                let behind = h.states.len() - 1 - k;
                h.cov.hit(if behind == 0 { "reader.latest" } else { "reader.overtaken" });
                Ok((k, h.states[k].clone()))
            }
        }
    }

    fn hold(
        &mut self,
        schema: &mentat::Schema,
        cache: &mentat_db::cache::SQLiteAttributeCache,
        cached: &BTreeMap<String, Dir>,
        k: usize,
        qs: &[Vec<Q>],
        ready: Sender<bool>,
    ) {
        let r = guard(|| -> Result<(), (&'static str, String)> {
            let x = |e: rusqlite::Error| ("reader:refused", text(&e));
            let conn = mentat::new_connection(path()).map_err(x)?;
            if let Some(n) = self.var_limit {
                conn.set_limit(rusqlite::limits::Limit::SQLITE_LIMIT_VARIABLE_NUMBER, n);
            }
            conn.execute_batch("BEGIN DEFERRED").map_err(x)?;
            let snap = Snap { sqlite: &conn, schema, cache };
            let t = max_tx(&snap)?;
            let st = self.hist.lock().unwrap().states[k].clone();
            if st.tx != t {
                return Err(("reader:stale", format!("the last transaction it sees is {} and not {}", t, st.tx)));
            }
            let _ = ready.send(true);
            for (i, b) in qs.iter().enumerate() {
                // Nobody is to wait for a reader, however long it takes.
                let long = self.rng.pct(8);
                sys::sleep_ns(1_000_000 * if long { 12_000 } else { self.rng.below(60) as i64 });
                if long {
                    self.hit("reader.held-long");
                }
                if self.stopped() {
                    return Ok(());
                }
                for q in b {
                    let p = self.rng.pct(20);
                    self.judge(ask(&snap, schema, &st.m, &st.h, q, p), "reader:held")?;
                }
                for q in sweep_queries(&st.m, cached, &[], self.rng.next()) {
                    self.judge(ask(&snap, schema, &st.m, &st.h, &q, false), "reader:held")?;
                    self.hit("reader.held-cache");
                }
                if i + 1 == qs.len() {
                    self.whole(&conn, &st)?;
                }
                let now = self.hist.lock().unwrap().acked;
                self.hit(if now > k { "reader.held-overtaken" } else { "reader.held" });
            }
            conn.execute_batch("COMMIT").map_err(x)?;
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err((t, s))) => self.bad(t, s),
            Err(p) => self.bad("panic:reader", panic_text(&p)),
        }
        let _ = ready.send(false);
    }
}

fn max_tx<S: Queryable>(s: &S) -> Result<E, (&'static str, String)> {
    let r = s
        .q_once("[:find ?tx . :where [?tx :db/txInstant _] :order (desc ?tx)]", None)
        .map_err(|e| ("reader:refused", text(&e)))?;
    match r.results {
        mq::QueryResults::Scalar(Some(b)) => match b.into_scalar() {
            Some(core_traits::TypedValue::Ref(x)) | Some(core_traits::TypedValue::Long(x)) => Ok(x),
            x => Err(("reader:query", format!("the last transaction is {:?}", x))),
        },
        x => Err(("reader:query", format!("the last transaction is {:?}", x))),
    }
}

/// While two connections open a store that is new, or one that is to be recovered, SQLite can tell one
/// of them that it's locked, without any waiting. It's to try again: that must work within a bounded time.
fn open_store() -> Result<Store, mentat::MentatError> {
    let mut n = 0;
    loop {
        match Store::open(&path()) {
            Err(e) => {
                n += 1;
                if n > 20 || vfs::is_dead(M) || !text(&e).contains("database is locked") {
                    return Err(e);
                }
                sys::sleep_ns(250_000_000);
            }
            s => return s,
        }
    }
}

fn path() -> String {
    format!("{}/db", M)
}

// ---------------------------------------------------------------------------------------------

pub struct Conc {
    plan: CPlan,
    store: Option<Store>,
    m: Model,
    h: Handles,
    cached: BTreeMap<String, Dir>,
    hist: Arc<Mutex<Hist>>,
    readers: Vec<Sender<Cmd>>,
    gone: Vec<Receiver<()>>,
    pub cov: Cov,
    pub trace: Vec<String>,
    verbose: bool,
    step: u32,
    lives: u64,
}

impl Conc {
    pub fn new(plan: CPlan, verbose: bool) -> Conc {
        Conc {
            plan,
            store: None,
            m: crate::golden(),
            h: Handles::new(),
            cached: BTreeMap::new(),
            hist: Arc::new(Mutex::new(Hist { states: vec![], acked: 0, seen: 0, bad: None, cov: Cov::default(), step: 0 })),
            readers: vec![],
            gone: vec![],
            cov: Cov::default(),
            trace: vec![],
            verbose,
            step: 0,
            lives: 0,
        }
    }

    fn bad<T>(&self, tag: &str, what: String) -> Res<T> {
        Err(Violation { tag: tag.to_string(), what, step: self.step })
    }

    fn say(&mut self, s: String) {
        if self.verbose {
            self.trace.push(s);
        }
    }

    fn open(&mut self) -> Result<(), String> {
        match guard(open_store) {
            Ok(Ok(mut s)) => {
                if let Some(n) = self.plan.cfg.var_limit {
                    s.sqlite_mut().set_limit(rusqlite::limits::Limit::SQLITE_LIMIT_VARIABLE_NUMBER, n);
                }
                if let Some(n) = self.plan.cfg.autockpt {
                    let _ = s.sqlite_mut().execute_batch(&format!("PRAGMA wal_autocheckpoint={}", n));
                }
                self.store = Some(s);
                self.cached.clear();
                Ok(())
            }
            Ok(Err(e)) => Err(text(&e)),
            Err(p) => Err(format!("PANIC {}", panic_text(&p))),
        }
    }

    fn spawn(&mut self) {
        self.lives += 1;
        for i in 0..self.plan.n {
            let (tx, rx) = channel();
            let (dtx, drx) = channel();
            let r = Reader {
                id: i,
                hist: self.hist.clone(),
                store: None,
                last: 0,
                rng: Rng::sub(self.plan.seed, 0x4ead_0000 + i as u64 + (self.lives << 32)),
                var_limit: self.plan.cfg.var_limit,
            };
            std::thread::spawn(move || {
                r.main(rx);
                let _ = dtx.send(());
            });
            self.readers.push(tx);
            self.gone.push(drx);
        }
    }

    /// Until the readers have done what they were told.
    fn wait(&mut self) {
        let mut acks = vec![];
        for r in &self.readers {
            let (tx, rx) = channel();
            if r.send(Cmd::Sync(tx)).is_ok() {
                acks.push(rx);
            }
        }
        for a in acks {
            let _ = a.recv();
        }
    }

    fn dismiss(&mut self) {
        self.readers.clear();
        for g in self.gone.drain(..) {
            let _ = g.recv();
        }
    }

    fn check(&mut self) -> Res<()> {
        let b = self.hist.lock().unwrap().bad.clone();
        match b {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }

    pub fn run(&mut self) -> Res<()> {
        self.spawn();
        if self.plan.cfg.bare {
            // Everybody finds nothing, and makes a store of it.
            for r in &self.readers {
                let _ = r.send(Cmd::Do(vec![Act::Open]));
            }
        }
        if let Err(e) = self.open() {
            return self.bad("reopen:refused", format!("a fresh store does not open: {}", e));
        }
        self.wait();
        self.check()?;
        let d = match vfs::paused(|| dump(self.store.as_mut().unwrap().sqlite_mut())) {
            Ok(d) => d,
            Err(e) => return self.bad("bootstrap", e),
        };
        if self.plan.cfg.bare {
            let m = model_of(&d);
            let g = crate::golden();
            if m.log.len() != g.log.len() || m.attrs != g.attrs || m.idents != g.idents {
                return self.bad("bootstrap", "a new store does not hold the core schema".to_string());
            }
            self.cov.hit("bootstraps.contended");
        }
        self.m = model_of(&d);
        self.ids()?;
        let st = self.state();
        self.hist.lock().unwrap().states.push(st);
        for s in self.plan.steps.clone() {
            self.one(&s)?;
            self.check()?;
        }
        self.step = 999_999;
        self.wait();
        self.check()?;
        if self.store.is_some() {
            self.settled("end")?;
        }
        self.close();
        self.dismiss();
        self.check()?;
        // What is on disk is what there was.
        if let Err(e) = self.open() {
            return self.bad("reopen:refused", format!("the store does not open: {}", e));
        }
        self.settled("reopen")?;
        self.close();
        let stuck = sys::quiesce();
        if !stuck.is_empty() {
            return self.bad("stuck", format!("threads which never finish: {:?}", stuck));
        }
        Ok(())
    }

    pub fn abandon(&mut self) {
        vfs::disarm(M);
        self.close();
        self.dismiss();
        let _ = sys::quiesce();
        let mut h = self.hist.lock().unwrap();
        for (k, n) in std::mem::replace(&mut h.cov.counts, BTreeMap::new()) {
            *self.cov.counts.entry(k).or_insert(0) += n;
        }
    }

    fn close(&mut self) {
        if let Some(s) = self.store.take() {
            let _ = guard(move || drop(s));
        }
    }

    fn state(&self) -> State {
        State { m: Arc::new(self.m.clone()), h: Arc::new(self.h.clone()), tx: last_tx(&self.m) }
    }

    fn ids(&mut self) -> Res<()> {
        let store = match self.store.as_mut() {
            Some(s) => s,
            None => return Ok(()),
        };
        let r = vfs::paused(|| {
            store.begin_transaction().map_err(|e| text(&e)).map(|ip| {
                let g = |p: &str| ip.partition_map.get(p).map(|x| x.next_entid()).unwrap_or(-1);
                (g(":db.part/user"), g(":db.part/tx"))
            })
        });
        match r {
            Ok((u, t)) => {
                if u < self.m.floor_user() || t <= last_tx(&self.m) {
                    return self.bad("ids", format!("next ids are {:?}, below {}", (u, t), self.m.floor_user()));
                }
                self.m.next_user = u;
                self.m.next_tx = t;
                Ok(())
            }
            Err(e) => self.bad("refused:begin", e),
        }
    }

    /// With nothing else going on, the store holds what was acknowledged.
    fn settled(&mut self, tag: &str) -> Res<()> {
        let m = &self.m;
        let store = self.store.as_mut().unwrap();
        let r = vfs::paused(|| -> Result<Vec<String>, String> {
            let d = dump(store.sqlite_mut())?;
            let mut why = diff_facts(&d, m);
            why.extend(diff_log(&d, m));
            why.extend(diff_schema(&store.conn().current_schema(), m));
            Ok(why)
        });
        match r {
            Err(e) => self.bad(&format!("{}:unreadable", tag), e),
            Ok(w) if !w.is_empty() => self.bad(&format!("{}:state", tag), first(&w)),
            _ => Ok(()),
        }
    }

    fn one(&mut self, s: &CStep) -> Res<()> {
        self.step = s.id;
        self.hist.lock().unwrap().step = s.id;
        self.say(format!(
            "step {}: {}{}",
            s.id,
            match &s.kind {
                CKind::Write { abort, .. } => format!("write{}", if *abort { ", and give up" } else { "" }),
                CKind::Reader(r, a) => format!(
                    "reader {}: {}",
                    r,
                    a.iter()
                        .map(|a| match a {
                            Act::Read(q) => format!("read {}", q.iter().map(|q| show_q(q, &self.h)).collect::<Vec<_>>().join("; ")),
                            Act::Ask(q) => format!("ask {}", q.iter().map(|q| show_q(q, &self.h)).collect::<Vec<_>>().join("; ")),
                            a => format!("{:?}", a),
                        })
                        .collect::<Vec<_>>()
                        .join(", ")
                ),
                CKind::Hold(r, _) => format!("reader {} takes hold of everything as it is", r),
                k => format!("{:?}", k),
            },
            match &s.crash {
                None => String::new(),
                Some(c) => format!(" crash {:?} at i/o {}", c.kind, c.nth),
            }
        ));
        if self.store.is_none() {
            if let Err(e) = self.open() {
                return self.bad("reopen:refused", format!("the store does not open: {}", e));
            }
            self.ids()?;
        }
        vfs::begin_step(M, &[], s.crash.as_ref());
        let r = match &s.kind {
            CKind::Write { parts, abort } => self.write(parts, *abort),
            CKind::Cache(k, d) => self.cache(*k, *d),
            CKind::Reader(r, acts) => {
                let r = *r % self.plan.n;
                let _ = self.readers[r].send(Cmd::Do(acts.clone()));
                Ok(())
            }
            CKind::Hold(r, qs) => {
                let r = *r % self.plan.n;
                let (tx, rx) = channel();
                let c = {
                    let c = self.store.as_ref().unwrap().conn();
                    let k = self.hist.lock().unwrap().acked;
                    Cmd::Hold {
                        schema: c.current_schema(),
                        cache: c.current_cache(),
                        cached: self.cached.clone(),
                        k,
                        qs: qs.clone(),
                        ready: tx,
                    }
                };
                let _ = self.readers[r].send(c);
                let _ = rx.recv();
                self.cov.hit("holds");
                Ok(())
            }
            CKind::Pause(ms) => {
                sys::sleep_ns(i64::from(*ms) * 1_000_000);
                Ok(())
            }
            CKind::Wait => {
                self.wait();
                Ok(())
            }
            CKind::Reopen => {
                self.close();
                match self.open() {
                    Err(e) if !vfs::is_dead(M) => {
                        self.bad("reopen:refused", format!("the store does not open while others read it: {}", e))
                    }
                    Err(_) => Ok(()),
                    Ok(()) if vfs::is_dead(M) => Ok(()),
                    Ok(()) => {
                        self.cov.hit("reopens");
                        self.ids().and_then(|_| self.settled("reopen"))
                    }
                }
            }
            CKind::Crash(k) => {
                vfs::kill(M, *k);
                Ok(())
            }
        };
        if vfs::is_dead(M) {
            return self.crashed();
        }
        r?;
        vfs::end_step(M);
        if let CKind::Wait = s.kind {
            self.settled("wait")?;
        }
        Ok(())
    }

    fn crashed(&mut self) -> Res<()> {
        self.cov.hit("crashes");
        self.close();
        self.dismiss();
        let stuck = sys::quiesce();
        if !stuck.is_empty() {
            return self.bad("stuck", format!("threads which never finish: {:?}", stuck));
        }
        self.check()?;
        vfs::end_step(M);
        let mut rng = Rng::sub(self.plan.seed, 0xc4a5_0000 + u64::from(self.step));
        let how = vfs::reboot(M, &mut rng, self.plan.cfg.sector);
        self.say(format!("    rebooted: {}", how));
        vfs::begin_step(M, &[], None);
        self.spawn();
        if self.plan.seed & 1 == 1 {
            // Everybody comes back at once.
            let n = self.readers.len();
            for r in 0..n {
                let _ = self.readers[r].send(Cmd::Do(vec![Act::Open]));
            }
        }
        if let Err(e) = self.open() {
            return self.bad("reopen:refused", format!("the store does not open after a crash: {}", e));
        }
        self.wait();
        self.check()?;
        let d = match vfs::paused(|| dump(self.store.as_mut().unwrap().sqlite_mut())) {
            Ok(d) => d,
            Err(e) => return self.bad("crash:unreadable", e),
        };
        let (states, acked, seen) = {
            let h = self.hist.lock().unwrap();
            (h.states.clone(), h.acked, h.seen)
        };
        let found = (0..states.len()).rev().find(|k| diff_facts(&d, &states[*k].m).is_empty() && diff_log(&d, &states[*k].m).is_empty());
        let k = match found {
            None => {
                let mut why = diff_facts(&d, &states[acked].m);
                why.extend(diff_log(&d, &states[acked].m));
                return self.bad("crash:partial", format!("after a restart ({}) the store holds no state that was committed: {}", how, first(&why)));
            }
            Some(k) => k,
        };
        if k < acked {
            return self.bad("crash:lost", format!("after a restart ({}) acknowledged commits are missing", how));
        }
        if k < seen {
            return self.bad("crash:seen", format!("after a restart ({}) a commit which a reader has seen is missing", how));
        }
        self.cov.hit(if k > acked { "crash.recovered.interrupted" } else { "crash.recovered.acknowledged" });
        self.m = (*states[k].m).clone();
        self.h = (*states[k].h).clone();
        {
            let mut h = self.hist.lock().unwrap();
            h.states.truncate(k + 1);
            h.acked = k;
            h.seen = k;
        }
        self.ids()?;
        let ds = diff_schema(&self.store.as_ref().unwrap().conn().current_schema(), &self.m);
        if !ds.is_empty() {
            return self.bad("crash:schema", first(&ds));
        }
        Ok(())
    }

    fn cache(&mut self, k: u32, d: Dir) -> Res<()> {
        let mut names: Vec<String> =
            self.m.idents.iter().filter(|(_, e)| **e >= USER0 && self.m.attrs.contains_key(e)).map(|x| x.0.clone()).collect();
        names.sort();
        if names.is_empty() {
            return Ok(());
        }
        let a = names[k as usize % names.len()].clone();
        let store = self.store.as_mut().unwrap();
        let key = kw(&a);
        match guard(|| store.cache(&key, cache_direction(d))) {
            Ok(Ok(())) => {
                self.cached.insert(a, d);
                Ok(())
            }
            _ if vfs::is_dead(M) => Ok(()),
            Ok(Err(e)) => self.bad("refused:cache", format!("cannot cache {}: {}", a, text(&e))),
            Err(p) => self.bad("panic:cache", panic_text(&p)),
        }
    }

    fn write(&mut self, parts: &[Vec<Op>], abort: bool) -> Res<()> {
        let mut store = self.store.take().unwrap();
        let r = self.write_in(&mut store, parts, abort);
        self.store = Some(store);
        r
    }

    fn write_in(&mut self, store: &mut Store, parts: &[Vec<Op>], abort: bool) -> Res<()> {
        let mut cur = Cur { m: self.m.clone(), h: self.h.clone(), txs: vec![], wrote: false };
        let mut ip = match guard(|| store.begin_transaction()) {
            Ok(Ok(ip)) => ip,
            _ if vfs::is_dead(M) => return Ok(()),
            Ok(Err(e)) => return self.bad("refused:begin", format!("cannot begin a transaction: {}", text(&e))),
            Err(p) => return self.bad("panic:begin", panic_text(&p)),
        };
        let step = self.step;
        for ops in parts {
            let ops: Vec<Op> = ops.iter().filter(|o| o.known(&cur.h)).cloned().collect();
            if ops.is_empty() {
                continue;
            }
            let mut j = Judge {
                cov: &mut self.cov,
                trace: &mut self.trace,
                verbose: self.verbose,
                step,
                machine: M,
                recovering: false,
            };
            let expect = match j.expect(&cur, &ops) {
                Some(x) => x,
                None => continue,
            };
            let edn = ops_edn(&ops, &cur.h);
            if j.verbose {
                j.trace.push(format!("    transact {}", edn.replace('\n', " ")));
            }
            let w0 = sys::wall_ns();
            let got = match guard(|| ip.transact(edn.as_str()).map_err(|e| text(&e))) {
                Ok(x) => x,
                Err(_) if vfs::is_dead(M) => return Ok(()),
                Err(p) => return j.bad("panic:transact", format!("transact {}: {}", edn.replace('\n', " "), panic_text(&p))),
            };
            let w1 = sys::wall_ns();
            j.outcome(&mut cur, &ops, expect, got, (w0, w1), &ip.transaction, true)?;
            if vfs::is_dead(M) {
                return Ok(());
            }
            let g = |p: &str| ip.partition_map.get(p).map(|x| x.next_entid()).unwrap_or(-1);
            if g(":db.part/user") < cur.m.next_user {
                return self.bad("ids", format!("next id is {} and not {}", g(":db.part/user"), cur.m.next_user));
            }
            cur.m.next_user = g(":db.part/user");
        }
        if abort || last_tx(&cur.m) == last_tx(&self.m) {
            self.cov.hit("drops");
            drop(ip);
            return Ok(());
        }
        let st = State { m: Arc::new(cur.m.clone()), h: Arc::new(cur.h.clone()), tx: last_tx(&cur.m) };
        self.hist.lock().unwrap().states.push(st);
        let r = guard(|| ip.commit().map_err(|e| text(&e)));
        if vfs::is_dead(M) {
            return Ok(());
        }
        match r {
            Ok(Ok(())) => {
                self.cov.hit("commits");
                self.m = cur.m;
                self.h = cur.h;
                let mut h = self.hist.lock().unwrap();
                h.acked = h.states.len() - 1;
                Ok(())
            }
            Ok(Err(e)) => self.bad("refused:commit", format!("commit failed: {}", e)),
            Err(p) => self.bad("panic:commit", panic_text(&p)),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Plans.

#[derive(Clone, Debug)]
pub struct CProfile {
    pub name: &'static str,
    pub base: crate::gen::Profile,
    pub crash_pct: u64,
    pub hold_pct: u64,
    pub cache_pct: u64,
}

pub fn plan(seed: u64, p: &CProfile) -> CPlan {
    let base = crate::gen::plan(seed, &p.base);
    let mut r = Rng::sub(seed, 0xc04c);
    let n = 1 + r.below(3) as usize;
    let mut steps: Vec<CStep> = vec![];
    let mut id = 0;
    let mut mk = |kind: CKind| {
        id += 1;
        CStep { id, kind, crash: None }
    };
    let mut qs: Vec<Q> = vec![];
    for b in base.steps {
        let (parts, abort): (Vec<Vec<Op>>, bool) = match b.kind {
            Kind::Auto(ops) => (vec![ops], false),
            Kind::Txn { parts, end } => (
                parts
                    .into_iter()
                    .filter_map(|x| match x {
                        Part::Ops(o) | Part::Built(o) => Some(o),
                        _ => None,
                    })
                    .collect(),
                end != End::Commit,
            ),
            Kind::Query { q, .. } => {
                qs.push(q);
                continue;
            }
            Kind::Reopen => {
                let mut s = mk(CKind::Reopen);
                if r.pct(p.crash_pct) {
                    s.crash = Some(CrashAt { nth: r.below(30) as u32, kind: crash_kind(&mut r) });
                }
                steps.push(s);
                continue;
            }
            _ => continue,
        };
        // The readers get something to do first, so that they do it meanwhile.
        for _ in 0..1 + r.below(2) {
            let who = r.below(n as u64) as usize;
            if !qs.is_empty() && r.pct(p.hold_pct) {
                let k = 1 + r.below(4) as usize;
                let bs = (0..k).map(|_| pick(&mut r, &qs)).collect();
                steps.push(mk(CKind::Hold(who, bs)));
            } else if r.pct(70) {
                let mut acts = vec![];
                for _ in 0..1 + r.below(3) {
                    acts.push(match r.below(10) {
                        0 => Act::Open,
                        1 => Act::Close,
                        2 | 3 => Act::Pause(r.below(80) as u32),
                        4 | 5 => Act::Ask((0..2).flat_map(|_| pick(&mut r, &qs)).collect()),
                        _ => Act::Read(pick(&mut r, &qs)),
                    });
                }
                steps.push(mk(CKind::Reader(who, acts)));
            }
        }
        if r.pct(p.cache_pct) {
            steps.push(mk(CKind::Cache(r.below(64) as u32, *r.pick(&[Dir::Forward, Dir::Reverse, Dir::Both, Dir::Both]))));
        }
        let mut s = mk(CKind::Write { parts, abort });
        if r.pct(p.crash_pct) {
            s.crash = Some(CrashAt { nth: r.below(*r.clone().pick(&[10u64, 40, 120])) as u32, kind: crash_kind(&mut r) });
        }
        steps.push(s);
        match r.below(12) {
            0 => steps.push(mk(CKind::Wait)),
            1 | 2 => steps.push(mk(CKind::Pause(r.below(40) as u32))),
            3 if r.pct(p.crash_pct) => steps.push(mk(CKind::Crash(crash_kind(&mut r)))),
            _ => {}
        }
    }
    let mut cfg = base.cfg;
    // Somebody has to take turns.
    if cfg.switch_pct == 0 && cfg.pct_depth == 0 {
        cfg.switch_pct = 10;
    }
    CPlan { seed, cfg, n, steps }
}

fn pick(r: &mut Rng, qs: &[Q]) -> Vec<Q> {
    if qs.is_empty() {
        return vec![];
    }
    let k = qs.len().min(8);
    (0..r.below(4)).map(|_| qs[qs.len() - 1 - r.below(k as u64) as usize].clone()).collect()
}

fn crash_kind(r: &mut Rng) -> CrashKind {
    *r.pick(&[
        CrashKind::Process,
        CrashKind::PowerNone,
        CrashKind::PowerPrefix,
        CrashKind::PowerSubset,
        CrashKind::PowerTorn,
        CrashKind::PowerAll,
    ])
}

/// Simpler plans, the biggest cuts first.
pub fn shrink(p: &CPlan) -> Vec<CPlan> {
    let mut out = vec![];
    let n = p.steps.len();
    let mut k = n / 2;
    while k >= 1 {
        let mut i = 0;
        while i < n {
            let mut q = p.clone();
            q.steps.drain(i..(i + k).min(n));
            out.push(q);
            i += k;
        }
        k /= 2;
    }
    if p.n > 1 {
        let mut q = p.clone();
        q.n -= 1;
        out.push(q);
    }
    for (i, s) in p.steps.iter().enumerate() {
        let mut put = |f: &dyn Fn(&mut CStep)| {
            let mut q = p.clone();
            f(&mut q.steps[i]);
            if q != *p {
                out.push(q);
            }
        };
        put(&|s| s.crash = None);
        match &s.kind {
            CKind::Write { parts, abort } => {
                for j in 0..parts.len() {
                    if parts.len() > 1 {
                        let mut ps = parts.clone();
                        ps.remove(j);
                        put(&|s| s.kind = CKind::Write { parts: ps.clone(), abort: *abort });
                    }
                    for o in crate::scn::shrink_ops(&parts[j]) {
                        let mut ps = parts.clone();
                        ps[j] = o;
                        put(&|s| s.kind = CKind::Write { parts: ps.clone(), abort: *abort });
                    }
                }
            }
            CKind::Reader(r, acts) => {
                for j in 0..acts.len() {
                    let mut x = acts.clone();
                    x.remove(j);
                    put(&|s| s.kind = CKind::Reader(*r, x.clone()));
                    if let Act::Read(qs) = &acts[j] {
                        for k in 0..qs.len() {
                            let mut y = qs.clone();
                            y.remove(k);
                            let mut x = acts.clone();
                            x[j] = Act::Read(y);
                            put(&|s| s.kind = CKind::Reader(*r, x.clone()));
                        }
                    }
                    if let Act::Ask(qs) = &acts[j] {
                        for k in 0..qs.len() {
                            let mut y = qs.clone();
                            y.remove(k);
                            let mut x = acts.clone();
                            x[j] = Act::Ask(y);
                            put(&|s| s.kind = CKind::Reader(*r, x.clone()));
                        }
                    }
                }
            }
            CKind::Hold(r, bs) => {
                for j in 0..bs.len() {
                    if bs.len() > 1 {
                        let mut x = bs.clone();
                        x.remove(j);
                        put(&|s| s.kind = CKind::Hold(*r, x.clone()));
                    }
                    for k in 0..bs[j].len() {
                        let mut x = bs.clone();
                        x[j].remove(k);
                        put(&|s| s.kind = CKind::Hold(*r, x.clone()));
                    }
                }
            }
            _ => {}
        }
    }
    let mut q = p.clone();
    q.cfg.var_limit = None;
    q.cfg.autockpt = None;
    if q != *p {
        out.push(q);
    }
    out
}
