//! Vocabularies: what `ensure_vocabulary` and `ensure_vocabularies` mean, and runs of the real ones.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

use core_traits::attribute::Unique;
use mentat::vocabulary::{
    Definition, HasVocabularies, VersionedStore, Vocabularies, Vocabulary, VocabularyCheck, VocabularyOutcome,
    VocabularySource, VocabularyStatus,
};
use mentat::errors::MentatError;
use mentat::{Attribute, InProgress, TxReport};
use serde::{Deserialize, Serialize};

use crate::exec::{guard, log_of, panic_text, text, Cur, Judge, Res};
use crate::model::*;
use crate::plan::AttrSpec;
use crate::value::*;
use crate::{sys, vfs};

pub const DB_SCHEMA_VERSION: &str = ":db.schema/version";
pub const DB_SCHEMA_ATTRIBUTE: &str = ":db.schema/attribute";

/// What a migration function does: transacts, perhaps, and fails, perhaps.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Hook {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub ops: Vec<Op>,
    #[serde(default)]
    pub fail: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct VDef {
    pub name: String,
    pub version: u32,
    pub attrs: Vec<AttrSpec>,
    #[serde(default)]
    pub pre: Hook,
    #[serde(default)]
    pub post: Hook,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ensure {
    pub defs: Vec<VDef>,
    /// Together, through a VocabularySource; otherwise one by one.
    pub source: bool,
    #[serde(default)]
    pub pre: Hook,
    #[serde(default)]
    pub post: Hook,
}

// ---------------------------------------------------------------------------------------------
// The model.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Voc {
    pub entity: E,
    pub version: u32,
    pub attrs: BTreeMap<E, AttrDef>,
}

fn values(m: &Model, e: E, a: &str) -> Vec<V> {
    let a = match m.idents.get(a) {
        Some(a) => *a,
        None => return vec![],
    };
    m.datoms
        .range((e, a, V::Ref(i64::MIN))..)
        .take_while(|(k, _)| k.0 == e && k.1 == a)
        .map(|(k, _)| k.2.clone())
        .collect()
}

fn of_entity(m: &Model, e: E) -> Result<Option<Voc>, String> {
    let version = match values(m, e, DB_SCHEMA_VERSION).first() {
        None => return Ok(None),
        Some(V::Long(v)) if *v > 0 && *v < i64::from(u32::MAX) => *v as u32,
        Some(_) => return Err("version out of range".into()),
    };
    let attrs = values(m, e, DB_SCHEMA_ATTRIBUTE)
        .into_iter()
        .filter_map(|v| match v {
            V::Ref(a) => m.attrs.get(&a).map(|d| (a, d.clone())),
            _ => None,
        })
        .collect();
    Ok(Some(Voc { entity: e, version, attrs }))
}

pub fn named(m: &Model, name: &str) -> Result<Option<Voc>, String> {
    match m.idents.get(name) {
        None => Ok(None),
        Some(e) => of_entity(m, *e),
    }
}

/// All of them; one whose version makes no sense is left out.
pub fn all(m: &Model) -> BTreeMap<String, Voc> {
    m.names.iter().filter_map(|(e, n)| of_entity(m, *e).ok().flatten().map(|v| (n.clone(), v))).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Check {
    Absent,
    Present,
    Update(Voc),
    TooNew(Voc),
    Missing(Vec<String>),
}

pub fn check(m: &Model, d: &VDef) -> Result<Check, String> {
    let v = match named(m, &d.name)? {
        None => return Ok(Check::Absent),
        Some(v) => v,
    };
    if v.version < d.version {
        return Ok(Check::Update(v));
    }
    if v.version > d.version {
        return Ok(Check::TooNew(v));
    }
    let mut missing = vec![];
    for a in &d.attrs {
        match m.idents.get(&a.name).and_then(|e| v.attrs.get(e)) {
            None => missing.push(a.name.clone()),
            Some(x) if *x == a.def() => {}
            Some(_) => return Err("conflicting definition of an attribute".into()),
        }
    }
    Ok(if missing.is_empty() { Check::Present } else { Check::Missing(missing) })
}

/// The transaction which says that this vocabulary has these attributes.
fn describe(m: &Model, d: &VDef, only: Option<&[String]>, older: Option<&Voc>) -> Vec<Op> {
    let s = || EP::Temp("s".into());
    let kwv = |x: &str| VP::E(EP::Ident(x.to_string()));
    let b = |x: bool| VP::Val(V::Bool(x));
    let mut out = vec![
        Op::Add(s(), DB_SCHEMA_VERSION.into(), VP::Val(V::Long(i64::from(d.version)))),
        Op::Add(s(), ":db/ident".into(), VP::Val(V::Kw(d.name.clone()))),
    ];
    for a in &d.attrs {
        if let Some(o) = only {
            if !o.contains(&a.name) {
                continue;
            }
        }
        let t = || EP::Temp(a.name.clone());
        out.push(Op::Add(t(), ":db/ident".into(), VP::Val(V::Kw(a.name.clone()))));
        out.push(Op::Add(s(), DB_SCHEMA_ATTRIBUTE.into(), VP::E(t())));
        out.push(Op::Add(t(), ":db/valueType".into(), kwv(a.vt.ident())));
        let c = if a.many { ":db.cardinality/many" } else { ":db.cardinality/one" };
        out.push(Op::Add(t(), ":db/cardinality".into(), kwv(c)));
        out.push(Op::Add(t(), ":db/index".into(), b(a.index)));
        out.push(Op::Add(t(), ":db/fulltext".into(), b(a.fulltext)));
        out.push(Op::Add(t(), ":db/isComponent".into(), b(a.component)));
        out.push(Op::Add(t(), ":db/noHistory".into(), b(a.no_history)));
        let name = |u| match u {
            Uniq::Value => ":db.unique/value",
            Uniq::Identity => ":db.unique/identity",
        };
        match a.def().unique {
            Some(u) => out.push(Op::Add(t(), ":db/unique".into(), kwv(name(u)))),
            None => {
                let was = older.and_then(|v| m.idents.get(&a.name).and_then(|e| v.attrs.get(e))).and_then(|x| x.unique);
                if let Some(u) = was {
                    out.push(Op::Retract(t(), ":db/unique".into(), kwv(name(u))));
                }
            }
        }
    }
    out
}

/// What is called or transacted, in order.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Hook { id: String, hook: Hook, from: Option<Voc> },
    Install(Vec<Op>),
}

pub struct Script {
    pub acts: Vec<Act>,
    pub outcomes: BTreeMap<String, VocabularyOutcome>,
    pub checks: BTreeMap<String, Check>,
}

/// Err: refused before anything is done.
pub fn script(m: &Model, e: &Ensure) -> Result<Script, String> {
    let mut s = Script { acts: vec![], outcomes: BTreeMap::new(), checks: BTreeMap::new() };
    for d in &e.defs {
        match check(m, d)? {
            Check::TooNew(_) => return Err("the store has a newer version".into()),
            Check::Present => {
                s.outcomes.insert(d.name.clone(), VocabularyOutcome::Existed);
            }
            c => {
                s.checks.insert(d.name.clone(), c);
            }
        }
    }
    if s.checks.is_empty() {
        return Ok(s);
    }
    if e.source {
        s.acts.push(Act::Hook { id: "pre".into(), hook: e.pre.clone(), from: None });
    }
    let def = |n: &str| e.defs.iter().find(|d| d.name == n).unwrap();
    for (n, c) in &s.checks {
        if let Check::Absent = c {
            s.acts.push(Act::Install(describe(m, def(n), None, None)));
            s.outcomes.insert(n.clone(), VocabularyOutcome::Installed);
        }
    }
    for (n, c) in &s.checks {
        if let Check::Update(v) = c {
            let d = def(n);
            s.acts.push(Act::Hook { id: format!("pre {}", n), hook: d.pre.clone(), from: Some(v.clone()) });
            s.acts.push(Act::Install(describe(m, d, None, Some(v))));
            s.acts.push(Act::Hook { id: format!("post {}", n), hook: d.post.clone(), from: Some(v.clone()) });
            s.outcomes.insert(n.clone(), VocabularyOutcome::Upgraded);
        }
    }
    for (n, c) in &s.checks {
        if let Check::Missing(l) = c {
            s.acts.push(Act::Install(describe(m, def(n), Some(l), None)));
            s.outcomes.insert(n.clone(), VocabularyOutcome::InstalledMissingAttributes);
        }
    }
    if e.source {
        s.acts.push(Act::Hook { id: "post".into(), hook: e.post.clone(), from: None });
    }
    Ok(s)
}

pub enum Rehearsal {
    Fine(Model, Handles),
    /// Which act fails, and why.
    Fails(usize, String),
    Skip,
}

fn known(ops: &[Op], h: &Handles) -> Vec<Op> {
    ops.iter().filter(|o| o.known(h)).cloned().collect()
}

pub fn rehearse(m: &Model, h: &Handles, acts: &[Act]) -> Rehearsal {
    let mut m = m.clone();
    let h0 = h;
    let mut h = h.clone();
    for (i, a) in acts.iter().enumerate() {
        let ops = match a {
            Act::Hook { hook, .. } => known(&hook.ops, h0),
            Act::Install(o) => o.clone(),
        };
        if !ops.is_empty() {
            // Hooks speak of what there was before.
            let p = match m.prepare(&ops, if let Act::Hook { .. } = a { h0 } else { &h }) {
                Verdict::Ok(p) => p,
                Verdict::Err(w) => return Rehearsal::Fails(i, w),
                Verdict::Skip(_) => return Rehearsal::Skip,
            };
            let ids = m.provisional(&p);
            match m.apply(&p, &ids, 1_577_836_800_000_000) {
                Verdict::Ok(a) => {
                    for (i, t) in p.temps.iter().enumerate() {
                        if let Some(n) = t {
                            let e = match p.class[i] {
                                Cls::Known(e) => e,
                                Cls::New(k) if k < ids.len() => ids[k],
                                _ => continue,
                            };
                            h.insert(n.clone(), e);
                        }
                    }
                    m = a.model;
                }
                Verdict::Err(w) => return Rehearsal::Fails(i, w),
                Verdict::Skip(_) => return Rehearsal::Skip,
            }
        }
        if let Act::Hook { hook, .. } = a {
            if hook.fail {
                return Rehearsal::Fails(i, "a migration function failed".into());
            }
        }
    }
    Rehearsal::Fine(m, h)
}

// ---------------------------------------------------------------------------------------------
// The real thing.

struct Event {
    id: String,
    from: Option<Voc>,
    result: Option<Result<TxReport, String>>,
    wall: (i64, i64),
}

#[derive(Default)]
struct Live {
    /// By entity of the vocabulary, and whether before or after.
    hooks: BTreeMap<(E, bool), (String, Hook, String)>,
    events: Vec<Event>,
}

thread_local! {
    static LIVE: RefCell<Live> = RefCell::new(Live::default());
}

fn def_of(a: &Attribute) -> AttrDef {
    AttrDef {
        vt: Vt::from_value_type(a.value_type),
        many: a.multival,
        unique: match a.unique {
            None => None,
            Some(Unique::Value) => Some(Uniq::Value),
            Some(Unique::Identity) => Some(Uniq::Identity),
        },
        index: a.index,
        fulltext: a.fulltext,
        component: a.component,
        no_history: a.no_history,
    }
}

fn attribute(s: &AttrSpec) -> Attribute {
    Attribute {
        value_type: s.vt.value_type(),
        multival: s.many,
        unique: match s.def().unique {
            None => None,
            Some(Uniq::Value) => Some(Unique::Value),
            Some(Uniq::Identity) => Some(Unique::Identity),
        },
        index: s.index,
        fulltext: s.fulltext,
        component: s.component,
        no_history: s.no_history,
    }
}

fn voc(v: &Vocabulary) -> Result<Voc, String> {
    let mut attrs = BTreeMap::new();
    for (e, a) in v.attributes() {
        if attrs.insert(*e, def_of(a)).is_some() {
            return Err(format!("attribute {} is listed twice", e));
        }
    }
    Ok(Voc { entity: v.entity, version: v.version, attrs })
}

fn act(ip: &mut InProgress, id: String, from: Option<Voc>, edn: &str, fail: bool) -> Result<(), MentatError> {
    let w0 = sys::wall_ns();
    let mut out = Ok(());
    let result = if edn.is_empty() {
        None
    } else {
        Some(match ip.transact(edn) {
            Ok(r) => Ok(r),
            Err(e) => {
                let t = text(&e);
                out = Err(e);
                Err(t)
            }
        })
    };
    let wall = (w0, sys::wall_ns());
    LIVE.with(|l| l.borrow_mut().events.push(Event { id, from, result, wall }));
    if fail && out.is_ok() {
        out = Err(MentatError::InvalidVocabularyVersion);
    }
    out
}

fn run_hook(ip: &mut InProgress, v: &Vocabulary, post: bool) -> Result<(), MentatError> {
    let from = voc(v).ok();
    let (id, hook, edn) = LIVE.with(|l| {
        l.borrow().hooks.get(&(v.entity, post)).cloned().unwrap_or_else(|| {
            (format!("{} of {}", if post { "post" } else { "pre" }, v.entity), Hook::default(), String::new())
        })
    });
    act(ip, id, from, &edn, hook.fail)
}

fn pre_hook(ip: &mut InProgress<'_, '_>, v: &Vocabulary) -> Result<(), MentatError> {
    run_hook(ip, v, false)
}

fn post_hook(ip: &mut InProgress<'_, '_>, v: &Vocabulary) -> Result<(), MentatError> {
    run_hook(ip, v, true)
}

fn definition(d: &VDef) -> Definition {
    Definition {
        name: kw(&d.name),
        version: d.version,
        attributes: d.attrs.iter().map(|a| (kw(&a.name), attribute(a))).collect(),
        pre: pre_hook,
        post: post_hook,
    }
}

/// What to do once vocabularies have been ensured, or not.
#[derive(Clone, Copy, PartialEq)]
pub enum After {
    Nothing,
    Look,
    /// A fault did away with the whole transaction.
    Lost,
}

struct Source<'a> {
    e: &'a Ensure,
    pre: String,
    post: String,
    status: BTreeMap<String, (u32, String)>,
}

fn kind_of(c: &VocabularyCheck) -> String {
    match c {
        VocabularyCheck::NotPresent => "absent".into(),
        VocabularyCheck::Present => "present".into(),
        VocabularyCheck::PresentButNeedsUpdate { older_version } => format!("older {:?}", voc(older_version)),
        VocabularyCheck::PresentButTooNew { newer_version } => format!("newer {:?}", voc(newer_version)),
        VocabularyCheck::PresentButMissingAttributes { attributes } => {
            format!("missing {:?}", attributes.iter().map(|a| a.0.to_string()).collect::<BTreeSet<_>>())
        }
    }
}

fn kind_wanted(c: &Check) -> String {
    match c {
        Check::Absent => "absent".into(),
        Check::Present => "present".into(),
        Check::Update(v) => format!("older {:?}", Ok::<_, String>(v)),
        Check::TooNew(v) => format!("newer {:?}", Ok::<_, String>(v)),
        Check::Missing(l) => format!("missing {:?}", l.iter().cloned().collect::<BTreeSet<_>>()),
    }
}

impl<'a> VocabularySource for Source<'a> {
    fn definitions(&mut self) -> Vec<Definition> {
        self.e.defs.iter().map(definition).collect()
    }

    fn pre(&mut self, ip: &mut InProgress<'_, '_>, checks: &dyn VocabularyStatus) -> Result<(), MentatError> {
        for d in &self.e.defs {
            if let (Some((_, c)), Some(v)) = (checks.get(&kw(&d.name)), checks.version(&kw(&d.name))) {
                self.status.insert(d.name.clone(), (v, kind_of(c)));
            }
        }
        act(ip, "pre".into(), None, &self.pre, self.e.pre.fail)
    }

    fn post(&mut self, ip: &mut InProgress<'_, '_>) -> Result<(), MentatError> {
        act(ip, "post".into(), None, &self.post, self.e.post.fail)
    }
}

fn hook_edn(h: &Hook, hs: &Handles) -> String {
    let ops = known(&h.ops, hs);
    if ops.is_empty() {
        String::new()
    } else {
        ops_edn(&ops, hs)
    }
}

impl<'a> Judge<'a> {
    pub fn ensure(&mut self, ip: &mut InProgress, cur: &mut Cur, e: &Ensure) -> Res<After> {
        if e.source {
            return self.ensure_all(ip, cur, e);
        }
        let mut any = After::Nothing;
        for d in &e.defs {
            let one = Ensure { defs: vec![d.clone()], source: false, pre: Hook::default(), post: Hook::default() };
            match self.ensure_all(ip, cur, &one)? {
                After::Nothing => {}
                After::Look => any = After::Look,
                After::Lost => return Ok(After::Lost),
            }
            if vfs::is_dead(self.machine) {
                break;
            }
        }
        Ok(any)
    }

    fn ensure_all(&mut self, ip: &mut InProgress, cur: &mut Cur, e: &Ensure) -> Res<After> {
        let s = script(&cur.m, e);
        // The first act which fails, if any does.
        let fails = match &s {
            Err(why) => Some((0, why.clone())),
            Ok(s) => match rehearse(&cur.m, &cur.h, &s.acts) {
                Rehearsal::Skip => {
                    self.cov.hit("vocab.skip");
                    return Ok(After::Nothing);
                }
                Rehearsal::Fails(i, w) => Some((i, w)),
                Rehearsal::Fine(..) => None,
            },
        };
        let names = || e.defs.iter().map(|d| format!("{} version {}", d.name, d.version)).collect::<Vec<_>>().join(", ");
        if self.verbose {
            self.trace.push(format!("    ensure {}{}", if e.source { "together " } else { "" }, names()));
            for d in &e.defs {
                for a in &d.attrs {
                    self.trace.push(format!("      {} {:?}", a.name, a.def()));
                }
            }
        }
        LIVE.with(|l| {
            let mut l = l.borrow_mut();
            *l = Live::default();
            if let Ok(s) = &s {
                for a in &s.acts {
                    if let Act::Hook { id, hook, from: Some(v) } = a {
                        let edn = hook_edn(hook, &cur.h);
                        l.hooks.insert((v.entity, id.starts_with("post")), (id.clone(), hook.clone(), edn));
                    }
                }
            }
        });
        let mut status = BTreeMap::new();
        let w0 = sys::wall_ns();
        let r = guard(|| {
            if e.source {
                let mut src = Source {
                    e,
                    pre: hook_edn(&e.pre, &cur.h),
                    post: hook_edn(&e.post, &cur.h),
                    status: BTreeMap::new(),
                };
                let r = ip.ensure_vocabularies(&mut src);
                status = src.status;
                r.map(|m| m.into_iter().map(|(k, o)| (k.to_string(), o)).collect::<BTreeMap<String, VocabularyOutcome>>())
            } else {
                let d = &e.defs[0];
                ip.ensure_vocabulary(&definition(d)).map(|o| std::iter::once((d.name.clone(), o)).collect())
            }
        });
        let w1 = sys::wall_ns();
        let events = LIVE.with(|l| std::mem::take(&mut l.borrow_mut().events));
        if vfs::is_dead(self.machine) {
            return Ok(After::Nothing);
        }
        let got = match r {
            Err(p) => return self.bad("panic:vocab", format!("ensuring {}: {}", names(), panic_text(&p))),
            Ok(x) => x,
        };
        let faulty = vfs::fired(self.machine) > 0;
        let got = match (got, &fails) {
            (Err(err), Some((_, why))) => {
                self.cov.hit(&format!("vocab.refused.{}", crate::exec::slug(why)));
                if self.verbose {
                    self.trace.push(format!("    refused as it should be ({}): {}", why, text(&err)));
                }
                None
            }
            (Err(err), None) => {
                if !faulty {
                    return self.bad("vocab:refused", format!("ensuring {} was refused: {}", names(), text(&err)));
                }
                self.cov.hit("vocab.failed-by-fault");
                if self.verbose {
                    self.trace.push(format!("    failed: {}", text(&err)));
                }
                None
            }
            (Ok(_), Some((_, why))) => {
                return self.bad("vocab:accepted", format!("ensuring {} was accepted, but: {}", names(), why))
            }
            (Ok(o), None) => Some(o),
        };
        // Which functions were called, in which order, and what they were told.
        let acts: &[Act] = s.as_ref().map(|s| &s.acts[..]).unwrap_or(&[]);
        let last = fails.as_ref().map_or(acts.len(), |f| f.0 + 1).min(acts.len());
        let calls: Vec<(&String, &Option<Voc>)> = acts[..last]
            .iter()
            .filter_map(|a| match a {
                Act::Hook { id, from, .. } => Some((id, from)),
                _ => None,
            })
            .collect();
        for (i, ev) in events.iter().enumerate() {
            match calls.get(i) {
                Some((id, _)) if **id == ev.id => {}
                w => {
                    return self.bad(
                        "vocab:calls",
                        format!("ensuring {}: {:?} was called where {:?} was due", names(), ev.id, w.map(|x| x.0)),
                    )
                }
            }
            let (_, from) = calls[i];
            if ev.from != *from {
                return self.bad(
                    "vocab:calls",
                    format!("ensuring {}: {} was told of {:?} and not {:?}", names(), ev.id, ev.from, from),
                );
            }
        }
        if !faulty && events.len() != calls.len() {
            return self.bad("vocab:calls", format!("ensuring {}: {} was not called", names(), calls[events.len()].0));
        }
        if let (Ok(s), true) = (&s, e.source && !events.is_empty()) {
            let want: BTreeMap<String, (u32, String)> = s
                .checks
                .iter()
                .map(|(n, c)| (n.clone(), (e.defs.iter().find(|d| d.name == *n).unwrap().version, kind_wanted(c))))
                .collect();
            if want != status {
                return self.bad("vocab:calls", format!("the status was {:?} and not {:?}", status, want));
            }
        }
        let got = match got {
            Some(g) => g,
            // Beyond saving?  Then what it has in memory is nobody's business.
            None if faulty => {
                use mentat::Queryable;
                let r = guard(|| vfs::paused(|| ip.q_once("[:find ?e . :where [?e :db/ident :db/ident]]", None).map(|x| x.results.len()).unwrap_or(0)));
                return Ok(if matches!(r, Ok(1)) { After::Look } else { After::Lost });
            }
            None => return Ok(After::Look),
        };
        let s = match s {
            Ok(s) => s,
            Err(_) => return Ok(After::Look),
        };
        for o in got.values() {
            self.cov.hit(&format!("vocab.{:?}", o));
        }
        if got != s.outcomes {
            return self.bad("vocab:outcome", format!("ensuring {}: {:?} and not {:?}", names(), got, s.outcomes));
        }
        let h0 = cur.h.clone();
        let mut events = events.into_iter();
        for a in &s.acts {
            let (ops, report, named, wall) = match a {
                Act::Hook { hook, .. } => {
                    let ev = match events.next() {
                        Some(ev) => ev,
                        None => return self.bad("vocab:calls", format!("ensuring {}: not all were called", names())),
                    };
                    match ev.result {
                        None => continue,
                        Some(r) => (known(&hook.ops, &h0), r, true, ev.wall),
                    }
                }
                Act::Install(ops) => {
                    let tx = cur.m.next_tx;
                    let rows = match vfs::paused(|| log_of(&ip.transaction, tx)) {
                        Ok(r) => r,
                        Err(e) => return self.bad("vocab:effects", format!("cannot read back the log of {}: {}", tx, e)),
                    };
                    let us = rows.iter().find_map(|c| match &c.2 {
                        V::Inst(us) if c.0 == tx && c.1 == DB_TX_INSTANT => Some(*us),
                        _ => None,
                    });
                    let us = match us {
                        Some(us) => us,
                        None => {
                            return self.bad("vocab:effects", format!("ensuring {}: nothing was transacted as {}", names(), tx))
                        }
                    };
                    use chrono::TimeZone;
                    let at = chrono::Utc.timestamp(us.div_euclid(1_000_000), (us.rem_euclid(1_000_000) * 1000) as u32);
                    let r = TxReport { tx_id: tx, tx_instant: at, tempids: BTreeMap::new() };
                    (ops.clone(), Ok(r), false, (w0, w1))
                }
            };
            // What hooks say was settled before anything was done.
            let h = std::mem::replace(&mut cur.h, h0.clone());
            let expect = match self.expect(cur, &ops) {
                Some(x) => x,
                None => return self.bad("vocab:model", format!("{:?} is not settled after all", ops)),
            };
            self.outcome(cur, &ops, expect, report, wall, &ip.transaction, named)?;
            let new = std::mem::replace(&mut cur.h, h);
            cur.h.extend(new);
        }
        Ok(After::Look)
    }
}

/// What can be read of vocabularies, against the model.
pub fn look<T: HasVocabularies + VersionedStoreReads>(t: &T, m: &Model, defs: &[VDef]) -> Result<Vec<String>, String> {
    let mut out = vec![];
    let got: Vocabularies = t.read_vocabularies().map_err(|e| text(&e))?;
    let mut have = BTreeMap::new();
    for (n, v) in got.iter() {
        match voc(v) {
            Ok(v) => {
                have.insert(n.to_string(), v);
            }
            Err(e) => out.push(format!("{}: {}", n, e)),
        }
    }
    let want = all(m);
    if have != want {
        for (n, v) in &want {
            if have.get(n) != Some(v) {
                out.push(format!("{} is {:?} and not {:?}", n, have.get(n), v));
            }
        }
        for n in have.keys() {
            if !want.contains_key(n) {
                out.push(format!("{} is no vocabulary", n));
            }
        }
    }
    let mut names: BTreeSet<String> = want.keys().cloned().collect();
    names.extend(defs.iter().map(|d| d.name.clone()));
    for n in names {
        let got = match t.read_vocabulary_named(&kw(&n)) {
            Ok(None) => Ok(None),
            Ok(Some(v)) => voc(&v).map(Some),
            Err(MentatError::InvalidVocabularyVersion) => Err("version".to_string()),
            Err(e) => return Err(text(&e)),
        };
        let w = named(m, &n);
        if got.is_err() != w.is_err() || got.as_ref().ok() != w.as_ref().ok() {
            out.push(format!("{} by name is {:?} and not {:?}", n, got, w));
        }
    }
    for d in defs {
        let def = definition(d);
        let got = t.check(&def);
        let w = check(m, d);
        match (&got, &w) {
            (Ok(g), Ok(w)) if *g == kind_wanted(w) => {}
            (Err(true), Err(_)) => {}
            (Err(false), _) => return Err("cannot check".into()),
            _ => out.push(format!("{} version {} is {:?} and not {:?}", d.name, d.version, got, w)),
        }
    }
    if let Some(e) = t.core() {
        return Err(e);
    }
    Ok(out)
}

/// The parts of `VersionedStore` which only read.
pub trait VersionedStoreReads {
    /// Err(true): the definition conflicts with what there is.  Err(false): it could not be read.
    fn check(&self, d: &Definition) -> Result<String, bool>;
    fn core(&self) -> Option<String>;
}

impl<'a, 'c> VersionedStoreReads for InProgress<'a, 'c> {
    fn check(&self, d: &Definition) -> Result<String, bool> {
        match self.check_vocabulary(d) {
            Ok(c) => Ok(kind_of(&c)),
            Err(MentatError::ConflictingAttributeDefinitions(..)) | Err(MentatError::InvalidVocabularyVersion) => Err(true),
            Err(_) => Err(false),
        }
    }

    fn core(&self) -> Option<String> {
        self.verify_core_schema().err().map(|e| text(&e))
    }
}

pub fn shrink(e: &Ensure) -> Vec<Ensure> {
    let mut out = vec![];
    let mut put = |f: &dyn Fn(&mut Ensure)| {
        let mut x = e.clone();
        f(&mut x);
        if x != *e {
            out.push(x);
        }
    };
    for i in 0..e.defs.len() {
        if e.defs.len() > 1 {
            put(&|x| {
                x.defs.remove(i);
            });
        }
        for j in 0..e.defs[i].attrs.len() {
            put(&|x| {
                x.defs[i].attrs.remove(j);
            });
        }
        put(&|x| x.defs[i].pre = Hook::default());
        put(&|x| x.defs[i].post = Hook::default());
        put(&|x| x.defs[i].pre.ops.clear());
        put(&|x| x.defs[i].post.ops.clear());
    }
    put(&|x| x.pre = Hook::default());
    put(&|x| x.post = Hook::default());
    put(&|x| x.source = false);
    out
}
