//! The reference model: an executable description of what transacting against a store means,
//! written from the documentation and independent of how the code does it.  Sets of facts, a log,
//! and the rules which take one to the next.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use crate::value::*;

pub const DB_IDENT: E = 1;
pub const DB_TX_INSTANT: E = 3;
pub const DB_VALUE_TYPE: E = 7;
pub const DB_CARDINALITY: E = 8;
pub const DB_UNIQUE: E = 9;
pub const DB_IS_COMPONENT: E = 10;
pub const DB_INDEX: E = 11;
pub const DB_FULLTEXT: E = 12;
pub const DB_NO_HISTORY: E = 13;
pub const CARD_ONE: E = 33;
pub const CARD_MANY: E = 34;
pub const UNIQUE_VALUE: E = 35;
pub const UNIQUE_IDENTITY: E = 36;

pub const USER0: E = 0x10000;
pub const TX0: E = 0x1000_0000;
pub const TX_END: E = 0x2000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Uniq {
    Value,
    Identity,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AttrDef {
    pub vt: Vt,
    pub many: bool,
    pub unique: Option<Uniq>,
    pub index: bool,
    pub fulltext: bool,
    pub component: bool,
    pub no_history: bool,
}

pub type Change = (E, E, V, bool);

#[derive(Clone, Default)]
pub struct Model {
    pub datoms: BTreeMap<(E, E, V), E>,
    pub avet: BTreeMap<(E, V), BTreeSet<E>>,
    pub log: BTreeMap<E, Arc<BTreeSet<Change>>>,
    pub idents: BTreeMap<String, E>,
    pub names: BTreeMap<E, String>,
    pub attrs: BTreeMap<E, AttrDef>,
    pub next_db: E,
    pub next_user: E,
    pub next_tx: E,
}

#[derive(Clone, Debug)]
pub enum Verdict<T> {
    Ok(T),
    Err(String),
    /// The documentation does not settle what should happen: the harness does not do it.
    Skip(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TE {
    Known(E),
    Tmp(usize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TV {
    Val(V),
    Tmp(usize),
}

#[derive(Clone, Debug)]
pub struct Term {
    pub add: bool,
    pub e: TE,
    pub a: E,
    pub v: TV,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cls {
    Known(E),
    New(usize),
}

/// A transaction's meaning up to the choice of fresh ids.
#[derive(Clone, Debug)]
pub struct Prepared {
    pub terms: Vec<Term>,
    /// External names (None: internal).
    pub temps: Vec<Option<String>>,
    pub class: Vec<Cls>,
    pub n_new: usize,
    pub tx: E,
    /// How many tempids resolved to existing entities.
    pub upserts: usize,
    /// How many tempids were identified with another one.
    pub unified: usize,
}

#[derive(Clone)]
pub struct Applied {
    pub model: Model,
    pub changes: BTreeSet<Change>,
    pub explicit_instant: Option<i64>,
    pub schema_changed: bool,
    /// (attribute, value) of every datom the transaction mentions, effective or not.
    pub attempted: BTreeSet<E>,
}

struct Flat<'m> {
    m: &'m Model,
    h: &'m Handles,
    tx: E,
    terms: Vec<Term>,
    temps: Vec<Option<String>>,
    by_name: BTreeMap<String, usize>,
}

enum Stop {
    Err(String),
    Skip(String),
}

type R<T> = Result<T, Stop>;

fn err<T>(s: &str) -> R<T> {
    Err(Stop::Err(s.to_string()))
}
fn skip<T>(s: &str) -> R<T> {
    Err(Stop::Skip(s.to_string()))
}

impl<'m> Flat<'m> {
    fn temp(&mut self, name: &str) -> usize {
        if let Some(i) = self.by_name.get(name) {
            return *i;
        }
        let i = self.temps.len();
        self.temps.push(Some(name.to_string()));
        self.by_name.insert(name.to_string(), i);
        i
    }

    fn internal(&mut self) -> usize {
        self.temps.push(None);
        self.temps.len() - 1
    }

    fn attr(&self, a: &str) -> R<(E, &'m AttrDef)> {
        if let Some(n) = a.strip_prefix('@') {
            let e = match self.h.get(n) {
                Some(e) => *e,
                None => return skip("unknown handle"),
            };
            return match self.m.attrs.get(&e) {
                None => err("entity is not an attribute"),
                Some(d) => Ok((e, d)),
            };
        }
        match self.m.idents.get(a) {
            None => err("unknown ident as attribute"),
            Some(e) => match self.m.attrs.get(e) {
                None => err("ident is not an attribute"),
                Some(d) => Ok((*e, d)),
            },
        }
    }

    fn lookup(&self, a: &str, v: &V) -> R<E> {
        let (ae, d) = self.attr(a)?;
        let v = coerce(self.m, d, v)?;
        if d.unique.is_none() {
            return err("lookup ref on an attribute which is not unique");
        }
        match self.m.avet.get(&(ae, v)).and_then(|s| s.iter().next()) {
            Some(e) => Ok(*e),
            None => err("lookup ref does not resolve"),
        }
    }

    /// In entity position.
    fn ent(&mut self, p: &EP) -> R<TE> {
        Ok(match p {
            EP::H(n) => match self.h.get(n) {
                Some(e) => TE::Known(self.allocated(*e)?),
                None => return skip("unknown handle"),
            },
            EP::Raw(e) => TE::Known(self.allocated(*e)?),
            EP::Temp(t) => TE::Tmp(self.temp(t)),
            EP::Lookup(a, v) => TE::Known(self.lookup(a, v)?),
            EP::Ident(k) => match self.m.idents.get(k) {
                Some(e) => TE::Known(*e),
                None => return err("unknown ident as entity"),
            },
            EP::Tx => TE::Known(self.tx),
        })
    }

    fn allocated(&self, e: E) -> R<E> {
        let m = self.m;
        if (0..m.next_db).contains(&e) || (USER0..m.next_user).contains(&e) || (TX0..self.tx + 1).contains(&e) {
            Ok(e)
        } else {
            err("entity was never allocated")
        }
    }

    /// An entity in value position: not required to be allocated.
    fn ref_val(&mut self, p: &EP) -> R<TV> {
        Ok(match p {
            EP::H(n) => match self.h.get(n) {
                Some(e) => TV::Val(V::Ref(*e)),
                None => return skip("unknown handle"),
            },
            EP::Raw(e) => TV::Val(V::Ref(*e)),
            EP::Temp(t) => TV::Tmp(self.temp(t)),
            EP::Lookup(a, v) => TV::Val(V::Ref(self.lookup(a, v)?)),
            EP::Ident(k) => match self.m.idents.get(k) {
                Some(e) => TV::Val(V::Ref(*e)),
                None => return err("unknown ident as value"),
            },
            EP::Tx => TV::Val(V::Ref(self.tx)),
        })
    }

    fn one(&mut self, add: bool, e: TE, a: &str, v: &VP, depth: u32) -> R<()> {
        if depth > 8 {
            return skip("nested too deeply");
        }
        let read;
        let v = match v {
            VP::Lit(_, Some(x)) => {
                read = VP::Val(x.clone());
                &read
            }
            v => v,
        };
        if is_reverse(a) {
            let (ae, d) = self.attr(&forward(a))?;
            if d.vt != Vt::Ref {
                return skip("reverse attribute which is not a ref");
            }
            let re = match v {
                VP::E(p) => match self.ref_val(p)? {
                    TV::Val(V::Ref(x)) => TE::Known(x),
                    TV::Tmp(t) => TE::Tmp(t),
                    _ => return skip("unreachable"),
                },
                VP::Val(V::Ref(x)) => TE::Known(*x),
                VP::Val(_) => return skip("odd value for a reverse attribute"),
                VP::Many(_) | VP::Map(..) => return err("cannot explode under a reverse attribute"),
                VP::Lit(..) => return err("cannot be read"),
            };
            if let TE::Known(x) = re {
                // Whether it must be allocated is not documented.
                if self.allocated(x).is_err() {
                    return skip("reverse attribute with an unallocated entity");
                }
            }
            let rv = match e {
                TE::Known(x) => TV::Val(V::Ref(x)),
                TE::Tmp(t) => TV::Tmp(t),
            };
            self.terms.push(Term { add, e: re, a: ae, v: rv });
            return Ok(());
        }
        let (ae, d) = self.attr(a)?;
        let tv = match v {
            VP::Val(V::Str(s)) if d.vt == Vt::Ref => {
                let s = s.clone();
                TV::Tmp(self.temp(&s))
            }
            VP::Val(x) => TV::Val(coerce(self.m, d, x)?),
            VP::E(p) => {
                if d.vt != Vt::Ref {
                    return match p {
                        EP::Lookup(..) | EP::Tx => err("entity as the value of a non-ref attribute"),
                        _ => skip("entity as the value of a non-ref attribute"),
                    };
                }
                self.ref_val(p)?
            }
            VP::Many(vs) => {
                if !d.many {
                    return err("vector for a cardinality-one attribute");
                }
                for x in vs {
                    self.one(add, e.clone(), a, x, depth + 1)?;
                }
                return Ok(());
            }
            VP::Lit(..) => return err("cannot be read"),
            VP::Map(id, kvs) => {
                if !add {
                    return err("nested map in a retraction");
                }
                if d.vt != Vt::Ref {
                    return err("nested map for a non-ref attribute");
                }
                let mut dangling = id.is_none() && !d.component;
                let ne = match id {
                    Some(p) => self.ent(p)?,
                    None => TE::Tmp(self.internal()),
                };
                dup_keys(kvs)?;
                for (k, x) in kvs {
                    if is_reverse(k) {
                        dangling = false;
                    } else {
                        let (_, kd) = self.attr(k)?;
                        if kd.unique == Some(Uniq::Identity) {
                            dangling = false;
                        }
                    }
                    self.one(true, ne.clone(), k, x, depth + 1)?;
                }
                if dangling {
                    return err("nested map would dangle");
                }
                match ne {
                    TE::Known(x) => TV::Val(V::Ref(x)),
                    TE::Tmp(t) => TV::Tmp(t),
                }
            }
        };
        self.terms.push(Term { add, e, a: ae, v: tv });
        Ok(())
    }
}

fn dup_keys(kvs: &[(String, VP)]) -> R<()> {
    let s: BTreeSet<&String> = kvs.iter().map(|x| &x.0).collect();
    if s.len() != kvs.len() {
        return skip("duplicate key in map");
    }
    Ok(())
}

fn coerce(m: &Model, d: &AttrDef, v: &V) -> R<V> {
    match (d.vt, v) {
        (Vt::Ref, V::Ref(x)) | (Vt::Ref, V::Long(x)) => Ok(V::Ref(*x)),
        (Vt::Ref, V::Kw(k)) => match m.idents.get(k) {
            Some(e) => Ok(V::Ref(*e)),
            None => err("unknown ident as value"),
        },
        (Vt::Long, V::Ref(x)) => Ok(V::Long(*x)),
        (t, x) if x.vtype() == t => Ok(x.clone()),
        _ => err("wrong type"),
    }
}

fn lift<T>(r: R<T>) -> Verdict<T> {
    match r {
        Ok(x) => Verdict::Ok(x),
        Err(Stop::Err(s)) => Verdict::Err(s),
        Err(Stop::Skip(s)) => Verdict::Skip(s),
    }
}

impl Model {
    pub fn from_facts(datoms: BTreeMap<(E, E, V), E>, log: BTreeMap<E, BTreeSet<Change>>) -> Model {
        let mut m = Model {
            datoms,
            log: log.into_iter().map(|(k, v)| (k, Arc::new(v))).collect(),
            ..Default::default()
        };
        m.reindex();
        m
    }

    /// Recompute everything which is derived from the facts and the log.
    pub fn reindex(&mut self) {
        self.avet.clear();
        for (e, a, v) in self.datoms.keys() {
            self.avet.entry((*a, v.clone())).or_default().insert(*e);
        }
        self.derive_schema();
        self.next_db = 0;
        self.next_user = USER0;
        self.next_tx = TX0;
        let mut ids: BTreeSet<E> = BTreeSet::new();
        for (tx, cs) in &self.log {
            ids.insert(*tx);
            for (e, _, v, _) in cs.iter() {
                ids.insert(*e);
                if let V::Ref(x) = v {
                    ids.insert(*x);
                }
            }
        }
        for e in ids {
            if e < USER0 {
                self.next_db = self.next_db.max(e + 1);
            } else if e < TX0 {
                self.next_user = self.next_user.max(e + 1);
            } else if e < TX_END {
                self.next_tx = self.next_tx.max(e + 1);
            }
        }
    }

    /// No user id below this one may be handed out: each was given to somebody before.
    pub fn floor_user(&self) -> E {
        let mut top = USER0;
        for cs in self.log.values() {
            for (e, _, v, _) in cs.iter() {
                if (USER0..TX0).contains(e) {
                    top = top.max(e + 1);
                }
                if let V::Ref(x) = v {
                    if (USER0..TX0).contains(x) {
                        top = top.max(x + 1);
                    }
                }
            }
        }
        top
    }

    pub fn values(&self, e: E, a: E) -> Vec<V> {
        self.datoms
            .range((e, a, V::Ref(i64::MIN))..)
            .take_while(|(k, _)| k.0 == e && k.1 == a)
            .map(|(k, _)| k.2.clone())
            .collect()
    }

    pub fn attr(&self, name: &str) -> Option<(E, &AttrDef)> {
        let e = *self.idents.get(name)?;
        self.attrs.get(&e).map(|d| (e, d))
    }

    fn derive_schema(&mut self) {
        self.idents.clear();
        self.names.clear();
        self.attrs.clear();
        for (e, a, v) in self.datoms.keys() {
            if *a == DB_IDENT {
                if let V::Kw(k) = v {
                    self.idents.insert(k.clone(), *e);
                    self.names.insert(*e, k.clone());
                }
            }
        }
        let defs: Vec<(E, Vt)> = self
            .datoms
            .keys()
            .filter(|k| k.1 == DB_VALUE_TYPE)
            .filter_map(|k| match k.2 {
                V::Ref(t) => Vt::from_entid(t).map(|t| (k.0, t)),
                _ => None,
            })
            .collect();
        for (e, vt) in defs {
            let flag = |m: &Model, a: E| m.values(e, a).first() == Some(&V::Bool(true));
            let d = AttrDef {
                vt,
                many: self.values(e, DB_CARDINALITY).first() == Some(&V::Ref(CARD_MANY)),
                unique: match self.values(e, DB_UNIQUE).first() {
                    Some(V::Ref(UNIQUE_VALUE)) => Some(Uniq::Value),
                    Some(V::Ref(UNIQUE_IDENTITY)) => Some(Uniq::Identity),
                    _ => None,
                },
                index: flag(self, DB_INDEX),
                fulltext: flag(self, DB_FULLTEXT),
                component: flag(self, DB_IS_COMPONENT),
                no_history: flag(self, DB_NO_HISTORY),
            };
            self.attrs.insert(e, d);
        }
    }

    pub fn prepare(&self, ops: &[Op], h: &Handles) -> Verdict<Prepared> {
        lift(self.prepare_(ops, h))
    }

    fn prepare_(&self, ops: &[Op], h: &Handles) -> R<Prepared> {
        let tx = self.next_tx;
        if ops.iter().any(|o| o.unreadable()) {
            return err("cannot be read");
        }
        let mut f = Flat { m: self, h, tx, terms: vec![], temps: vec![], by_name: BTreeMap::new() };
        // An undocumented case anywhere wins over a certain error: the order in which the code
        // looks at things is not specified.
        let mut first: Option<Stop> = None;
        for op in ops {
            let r = match op {
                Op::Add(e, a, v) => f.ent(e).and_then(|te| f.one(true, te, a, v, 0)),
                Op::Retract(e, a, v) => f.ent(e).and_then(|te| f.one(false, te, a, v, 0)),
                Op::Map(id, kvs) => (|| {
                    dup_keys(kvs)?;
                    let te = match id {
                        Some(p) => {
                            if kvs.is_empty() {
                                return Ok(());
                            }
                            f.ent(p)?
                        }
                        None => TE::Tmp(f.internal()),
                    };
                    for (k, v) in kvs {
                        f.one(true, te.clone(), k, v, 0)?;
                    }
                    Ok(())
                })(),
            };
            if let Err(s) = r {
                match (&first, &s) {
                    (Some(Stop::Skip(_)), _) => {}
                    (_, Stop::Skip(_)) => first = Some(s),
                    (None, _) => first = Some(s),
                    _ => {}
                }
            }
        }
        if let Some(s) = first {
            return Err(s);
        }
        let (mut terms, temps) = (f.terms, f.temps);

        // Upserts: the least fixpoint of looking identity assertions up.
        let n = temps.len();
        let mut known: Vec<Option<E>> = vec![None; n];
        let identity = |a: E| self.attrs.get(&a).map_or(false, |d| d.unique == Some(Uniq::Identity));
        let mut conflict: Option<(E, E, V)> = None;
        loop {
            let mut changed = false;
            for t in &terms {
                if !t.add || !identity(t.a) {
                    continue;
                }
                let tmp = match t.e {
                    TE::Tmp(x) => x,
                    TE::Known(_) => continue,
                };
                let v = match &t.v {
                    TV::Val(v) => v.clone(),
                    TV::Tmp(y) => match known[*y] {
                        Some(e) => V::Ref(e),
                        None => continue,
                    },
                };
                if let Some(e) = self.avet.get(&(t.a, v.clone())).and_then(|s| s.iter().next()) {
                    match known[tmp] {
                        None => {
                            known[tmp] = Some(*e);
                            changed = true;
                        }
                        Some(x) if x != *e => {
                            conflict = Some((*e, t.a, v));
                        }
                        _ => {}
                    }
                }
            }
            if !changed {
                break;
            }
        }
        for t in terms.iter_mut() {
            if let TE::Tmp(x) = t.e {
                if let Some(e) = known[x] {
                    t.e = TE::Known(e);
                }
            }
            if let TV::Tmp(x) = t.v {
                if let Some(e) = known[x] {
                    t.v = TV::Val(V::Ref(e));
                }
            }
        }
        if conflict.is_some() {
            // The conflicting fact may be on its way out in the same transaction; which of the
            // two wins is not documented.
            if terms.iter().any(|t| !t.add) {
                return skip("conflicting upserts with retractions about");
            }
            return err("conflicting upserts");
        }
        let upserts = known.iter().filter(|x| x.is_some()).count();

        // Tempids which need an id.
        let mut used: BTreeSet<usize> = BTreeSet::new();
        let mut mentioned: BTreeSet<usize> = BTreeSet::new();
        for t in &terms {
            if let TE::Tmp(x) = t.e {
                mentioned.insert(x);
                if t.add {
                    used.insert(x);
                }
            }
            if let TV::Tmp(x) = t.v {
                mentioned.insert(x);
                if t.add {
                    used.insert(x);
                }
            }
        }
        if mentioned.iter().any(|x| !used.contains(x)) {
            return err("retraction with a tempid which does not resolve");
        }
        let mut rep: Vec<usize> = (0..n).collect();
        fn find(rep: &mut Vec<usize>, mut x: usize) -> usize {
            while rep[x] != x {
                rep[x] = rep[rep[x]];
                x = rep[x];
            }
            x
        }
        let mut passes = 0;
        loop {
            let mut groups: BTreeMap<(E, Result<V, usize>), usize> = BTreeMap::new();
            let mut merged = false;
            for t in &terms {
                if let (true, true, TE::Tmp(x)) = (t.add, identity(t.a), &t.e) {
                    let key = match &t.v {
                        TV::Val(v) => Ok(v.clone()),
                        TV::Tmp(y) => Err(if passes == 0 { *y } else { find(&mut rep, *y) }),
                    };
                    match groups.get(&(t.a, key.clone())) {
                        None => {
                            groups.insert((t.a, key), *x);
                        }
                        Some(y) => {
                            let (p, q) = (find(&mut rep, *x), find(&mut rep, *y));
                            if p != q {
                                rep[p.max(q)] = p.min(q);
                                merged = true;
                            }
                        }
                    }
                }
            }
            if !merged {
                break;
            }
            if passes > 0 {
                return skip("tempids identified only transitively");
            }
            passes += 1;
        }
        // An id nobody was given yet, which this very transaction may come to hand out.
        let loose = |e: E| e >= self.next_user && e < TX0;
        for t in &terms {
            let (x, y) = (&t.e, &t.v);
            if matches!(x, TE::Known(e) if loose(*e)) || matches!(y, TV::Val(V::Ref(e)) if loose(*e)) {
                return skip("an id which was never allocated");
            }
        }
        let mut class = vec![Cls::New(usize::MAX); n];
        let mut labels: BTreeMap<usize, usize> = BTreeMap::new();
        let mut unified = 0;
        for i in 0..n {
            if let Some(e) = known[i] {
                class[i] = Cls::Known(e);
            } else if used.contains(&i) {
                let r = find(&mut rep, i);
                if r != i {
                    unified += 1;
                }
                let k = labels.len();
                let l = *labels.entry(r).or_insert(k);
                class[i] = Cls::New(l);
            }
        }
        Ok(Prepared { terms, temps, class, n_new: labels.len(), tx, upserts, unified })
    }

    /// Provisional ids, when the outcome alone is of interest.
    pub fn provisional(&self, p: &Prepared) -> Vec<E> {
        (0..p.n_new as i64).map(|i| self.next_user + i).collect()
    }

    pub fn apply(&self, p: &Prepared, ids: &[E], instant: i64) -> Verdict<Applied> {
        lift(self.apply_(p, ids, instant))
    }

    fn apply_(&self, p: &Prepared, ids: &[E], instant: i64) -> R<Applied> {
        let ent = |t: usize| match p.class[t] {
            Cls::Known(e) => e,
            Cls::New(k) => ids[k],
        };
        let mut adds: BTreeSet<(E, E, V)> = BTreeSet::new();
        let mut rets: BTreeSet<(E, E, V)> = BTreeSet::new();
        for t in &p.terms {
            let e = match t.e {
                TE::Known(e) => e,
                TE::Tmp(x) => ent(x),
            };
            let v = match &t.v {
                TV::Val(v) => v.clone(),
                TV::Tmp(x) => V::Ref(ent(*x)),
            };
            if t.add {
                adds.insert((e, t.a, v));
            } else {
                rets.insert((e, t.a, v));
            }
        }
        let attempted: BTreeSet<E> = adds.iter().chain(rets.iter()).map(|x| x.1).collect();
        // Conflicts within the transaction.
        if adds.iter().any(|x| rets.contains(x)) {
            return err("asserted and retracted in one transaction");
        }
        let mut seen: BTreeMap<(E, E), usize> = BTreeMap::new();
        for (e, a, _) in &adds {
            let k = seen.entry((*e, *a)).or_insert(0);
            *k += 1;
            if *k > 1 && !self.attrs[a].many {
                return err("two values for a cardinality-one attribute");
            }
        }
        let explicit = adds
            .iter()
            .find(|x| x.0 == p.tx && x.1 == DB_TX_INSTANT)
            .and_then(|x| if let V::Inst(us) = x.2 { Some(us) } else { None });
        if explicit.is_none() {
            adds.insert((p.tx, DB_TX_INSTANT, V::Inst(instant)));
        }
        let top = ids.iter().map(|x| x + 1).max().unwrap_or(0);
        self.settle(adds, rets, p.tx, top, explicit, attempted)
    }

    fn settle(
        &self,
        adds: BTreeSet<(E, E, V)>,
        rets: BTreeSet<(E, E, V)>,
        tx: E,
        top: E,
        explicit_instant: Option<i64>,
        attempted: BTreeSet<E>,
    ) -> R<Applied> {
        let mut changes: BTreeSet<Change> = BTreeSet::new();
        for (e, a, v) in &rets {
            if self.datoms.contains_key(&(*e, *a, v.clone())) {
                changes.insert((*e, *a, v.clone(), false));
            }
        }
        for (e, a, v) in &adds {
            if self.datoms.contains_key(&(*e, *a, v.clone())) {
                continue;
            }
            if !self.attrs[a].many {
                for old in self.values(*e, *a) {
                    changes.insert((*e, *a, old, false));
                }
            }
            changes.insert((*e, *a, v.clone(), true));
        }
        let mut m = self.clone();
        m.replay(tx, &changes);
        for (_, a, v, added) in &changes {
            if *added && self.attrs[a].unique.is_some() && m.avet[&(*a, v.clone())].len() > 1 {
                return err("unique value already taken");
            }
        }
        m.log.insert(tx, Arc::new(changes.clone()));
        m.next_user = m.next_user.max(top);
        m.next_tx = tx + 1;
        let schema_changed = changes
            .iter()
            .any(|c| c.1 == DB_IDENT || (DB_VALUE_TYPE..=DB_NO_HISTORY).contains(&c.1));
        if schema_changed {
            m.derive_schema();
            self.schema_legal(&m, &changes)?;
        }
        Ok(Applied { model: m, changes, explicit_instant, schema_changed, attempted })
    }

    pub fn replay(&mut self, tx: E, changes: &BTreeSet<Change>) {
        for (e, a, v, added) in changes.iter().filter(|c| !c.3) {
            let _ = added;
            self.datoms.remove(&(*e, *a, v.clone()));
            if let Some(s) = self.avet.get_mut(&(*a, v.clone())) {
                s.remove(e);
                if s.is_empty() {
                    self.avet.remove(&(*a, v.clone()));
                }
            }
        }
        for (e, a, v, _) in changes.iter().filter(|c| c.3) {
            self.datoms.insert((*e, *a, v.clone()), tx);
            self.avet.entry((*a, v.clone())).or_default().insert(*e);
        }
    }

    fn schema_legal(&self, post: &Model, changes: &BTreeSet<Change>) -> R<()> {
        let mut by: BTreeMap<(E, E), (Option<V>, Option<V>)> = BTreeMap::new();
        for (e, a, v, added) in changes {
            if *a == DB_IDENT || (DB_VALUE_TYPE..=DB_NO_HISTORY).contains(a) {
                let x = by.entry((*e, *a)).or_default();
                if *added {
                    x.1 = Some(v.clone());
                } else {
                    x.0 = Some(v.clone());
                }
            }
        }
        let ents: BTreeSet<E> = by.keys().map(|k| k.0).collect();
        for e in ents {
            let get = |a: E| by.get(&(e, a)).cloned().unwrap_or((None, None));
            let only_ret = |a: E| {
                let x = get(a);
                x.0.is_some() && x.1.is_none()
            };
            let asserted = |a: E| get(a).1.is_some();
            let metas: Vec<E> = (DB_VALUE_TYPE..=DB_NO_HISTORY).collect();
            let any_assert = metas.iter().any(|a| asserted(*a));
            let was = self.attrs.get(&e);
            if e < USER0 {
                return skip("alteration of the core schema");
            }
            let touched = metas.iter().any(|a| by.contains_key(&(e, *a)));
            if !(only_ret(DB_VALUE_TYPE) && only_ret(DB_CARDINALITY)) {
                for a in [DB_VALUE_TYPE, DB_CARDINALITY, DB_INDEX, DB_FULLTEXT, DB_NO_HISTORY].iter() {
                    if only_ret(*a) {
                        return err("retraction of a definition which may only be altered");
                    }
                }
            }
            if only_ret(DB_IDENT) && was.is_some() && !(only_ret(DB_VALUE_TYPE) && only_ret(DB_CARDINALITY)) {
                return skip("an attribute without a name");
            }
            if !touched {
                continue;
            }
            if only_ret(DB_VALUE_TYPE) && only_ret(DB_CARDINALITY) {
                if any_assert || asserted(DB_IDENT) {
                    return skip("attribute removed and asserted at once");
                }
                if !only_ret(DB_IDENT) {
                    return err("attribute removed but not its ident");
                }
                if metas.iter().any(|a| !post.values(e, *a).is_empty()) {
                    return skip("optional definitions left dangling");
                }
                if self.datoms.keys().any(|k| k.1 == e) {
                    return skip("removal of an attribute in use");
                }
                continue;
            }
            for a in [DB_VALUE_TYPE, DB_CARDINALITY, DB_UNIQUE].iter() {
                if let Some(V::Ref(x)) = get(*a).1 {
                    let ok = match *a {
                        DB_VALUE_TYPE => Vt::from_entid(x).is_some(),
                        DB_CARDINALITY => x == CARD_ONE || x == CARD_MANY,
                        _ => x == UNIQUE_VALUE || x == UNIQUE_IDENTITY,
                    };
                    if !ok {
                        return err("not a value type, cardinality or uniqueness");
                    }
                }
            }
            match was {
                None => {
                    if !asserted(DB_VALUE_TYPE) {
                        return err("new attribute without a value type");
                    }
                    if !post.names.contains_key(&e) {
                        return skip("new attribute without an ident");
                    }
                    if self.datoms.keys().any(|k| k.1 == e) {
                        return skip("new attribute over old facts");
                    }
                }
                Some(old) => {
                    if asserted(DB_VALUE_TYPE) {
                        return err("alteration of the value type");
                    }
                    if asserted(DB_FULLTEXT) {
                        return err("alteration of fulltext");
                    }
                    let new = &post.attrs[&e];
                    if old.many && !new.many {
                        let mut last: Option<E> = None;
                        for k in post.avet_entities(e) {
                            if last == Some(k) {
                                return err("cardinality one over an entity with many values");
                            }
                            last = Some(k);
                        }
                    }
                    if old.unique.is_none() && new.unique.is_some() {
                        if post.avet.iter().any(|((a, _), s)| *a == e && s.len() > 1) {
                            return err("unique over duplicate values");
                        }
                    }
                }
            }
            let d = &post.attrs[&e];
            if d.unique.is_some() && !d.index {
                return err("unique without index");
            }
            if d.fulltext && (d.vt != Vt::Str || !d.index) {
                return err("fulltext must be an indexed string");
            }
            if d.component && d.vt != Vt::Ref {
                return err("component must be a ref");
            }
        }
        Ok(())
    }

    /// The entities which have attribute `a`, once per value, sorted.
    fn avet_entities(&self, a: E) -> Vec<E> {
        let mut v: Vec<E> = self
            .avet
            .range((a, V::Ref(i64::MIN))..)
            .take_while(|(k, _)| k.0 == a)
            .flat_map(|(_, s)| s.iter().cloned())
            .collect();
        v.sort();
        v
    }

    pub fn user_datoms(&self) -> usize {
        self.datoms.keys().filter(|k| k.0 >= USER0).count()
    }
}
