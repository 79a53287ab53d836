//! Queries: a serialisable form, the text given to the store, and the answer the model gives.

use std::collections::{BTreeMap, BTreeSet};

use mentat::{Binding, QueryResults};
use serde::{Deserialize, Serialize};

use crate::model::*;
use crate::value::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum PT {
    Var(String),
    Blank,
    C(V),
    E(EP),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cl {
    Pat { e: PT, a: PT, v: PT, tx: Option<PT> },
    Pred { op: String, l: PT, r: PT },
    Not(Vec<Cl>),
    Or(Vec<Vec<Cl>>),
    /// [(fulltext $ attr term) [[?e ?v]]]
    Fts { a: String, term: String, e: String, v: String },
    Ground { var: String, vals: Vec<V> },
    /// [(tx-ids $ lo hi) [[?tx]]]
    TxIds { lo: PT, hi: PT, tx: String },
    /// [(tx-data $ tx) [[?e ?a ?v ?tx ?added]]]
    TxData { tx: PT, e: String, a: String, v: String, added: String },
    /// [v :ns/_name e], which is [e :ns/name v].
    Rev { v: PT, a: String, e: PT },
    OrJoin(Vec<String>, Vec<Vec<Cl>>),
    NotJoin(Vec<String>, Vec<Cl>),
    Type(String, Vt),
    /// A tuple, when there is one row, or a relation.
    GroundRel { vars: Vec<Option<String>>, rows: Vec<Vec<V>> },
    /// [(fulltext $ attr term) [[e v tx score]]], with any of them left out.
    FtsR { a: String, term: PT, binds: Vec<Option<String>> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum El {
    Var(String),
    Agg(String, String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Find {
    Rel(Vec<El>),
    Coll(El),
    Tuple(Vec<El>),
    Scalar(El),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct DQ {
    pub find: Find,
    pub with: Vec<String>,
    pub ins: Vec<(String, V)>,
    pub clauses: Vec<Cl>,
    pub order: Vec<(bool, String)>,
    pub limit: Option<u64>,
    /// The limit is given as an input.
    #[serde(default)]
    pub limit_in: bool,
    /// Composed at random: it may be refused for its types.
    #[serde(default)]
    pub wild: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Q {
    D(DQ),
    Lookup { e: EP, a: String, all: bool },
    Pull { es: Vec<EP>, attrs: Vec<String>, many: bool },
    /// Pull through a find spec.
    PullQ { attrs: Vec<String>, by: String },
    /// Pull through find specs of every shape (see `pull_find`).
    PullF { shape: u8, p: Vec<PA>, p2: Vec<PA>, by: String, order: Option<bool>, limit: Option<u64> },
    Idents,
    /// Another question, put out of shape.
    Odd { q: Box<Q>, salt: u64 },
}

/// What a pull asks for.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum PA {
    Attr(String),
    As(String, String),
    Id,
    IdAs(String),
    All,
}

impl PA {
    pub fn edn(&self) -> String {
        match self {
            PA::Attr(a) => a.clone(),
            PA::As(a, b) => format!("{} :as {}", a, b),
            PA::Id => ":db/id".into(),
            PA::IdAs(b) => format!(":db/id :as {}", b),
            PA::All => "*".into(),
        }
    }
}

/// The shapes: what is found, and how the query reads.
pub fn pull_find(shape: u8, p: &[PA], p2: &[PA], by: &str, order: Option<bool>, limit: Option<u64>) -> String {
    let f = |v: &str, p: &[PA]| format!("(pull {} [{}])", v, p.iter().map(|x| x.edn()).collect::<Vec<_>>().join(" "));
    let find = match shape {
        0 => f("?e", p),
        1 => format!("?e {} {}", f("?e", p), f("?e", p2)),
        2 => format!("[{} ...]", f("?e", p)),
        3 => format!("{} .", f("?e", p)),
        4 => format!("[?e {}]", f("?e", p)),
        5 => format!("?e {} ?v", f("?e", p)),
        6 => format!("?e (count ?v) {}", f("?e", p)),
        _ => format!("?e {} ?v {}", f("?e", p), f("?v", p2)),
    };
    let mut s = format!("[:find {} :where [?e {} ?v]", find, by);
    if let Some(asc) = order {
        s.push_str(&format!(" :order ({} ?e)", if asc { "asc" } else { "desc" }));
    }
    if let Some(n) = limit {
        s.push_str(&format!(" :limit {}", n));
    }
    s.push(']');
    s
}

impl El {
    fn edn(&self) -> String {
        match self {
            El::Var(v) => v.clone(),
            El::Agg(f, v) => format!("({} {})", f, v),
        }
    }
    fn var(&self) -> &String {
        match self {
            El::Var(v) => v,
            El::Agg(_, v) => v,
        }
    }
    fn is_agg(&self) -> bool {
        matches!(self, El::Agg(..))
    }
}

impl Find {
    pub fn els(&self) -> Vec<El> {
        match self {
            Find::Rel(x) | Find::Tuple(x) => x.clone(),
            Find::Coll(x) | Find::Scalar(x) => vec![x.clone()],
        }
    }
}

impl PT {
    fn edn(&self, h: &Handles) -> String {
        match self {
            PT::Var(v) => v.clone(),
            PT::Blank => "_".to_string(),
            PT::C(v) => v.edn(),
            PT::E(e) => e.edn(h),
        }
    }
}

impl Cl {
    fn edn(&self, h: &Handles) -> String {
        match self {
            Cl::Pat { e, a, v, tx } => match tx {
                None => format!("[{} {} {}]", e.edn(h), a.edn(h), v.edn(h)),
                Some(t) => format!("[{} {} {} {}]", e.edn(h), a.edn(h), v.edn(h), t.edn(h)),
            },
            Cl::Pred { op, l, r } => format!("[({} {} {})]", op, l.edn(h), r.edn(h)),
            Cl::Not(cs) => format!("(not {})", join(cs, h)),
            Cl::Or(bs) => format!(
                "(or {})",
                bs.iter()
                    .map(|b| if b.len() == 1 { b[0].edn(h) } else { format!("(and {})", join(b, h)) })
                    .collect::<Vec<_>>()
                    .join(" ")
            ),
            Cl::Fts { a, term, e, v } => format!("[(fulltext $ {} {}) [[{} {}]]]", a, edn_str(term), e, v),
            Cl::Ground { var, vals } => {
                if vals.len() == 1 {
                    format!("[(ground {}) {}]", vals[0].edn(), var)
                } else {
                    format!(
                        "[(ground [{}]) [{} ...]]",
                        vals.iter().map(|v| v.edn()).collect::<Vec<_>>().join(" "),
                        var
                    )
                }
            }
            Cl::TxIds { lo, hi, tx } => format!("[(tx-ids $ {} {}) [[{}]]]", lo.edn(h), hi.edn(h), tx),
            Cl::TxData { tx, e, a, v, added } => {
                format!("[(tx-data $ {}) [[{} {} {} _ {}]]]", tx.edn(h), e, a, v, added)
            }
            Cl::Rev { v, a, e } => format!("[{} {} {}]", v.edn(h), a.replace('/', "/_"), e.edn(h)),
            Cl::OrJoin(vs, bs) => format!(
                "(or-join [{}] {})",
                vs.join(" "),
                bs.iter()
                    .map(|b| if b.len() == 1 { b[0].edn(h) } else { format!("(and {})", join(b, h)) })
                    .collect::<Vec<_>>()
                    .join(" ")
            ),
            Cl::NotJoin(vs, cs) => format!("(not-join [{}] {})", vs.join(" "), join(cs, h)),
            Cl::Type(v, t) => format!("[(type {} {})]", v, t.ident()),
            Cl::GroundRel { vars, rows } => {
                let row = |r: &Vec<V>| format!("[{}]", r.iter().map(|v| v.edn()).collect::<Vec<_>>().join(" "));
                let vs = opts(vars);
                if rows.len() == 1 {
                    format!("[(ground {}) [{}]]", row(&rows[0]), vs)
                } else {
                    format!("[(ground [{}]) [[{}]]]", rows.iter().map(row).collect::<Vec<_>>().join(" "), vs)
                }
            }
            Cl::FtsR { a, term, binds } => format!("[(fulltext $ {} {}) [[{}]]]", a, term.edn(h), opts(binds)),
        }
    }
}

fn opts(vs: &[Option<String>]) -> String {
    vs.iter().map(|v| v.clone().unwrap_or_else(|| "_".to_string())).collect::<Vec<_>>().join(" ")
}

fn join(cs: &[Cl], h: &Handles) -> String {
    cs.iter().map(|c| c.edn(h)).collect::<Vec<_>>().join(" ")
}

impl DQ {
    pub fn edn(&self, h: &Handles) -> String {
        let mut s = String::from("[:find ");
        match &self.find {
            Find::Rel(x) => s.push_str(&x.iter().map(|e| e.edn()).collect::<Vec<_>>().join(" ")),
            Find::Coll(x) => s.push_str(&format!("[{} ...]", x.edn())),
            Find::Tuple(x) => s.push_str(&format!("[{}]", x.iter().map(|e| e.edn()).collect::<Vec<_>>().join(" "))),
            Find::Scalar(x) => s.push_str(&format!("{} .", x.edn())),
        }
        if !self.with.is_empty() {
            s.push_str(&format!(" :with {}", self.with.join(" ")));
        }
        let mut ins: Vec<&str> = self.ins.iter().map(|x| x.0.as_str()).collect();
        if self.limit.is_some() && self.limit_in {
            ins.push(LIMIT);
        }
        if !ins.is_empty() {
            s.push_str(&format!(" :in {}", ins.join(" ")));
        }
        s.push_str(&format!(" :where {}", join(&self.clauses, h)));
        if !self.order.is_empty() {
            s.push_str(" :order");
            for (asc, v) in &self.order {
                s.push_str(&format!(" ({} {})", if *asc { "asc" } else { "desc" }, v));
            }
        }
        if let Some(l) = self.limit {
            if self.limit_in {
                s.push_str(&format!(" :limit {}", LIMIT));
            } else {
                s.push_str(&format!(" :limit {}", l));
            }
        }
        s.push(']');
        s
    }
}

pub const LIMIT: &str = "?limit";

type B = BTreeMap<String, V>;

/// What cannot be evaluated (an attribute which is not there, a handle which is not known).
pub struct Unclear(pub String);

fn ground(m: &Model, h: &Handles, t: &PT, b: &B, as_ref: bool) -> Result<Option<V>, Unclear> {
    Ok(match t {
        PT::Blank => None,
        PT::Var(x) => b.get(x).cloned(),
        PT::C(V::Kw(k)) if as_ref => match m.idents.get(k) {
            Some(e) => Some(V::Ref(*e)),
            None => return Err(Unclear(format!("ident {}", k))),
        },
        PT::C(V::Long(x)) if as_ref => Some(V::Ref(*x)),
        PT::C(v) => Some(v.clone()),
        PT::E(EP::H(n)) => match h.get(n) {
            Some(e) => Some(V::Ref(*e)),
            None => return Err(Unclear("handle".to_string())),
        },
        PT::E(EP::Raw(e)) => Some(V::Ref(*e)),
        PT::E(EP::Ident(k)) => match m.idents.get(k) {
            Some(e) => Some(V::Ref(*e)),
            None => return Err(Unclear(format!("ident {}", k))),
        },
        PT::E(_) => return Err(Unclear("entity form".to_string())),
    })
}

thread_local! {
    /// Was an answer to turn on the type of a value that another type stores the same way?
    static CROSS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// Are there fulltext attributes, whose strings are stored as row numbers?
    static NUMBERED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// The variables which occur elsewhere than as an attribute: those whose value might be known
    /// -- from an input, a constant or the cache -- before the query is put to the database.
    static ELSEWHERE: std::cell::RefCell<BTreeSet<String>> = const { std::cell::RefCell::new(BTreeSet::new()) };
}

fn elsewhere(v: &serde_json::Value, out: &mut BTreeSet<String>) {
    match v {
        serde_json::Value::Object(o) => o.iter().filter(|(k, _)| *k != "a").for_each(|(_, x)| elsewhere(x, out)),
        serde_json::Value::Array(a) => a.iter().for_each(|x| elsewhere(x, out)),
        serde_json::Value::String(s) if s.starts_with('?') => {
            out.insert(s.clone());
        }
        _ => {}
    }
}

/// Was an answer worked out since the last call in which values of different types came together
/// that look the same in the database?
pub fn crossed() -> bool {
    CROSS.with(|c| c.replace(false))
}

fn stored(v: &V) -> (u8, String) {
    match v {
        V::Ref(x) | V::Long(x) | V::Inst(x) => (0, x.to_string()),
        V::Bool(x) => (0, (*x as i64).to_string()),
        V::Dbl(x) => {
            let x = f64::from_bits(*x);
            if x == x.trunc() && x.abs() < 9.2e18 {
                (0, (x as i64).to_string())
            } else {
                (0, x.to_string())
            }
        }
        V::Str(s) => (1, s.clone()),
        V::Kw(k) => (1, k.clone()),
        v => (2, v.edn()),
    }
}

/// The columns which hold entities and attributes are declared as numbers: SQLite compares a string
/// with them as the number it spells.
fn spelled(v: &V) -> Option<(u8, String)> {
    match v {
        V::Str(s) => s.trim().parse::<f64>().ok().filter(|x| x.is_finite()).map(|x| stored(&V::dbl(x))),
        _ => None,
    }
}

fn same(x: &V, y: &V) -> bool {
    if x != y && x.vtype() != y.vtype() {
        let (a, b) = (stored(x), stored(y));
        let number = (x.vtype() == Vt::Str && b.0 == 0 || y.vtype() == Vt::Str && a.0 == 0) && NUMBERED.with(|c| c.get());
        if number || a == b || spelled(x).map_or(false, |n| n == b) || spelled(y).map_or(false, |n| n == a) {
            CROSS.with(|c| c.set(true));
        }
    }
    x == y
}

/// A value which is no entity where an entity is wanted.
fn no_entity(x: &V) {
    if stored(x).0 == 0 || spelled(x).is_some() {
        CROSS.with(|c| c.set(true));
    }
}

fn bind(b: &B, t: &PT, v: &V) -> Option<B> {
    match t {
        PT::Var(x) => match b.get(x) {
            Some(y) => {
                if same(y, v) {
                    Some(b.clone())
                } else {
                    None
                }
            }
            None => {
                let mut c = b.clone();
                c.insert(x.clone(), v.clone());
                Some(c)
            }
        },
        _ => Some(b.clone()),
    }
}

pub fn tokens(s: &str) -> Vec<String> {
    s.to_lowercase()
        .split(|c: char| !c.is_alphanumeric())
        .filter(|x| !x.is_empty())
        .map(|x| x.to_string())
        .collect()
}

/// A whole number that is given may be an entity: which it is depends on what else is said of the
/// variable, and where that is only that it's an entity, both readings make sense.
fn given_entities(cs: &[Cl]) -> bool {
    fn scan(cs: &[Cl], given: &mut BTreeSet<String>, refs: &mut BTreeSet<String>) {
        let long = |v: &V| if let V::Long(_) = v { true } else { false };
        for c in cs {
            match c {
                Cl::Ground { var, vals } if vals.iter().any(long) => {
                    given.insert(var.clone());
                }
                Cl::GroundRel { vars, rows } => {
                    for r in rows {
                        for (x, v) in vars.iter().zip(r) {
                            if let (Some(x), true) = (x, long(v)) {
                                given.insert(x.clone());
                            }
                        }
                    }
                }
                Cl::Type(x, Vt::Ref) => {
                    refs.insert(x.clone());
                }
                Cl::Not(inner) | Cl::NotJoin(_, inner) => scan(inner, given, refs),
                Cl::Or(arms) | Cl::OrJoin(_, arms) => arms.iter().for_each(|a| scan(a, given, refs)),
                _ => {}
            }
        }
    }
    let (mut given, mut refs) = (BTreeSet::new(), BTreeSet::new());
    scan(cs, &mut given, &mut refs);
    given.intersection(&refs).next().is_some()
}

fn eval(m: &Model, h: &Handles, cs: &[Cl], start: Vec<B>) -> Result<Vec<B>, Unclear> {
    let mut bs = start;
    let order = |c: &Cl| match c {
        Cl::Ground { .. } | Cl::GroundRel { .. } => 0,
        Cl::Pat { .. } | Cl::Rev { .. } | Cl::Fts { .. } | Cl::FtsR { .. } => 1,
        Cl::Or(_) | Cl::OrJoin(..) => 2,
        Cl::TxIds { .. } => 3,
        Cl::TxData { .. } => 4,
        Cl::Pred { .. } | Cl::Type(..) => 5,
        Cl::Not(_) | Cl::NotJoin(..) => 6,
    };
    let mut sorted: Vec<&Cl> = cs.iter().collect();
    sorted.sort_by_key(|c| order(c));
    for c in sorted {
        if bs.len() > 4000 {
            return Err(Unclear("too much".to_string()));
        }
        let mut next: Vec<B> = vec![];
        let turned;
        let c = match c {
            Cl::Rev { v, a, e } => {
                turned = Cl::Pat { e: e.clone(), a: PT::E(EP::Ident(a.clone())), v: v.clone(), tx: None };
                &turned
            }
            c => c,
        };
        match c {
            Cl::Rev { .. } => unreachable!(),
            Cl::Pat { e, a, v, tx } => {
                for b in &bs {
                    let ga = ground(m, h, a, b, true)?;
                    let (vt, ga) = match &ga {
                        Some(V::Ref(x)) => match m.attrs.get(x) {
                            Some(d) => (Some(d.vt), Some(*x)),
                            // Only a constant which is no attribute is an odd question.
                            None if matches!(a, PT::Var(_)) => continue,
                            None => return Err(Unclear("not an attribute".to_string())),
                        },
                        Some(x) => {
                            no_entity(x);
                            continue;
                        }
                        None => (None, None),
                    };
                    let vt_ref = vt == Some(Vt::Ref);
                    // The type of the value may be known to the reader of the query and not from its text.
                    let open = !matches!(a, PT::E(_) | PT::C(_));
                    if let (PT::Var(x), Some(t)) = (a, vt) {
                        let turns = match v {
                            PT::C(V::Long(_)) | PT::C(V::Dbl(_)) | PT::E(EP::Raw(_)) | PT::E(EP::H(_)) => !matches!(t, Vt::Ref | Vt::Long),
                            PT::C(V::Kw(_)) | PT::E(EP::Ident(_)) => t == Vt::Ref,
                            _ => false,
                        };
                        if turns && ELSEWHERE.with(|c| c.borrow().contains(x)) {
                            return Err(Unclear("what is asked for depends on whether the attribute is known".to_string()));
                        }
                    }
                    let ge = match ground(m, h, e, b, true)? {
                        Some(V::Ref(x)) => Some(x),
                        None => None,
                        Some(x) => {
                            no_entity(&x);
                            continue;
                        }
                    };
                    let number = match v {
                        PT::C(V::Long(x)) | PT::E(EP::Raw(x)) => Some(*x),
                        PT::E(EP::H(n)) => h.get(n).cloned(),
                        _ => None,
                    };
                    let gv = match (v, number) {
                        // A number stands for whatever is stored as that number.
                        (_, Some(_)) if open => None,
                        (PT::C(V::Kw(k)), _) if open => Some(V::Kw(k.clone())),
                        (PT::E(EP::Ident(k)), _) if open => Some(V::Kw(k.clone())),
                        (PT::C(V::Dbl(x)), _) if open && f64::from_bits(*x) == f64::from_bits(*x).trunc() => {
                            return Err(Unclear("a double which is whole".to_string()))
                        }
                        _ => ground(m, h, v, b, vt_ref)?,
                    };
                    let number = if open { number } else { None };
                    let gt = match tx {
                        Some(t) => ground(m, h, t, b, true)?,
                        None => None,
                    };
                    let mut hit = |k: &(E, E, V), t: E| {
                        if ge.map_or(false, |x| x != k.0) || ga.map_or(false, |x| x != k.1) {
                            return;
                        }
                        // A constant says what it is.
                        let plain = matches!(v, PT::C(V::Bool(_)) | PT::C(V::Str(_)) | PT::C(V::Kw(_)) | PT::C(V::Uuid(_)) | PT::C(V::Inst(_)) | PT::E(EP::Ident(_)));
                        if gv.as_ref().map_or(false, |x| if plain { x != &k.2 } else { !same(x, &k.2) }) {
                            return;
                        }
                        if let Some(n) = number {
                            let same = match k.2 {
                                V::Ref(x) | V::Long(x) | V::Inst(x) => x == n,
                                V::Dbl(x) => f64::from_bits(x) == n as f64,
                                V::Str(_) => same(&k.2, &V::Long(n)),
                                _ => false,
                            };
                            if !same {
                                return;
                            }
                        }
                        if gt.as_ref().map_or(false, |x| !same(x, &V::Ref(t))) {
                            return;
                        }
                        let mut n = bind(b, e, &V::Ref(k.0)).and_then(|b| bind(&b, a, &V::Ref(k.1))).and_then(|b| bind(&b, v, &k.2));
                        if let Some(t_) = tx {
                            n = n.and_then(|b| bind(&b, t_, &V::Ref(t)));
                        }
                        if let Some(n) = n {
                            next.push(n);
                        }
                    };
                    match (ge, ga) {
                        (Some(x), _) => {
                            for (k, t) in m.datoms.range((x, i64::MIN, V::Ref(i64::MIN))..).take_while(|(k, _)| k.0 == x) {
                                hit(k, *t);
                            }
                        }
                        (None, Some(y)) => {
                            for ((_, val), es) in
                                m.avet.range((y, V::Ref(i64::MIN))..).take_while(|(k, _)| k.0 == y)
                            {
                                for x in es {
                                    let k = (*x, y, val.clone());
                                    let t = m.datoms[&k];
                                    hit(&k, t);
                                }
                            }
                        }
                        _ => {
                            for (k, t) in m.datoms.iter() {
                                hit(k, *t);
                            }
                        }
                    }
                }
            }
            Cl::Pred { op, l, r } => {
                for b in &bs {
                    let (x, y) = (ground(m, h, l, b, false)?, ground(m, h, r, b, false)?);
                    let o = match (x, y) {
                        (Some(V::Long(x)), Some(V::Long(y))) => x.cmp(&y),
                        (Some(V::Ref(x)), Some(V::Ref(y))) => x.cmp(&y),
                        (Some(V::Inst(x)), Some(V::Inst(y))) => x.cmp(&y),
                        (Some(V::Dbl(x)), Some(V::Dbl(y))) => f64::from_bits(x).partial_cmp(&f64::from_bits(y)).unwrap(),
                        (Some(V::Long(x)), Some(V::Dbl(y))) if x.abs() < 1 << 52 => {
                            (x as f64).partial_cmp(&f64::from_bits(y)).unwrap()
                        }
                        (Some(V::Dbl(x)), Some(V::Long(y))) if y.abs() < 1 << 52 => {
                            f64::from_bits(x).partial_cmp(&(y as f64)).unwrap()
                        }
                        (Some(x), Some(y)) if x.vtype() != y.vtype() => {
                            // The engine compares what is stored.
                            CROSS.with(|c| c.set(true));
                            continue;
                        }
                        // Of types which do not compare.
                        (Some(V::Ref(_)), _) | (_, Some(V::Ref(_))) | (None, _) | (_, None) => {
                            return Err(Unclear("predicate".to_string()))
                        }
                        _ => continue,
                    };
                    use std::cmp::Ordering::*;
                    let ok = match op.as_str() {
                        "<" | "unpermute" | "tx-before" => o == Less,
                        "<=" => o != Greater,
                        ">" | "tx-after" => o == Greater,
                        ">=" => o != Less,
                        "!=" | "differ" => o != Equal,
                        _ => return Err(Unclear("predicate".to_string())),
                    };
                    if ok {
                        next.push(b.clone());
                    }
                }
            }
            Cl::Not(inner) => {
                for b in &bs {
                    if eval(m, h, inner, vec![b.clone()])?.is_empty() {
                        next.push(b.clone());
                    }
                }
            }
            Cl::Or(branches) => {
                for br in branches {
                    next.extend(eval(m, h, br, bs.clone())?);
                }
            }
            Cl::Type(x, t) => {
                for b in &bs {
                    match b.get(x) {
                        Some(v) if v.vtype() == *t => next.push(b.clone()),
                        Some(_) => {}
                        None => return Err(Unclear("unbound".to_string())),
                    }
                }
            }
            Cl::NotJoin(vs, inner) => {
                for b in &bs {
                    let b0: B = b.iter().filter(|(k, _)| vs.contains(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
                    if b0.len() != vs.len() {
                        return Err(Unclear("unbound".to_string()));
                    }
                    if eval(m, h, inner, vec![b0])?.is_empty() {
                        next.push(b.clone());
                    }
                }
            }
            Cl::OrJoin(vs, branches) => {
                for b in &bs {
                    let b0: B = b.iter().filter(|(k, _)| vs.contains(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
                    for br in branches {
                        for r in eval(m, h, br, vec![b0.clone()])? {
                            let mut n = b.clone();
                            for v in vs {
                                match r.get(v) {
                                    Some(x) => {
                                        n.insert(v.clone(), x.clone());
                                    }
                                    None => return Err(Unclear("unbound".to_string())),
                                }
                            }
                            next.push(n);
                        }
                    }
                }
            }
            Cl::GroundRel { vars, rows } => {
                for b in &bs {
                    for r in rows {
                        let mut n = Some(b.clone());
                        for (x, v) in vars.iter().zip(r) {
                            if let Some(x) = x {
                                n = n.and_then(|b| bind(&b, &PT::Var(x.clone()), v));
                            }
                        }
                        next.extend(n);
                    }
                }
            }
            Cl::FtsR { a, term, binds } => {
                let (ae, d) = match m.attr(a) {
                    Some(x) => x,
                    None => return Err(Unclear("attribute".to_string())),
                };
                if !d.fulltext {
                    return Err(Unclear("not fulltext".to_string()));
                }
                for b in &bs {
                    let want = match ground(m, h, term, b, false)? {
                        Some(V::Str(s)) => tokens(&s),
                        _ => return Err(Unclear("term".to_string())),
                    };
                    for ((_, val), es) in m.avet.range((ae, V::Ref(i64::MIN))..).take_while(|(k, _)| k.0 == ae) {
                        if let V::Str(s) = val {
                            let have = tokens(s);
                            if !want.iter().all(|w| have.contains(w)) {
                                continue;
                            }
                            for x in es {
                                let t = m.datoms[&(*x, ae, val.clone())];
                                let row = [V::Ref(*x), val.clone(), V::Ref(t), V::dbl(0.0)];
                                let mut n = Some(b.clone());
                                for (x, v) in binds.iter().zip(row.iter()) {
                                    if let Some(x) = x {
                                        n = n.and_then(|b| bind(&b, &PT::Var(x.clone()), v));
                                    }
                                }
                                next.extend(n);
                            }
                        }
                    }
                }
            }
            Cl::Fts { a, term, e, v } => {
                let (ae, d) = match m.attr(a) {
                    Some(x) => x,
                    None => return Err(Unclear("attribute".to_string())),
                };
                if !d.fulltext {
                    return Err(Unclear("not fulltext".to_string()));
                }
                let want = tokens(term);
                for b in &bs {
                    for ((_, val), es) in m.avet.range((ae, V::Ref(i64::MIN))..).take_while(|(k, _)| k.0 == ae) {
                        if let V::Str(s) = val {
                            let have = tokens(s);
                            if want.iter().all(|w| have.contains(w)) {
                                for x in es {
                                    if let Some(n) = bind(b, &PT::Var(e.clone()), &V::Ref(*x))
                                        .and_then(|b| bind(&b, &PT::Var(v.clone()), val))
                                    {
                                        next.push(n);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Cl::Ground { var, vals } => {
                for b in &bs {
                    for v in vals {
                        if let Some(n) = bind(b, &PT::Var(var.clone()), v) {
                            next.push(n);
                        }
                    }
                }
            }
            Cl::TxIds { lo, hi, tx } => {
                for b in &bs {
                    let (l, r) = (ground(m, h, lo, b, true)?, ground(m, h, hi, b, true)?);
                    let (l, r) = match (l, r) {
                        (Some(V::Ref(l)), Some(V::Ref(r))) => (l, r),
                        _ => return Err(Unclear("tx-ids".to_string())),
                    };
                    for t in m.log.keys().filter(|t| **t >= l && **t < r) {
                        if let Some(n) = bind(b, &PT::Var(tx.clone()), &V::Ref(*t)) {
                            next.push(n);
                        }
                    }
                }
            }
            Cl::TxData { tx, e, a, v, added } => {
                for b in &bs {
                    let t = match ground(m, h, tx, b, true)? {
                        Some(V::Ref(t)) => t,
                        _ => return Err(Unclear("tx-data".to_string())),
                    };
                    if let Some(cs) = m.log.get(&t) {
                        for c in cs.iter() {
                            let n = bind(b, &PT::Var(e.clone()), &V::Ref(c.0))
                                .and_then(|b| bind(&b, &PT::Var(a.clone()), &V::Ref(c.1)))
                                .and_then(|b| bind(&b, &PT::Var(v.clone()), &c.2))
                                .and_then(|b| bind(&b, &PT::Var(added.clone()), &V::Bool(c.3)));
                            if let Some(n) = n {
                                next.push(n);
                            }
                        }
                    }
                }
            }
        }
        let set: BTreeSet<B> = next.into_iter().collect();
        bs = set.into_iter().collect();
    }
    Ok(bs)
}

/// Variables which an inequality cannot be applied to: the schema need not be the one the query was
/// written for.
fn uncomparable(m: &Model, cs: &[Cl], out: &mut BTreeSet<String>) {
    for c in cs {
        match c {
            Cl::Pat { e, a, v, tx } => {
                for t in [Some(e), Some(a), tx.as_ref()].iter().flatten() {
                    if let PT::Var(x) = t {
                        out.insert(x.clone());
                    }
                }
                if let PT::Var(x) = v {
                    let vt = match a {
                        PT::E(EP::Ident(k)) | PT::C(V::Kw(k)) => m.attr(k).map(|x| x.1.vt),
                        _ => None,
                    };
                    if !matches!(vt, Some(Vt::Long) | Some(Vt::Dbl) | Some(Vt::Inst)) {
                        out.insert(x.clone());
                    }
                }
            }
            Cl::Not(x) => uncomparable(m, x, out),
            Cl::Or(x) => x.iter().for_each(|y| uncomparable(m, y, out)),
            _ => {}
        }
    }
}

/// Could `min` and `max` be refused for this variable?
fn unorderable(m: &Model, cs: &[Cl], x: &str) -> bool {
    cs.iter().any(|c| match c {
        Cl::Pat { e, a, v, tx } => {
            let is = |t: &PT| *t == PT::Var(x.to_string());
            let vt = match a {
                PT::E(EP::Ident(k)) | PT::C(V::Kw(k)) => m.attr(k).map(|x| x.1.vt),
                _ => None,
            };
            is(e)
                || is(a)
                || tx.as_ref().map_or(false, is)
                || (is(v) && !matches!(vt, Some(Vt::Long) | Some(Vt::Inst) | Some(Vt::Str)))
        }
        Cl::Not(cs) => unorderable(m, cs, x),
        Cl::Or(bs) => bs.iter().any(|b| unorderable(m, b, x)),
        _ => false,
    })
}

fn inequalities(cs: &[Cl], out: &mut BTreeSet<String>) {
    for c in cs {
        match c {
            Cl::Pred { l, r, .. } => {
                for t in [l, r] {
                    if let PT::Var(x) = t {
                        out.insert(x.clone());
                    }
                }
            }
            Cl::Not(x) => inequalities(x, out),
            Cl::Or(x) => x.iter().for_each(|y| inequalities(y, out)),
            _ => {}
        }
    }
}

/// Does it name an entity that is not there (any more)?
fn dangling(v: &serde_json::Value, h: &Handles) -> bool {
    match v {
        serde_json::Value::Object(o) => o.iter().any(|(k, x)| match x {
            serde_json::Value::String(s) if k == "H" => !h.contains_key(s),
            x => dangling(x, h),
        }),
        serde_json::Value::Array(a) => a.iter().any(|x| dangling(x, h)),
        _ => false,
    }
}

/// Whether the least or largest of things without an order is asked for.
pub fn hopeless(m: &Model, q: &DQ) -> bool {
    q.find.els().iter().any(|e| matches!(e, El::Agg(f, v) if f != "count" && f != "the" && unorderable(m, &q.clauses, v)))
}

/// The rows of the answer, as a set, before order and limit.
pub fn rows(m: &Model, h: &Handles, q: &DQ) -> Result<BTreeSet<Vec<V>>, Unclear> {
    NUMBERED.with(|c| c.set(m.attrs.values().any(|d| d.fulltext)));
    if dangling(&serde_json::to_value(q).unwrap(), h) {
        return Err(Unclear("handle".to_string()));
    }
    let mut names = BTreeSet::new();
    elsewhere(&serde_json::to_value((&q.ins, &q.clauses)).unwrap(), &mut names);
    ELSEWHERE.with(|c| *c.borrow_mut() = names);
    let (mut no, mut ineq) = (BTreeSet::new(), BTreeSet::new());
    uncomparable(m, &q.clauses, &mut no);
    inequalities(&q.clauses, &mut ineq);
    if !q.wild && no.intersection(&ineq).next().is_some() {
        return Err(Unclear("inequality over something without an order".to_string()));
    }
    let mut b0 = B::new();
    for (n, v) in &q.ins {
        b0.insert(n.clone(), v.clone());
    }
    if given_entities(&q.clauses) {
        return Err(Unclear("a number that is given as an entity".to_string()));
    }
    let bs = eval(m, h, &q.clauses, vec![b0])?;
    // A long and a double of the same size are one value to the engine, in answers.
    let mut longs: BTreeSet<(&String, i64)> = BTreeSet::new();
    for b in &bs {
        for (n, v) in b {
            if let V::Long(x) = v {
                longs.insert((n, *x));
            }
        }
    }
    for b in &bs {
        for (n, v) in b {
            if let V::Dbl(x) = v {
                let x = f64::from_bits(*x);
                if x == x.trunc() && x.abs() < 9.3e18 && longs.contains(&(n, x as i64)) {
                    return Err(Unclear("a long and a double of the same size".to_string()));
                }
            }
        }
    }
    let els = q.find.els();
    for e in &els {
        if let El::Agg(f, v) = e {
            if !q.wild && f != "count" && unorderable(m, &q.clauses, v) {
                return Err(Unclear("min or max of something without an order".to_string()));
            }
        }
    }
    let get = |b: &B, v: &String| b.get(v).cloned().ok_or_else(|| Unclear("unbound".to_string()));
    if els.iter().all(|e| !e.is_agg()) {
        let mut out = BTreeSet::new();
        for b in &bs {
            out.insert(els.iter().map(|e| get(b, e.var())).collect::<Result<Vec<V>, Unclear>>()?);
        }
        return Ok(out);
    }
    // Aggregates: over the distinct tuples of every projected and :with variable.
    let mut tuples: BTreeSet<(Vec<V>, Vec<V>)> = BTreeSet::new();
    for b in &bs {
        let proj = els.iter().map(|e| get(b, e.var())).collect::<Result<Vec<V>, Unclear>>()?;
        let with = q.with.iter().map(|w| get(b, w)).collect::<Result<Vec<V>, Unclear>>()?;
        tuples.insert((proj, with));
    }
    if tuples.is_empty() && els.iter().all(|e| matches!(e, El::Agg(f, _) if f != "the")) {
        // Zero or nothing: both are answers one can defend.
        return Err(Unclear(OVER_NOTHING.to_string()));
    }
    let mut groups: BTreeMap<Vec<V>, Vec<Vec<V>>> = BTreeMap::new();
    for (p, _) in tuples {
        let key: Vec<V> = els.iter().zip(&p).filter(|(e, _)| !e.is_agg()).map(|(_, v)| v.clone()).collect();
        groups.entry(key).or_default().push(p);
    }
    let mut out = BTreeSet::new();
    for (_, ps) in groups {
        let mut row = vec![];
        for (i, e) in els.iter().enumerate() {
            row.push(match e {
                El::Var(_) => ps[0][i].clone(),
                El::Agg(f, _) => {
                    let col: Vec<V> = ps.iter().map(|p| p[i].clone()).collect();
                    match f.as_str() {
                        "count" => V::Long(col.len() as i64),
                        "min" => extreme(&col, false)?,
                        "max" => extreme(&col, true)?,
                        "sum" | "avg" => total(&col, f == "avg")?,
                        "the" => {
                            // The value which goes with the least or the greatest.
                            let (j, g) = match els.iter().enumerate().find_map(|(j, e)| match e {
                                El::Agg(g, _) if g == "min" || g == "max" => Some((j, g)),
                                _ => None,
                            }) {
                                Some(x) => x,
                                None => return Err(Unclear("the".to_string())),
                            };
                            let best = extreme(&ps.iter().map(|p| p[j].clone()).collect::<Vec<_>>(), g == "max")?;
                            let at: BTreeSet<&V> = ps.iter().filter(|p| p[j] == best).map(|p| &p[i]).collect();
                            if at.len() != 1 {
                                return Err(Unclear("the which".to_string()));
                            }
                            (*at.iter().next().unwrap()).clone()
                        }
                        _ => return Err(Unclear("aggregate".to_string())),
                    }
                }
            });
        }
        out.insert(row);
    }
    Ok(out)
}

pub const OVER_NOTHING: &str = "aggregate over nothing";

fn extreme(col: &[V], max: bool) -> Result<V, Unclear> {
    let t = col[0].vtype();
    if col.iter().any(|v| v.vtype() != t) || matches!(t, Vt::Ref | Vt::Kw | Vt::Uuid) {
        return Err(Unclear("min or max of something without an order".to_string()));
    }
    let mut s = col.to_vec();
    if t == Vt::Dbl {
        let f = |v: &V| match v {
            V::Dbl(x) => f64::from_bits(*x),
            _ => 0.0,
        };
        s.sort_by(|a, b| f(a).partial_cmp(&f(b)).unwrap());
    } else {
        s.sort();
    }
    Ok(if max { s.pop().unwrap() } else { s.swap_remove(0) })
}

/// Only what comes out the same whatever the order of addition.
fn total(col: &[V], avg: bool) -> Result<V, Unclear> {
    let t = col[0].vtype();
    if col.iter().any(|v| v.vtype() != t) {
        return Err(Unclear("a sum of several types".to_string()));
    }
    match t {
        Vt::Long => {
            let s: i128 = col.iter().map(|v| if let V::Long(x) = v { *x as i128 } else { 0 }).sum();
            let all: i128 = col.iter().map(|v| if let V::Long(x) = v { (*x as i128).abs() } else { 0 }).sum();
            if all >= 1 << 52 {
                return Err(Unclear("a large sum".to_string()));
            }
            Ok(if avg { V::dbl(s as f64 / col.len() as f64) } else { V::Long(s as i64) })
        }
        Vt::Dbl => {
            let mut s = 0.0;
            for v in col {
                if let V::Dbl(x) = v {
                    let x = f64::from_bits(*x);
                    if x.abs() > 1e9 || x * 1024.0 != (x * 1024.0).trunc() {
                        return Err(Unclear("an inexact sum".to_string()));
                    }
                    s += x;
                }
            }
            Ok(V::dbl(if avg { s / col.len() as f64 } else { s }))
        }
        _ => Err(Unclear("a sum of something else".to_string())),
    }
}

fn binding(b: &Binding) -> Option<V> {
    match b {
        Binding::Scalar(t) => Some(V::from_typed(t)),
        _ => None,
    }
}

fn show(r: &[V]) -> String {
    format!("[{}]", r.iter().map(|v| v.edn()).collect::<Vec<_>>().join(" "))
}

/// Does the store's answer agree with the model's?
pub fn judge(q: &DQ, want: &BTreeSet<Vec<V>>, got: &QueryResults) -> Result<(), String> {
    let bad = || Err("a result which is not a scalar".to_string());
    let mut list: Vec<Vec<V>> = vec![];
    let single = match (&q.find, got) {
        (Find::Rel(els), QueryResults::Rel(r)) => {
            for row in r.rows() {
                let mut out = vec![];
                for b in row {
                    match binding(b) {
                        Some(v) => out.push(v),
                        None => return bad(),
                    }
                }
                if out.len() != els.len() {
                    return Err("row of the wrong width".to_string());
                }
                list.push(out);
            }
            false
        }
        (Find::Coll(_), QueryResults::Coll(r)) => {
            for b in r {
                match binding(b) {
                    Some(v) => list.push(vec![v]),
                    None => return bad(),
                }
            }
            false
        }
        (Find::Tuple(_), QueryResults::Tuple(r)) => {
            if let Some(row) = r {
                let mut out = vec![];
                for b in row {
                    match binding(b) {
                        Some(v) => out.push(v),
                        None => return bad(),
                    }
                }
                list.push(out);
            }
            true
        }
        (Find::Scalar(_), QueryResults::Scalar(r)) => {
            if let Some(b) = r {
                match binding(b) {
                    Some(v) => list.push(vec![v]),
                    None => return bad(),
                }
            }
            true
        }
        _ => return Err("result of the wrong shape".to_string()),
    };
    let got_set: BTreeSet<Vec<V>> = list.iter().cloned().collect();
    if got_set.len() != list.len() {
        return Err(format!("the same row twice in {} rows", list.len()));
    }
    for r in &got_set {
        if !want.contains(r) {
            return Err(format!("row {} should not be in the answer", show(r)));
        }
    }
    let expect = if single {
        want.len().min(1)
    } else {
        q.limit.map_or(want.len(), |l| want.len().min(l as usize))
    };
    if list.len() != expect {
        let miss = want.iter().find(|r| !got_set.contains(*r));
        return Err(format!(
            "{} rows where {} were expected{}",
            list.len(),
            expect,
            miss.map(|r| format!("; {} is missing", show(r))).unwrap_or_default()
        ));
    }
    if !q.order.is_empty() && !single {
        let els = q.find.els();
        let idx: Vec<(bool, usize)> = q
            .order
            .iter()
            .filter_map(|(asc, v)| els.iter().position(|e| e == &El::Var(v.clone())).map(|i| (*asc, i)))
            .collect();
        let cmp = |x: &Vec<V>, y: &Vec<V>| {
            for (asc, i) in &idx {
                let o = x[*i].cmp(&y[*i]);
                let o = if *asc { o } else { o.reverse() };
                if o != std::cmp::Ordering::Equal {
                    return o;
                }
            }
            std::cmp::Ordering::Equal
        };
        for w in list.windows(2) {
            if cmp(&w[0], &w[1]) == std::cmp::Ordering::Greater {
                return Err(format!("{} before {} breaks the order asked for", show(&w[0]), show(&w[1])));
            }
        }
        // With a limit, nothing left out may sort before anything given.
        if let (Some(_), Some(last)) = (q.limit, list.last()) {
            for r in want {
                if !got_set.contains(r) && cmp(r, last) == std::cmp::Ordering::Less {
                    return Err(format!("{} was left out but sorts before {}", show(r), show(last)));
                }
            }
        }
    }
    Ok(())
}
