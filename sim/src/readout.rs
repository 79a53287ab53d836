//! Reading the real store's state, for comparison with the model.

use std::collections::{BTreeMap, BTreeSet};

use rusqlite::types::Value;

use crate::model::*;
use crate::value::*;

pub struct Dump {
    pub datoms: BTreeMap<(E, E, V), E>,
    pub dup_datoms: usize,
    pub log: BTreeMap<E, BTreeSet<Change>>,
    pub dup_log: usize,
    pub other_timelines: usize,
}

fn decode(tag: i64, v: Value) -> Result<V, String> {
    Ok(match (tag, v) {
        (0, Value::Integer(x)) => V::Ref(x),
        (1, Value::Integer(x)) => V::Bool(x != 0),
        (4, Value::Integer(x)) => V::Inst(x),
        (5, Value::Integer(x)) => V::Long(x),
        (5, Value::Real(x)) => V::dbl(x),
        (10, Value::Text(x)) => V::Str(x),
        (11, Value::Blob(x)) => match uuid::Uuid::from_slice(&x) {
            Ok(u) => V::Uuid(u.to_hyphenated().to_string()),
            Err(_) => return Err("bad uuid bytes".to_string()),
        },
        (13, Value::Text(x)) => V::Kw(x),
        (t, x) => return Err(format!("stored value {:?} with type tag {}", x, t)),
    })
}

pub fn dump(c: &rusqlite::Connection) -> Result<Dump, String> {
    dump_(c).map_err(|e| format!("{}", e))
}

fn dump_(c: &rusqlite::Connection) -> Result<Dump, Box<dyn std::error::Error>> {
    let mut d = Dump {
        datoms: BTreeMap::new(),
        dup_datoms: 0,
        log: BTreeMap::new(),
        dup_log: 0,
        other_timelines: 0,
    };
    let mut text: BTreeMap<i64, String> = BTreeMap::new();
    {
        let mut st = c.prepare_cached("SELECT rowid, text FROM fulltext_values")?;
        let mut rows = st.query(rusqlite::params![])?;
        while let Some(r) = rows.next()? {
            text.insert(r.get(0)?, r.get(1)?);
        }
    }
    {
        let mut st = c.prepare_cached("SELECT e, a, v, value_type_tag, tx FROM all_datoms")?;
        let mut rows = st.query(rusqlite::params![])?;
        while let Some(r) = rows.next()? {
            let v = decode(r.get(3)?, r.get(2)?)?;
            if d.datoms.insert((r.get(0)?, r.get(1)?, v), r.get(4)?).is_some() {
                d.dup_datoms += 1;
            }
        }
    }
    {
        let mut st =
            c.prepare_cached("SELECT e, a, v, value_type_tag, tx, added, timeline FROM timelined_transactions")?;
        let mut rows = st.query(rusqlite::params![])?;
        while let Some(r) = rows.next()? {
            let tl: i64 = r.get(6)?;
            if tl != 0 {
                d.other_timelines += 1;
                continue;
            }
            let tag: i64 = r.get(3)?;
            let v = match (tag, r.get::<_, Value>(2)?) {
                (10, Value::Integer(id)) => match text.get(&id) {
                    Some(s) => V::Str(s.clone()),
                    None => return Err(format!("log row refers to missing text {}", id).into()),
                },
                (t, v) => decode(t, v)?,
            };
            let added: bool = r.get(5)?;
            if !d.log.entry(r.get(4)?).or_default().insert((r.get(0)?, r.get(1)?, v, added)) {
                d.dup_log += 1;
            }
        }
    }
    Ok(d)
}

pub fn describe(m: &Model, c: &(E, E, V)) -> String {
    format!("[{} {} {}]", c.0, m.names.get(&c.1).cloned().unwrap_or_else(|| c.1.to_string()), c.2.edn())
}

/// What differs between the facts on disk and the model's, in words; empty when nothing does.
pub fn diff_facts(d: &Dump, m: &Model) -> Vec<String> {
    let mut out = vec![];
    if d.dup_datoms > 0 {
        out.push(format!("{} facts are stored twice", d.dup_datoms));
    }
    for (k, tx) in &m.datoms {
        match d.datoms.get(k) {
            None => out.push(format!("fact {} is missing", describe(m, k))),
            Some(t) if t != tx => out.push(format!("fact {} has tx {} and not {}", describe(m, k), t, tx)),
            _ => {}
        }
    }
    for k in d.datoms.keys() {
        if !m.datoms.contains_key(k) {
            out.push(format!("fact {} should not be there", describe(m, k)));
        }
    }
    out
}

pub fn diff_log(d: &Dump, m: &Model) -> Vec<String> {
    let mut out = vec![];
    if d.dup_log > 0 {
        out.push(format!("{} log entries are stored twice", d.dup_log));
    }
    let empty = BTreeSet::new();
    let txs: BTreeSet<E> = d.log.keys().chain(m.log.keys()).cloned().collect();
    for tx in txs {
        let a = d.log.get(&tx).unwrap_or(&empty);
        let b = match m.log.get(&tx) {
            Some(b) => &**b,
            None => &empty,
        };
        if a != b {
            for x in b.difference(a) {
                out.push(format!("log of {} lacks {}{}", tx, sign(x.3), describe(m, &(x.0, x.1, x.2.clone()))));
            }
            for x in a.difference(b) {
                out.push(format!("log of {} has unexpected {}{}", tx, sign(x.3), describe(m, &(x.0, x.1, x.2.clone()))));
            }
        }
    }
    out
}

pub fn sign(b: bool) -> &'static str {
    if b {
        "+"
    } else {
        "-"
    }
}

/// The in-memory schema against the model's.
pub fn diff_schema(s: &mentat::Schema, m: &Model) -> Vec<String> {
    use core_traits::attribute::Unique;
    let mut out = vec![];
    let idents: BTreeMap<String, E> = s.ident_map.iter().map(|(k, e)| (k.to_string(), *e)).collect();
    for (k, e) in &m.idents {
        match idents.get(k) {
            None => out.push(format!("ident {} does not resolve", k)),
            Some(x) if x != e => out.push(format!("ident {} names {} and not {}", k, x, e)),
            _ => {}
        }
    }
    for k in idents.keys() {
        if !m.idents.contains_key(k) {
            out.push(format!("ident {} should not resolve", k));
        }
    }
    let names: BTreeMap<E, String> = s.entid_map.iter().map(|(e, k)| (*e, k.to_string())).collect();
    if names != m.names {
        for (e, k) in &m.names {
            if names.get(e) != Some(k) {
                out.push(format!("entity {} is named {:?} and not {}", e, names.get(e), k));
            }
        }
        for (e, k) in &names {
            if !m.names.contains_key(e) {
                out.push(format!("entity {} should not be named {}", e, k));
            }
        }
    }
    for (e, d) in &m.attrs {
        match s.attribute_map.get(e) {
            None => out.push(format!("attribute {} is not known", e)),
            Some(a) => {
                let got = AttrDef {
                    vt: Vt::from_value_type(a.value_type),
                    many: a.multival,
                    unique: match a.unique {
                        None => None,
                        Some(Unique::Value) => Some(Uniq::Value),
                        Some(Unique::Identity) => Some(Uniq::Identity),
                    },
                    index: a.index,
                    fulltext: a.fulltext,
                    component: a.component,
                    no_history: a.no_history,
                };
                if got != *d {
                    out.push(format!("attribute {} ({:?}) is {:?} and not {:?}", e, m.names.get(e), got, d));
                }
            }
        }
    }
    for e in s.attribute_map.keys() {
        if !m.attrs.contains_key(e) {
            out.push(format!("{} should not be an attribute", e));
        }
    }
    let comp: BTreeSet<E> = s.component_attributes.iter().cloned().collect();
    let want: BTreeSet<E> = m.attrs.iter().filter(|x| x.1.component).map(|x| *x.0).collect();
    if comp != want {
        out.push(format!("component attributes are {:?} and not {:?}", comp, want));
    }
    out
}

/// Initial model: read once from a freshly created store.
pub fn model_of(d: &Dump) -> Model {
    Model::from_facts(d.datoms.clone(), d.log.clone())
}

/// One transaction's entries in the log.
pub fn log_rows(c: &rusqlite::Connection, tx: E) -> Result<BTreeSet<Change>, String> {
    let f = || -> Result<BTreeSet<Change>, Box<dyn std::error::Error>> {
        let mut out = BTreeSet::new();
        let mut st = c.prepare_cached(
            "SELECT e, a, v, value_type_tag, added FROM timelined_transactions WHERE timeline = 0 AND tx = ?",
        )?;
        let mut rows = st.query(rusqlite::params![tx])?;
        let mut n = 0;
        while let Some(r) = rows.next()? {
            n += 1;
            let tag: i64 = r.get(3)?;
            let v = match (tag, r.get::<_, Value>(2)?) {
                (10, Value::Integer(id)) => V::Str(c.query_row(
                    "SELECT text FROM fulltext_values WHERE rowid = ?",
                    rusqlite::params![id],
                    |r| r.get(0),
                )?),
                (t, v) => decode(t, v)?,
            };
            let added: bool = r.get(4)?;
            out.insert((r.get(0)?, r.get(1)?, v, added));
        }
        if out.len() != n {
            return Err("an entry twice".into());
        }
        Ok(out)
    };
    f().map_err(|e| format!("{}", e))
}

/// The transactions which are on no longer, or not yet, on the main timeline.
pub fn other_lines(c: &rusqlite::Connection) -> Result<Vec<(i64, E, Change)>, Box<dyn std::error::Error>> {
    let mut out = vec![];
    let mut st = c.prepare_cached(
        "SELECT t.e, t.a, CASE WHEN t.value_type_tag = 10 AND typeof(t.v) = 'integer' THEN \
         (SELECT text FROM fulltext_values f WHERE f.rowid = t.v) ELSE t.v END, \
         t.value_type_tag, t.tx, t.added, t.timeline FROM timelined_transactions t WHERE t.timeline <> 0",
    )?;
    let mut rows = st.query(rusqlite::params![])?;
    while let Some(r) = rows.next()? {
        let v = decode(r.get(3)?, r.get(2)?)?;
        out.push((r.get(6)?, r.get(4)?, (r.get(0)?, r.get(1)?, v, r.get(5)?)));
    }
    Ok(out)
}
