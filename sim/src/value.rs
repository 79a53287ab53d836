//! Values, datoms and transaction operations as the reference model sees them.

use core_traits::TypedValue;
use serde::{Deserialize, Serialize};

pub type E = i64;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum V {
    Ref(i64),
    Bool(bool),
    Long(i64),
    /// Bits of the double, order-preserving is not needed by the model.
    Dbl(u64),
    Str(String),
    Kw(String),
    /// Microseconds since the epoch.
    Inst(i64),
    Uuid(String),
}

impl V {
    pub fn dbl(x: f64) -> V {
        V::Dbl(x.to_bits())
    }

    pub fn vtype(&self) -> Vt {
        match self {
            V::Ref(_) => Vt::Ref,
            V::Bool(_) => Vt::Bool,
            V::Long(_) => Vt::Long,
            V::Dbl(_) => Vt::Dbl,
            V::Str(_) => Vt::Str,
            V::Kw(_) => Vt::Kw,
            V::Inst(_) => Vt::Inst,
            V::Uuid(_) => Vt::Uuid,
        }
    }

    pub fn edn(&self) -> String {
        match self {
            V::Ref(e) => format!("{}", e),
            V::Bool(b) => format!("{}", b),
            V::Long(l) => format!("{}", l),
            V::Dbl(b) => format!("{:?}", f64::from_bits(*b)),
            V::Str(s) => edn_str(s),
            V::Kw(k) => k.clone(),
            V::Inst(us) => format!("#inst \"{}\"", inst_text(*us)),
            V::Uuid(u) => format!("#uuid \"{}\"", u),
        }
    }

    pub fn from_typed(t: &TypedValue) -> V {
        match t {
            TypedValue::Ref(e) => V::Ref(*e),
            TypedValue::Boolean(b) => V::Bool(*b),
            TypedValue::Long(l) => V::Long(*l),
            TypedValue::Double(d) => V::Dbl(d.into_inner().to_bits()),
            TypedValue::String(s) => V::Str(s.as_ref().clone()),
            TypedValue::Keyword(k) => V::Kw(k.to_string()),
            TypedValue::Instant(i) => V::Inst(i.timestamp() * 1_000_000 + i64::from(i.timestamp_subsec_micros())),
            TypedValue::Uuid(u) => V::Uuid(u.to_hyphenated().to_string()),
        }
    }

    pub fn to_typed(&self) -> TypedValue {
        match self {
            V::Ref(e) => TypedValue::Ref(*e),
            V::Bool(b) => TypedValue::Boolean(*b),
            V::Long(l) => TypedValue::Long(*l),
            V::Dbl(d) => TypedValue::Double(f64::from_bits(*d).into()),
            V::Str(s) => TypedValue::typed_string(s),
            V::Kw(k) => TypedValue::Keyword(kw(k).into()),
            V::Inst(us) => {
                use chrono::TimeZone;
                TypedValue::Instant(
                    chrono::Utc.timestamp(us.div_euclid(1_000_000), (us.rem_euclid(1_000_000) * 1000) as u32),
                )
            }
            V::Uuid(u) => TypedValue::Uuid(uuid::Uuid::parse_str(u).unwrap()),
        }
    }
}

/// ":ns/name" -> Keyword
pub fn kw(s: &str) -> mentat::Keyword {
    let s = s.trim_start_matches(':');
    match s.find('/') {
        Some(i) => mentat::Keyword::namespaced(&s[..i], &s[i + 1..]),
        None => mentat::Keyword::plain(s),
    }
}

pub fn inst_text(us: i64) -> String {
    use chrono::TimeZone;
    let t = chrono::Utc.timestamp(us.div_euclid(1_000_000), (us.rem_euclid(1_000_000) * 1000) as u32);
    t.format("%Y-%m-%dT%H:%M:%S%.6fZ").to_string()
}

pub fn edn_str(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Vt {
    Ref,
    Bool,
    Long,
    Dbl,
    Str,
    Kw,
    Inst,
    Uuid,
}

pub const VTS: [(Vt, &str, i64); 8] = [
    (Vt::Ref, ":db.type/ref", 23),
    (Vt::Kw, ":db.type/keyword", 24),
    (Vt::Long, ":db.type/long", 25),
    (Vt::Dbl, ":db.type/double", 26),
    (Vt::Str, ":db.type/string", 27),
    (Vt::Uuid, ":db.type/uuid", 28),
    (Vt::Bool, ":db.type/boolean", 30),
    (Vt::Inst, ":db.type/instant", 31),
];

impl Vt {
    pub fn ident(self) -> &'static str {
        VTS.iter().find(|x| x.0 == self).unwrap().1
    }
    pub fn from_entid(e: i64) -> Option<Vt> {
        VTS.iter().find(|x| x.2 == e).map(|x| x.0)
    }
    pub fn value_type(self) -> core_traits::ValueType {
        use core_traits::ValueType::*;
        match self {
            Vt::Ref => Ref,
            Vt::Bool => Boolean,
            Vt::Long => Long,
            Vt::Dbl => Double,
            Vt::Str => String,
            Vt::Kw => Keyword,
            Vt::Inst => Instant,
            Vt::Uuid => Uuid,
        }
    }
    pub fn from_value_type(v: core_traits::ValueType) -> Vt {
        use core_traits::ValueType::*;
        match v {
            Ref => Vt::Ref,
            Boolean => Vt::Bool,
            Instant => Vt::Inst,
            Long => Vt::Long,
            Double => Vt::Dbl,
            String => Vt::Str,
            Keyword => Vt::Kw,
            Uuid => Vt::Uuid,
        }
    }
}

/// The place of an entity in a transaction.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum EP {
    /// An entity created earlier in the run, by the tempid it was created under.
    H(String),
    Temp(String),
    Lookup(String, V),
    Ident(String),
    Tx,
    Raw(i64),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum VP {
    Val(V),
    E(EP),
    Many(Vec<VP>),
    Map(Option<EP>, Vec<(String, VP)>),
    /// An unusual spelling of a value, or of nothing that can be read.
    Lit(String, Option<V>),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Add(EP, String, VP),
    Retract(EP, String, VP),
    Map(Option<EP>, Vec<(String, VP)>),
}

pub fn is_reverse(a: &str) -> bool {
    a.contains("/_")
}

pub fn forward(a: &str) -> String {
    a.replace("/_", "/")
}

pub type Handles = std::collections::BTreeMap<String, E>;

impl EP {
    pub fn edn(&self, h: &Handles) -> String {
        match self {
            EP::H(n) => format!("{}", h.get(n).cloned().unwrap_or(-1)),
            EP::Raw(e) => format!("{}", e),
            EP::Temp(t) => edn_str(t),
            EP::Lookup(a, v) => format!("(lookup-ref {} {})", a, v.edn()),
            EP::Ident(k) => k.clone(),
            EP::Tx => "(transaction-tx)".to_string(),
        }
    }
    pub fn known(&self, h: &Handles) -> bool {
        match self {
            EP::H(n) => h.contains_key(n),
            _ => true,
        }
    }
}

impl VP {
    pub fn edn(&self, h: &Handles) -> String {
        match self {
            VP::Val(v) => v.edn(),
            VP::E(e) => e.edn(h),
            VP::Many(vs) => format!("[{}]", vs.iter().map(|v| v.edn(h)).collect::<Vec<_>>().join(" ")),
            VP::Map(id, kvs) => map_edn(id, kvs, h),
            VP::Lit(s, _) => s.clone(),
        }
    }
    /// Whether a reader of the text must refuse it.
    pub fn unreadable(&self) -> bool {
        match self {
            VP::Lit(_, None) => true,
            VP::Many(vs) => vs.iter().any(|v| v.unreadable()),
            VP::Map(_, kvs) => kvs.iter().any(|x| x.1.unreadable()),
            _ => false,
        }
    }
    pub fn known(&self, h: &Handles) -> bool {
        match self {
            VP::Val(_) | VP::Lit(..) => true,
            VP::E(e) => e.known(h),
            VP::Many(vs) => vs.iter().all(|v| v.known(h)),
            VP::Map(id, kvs) => id.as_ref().map_or(true, |e| e.known(h)) && kvs.iter().all(|(a, v)| attr_known(a, h) && v.known(h)),
        }
    }
}

/// An attribute is written as its ident, or as "@handle" to name it by number.
pub fn attr_edn(a: &str, h: &Handles) -> String {
    match a.strip_prefix('@') {
        Some(n) => format!("{}", h.get(n).cloned().unwrap_or(-1)),
        None => a.to_string(),
    }
}

fn attr_known(a: &str, h: &Handles) -> bool {
    a.strip_prefix('@').map_or(true, |n| h.contains_key(n))
}

fn map_edn(id: &Option<EP>, kvs: &[(String, VP)], h: &Handles) -> String {
    let mut s = String::from("{");
    if let Some(e) = id {
        s.push_str(&format!(":db/id {}", e.edn(h)));
    }
    for (a, v) in kvs {
        s.push_str(&format!(" {} {}", attr_edn(a, h), v.edn(h)));
    }
    s.push('}');
    s
}

impl Op {
    pub fn edn(&self, h: &Handles) -> String {
        match self {
            Op::Add(e, a, v) => format!("[:db/add {} {} {}]", e.edn(h), attr_edn(a, h), v.edn(h)),
            Op::Retract(e, a, v) => format!("[:db/retract {} {} {}]", e.edn(h), attr_edn(a, h), v.edn(h)),
            Op::Map(id, kvs) => map_edn(id, kvs, h),
        }
    }
    pub fn known(&self, h: &Handles) -> bool {
        match self {
            Op::Add(e, a, v) | Op::Retract(e, a, v) => e.known(h) && attr_known(a, h) && v.known(h),
            Op::Map(id, kvs) => {
                id.as_ref().map_or(true, |e| e.known(h)) && kvs.iter().all(|(a, v)| attr_known(a, h) && v.known(h))
            }
        }
    }
    pub fn unreadable(&self) -> bool {
        match self {
            Op::Add(_, _, v) | Op::Retract(_, _, v) => v.unreadable(),
            Op::Map(_, kvs) => kvs.iter().any(|x| x.1.unreadable()),
        }
    }
    /// Whether an attribute is named by number.
    pub fn numbered(&self) -> bool {
        match self {
            Op::Add(_, a, _) | Op::Retract(_, a, _) => a.starts_with('@'),
            Op::Map(_, kvs) => kvs.iter().any(|x| x.0.starts_with('@')),
        }
    }
}

pub fn ops_edn(ops: &[Op], h: &Handles) -> String {
    format!("[{}]", ops.iter().map(|o| o.edn(h)).collect::<Vec<_>>().join("\n"))
}
