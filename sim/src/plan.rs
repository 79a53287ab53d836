//! What a run does, in a form which can be written down, shortened and replayed.

use serde::{Deserialize, Serialize};

use crate::model::AttrDef;
use crate::query::Q;
use crate::value::*;
use crate::vfs::{CrashAt, CrashKind, Fault};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct AttrSpec {
    pub name: String,
    pub vt: Vt,
    pub many: bool,
    /// 0: none, 1: value, 2: identity
    pub unique: u8,
    pub index: bool,
    pub fulltext: bool,
    pub component: bool,
    #[serde(default, skip_serializing_if = "is_false")]
    pub no_history: bool,
}

fn is_false(x: &bool) -> bool {
    !*x
}

impl AttrSpec {
    pub fn def(&self) -> AttrDef {
        AttrDef {
            vt: self.vt,
            many: self.many,
            unique: match self.unique {
                1 => Some(crate::model::Uniq::Value),
                2 => Some(crate::model::Uniq::Identity),
                _ => None,
            },
            index: self.index,
            fulltext: self.fulltext,
            component: self.component,
            no_history: self.no_history,
        }
    }

    pub fn install(&self, temp: &str) -> Op {
        let kwv = |s: &str| VP::E(EP::Ident(s.to_string()));
        let mut kvs: Vec<(String, VP)> = vec![
            (":db/ident".into(), VP::Val(V::Kw(self.name.clone()))),
            (":db/valueType".into(), kwv(self.vt.ident())),
            (
                ":db/cardinality".into(),
                kwv(if self.many { ":db.cardinality/many" } else { ":db.cardinality/one" }),
            ),
        ];
        if self.index {
            kvs.push((":db/index".into(), VP::Val(V::Bool(true))));
        }
        match self.unique {
            1 => kvs.push((":db/unique".into(), kwv(":db.unique/value"))),
            2 => kvs.push((":db/unique".into(), kwv(":db.unique/identity"))),
            _ => {}
        }
        if self.fulltext {
            kvs.push((":db/fulltext".into(), VP::Val(V::Bool(true))));
        }
        if self.component {
            kvs.push((":db/isComponent".into(), VP::Val(V::Bool(true))));
        }
        if self.no_history {
            kvs.push((":db/noHistory".into(), VP::Val(V::Bool(true))));
        }
        Op::Map(Some(EP::Temp(temp.to_string())), kvs)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    pub switch_pct: u64,
    pub pct_depth: u64,
    pub start_wall_ns: i64,
    pub sector: usize,
    /// SQLITE_LIMIT_VARIABLE_NUMBER, when lowered.
    pub var_limit: Option<i32>,
    /// Page cache size in pages, when lowered (spills uncommitted pages to the log).
    pub cache_pages: Option<i32>,
    pub autockpt: Option<i32>,
    /// Start from nothing at all, not from a freshly created store.
    pub bare: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum End {
    Commit,
    Rollback,
    Drop,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Dir {
    Forward,
    Reverse,
    Both,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Part {
    Ops(Vec<Op>),
    /// The same, through the programmatic builder.
    Built(Vec<Op>),
    Query(Q),
    Cache(String, Dir),
    Uncache(String),
    UseCaching(bool),
    /// Open a savepoint; go back to it, which leaves it open; close it, keeping what was done.
    Save(u8),
    Back(u8),
    Keep(u8),
    /// Have vocabularies there.
    Ensure(Box<crate::vocab::Ensure>),
    /// Look at the vocabularies there are.
    Vocabs,
}

/// How a query reaches the store.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Via {
    Store,
    Read,
    Prepared,
    Uncached,
    Builder,
    Explain,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Open,
    Txn { parts: Vec<Part>, end: End },
    /// Store::transact, begin and commit in one.
    Auto(Vec<Op>),
    Query { q: Q, via: Via },
    Reopen,
    Crash(CrashKind),
    Cache(String, Dir),
    Observe { key: String, attrs: Vec<String> },
    Unobserve(String),
    /// Let background work proceed.
    Settle,
    /// Look at the vocabularies there are.
    Vocabs,
    /// A transaction put out of shape.  It's given up if it isn't refused; and if it is, it may end either way.
    Odd { ops: Vec<Op>, salt: u64 },
    /// The store is taken apart; its two halves are used by themselves, and it is opened anew.
    Apart { cache: Option<(String, Dir)>, ops: Vec<Op>, qs: Vec<Q> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub id: u32,
    pub kind: Kind,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub crash: Option<CrashAt>,
    /// Wall clock jump before the step.
    #[serde(default, skip_serializing_if = "is_zero")]
    pub jump_ms: i64,
}

fn is_zero(x: &i64) -> bool {
    *x == 0
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub seed: u64,
    pub cfg: Cfg,
    pub steps: Vec<Step>,
}
