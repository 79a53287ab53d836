//! Which runs decide which property, and which verdicts of the oracles are its business.

use crate::conc::CProfile;
use crate::gen::{Profile, BASE};
use crate::rng::mix;
use crate::scn::Scn;
use crate::sync::SProfile;

pub struct Prop {
    pub id: &'static str,
    /// Profiles and how often each is used.
    pub runs: &'static [(&'static str, u32)],
    /// Prefixes of the tags which are violations of this property.
    pub tags: &'static [&'static str],
}

/// Whatever the property, the run must come to an end.
const ALWAYS: &[&str] = &["panic:", "stuck", "hang", "abort", "golden", "bootstrap"];


pub fn profiles() -> Vec<Profile> {
    vec![
        BASE,
        Profile { name: "crash", crash: 4, crash_pct: 20, bare_pct: 10, ..BASE },
        Profile { name: "fault", fault_pct: 35, ..BASE },
        // Durability: many commits, many power failures, few refusals.
        Profile {
            name: "durable", crash: 6, crash_pct: 30, bad_pct: 4, query: 4, cache: 1, observe: 1, reopen: 8,
            abandon_pct: 10, big_pct: 6, steps: (10, 26), ..BASE
        },
        Profile {
            name: "atomic", crash: 2, crash_pct: 45, bare_pct: 30, bad_pct: 4, query: 3, cache: 1, observe: 1,
            txn: 40, big_pct: 8, schema_pct: 20, steps: (6, 18), ..BASE
        },
        Profile {
            name: "crashfault", crash: 4, crash_pct: 22, fault_pct: 22, bare_pct: 10, steps: (8, 22), big_pct: 4, ..BASE
        },
        // Transactions which fail or are given up.
        Profile {
            name: "abandon", abandon_pct: 50, bad_pct: 45, txn: 45, auto: 15, query: 10, schema_pct: 18, ..BASE
        },
        Profile {
            name: "failing", abandon_pct: 30, bad_pct: 20, fault_pct: 60, mem_fault_pct: 40, txn: 45, query: 6,
            schema_pct: 15, read_fault_pct: 25, ..BASE
        },
        // Questions and transactions put out of shape.
        Profile {
            name: "odd", query: 90, odd_pct: 75, txn: 30, auto: 15, steps: (14, 32), big_pct: 0, schema_pct: 10, reopen: 3, ..BASE
        },
        Profile {
            name: "oddfault", query: 90, odd_pct: 60, fault_pct: 25, read_fault_pct: 60, mem_fault_pct: 20, txn: 30, auto: 15,
            steps: (10, 26), big_pct: 0, schema_pct: 10, ..BASE
        },
        Profile { name: "log", query: 40, log_pct: 80, reopen: 8, big_pct: 4, ..BASE },
        Profile { name: "transact", txn: 35, auto: 45, query: 6, cache: 2, observe: 1, reopen: 3, steps: (12, 30), ..BASE },
        Profile {
            name: "upsert", w_upsert: 60, w_lookup: 15, w_nested: 15, w_update: 12, w_retract: 10, schema_pct: 8,
            query: 4, cache: 3, observe: 1, steps: (12, 28), ..BASE
        },
        Profile {
            name: "constraint", bad_pct: 55, txn: 35, auto: 45, query: 3, cache: 2, observe: 1, w_update: 35,
            w_upsert: 30, steps: (12, 28), ..BASE
        },
        Profile {
            name: "ids", reopen: 18, abandon_pct: 35, bad_pct: 20, w_new: 50, w_nested: 20, w_ident: 12, query: 3,
            cache: 1, observe: 1, crash: 3, crash_pct: 6, ..BASE
        },
        Profile {
            name: "schema", schema_pct: 70, bad_pct: 15, w_ident: 25, query: 12, reopen: 10, cache: 4, observe: 1,
            steps: (12, 26), abandon_pct: 30, ..BASE
        },
        Profile {
            name: "schemafault", schema_pct: 65, w_ident: 20, query: 8, reopen: 12, fault_pct: 35, cache: 2, observe: 1,
            steps: (10, 22), abandon_pct: 30, crash_pct: 5, ..BASE
        },
        Profile {
            name: "cache", cache: 16, cache_first_pct: 90, query: 45, txn: 40, auto: 20, w_retract: 30, observe: 1,
            steps: (12, 30), abandon_pct: 30, ..BASE
        },
        Profile {
            name: "cachefault", cache: 16, cache_first_pct: 80, query: 35, txn: 40, fault_pct: 30, mem_fault_pct: 35,
            read_fault_pct: 40, observe: 1, abandon_pct: 30, ..BASE
        },
        Profile {
            name: "observe", observe: 18, unobserve: 8, settle: 8, query: 3, cache: 1, panicky: true, txn: 40,
            auto: 30, steps: (14, 34), ..BASE
        },
        Profile {
            name: "observefault", observe: 14, unobserve: 6, settle: 6, query: 3, cache: 1, panicky: true, txn: 40,
            auto: 30, fault_pct: 25, steps: (12, 28), reopen: 4, ..BASE
        },
        Profile { name: "query", query: 70, txn: 30, auto: 25, cache: 0, cache_first_pct: 0, observe: 0, steps: (14, 34), ..BASE },
        Profile { name: "readfault", query: 60, txn: 35, fault_pct: 45, read_fault_pct: 70, mem_fault_pct: 45, observe: 1, cache: 4, ..BASE },
        Profile {
            name: "fulltext", fts_pct: 60, query: 40, w_retract: 28, w_update: 35, cache: 3, observe: 1, reopen: 6,
            big_pct: 4, ..BASE
        },
        Profile {
            name: "fulltextcrash", fts_pct: 60, query: 25, w_retract: 28, w_update: 35, cache: 3, observe: 1,
            crash_pct: 12, crash: 2, fault_pct: 12, ..BASE
        },
        Profile {
            name: "clock", jump_pct: 45, w_txmeta: 30, reopen: 10, query: 10, log_pct: 50, txn: 35, auto: 40, observe: 1,
            cache: 1, crash_pct: 5, ..BASE
        },
        Profile {
            name: "vocab", vocab_pct: 45, txn: 50, auto: 18, query: 8, reopen: 10, cache: 3, observe: 2, schema_pct: 12,
            w_ident: 4, bad_pct: 6, abandon_pct: 20, big_pct: 0, steps: (8, 22), ..BASE
        },
        Profile {
            name: "vocabfault", vocab_pct: 50, txn: 50, auto: 15, query: 4, reopen: 8, cache: 3, observe: 2, schema_pct: 6,
            w_ident: 2, bad_pct: 4, abandon_pct: 15, big_pct: 0, steps: (7, 18), fault_pct: 35, crash: 3, crash_pct: 14,
            mem_fault_pct: 20, ..BASE
        },
        Profile {
            name: "recover", fault_pct: 55, mem_fault_pct: 30, crash_pct: 4, bad_pct: 12, abandon_pct: 30, ..BASE
        },
    ]
}

pub fn profile(name: &str) -> Option<Profile> {
    profiles().into_iter().find(|p| p.name == name)
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "D01",
        runs: &[("durable", 6), ("crashfault", 3), ("crash", 1)],
        tags: &["crash:", "reopen:", "end:", "commit:", "fault:"],
    },
    Prop {
        id: "D02",
        runs: &[("atomic", 6), ("crash", 2), ("crashfault", 2)],
        tags: &["crash:", "reopen:", "end:", "commit:"],
    },
    Prop {
        id: "D03",
        runs: &[("abandon", 5), ("failing", 5)],
        tags: &[
            "abandon:", "fault:", "inprogress:", "commit:", "ids", "txid", "effects", "query:in-progress", "query:cached",
            "refused:", "accepted:", "reopen:", "end:", "observer", "instant", "savepoint:",
        ],
    },
    Prop {
        id: "L01",
        runs: &[("log", 6), ("transact", 2), ("crashfault", 2)],
        tags: &["effects", "query", "txid", "crash:", "reopen:", "end:", "commit:", "abandon:", "fault:", "instant"],
    },
    Prop {
        id: "T01",
        runs: &[("transact", 6), ("base", 3), ("constraint", 1)],
        tags: &[
            "effects", "refused:", "accepted:", "tempids", "upsert", "ids", "inprogress:", "commit:", "abandon:", "end:",
            "query:in-progress", "txid", "instant", "savepoint:",
        ],
    },
    Prop {
        id: "T02",
        runs: &[("upsert", 8), ("constraint", 2)],
        tags: &["upsert", "tempids", "effects", "accepted:", "refused:", "ids", "commit:"],
    },
    Prop {
        id: "T03",
        runs: &[("constraint", 7), ("upsert", 2), ("schema", 1)],
        tags: &["accepted:", "refused:", "effects", "upsert", "commit:", "abandon:", "reopen:", "end:"],
    },
    Prop {
        id: "T04",
        runs: &[("ids", 8), ("crashfault", 2)],
        tags: &[
            "ids", "tempids", "upsert", "effects", "commit:", "crash:", "reopen:", "abandon:", "fault:", "end:",
            "savepoint:ids",
        ],
    },
    Prop {
        id: "S01",
        runs: &[("schema", 10)],
        tags: &["accepted:", "refused:", "effects", "inprogress:", "commit:", "abandon:", "reopen:", "end:", "query"],
    },
    Prop {
        id: "S02",
        runs: &[("schema", 6), ("schemafault", 4)],
        tags: &[
            "inprogress:", "commit:", "abandon:", "fault:", "reopen:", "crash:", "end:", "accepted:", "refused:", "query",
            "effects", "savepoint:schema",
        ],
    },
    Prop {
        id: "C01",
        runs: &[("cache", 6), ("cachefault", 3), ("merge", 1)],
        tags: &["query", "refused:", "effects", "accepted:", "inprogress:"],
    },
    Prop { id: "O01", runs: &[("observe", 7), ("observefault", 3)], tags: &["observer", "refused:"] },
    Prop { id: "Q01", runs: &[("query", 7), ("base", 3)], tags: &["query"] },
    Prop {
        id: "Q02",
        runs: &[("readfault", 8), ("cachefault", 2)],
        tags: &["query", "fault:", "refused:"],
    },
    Prop {
        id: "Q03",
        runs: &[("odd", 8), ("oddfault", 2)],
        tags: &["query", "refused:", "abandon:", "commit:", "fault:", "end:", "effects", "ids"],
    },
    Prop {
        id: "I01",
        runs: &[("readers", 4), ("holders", 4), ("readcrash", 2)],
        tags: &["reader:", "crash:", "reopen:", "end:", "wait:", "refused:", "ids"],
    },
    Prop {
        id: "F01",
        runs: &[("fulltext", 7), ("fulltextcrash", 3)],
        tags: &["query", "effects", "commit:", "abandon:", "fault:", "crash:", "reopen:", "end:", "refused:", "accepted:"],
    },
    Prop {
        id: "K01",
        runs: &[("clock", 10)],
        tags: &["txid", "instant", "effects", "commit:", "crash:", "reopen:", "end:", "abandon:", "refused:", "query", "ids"],
    },
    Prop {
        id: "R01",
        runs: &[("recover", 5), ("failing", 2), ("crashfault", 3)],
        tags: &["refused:", "fault:", "reopen:", "crash:", "commit:", "abandon:", "end:", "query", "observer", "ids"],
    },
    Prop {
        id: "V01",
        runs: &[("vocab", 6), ("vocabfault", 4)],
        tags: &[
            "vocab:", "effects", "tempids", "upsert", "ids", "txid", "commit:", "abandon:", "fault:", "reopen:", "crash:",
            "end:", "inprogress:", "observer", "query:cached", "savepoint:",
        ],
    },
    Prop {
        id: "Y01",
        runs: &[("follow", 7), ("followfault", 3)],
        tags: &["sync:", "converge", "remote:", "effects", "ids", "txid", "refused:", "accepted:", "reopen:", "tempids", "upsert", "query:cached"],
    },
    Prop {
        id: "Y02",
        runs: &[("followfault", 10)],
        tags: &[
            "sync:", "syncfail:", "converge", "remote:", "crash:", "reopen:", "abandon:", "effects", "ids", "txid",
            "refused:", "accepted:",
        ],
    },
    Prop {
        id: "Y03",
        runs: &[("merge", 5), ("mergeschema", 2), ("mergefault", 3)],
        tags: &["sync:", "syncfail:", "converge", "remote:", "crash:", "reopen:", "refused:", "accepted:", "effects", "query:cached"],
    },
];

pub fn prop(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

impl Prop {
    pub fn in_scope(&self, tag: &str) -> bool {
        // What happens when values of different types meet is a matter of Q01 alone.
        if tag == "query:types" && self.id != "Q01" {
            return false;
        }
        ALWAYS.iter().chain(self.tags.iter()).any(|t| tag.starts_with(t))
    }

    /// The scenario of one run.
    pub fn scenario(&self, verif_seed: u64, index: u64) -> (&'static str, u64, Scn) {
        let seed = mix(mix(verif_seed, crate::rng::fnv(0, self.id.as_bytes())), index);
        let total: u32 = self.runs.iter().map(|r| r.1).sum();
        let mut k = (index % u64::from(total)) as u32;
        for (name, w) in self.runs {
            if k < *w {
                return (name, seed, make(name, seed));
            }
            k -= w;
        }
        unreachable!()
    }
}

/// Several clients and a remote.
pub fn sync_profiles() -> Vec<SProfile> {
    let base = Profile {
        txn: 30, auto: 45, query: 0, reopen: 5, crash: 0, cache: 0, cache_first_pct: 0, observe: 0, unobserve: 0,
        settle: 0, bad_pct: 4, abandon_pct: 10, big_pct: 0, steps: (6, 18), ..BASE
    };
    vec![
        SProfile { name: "follow", linear: true, base: base.clone(), net_pct: 0, crash_pct: 0, fault_pct: 0, race_pct: 0, cache_pct: 15 },
        SProfile {
            name: "followfault", linear: true, base: Profile { fault_pct: 4, ..base.clone() }, net_pct: 45, crash_pct: 12,
            fault_pct: 15, race_pct: 5, cache_pct: 15,
        },
        SProfile {
            name: "merge", linear: false, base: Profile { schema_pct: 0, w_ident: 0, ..base.clone() }, net_pct: 0,
            crash_pct: 0, fault_pct: 0, race_pct: 10, cache_pct: 15,
        },
        SProfile { name: "mergeschema", linear: false, base: base.clone(), net_pct: 0, crash_pct: 0, fault_pct: 0, race_pct: 10, cache_pct: 15 },
        SProfile { name: "mergefault", linear: false, base, net_pct: 35, crash_pct: 10, fault_pct: 12, race_pct: 10, cache_pct: 15 },
    ]
}

/// One writer and several readers.
pub fn conc_profiles() -> Vec<CProfile> {
    let base = Profile {
        txn: 30, auto: 40, query: 50, reopen: 3, crash: 0, cache: 0, cache_first_pct: 0, observe: 0, unobserve: 0,
        settle: 0, bad_pct: 4, abandon_pct: 15, big_pct: 4, schema_pct: 8, steps: (14, 36), ..BASE
    };
    vec![
        CProfile { name: "readers", base: base.clone(), crash_pct: 0, hold_pct: 20, cache_pct: 8 },
        CProfile { name: "holders", base: base.clone(), crash_pct: 0, hold_pct: 70, cache_pct: 30 },
        CProfile { name: "readcrash", base: Profile { bare_pct: 15, ..base }, crash_pct: 15, hold_pct: 20, cache_pct: 5 },
    ]
}

/// A scenario of the named profile.
pub fn make(name: &str, seed: u64) -> Scn {
    if let Some(p) = sync_profiles().iter().find(|p| p.name == name) {
        return Scn::Sync(crate::sync::plan(seed, p));
    }
    if let Some(p) = conc_profiles().iter().find(|p| p.name == name) {
        return Scn::Conc(crate::conc::plan(seed, p));
    }
    let p = profile(name).unwrap_or(BASE);
    Scn::Single(crate::gen::plan(seed, &p))
}
