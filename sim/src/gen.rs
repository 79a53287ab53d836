//! Making plans: seeded, biased, and different in emphasis from one seed to the next.

use crate::model::*;
use crate::plan::*;
use crate::query::{Cl, El, Find, DQ, PA, PT, Q};
use crate::rng::Rng;
use crate::value::*;
use crate::vfs::{Class, CrashAt, CrashKind, Fault, FaultKind};

/// What a campaign stresses.  Weights are relative.
#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub steps: (u64, u64),
    pub txn: u32,
    pub auto: u32,
    pub query: u32,
    pub reopen: u32,
    pub crash: u32,
    pub cache: u32,
    pub observe: u32,
    pub unobserve: u32,
    pub settle: u32,
    /// Percent of steps which have a fault armed, a crash armed, a clock jump.
    pub fault_pct: u64,
    pub crash_pct: u64,
    pub jump_pct: u64,
    /// Percent of transactions abandoned.
    pub abandon_pct: u64,
    /// Percent of reads aimed at by faults.
    pub read_fault_pct: u64,
    pub mem_fault_pct: u64,
    pub schema_pct: u64,
    pub bad_pct: u64,
    pub big_pct: u64,
    pub bare_pct: u64,
    pub cache_first_pct: u64,
    pub fulltext: bool,
    /// Percent of queries which search text, or read the transaction log.
    pub fts_pct: u64,
    pub log_pct: u64,
    pub panicky: bool,
    /// How often a transaction ensures vocabularies.
    pub vocab_pct: u64,
    /// Percent of queries, and of steps by half, which are put out of shape.
    pub odd_pct: u64,
    /// Intent weights.
    pub w_new: u32,
    pub w_update: u32,
    pub w_retract: u32,
    pub w_upsert: u32,
    pub w_lookup: u32,
    pub w_nested: u32,
    pub w_ident: u32,
    pub w_txmeta: u32,
}

pub const BASE: Profile = Profile {
    name: "base",
    steps: (8, 24),
    txn: 30,
    auto: 25,
    query: 20,
    reopen: 6,
    crash: 0,
    cache: 6,
    observe: 4,
    unobserve: 1,
    settle: 2,
    fault_pct: 0,
    crash_pct: 0,
    jump_pct: 3,
    abandon_pct: 20,
    read_fault_pct: 15,
    mem_fault_pct: 20,
    schema_pct: 12,
    bad_pct: 15,
    big_pct: 2,
    bare_pct: 0,
    cache_first_pct: 30,
    fulltext: true,
    fts_pct: 0,
    log_pct: 0,
    panicky: false,
    vocab_pct: 0,
    odd_pct: 0,
    w_new: 30,
    w_update: 25,
    w_retract: 18,
    w_upsert: 20,
    w_lookup: 8,
    w_nested: 8,
    w_ident: 5,
    w_txmeta: 5,
};

pub struct Gen<'p> {
    r: Rng,
    p: &'p Profile,
    m: Model,
    h: Handles,
    tmp: u32,
    nattr: u32,
    step: u32,
    w: [u32; 8],
    keys: Vec<String>,
    cached: Vec<String>,
    defs: Vec<crate::vocab::VDef>,
}

const STRS: [&str; 8] = ["a", "b", "c d", "hello world", "world", "x\"y", "", "héllo"];
/// Strings which some comparison or other might take for one of those above, for a number, or for something else.
const ODD_STRS: [&str; 20] = [
    "A", "B", "Hello World", "HELLO", "hello  world", "a ", " a", ":k/b", ":db/ident", "1", "1.0", "01", "65536", "true", "it's", "%", "he\u{301}llo", "日本", "c\nd",
    ":k/a",
];
const KWS: [&str; 7] = [":k/a", ":k/b", ":k/c", ":other/a", ":k/long-name", ":k/A", ":K/a"];
const UUIDS: [&str; 4] = [
    "00000000-0000-0000-0000-000000000000",
    "4cb3f828-752d-497a-90c9-b1fd516d5644",
    "550e8400-e29b-41d4-a716-446655440000",
    "ffffffff-ffff-ffff-ffff-ffffffffffff",
];
const INSTS: [i64; 8] = [
    1_577_836_800_000_000,
    1_577_836_800_123_456,
    0,
    -1_000_000,
    -1,
    -1_500_000,
    -62_000_000_000_123_456,
    4_102_444_800_000_000,
];

/// Text nobody should make sense of.
const BAD_LITS: [&str; 15] = [
    "5N",
    "nil",
    "#{1 2}",
    "99999999999999999999",
    "-9223372036854775809",
    "0xFFFFFFFFFFFFFFFFFF",
    "0777777777777777777777777",
    "36rZZZZZZZZZZZZZZZZZZZZZZZ",
    "2r12",
    "#instmicros 9223372036854775807",
    "#instmillis 9223372036854775807",
    "#inst \"2017-13-01T00:00:00Z\"",
    "\"not \\x known\"",
    "\"never closed",
    "#uuid \"4cb3f828\"",
];

pub fn plan(seed: u64, p: &Profile) -> Plan {
    let mut r = Rng::sub(seed, 0x91a7);
    let mut w = [p.w_new, p.w_update, p.w_retract, p.w_upsert, p.w_lookup, p.w_nested, p.w_ident, p.w_txmeta];
    // Swarm: each seed leaves some kinds of operation out and overdoes others.
    for x in w.iter_mut() {
        match r.below(8) {
            0 => *x = 0,
            1 => *x *= 4,
            _ => {}
        }
    }
    if w.iter().all(|x| *x == 0) {
        w[0] = 10;
    }
    w[0] = w[0].max(4);
    let mut g = Gen {
        r,
        p,
        m: crate::golden(),
        h: Handles::new(),
        tmp: 0,
        nattr: 0,
        step: 0,
        w,
        keys: vec![],
        cached: vec![],
        defs: vec![],
    };
    g.plan(seed)
}

impl<'p> Gen<'p> {
    fn plan(&mut self, seed: u64) -> Plan {
        let p = self.p;
        let bare = self.r.pct(p.bare_pct);
        let cfg = Cfg {
            switch_pct: *self.r.pick(&[0, 5, 20, 50, 80]),
            pct_depth: if self.r.pct(30) { 1 + self.r.below(4) } else { 0 },
            start_wall_ns: 1_577_836_800_000_000_000 + self.r.below(1_000_000_000) as i64,
            sector: *self.r.pick(&[512usize, 512, 4096]),
            var_limit: if self.r.pct(35) { Some(*self.r.pick(&[36, 60, 120, 250])) } else { None },
            cache_pages: if self.r.pct(25) { Some(*self.r.pick(&[1, 4, 10])) } else { None },
            autockpt: if self.r.pct(30) { Some(*self.r.pick(&[1, 3, 8])) } else { None },
            bare,
        };
        let mut steps: Vec<Step> = vec![];
        if bare {
            let n = 1 + self.r.below(3);
            for _ in 0..n {
                let mut s = self.mk(Kind::Open);
                if self.r.pct(60) {
                    let nth = match self.r.below(3) {
                        0 => self.r.below(40),
                        1 => self.r.below(150),
                        _ => self.r.below(500),
                    };
                    s.crash = Some(CrashAt { nth: nth as u32, kind: self.crash_kind() });
                } else if p.fault_pct > 0 && self.r.pct(60) {
                    s.faults.push(self.fault(4));
                }
                steps.push(s);
            }
            let s = self.mk(Kind::Open);
            steps.push(s);
        }
        let inst = self.install_first();
        let s = self.mk(Kind::Auto(inst));
        steps.push(s);
        if self.r.pct(p.cache_first_pct) {
            for _ in 0..1 + self.r.below(2) {
                if let Some(k) = self.cache_kind() {
                    let s = self.mk(k);
                    steps.push(s);
                }
            }
        }
        let n = p.steps.0 + self.r.below(p.steps.1 - p.steps.0 + 1);
        let mut ws = [
            p.txn, p.auto, p.query, p.reopen, p.crash, p.cache, p.observe, p.unobserve, p.settle,
        ];
        for x in ws.iter_mut().skip(2) {
            match self.r.below(8) {
                0 => *x = 0,
                1 => *x *= 3,
                _ => {}
            }
        }
        for _ in 0..n {
            let kind = match self.r.weighted(&ws) {
                0 => self.txn(),
                1 => {
                    let ops = self.ops();
                    self.learn(&ops);
                    Kind::Auto(ops)
                }
                2 => {
                    let via = *self.r.pick(&[Via::Store, Via::Store, Via::Read, Via::Prepared, Via::Uncached, Via::Builder, Via::Explain]);
                    Kind::Query { q: self.query(), via }
                }
                3 if self.r.pct(15) => {
                    let cache = match self.cache_kind() {
                        Some(Kind::Cache(a, d)) if self.r.pct(50) => Some((a, d)),
                        _ => None,
                    };
                    let ops = self.ops();
                    self.learn(&ops);
                    let qs = (0..1 + self.r.below(4)).map(|_| self.query()).collect();
                    Kind::Apart { cache, ops, qs }
                }
                3 => Kind::Reopen,
                4 => Kind::Crash(self.crash_kind()),
                5 => match self.cache_kind() {
                    Some(k) => k,
                    None => Kind::Settle,
                },
                6 => self.observe(),
                7 => {
                    if self.keys.is_empty() {
                        Kind::Settle
                    } else {
                        Kind::Unobserve(self.r.pick(&self.keys).clone())
                    }
                }
                _ => Kind::Settle,
            };
            let kind = if self.r.pct(p.vocab_pct / 4) { Kind::Vocabs } else { kind };
            let kind = if p.odd_pct > 0 && self.r.pct(p.odd_pct / 2) {
                let (m0, h0) = (self.m.clone(), self.h.clone());
                let ops = self.ops();
                self.m = m0;
                self.h = h0;
                Kind::Odd { ops, salt: self.r.next() }
            } else {
                kind
            };
            let mut s = self.mk(kind);
            self.trouble(&mut s);
            if self.r.pct(p.jump_pct) {
                s.jump_ms = *self.r.pick(&[1, 1000, 3_600_000, 86_400_000 * 400, -1, -1000, -3_600_000, -86_400_000 * 400]);
            }
            steps.push(s);
            if p.panicky && !self.keys.is_empty() && self.r.pct(6) {
                // Everybody leaves, and somebody comes back.
                for k in self.keys.clone() {
                    let s = self.mk(Kind::Unobserve(k));
                    steps.push(s);
                }
                let k = self.observe();
                let s = self.mk(k);
                steps.push(s);
            }
        }
        Plan { seed, cfg, steps }
    }

    fn mk(&mut self, kind: Kind) -> Step {
        self.step += 1;
        Step { id: self.step, kind, faults: vec![], crash: None, jump_ms: 0 }
    }

    fn crash_kind(&mut self) -> CrashKind {
        *self.r.pick(&[
            CrashKind::Process,
            CrashKind::PowerNone,
            CrashKind::PowerPrefix,
            CrashKind::PowerSubset,
            CrashKind::PowerTorn,
            CrashKind::PowerAll,
        ])
    }

    fn trouble(&mut self, s: &mut Step) {
        let p = self.p;
        match s.kind {
            Kind::Crash(_) | Kind::Observe { .. } | Kind::Unobserve(_) | Kind::Settle => return,
            _ => {}
        }
        if let Kind::Apart { .. } = s.kind {
            if self.r.pct(p.crash_pct) {
                s.crash = Some(CrashAt { nth: self.r.below(30) as u32, kind: self.crash_kind() });
            }
            return;
        }
        if self.r.pct(p.crash_pct) {
            let reach = match s.kind {
                Kind::Query { .. } | Kind::Vocabs => 6,
                _ => *self.r.pick(&[8, 30, 80]),
            };
            s.crash = Some(CrashAt { nth: self.r.below(reach) as u32, kind: self.crash_kind() });
        } else if self.r.pct(p.fault_pct) {
            let scale = match s.kind {
                Kind::Query { .. } | Kind::Vocabs | Kind::Cache(..) => 0,
                Kind::Reopen | Kind::Open => 1,
                _ => 2,
            };
            let f = self.fault(scale);
            s.faults.push(f);
        }
    }

    fn fault(&mut self, scale: u32) -> Fault {
        fault(&mut self.r, self.p, scale)
    }

    // -----------------------------------------------------------------------------------------
    // Attributes and values.

    fn spec(&mut self, vt: Vt) -> AttrSpec {
        self.nattr += 1;
        let name = format!(":s/{}{}", &vt.ident()[9..], self.nattr);
        let unique = if self.r.pct(25) { 1 + self.r.below(2) as u8 } else { 0 };
        let fulltext = vt == Vt::Str && self.p.fulltext && self.r.pct(if self.p.fts_pct > 0 { 60 } else { 25 });
        let index = unique != 0 || fulltext || self.r.pct(30);
        AttrSpec {
            name,
            vt,
            many: self.r.pct(35),
            unique,
            index,
            fulltext,
            component: vt == Vt::Ref && self.r.pct(35),
            no_history: self.r.pct(if self.p.schema_pct > 0 { 20 } else { 5 }),
        }
    }

    fn install_first(&mut self) -> Vec<Op> {
        let mut specs: Vec<AttrSpec> = vec![];
        let mut s = self.spec(Vt::Str);
        s.unique = 2;
        s.index = true;
        s.many = self.r.pct(15);
        s.fulltext = self.p.fulltext && self.r.pct(10);
        specs.push(s);
        let mut s = self.spec(Vt::Long);
        s.unique = if self.r.pct(30) { 2 } else { 0 };
        s.index = s.index || s.unique != 0;
        specs.push(s);
        let s = self.spec(Vt::Ref);
        specs.push(s);
        let mut s = self.spec(Vt::Ref);
        s.unique = *self.r.pick(&[0, 0, 2, 2, 1]);
        s.index = s.index || s.unique != 0;
        specs.push(s);
        let all = [Vt::Ref, Vt::Bool, Vt::Long, Vt::Dbl, Vt::Str, Vt::Kw, Vt::Inst, Vt::Uuid, Vt::Long, Vt::Str];
        for _ in 0..2 + self.r.below(6) {
            let vt = if self.p.fts_pct > 0 && self.r.pct(40) { Vt::Str } else { *self.r.pick(&all) };
            let s = self.spec(vt);
            specs.push(s);
        }
        let ops: Vec<Op> = specs.iter().enumerate().map(|(i, s)| s.install(&format!("a{}", i))).collect();
        self.learn(&ops);
        ops
    }

    fn learn(&mut self, ops: &[Op]) {
        let p = match self.m.prepare(ops, &self.h) {
            Verdict::Ok(p) => p,
            _ => return,
        };
        let ids = self.m.provisional(&p);
        if let Verdict::Ok(a) = self.m.apply(&p, &ids, 1_577_836_800_000_000) {
            for (i, t) in p.temps.iter().enumerate() {
                if let Some(n) = t {
                    match p.class[i] {
                        Cls::Known(e) => {
                            self.h.insert(n.clone(), e);
                        }
                        Cls::New(k) if k < ids.len() => {
                            self.h.insert(n.clone(), ids[k]);
                        }
                        _ => {}
                    }
                }
            }
            self.m = a.model;
        }
    }

    fn attrs(&self) -> Vec<(String, AttrDef)> {
        self.m
            .attrs
            .iter()
            .filter(|x| *x.0 >= USER0)
            .filter_map(|(e, d)| self.m.names.get(e).map(|n| (n.clone(), d.clone())))
            .collect()
    }

    fn attr_where<F: Fn(&AttrDef) -> bool>(&mut self, f: F) -> Option<(String, AttrDef)> {
        let v: Vec<(String, AttrDef)> = self.attrs().into_iter().filter(|x| f(&x.1)).collect();
        if v.is_empty() {
            None
        } else {
            Some(self.r.pick(&v).clone())
        }
    }

    fn attr(&mut self) -> (String, AttrDef) {
        self.attr_where(|_| true).unwrap_or_else(|| (":db/doc".to_string(), self.m.attrs[&39].clone()))
    }

    fn temp(&mut self) -> String {
        self.tmp += 1;
        format!("t{}", self.tmp)
    }

    /// A handle of an entity which is data, mostly.
    fn handle(&mut self) -> Option<String> {
        let v: Vec<String> = self
            .h
            .iter()
            .filter(|(_, e)| !self.m.attrs.contains_key(e))
            .map(|x| x.0.clone())
            .collect();
        if v.is_empty() {
            return None;
        }
        // Recent ones more often: facts pile up on few entities.
        let n = v.len().min(12);
        let mut v = v;
        v.sort_by_key(|s| s.get(1..).and_then(|x| x.parse::<u32>().ok()).unwrap_or(0));
        let v = if self.r.pct(80) { v[v.len() - n..].to_vec() } else { v };
        Some(self.r.pick(&v).clone())
    }

    fn atom(&mut self, vt: Vt) -> V {
        let wide = self.r.pct(10);
        match vt {
            Vt::Bool => V::Bool(self.r.pct(50)),
            Vt::Long => {
                if wide {
                    V::Long(*self.r.pick(&[i64::MAX, i64::MIN + 1, -1, 65536, 268435456, 1 << 40]))
                } else {
                    V::Long(self.r.below(5) as i64)
                }
            }
            Vt::Dbl => V::dbl(*self.r.pick(&[0.5, 1.0, -2.25, 1e300, 3.0, 0.1])),
            Vt::Str => {
                if wide {
                    V::Str(format!("s{}", self.r.below(1000)))
                } else if self.r.pct(20) {
                    V::Str(self.r.pick(&ODD_STRS).to_string())
                } else {
                    V::Str(self.r.pick(&STRS).to_string())
                }
            }
            Vt::Kw => V::Kw(self.r.pick(&KWS).to_string()),
            Vt::Inst => V::Inst(*self.r.pick(&INSTS)),
            Vt::Uuid => V::Uuid(self.r.pick(&UUIDS).to_string()),
            Vt::Ref => V::Ref(USER0),
        }
    }

    fn val(&mut self, d: &AttrDef, temps: &[String]) -> VP {
        if d.vt != Vt::Ref {
            let v = self.atom(d.vt);
            return if self.r.pct(15) { self.spelled(v) } else { VP::Val(v) };
        }
        if !temps.is_empty() && self.r.pct(45) {
            return VP::E(EP::Temp(self.r.pick(temps).clone()));
        }
        match self.r.below(20) {
            0 => VP::E(EP::Tx),
            1 => {
                let a = self.attr().0;
                VP::E(EP::Ident(a))
            }
            2 => match self.a_lookup() {
                Some(l) => VP::E(l),
                None => VP::E(EP::Ident(":db/ident".into())),
            },
            3 => {
                // A tempid mentioned nowhere else.
                let t = self.temp();
                VP::E(EP::Temp(t))
            }
            _ => match self.handle() {
                Some(h) => VP::E(EP::H(h)),
                None => VP::E(EP::Ident(":db/ident".into())),
            },
        }
    }

    /// Another spelling of a value.
    fn spelled(&mut self, v: V) -> VP {
        let (v, s) = match v {
            V::Long(l) if l >= 0 => {
                let s = match self.r.below(4) {
                    0 => format!("0x{:x}", l),
                    1 => format!("0x{:X}", l),
                    2 => format!("2r{:b}", l),
                    _ => format!("+{}", l),
                };
                (V::Long(l), s)
            }
            V::Str(_) => {
                let t = *self.r.pick(&["two\nlines", "tab\there", "back\\slash", "ret\rurn", "q\"uote\\", "\n", "\\n"]);
                let mut s = edn_str(t);
                if self.r.pct(75) {
                    s = s.replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r");
                }
                (V::Str(t.to_string()), s)
            }
            V::Inst(us) => {
                let s = match self.r.below(5) {
                    0 if us >= 0 => format!("#instmicros {}", us),
                    1 if us >= 0 && us % 1000 == 0 => format!("#instmillis {}", us / 1000),
                    2 => format!("#inst \"{}+02:00\"", inst_text(us + 7_200_000_000).trim_end_matches('Z')),
                    3 => format!("#inst \"{}{}Z\"", inst_text(us).trim_end_matches('Z'), 1 + self.r.below(999)),
                    _ => format!("#inst \"{}-05:30\"", inst_text(us - 19_800_000_000).trim_end_matches('Z')),
                };
                (V::Inst(us), s)
            }
            V::Dbl(b) => {
                let s = format!("{:e}", f64::from_bits(b));
                // Without a point or an exponent it would be a long.
                (V::Dbl(b), s)
            }
            v => {
                let s = format!("{} ; and so on\n", v.edn());
                (v, s)
            }
        };
        VP::Lit(s, Some(v))
    }

    fn to_vp(&self, v: &V) -> VP {
        match v {
            V::Ref(e) => match self.h.iter().find(|x| x.1 == e) {
                Some((n, _)) => VP::E(EP::H(n.clone())),
                None => match self.m.names.get(e) {
                    Some(k) => VP::E(EP::Ident(k.clone())),
                    None => VP::E(EP::Raw(*e)),
                },
            },
            x => VP::Val(x.clone()),
        }
    }

    fn name_of(&self, e: E) -> Option<String> {
        self.h.iter().find(|x| *x.1 == e).map(|x| x.0.clone())
    }

    /// A fact about user data which is true as far as the generator knows.
    fn a_fact(&mut self) -> Option<(String, String, V)> {
        let v: Vec<(E, E, V)> = self
            .m
            .datoms
            .keys()
            .filter(|k| k.0 >= USER0 && k.0 < TX0 && k.1 >= USER0)
            .cloned()
            .collect();
        if v.is_empty() {
            return None;
        }
        let (e, a, x) = self.r.pick(&v).clone();
        Some((self.name_of(e)?, self.m.names.get(&a)?.clone(), x))
    }

    fn a_lookup(&mut self) -> Option<EP> {
        let v: Vec<(E, V)> = self
            .m
            .datoms
            .keys()
            .filter(|k| k.1 >= USER0 && self.m.attrs.get(&k.1).map_or(false, |d| d.unique.is_some()))
            .map(|k| (k.1, k.2.clone()))
            .collect();
        if v.is_empty() {
            return None;
        }
        let (a, x) = self.r.pick(&v).clone();
        if let V::Ref(_) = x {
            return None;
        }
        Some(EP::Lookup(self.m.names.get(&a)?.clone(), x))
    }

    // -----------------------------------------------------------------------------------------
    // Transactions.

    fn txn(&mut self) -> Kind {
        let p = self.p;
        let mut parts: Vec<Part> = vec![];
        let (m0, h0) = (self.m.clone(), self.h.clone());
        let n = 1 + self.r.below(4);
        let mut saved: Vec<(u8, Model, Handles)> = vec![];
        // With savepoints, or without.
        let save = if self.r.pct(25) { 25 } else { 0 };
        let n = if save > 0 { n + 2 } else { n };
        for _ in 0..n {
            if self.r.pct(p.vocab_pct) {
                let e = self.ensure();
                parts.push(Part::Ensure(Box::new(e)));
                if self.r.pct(30) {
                    parts.push(Part::Vocabs);
                }
                continue;
            }
            match self.r.weighted(&[60, if p.query > 0 { 20 } else { 4 }, p.cache, 3, save]) {
                0 => {
                    let ops = self.ops();
                    self.learn(&ops);
                    let b = self.r.pct(25);
                    parts.push(if b { Part::Built(ops) } else { Part::Ops(ops) });
                }
                1 => parts.push(Part::Query(self.query())),
                2 => match self.cache_kind() {
                    Some(Kind::Cache(a, d)) => {
                        if self.r.pct(30) {
                            parts.push(Part::Uncache(a))
                        } else {
                            parts.push(Part::Cache(a, d))
                        }
                    }
                    _ => {}
                },
                3 => parts.push(Part::UseCaching(self.r.pct(60))),
                _ => {
                    if saved.is_empty() || self.r.pct(35) {
                        let n = self.r.below(2) as u8;
                        parts.push(Part::Save(n));
                        saved.push((n, self.m.clone(), self.h.clone()));
                        // Something to go back over.
                        let ops = self.ops();
                        self.learn(&ops);
                        parts.push(Part::Ops(ops));
                    } else {
                        let n = self.r.pick(&saved).0;
                        let at = saved.iter().rposition(|s| s.0 == n).unwrap();
                        if self.r.pct(70) {
                            parts.push(Part::Back(n));
                            saved.truncate(at + 1);
                            self.m = saved[at].1.clone();
                            self.h = saved[at].2.clone();
                        } else {
                            parts.push(Part::Keep(n));
                            saved.truncate(at);
                        }
                    }
                }
            }
        }
        let end = if self.r.pct(p.abandon_pct) {
            self.m = m0;
            self.h = h0;
            if self.r.pct(50) {
                End::Rollback
            } else {
                End::Drop
            }
        } else {
            End::Commit
        };
        Kind::Txn { parts, end }
    }

    fn ops(&mut self) -> Vec<Op> {
        let p = self.p;
        let mut ops: Vec<Op> = vec![];
        if self.r.pct(p.big_pct) {
            return self.big();
        }
        if self.r.pct(p.schema_pct) {
            self.schema_ops(&mut ops);
            if self.r.pct(70) {
                return ops;
            }
        }
        let n = *self.r.pick(&[1, 1, 2, 2, 3, 4, 6]);
        let w = self.w;
        for _ in 0..n {
            match self.r.weighted(&w) {
                0 => self.op_new(&mut ops),
                1 => self.op_update(&mut ops),
                2 => self.op_retract(&mut ops),
                3 => self.op_upsert(&mut ops),
                4 => self.op_lookup(&mut ops),
                5 => self.op_nested(&mut ops),
                6 => self.op_ident(&mut ops),
                _ => self.op_txmeta(&mut ops),
            }
        }
        if self.r.pct(p.bad_pct) {
            self.op_bad(&mut ops);
        }
        if self.r.pct(12) {
            self.number(&mut ops);
        }
        if self.r.pct(30) {
            // Order does not matter.
            for i in (1..ops.len()).rev() {
                let j = self.r.below(i as u64 + 1) as usize;
                ops.swap(i, j);
            }
        }
        ops
    }

    /// Some attributes by number, not by name.
    fn number(&mut self, ops: &mut Vec<Op>) {
        for o in ops.iter_mut() {
            let a = match o {
                Op::Add(_, a, _) | Op::Retract(_, a, _) => a,
                Op::Map(_, kvs) if !kvs.is_empty() => &mut kvs[0].0,
                _ => continue,
            };
            if let Some(e) = self.m.idents.get(a.as_str()) {
                if let Some((n, _)) = self.h.iter().find(|x| x.1 == e) {
                    if self.r.pct(60) {
                        *a = format!("@{}", n);
                    }
                }
            }
        }
    }

    fn kvs(&mut self, n: u64, temps: &[String]) -> Vec<(String, VP)> {
        let mut kvs: Vec<(String, VP)> = vec![];
        for _ in 0..n {
            let (a, d) = self.attr();
            if kvs.iter().any(|x| x.0 == a) {
                continue;
            }
            if d.many && self.r.pct(35) {
                let vs: Vec<VP> = (0..1 + self.r.below(4)).map(|_| self.val(&d, temps)).collect();
                kvs.push((a, VP::Many(vs)));
            } else if d.vt == Vt::Ref && self.r.pct(8) {
                let t = match self.handle() {
                    Some(h) => EP::H(h),
                    None => EP::Temp(self.temp()),
                };
                kvs.push((a.replace('/', "/_"), VP::E(t)));
            } else {
                let v = self.val(&d, temps);
                kvs.push((a, v));
            }
        }
        kvs
    }

    fn op_new(&mut self, ops: &mut Vec<Op>) {
        let k = 1 + self.r.below(3);
        let temps: Vec<String> = (0..k).map(|_| self.temp()).collect();
        for t in &temps {
            let n = 1 + self.r.below(3);
            let kvs = self.kvs(n, &temps);
            if self.r.pct(55) {
                ops.push(Op::Map(Some(EP::Temp(t.clone())), kvs));
            } else {
                for (a, v) in kvs {
                    match v {
                        VP::Many(vs) => {
                            for v in vs {
                                ops.push(Op::Add(EP::Temp(t.clone()), a.clone(), v));
                            }
                        }
                        v => ops.push(Op::Add(EP::Temp(t.clone()), a, v)),
                    }
                }
            }
        }
        if self.r.pct(5) {
            let kvs = self.kvs(2, &temps);
            ops.push(Op::Map(None, kvs));
        }
    }

    fn op_update(&mut self, ops: &mut Vec<Op>) {
        let e = match self.handle() {
            Some(h) => EP::H(h),
            None => return self.op_new(ops),
        };
        for _ in 0..1 + self.r.below(2) {
            let (a, d) = self.attr();
            // Sometimes what is already there.
            if self.r.pct(20) {
                if let Some((h, a, v)) = self.a_fact() {
                    let v = self.to_vp(&v);
                    ops.push(Op::Add(EP::H(h), a, v));
                    continue;
                }
            }
            let v = self.val(&d, &[]);
            if d.many && self.r.pct(10) {
                let w = self.val(&d, &[]);
                ops.push(Op::Add(e.clone(), a, VP::Many(vec![v, w])));
            } else {
                ops.push(Op::Add(e.clone(), a, v));
            }
        }
    }

    fn op_retract(&mut self, ops: &mut Vec<Op>) {
        let f = self.a_fact();
        match (self.r.below(10), f) {
            (0..=4, Some((h, a, v))) => {
                let v = self.to_vp(&v);
                ops.push(Op::Retract(EP::H(h), a, v));
            }
            (5..=6, Some((h, a, v))) => {
                // Replace by hand.
                let d = match self.m.attr(&a) {
                    Some(x) => x.1.clone(),
                    None => return,
                };
                let n = self.val(&d, &[]);
                let v = self.to_vp(&v);
                ops.push(Op::Retract(EP::H(h.clone()), a.clone(), v));
                ops.push(Op::Add(EP::H(h), a, n));
            }
            (7, Some((h, a, v))) => {
                // Move it to another entity.
                let v = self.to_vp(&v);
                let to = match self.handle() {
                    Some(t) if t != h => EP::H(t),
                    _ => EP::Temp(self.temp()),
                };
                ops.push(Op::Retract(EP::H(h), a.clone(), v.clone()));
                ops.push(Op::Add(to, a, v));
            }
            (9, Some((h, a, v))) if self.m.attr(&a).map_or(false, |x| x.1.many) => {
                // Several at once.
                let (ae, d) = match self.m.attr(&a) {
                    Some(x) => (x.0, x.1.clone()),
                    None => return,
                };
                let e = self.h.get(&h).cloned().unwrap_or(0);
                let mut vs: Vec<VP> = vec![self.to_vp(&v)];
                for w in self.m.values(e, ae) {
                    if w != v && self.r.pct(60) {
                        vs.push(self.to_vp(&w));
                    }
                }
                if self.r.pct(30) {
                    vs.push(self.val(&d, &[]));
                }
                ops.push(Op::Retract(EP::H(h), a, VP::Many(vs)));
            }
            (8, Some((h, a, _))) => {
                // A value which is not there, for one which is.
                let d = match self.m.attr(&a) {
                    Some(x) => x.1.clone(),
                    None => return,
                };
                let v = self.val(&d, &[]);
                ops.push(Op::Retract(EP::H(h), a, v));
            }
            _ => {
                if let Some(h) = self.handle() {
                    let (a, d) = self.attr();
                    let v = self.val(&d, &[]);
                    if d.vt == Vt::Ref && self.r.pct(15) {
                        ops.push(Op::Retract(EP::H(h), a.replace('/', "/_"), v));
                    } else {
                        ops.push(Op::Retract(EP::H(h), a, v));
                    }
                }
            }
        }
    }

    fn op_upsert(&mut self, ops: &mut Vec<Op>) {
        let ids: Vec<(E, E, V)> = self
            .m
            .datoms
            .keys()
            .filter(|k| {
                k.0 >= USER0 && k.1 >= USER0 && self.m.attrs.get(&k.1).map_or(false, |d| d.unique == Some(Uniq::Identity))
            })
            .cloned()
            .collect();
        let t = self.temp();
        let e = EP::Temp(t.clone());
        let mut named: Vec<String> = vec![t.clone()];
        let k = 1 + self.r.below(2);
        for _ in 0..k {
            if !ids.is_empty() && self.r.pct(75) {
                let (ent, a, v) = self.r.pick(&ids).clone();
                let a = match self.m.names.get(&a) {
                    Some(a) => a.clone(),
                    None => continue,
                };
                let v = match &v {
                    V::Ref(x) if self.r.pct(60) => {
                        // Through another tempid which itself upserts.
                        let other = ids.iter().find(|k| k.0 == *x).cloned();
                        match other {
                            Some((_, b, w)) if !matches!(w, V::Ref(_)) => {
                                let u = self.temp();
                                if let Some(b) = self.m.names.get(&b) {
                                    ops.push(Op::Add(EP::Temp(u.clone()), b.clone(), VP::Val(w)));
                                    named.push(u.clone());
                                    VP::E(EP::Temp(u))
                                } else {
                                    self.to_vp(&V::Ref(*x))
                                }
                            }
                            _ => self.to_vp(&V::Ref(*x)),
                        }
                    }
                    x => self.to_vp(x),
                };
                let _ = ent;
                ops.push(Op::Add(e.clone(), a, v));
            } else if let Some((a, d)) = self.attr_where(|d| d.unique == Some(Uniq::Identity)) {
                let v = self.val(&d, &named);
                ops.push(Op::Add(e.clone(), a.clone(), v.clone()));
                if self.r.pct(25) {
                    // The same identity under another name.
                    let u = self.temp();
                    ops.push(Op::Add(EP::Temp(u.clone()), a, v));
                    let (b, d) = self.attr();
                    let w = self.val(&d, &named);
                    ops.push(Op::Add(EP::Temp(u.clone()), b, w));
                    named.push(u);
                }
            }
        }
        for _ in 0..self.r.below(3) {
            let (a, d) = self.attr();
            let v = self.val(&d, &named);
            let who = self.r.pick(&named).clone();
            ops.push(Op::Add(EP::Temp(who), a, v));
        }
        if self.r.pct(10) {
            if let Some((_, a, v)) = self.a_fact() {
                let v = self.to_vp(&v);
                ops.push(Op::Retract(e, a, v));
            }
        }
    }

    fn op_lookup(&mut self, ops: &mut Vec<Op>) {
        let l = match self.a_lookup() {
            Some(l) => l,
            None => return self.op_new(ops),
        };
        let (a, d) = self.attr();
        let v = self.val(&d, &[]);
        match self.r.below(4) {
            0 => ops.push(Op::Retract(l, a, v)),
            1 => ops.push(Op::Map(Some(l), vec![(a, v)])),
            2 => {
                if let Some((r, _)) = self.attr_where(|d| d.vt == Vt::Ref) {
                    if let Some(h) = self.handle() {
                        ops.push(Op::Add(EP::H(h), r, VP::E(l)));
                    }
                }
            }
            _ => ops.push(Op::Add(l, a, v)),
        }
    }

    fn op_nested(&mut self, ops: &mut Vec<Op>) {
        let (a, d) = match self.attr_where(|d| d.vt == Vt::Ref) {
            Some(x) => x,
            None => return,
        };
        let t = self.temp();
        let n = 1 + self.r.below(2);
        let mut inner = self.kvs(n, &[t.clone()]);
        if !d.component && self.r.pct(70) {
            // Must not dangle.
            if let Some((k, kd)) = self.attr_where(|d| d.unique == Some(Uniq::Identity)) {
                if !inner.iter().any(|x| x.0 == k) {
                    let v = self.val(&kd, &[]);
                    inner.push((k, v));
                }
            }
        }
        if self.r.pct(20) {
            if let Some((b, _)) = self.attr_where(|d| d.vt == Vt::Ref && d.component) {
                if !inner.iter().any(|x| x.0 == b) {
                    let deep = self.kvs(1, &[t.clone()]);
                    inner.push((b, VP::Map(None, deep)));
                }
            }
        }
        let id = if self.r.pct(20) { Some(EP::Temp(self.temp())) } else { None };
        let v = VP::Map(id, inner);
        let v = if d.many && self.r.pct(40) {
            let w = self.val(&d, &[]);
            VP::Many(vec![v, w])
        } else {
            v
        };
        let e = match self.handle() {
            Some(h) if self.r.pct(40) => EP::H(h),
            _ => EP::Temp(t),
        };
        if self.r.pct(60) {
            ops.push(Op::Map(Some(e), vec![(a, v)]));
        } else {
            ops.push(Op::Add(e, a, v));
        }
    }

    fn op_ident(&mut self, ops: &mut Vec<Op>) {
        let name = format!(":enum/v{}", self.r.below(6));
        let named: Vec<(String, E)> = self
            .m
            .idents
            .iter()
            .filter(|x| *x.1 >= USER0 && !self.m.attrs.contains_key(x.1))
            .map(|x| (x.0.clone(), *x.1))
            .collect();
        match (self.r.below(6), named.is_empty()) {
            (0, false) => {
                let (n, _) = self.r.pick(&named).clone();
                let e = EP::Ident(n.clone());
                ops.push(Op::Retract(e, ":db/ident".into(), VP::Val(V::Kw(n))));
            }
            (1, false) => {
                let (n, _) = self.r.pick(&named).clone();
                ops.push(Op::Add(EP::Ident(n), ":db/ident".into(), VP::Val(V::Kw(name))));
            }
            (2, false) => {
                // Move a name to another entity.
                let (n, e) = self.r.pick(&named).clone();
                if let (Some(h), Some(o)) = (self.name_of(e), self.handle()) {
                    if h != o {
                        ops.push(Op::Retract(EP::H(h), ":db/ident".into(), VP::Val(V::Kw(n.clone()))));
                        ops.push(Op::Add(EP::H(o), ":db/ident".into(), VP::Val(V::Kw(n))));
                    }
                }
            }
            (3, false) => {
                let (n, _) = self.r.pick(&named).clone();
                let (a, d) = self.attr();
                let v = self.val(&d, &[]);
                ops.push(Op::Add(EP::Ident(n), a, v));
            }
            _ => {
                let e = match self.handle() {
                    Some(h) if self.r.pct(40) => EP::H(h),
                    _ => EP::Temp(self.temp()),
                };
                ops.push(Op::Add(e, ":db/ident".into(), VP::Val(V::Kw(name))));
            }
        }
    }

    fn op_txmeta(&mut self, ops: &mut Vec<Op>) {
        if self.r.pct(30) {
            let us = *self.r.pick(&INSTS);
            ops.push(Op::Add(EP::Tx, ":db/txInstant".into(), VP::Val(V::Inst(us))));
        } else {
            let (a, d) = self.attr();
            let v = self.val(&d, &[]);
            ops.push(Op::Add(EP::Tx, a, v));
        }
    }

    fn op_bad(&mut self, ops: &mut Vec<Op>) {
        let h = match self.handle() {
            Some(h) => EP::H(h),
            None => EP::Temp(self.temp()),
        };
        match self.r.below(10) {
            9 => {
                let s = *self.r.pick(&BAD_LITS);
                let a = self.attr().0;
                ops.push(Op::Add(h, a, VP::Lit(s.to_string(), None)));
            }
            0 => {
                // Two values for one.
                if let Some((a, d)) = self.attr_where(|d| !d.many) {
                    let (v, w) = (self.val(&d, &[]), self.val(&d, &[]));
                    ops.push(Op::Add(h.clone(), a.clone(), v));
                    ops.push(Op::Add(h, a, w));
                }
            }
            1 => {
                let (a, d) = self.attr();
                let v = self.val(&d, &[]);
                ops.push(Op::Add(h.clone(), a.clone(), v.clone()));
                ops.push(Op::Retract(h, a, v));
            }
            2 => {
                let (a, d) = self.attr();
                let vt = *self.r.pick(&[Vt::Bool, Vt::Long, Vt::Str, Vt::Kw, Vt::Inst, Vt::Uuid, Vt::Dbl]);
                if vt != d.vt {
                    let v = self.atom(vt);
                    ops.push(Op::Add(h, a, VP::Val(v)));
                }
            }
            3 => ops.push(Op::Add(h, ":no/such".into(), VP::Val(V::Long(1)))),
            4 => ops.push(Op::Add(EP::Ident(":no/such".into()), self.attr().0, VP::Val(V::Long(1)))),
            5 => {
                // A unique value which is taken.
                let f: Vec<(E, E, V)> = self
                    .m
                    .datoms
                    .keys()
                    .filter(|k| k.0 >= USER0 && k.1 >= USER0 && self.m.attrs.get(&k.1).map_or(false, |d| d.unique.is_some()))
                    .cloned()
                    .collect();
                if !f.is_empty() {
                    let (_, a, v) = self.r.pick(&f).clone();
                    if let Some(a) = self.m.names.get(&a).cloned() {
                        let v = self.to_vp(&v);
                        ops.push(Op::Add(h, a, v));
                    }
                }
            }
            6 => {
                if let Some((a, _)) = self.attr_where(|d| d.unique.is_some() && d.vt == Vt::Str) {
                    let (b, d) = self.attr();
                    let v = self.val(&d, &[]);
                    ops.push(Op::Add(EP::Lookup(a, V::Str("nobody".into())), b, v));
                }
            }
            7 => {
                let t = self.temp();
                let (a, d) = self.attr();
                let v = self.val(&d, &[]);
                ops.push(Op::Retract(EP::Temp(t), a, v));
            }
            _ => {
                if let Some((a, d)) = self.attr_where(|d| !d.many) {
                    let v = self.val(&d, &[]);
                    ops.push(Op::Add(h, a, VP::Many(vec![v])));
                }
            }
        }
    }

    fn big(&mut self) -> Vec<Op> {
        let mut ops = vec![];
        let n = *self.r.pick(&[20u64, 40, 60, 130]);
        let t = self.temp();
        match self.attr_where(|d| d.many && matches!(d.vt, Vt::Long | Vt::Str)) {
            Some((a, d)) => {
                for i in 0..n {
                    let v = if d.vt == Vt::Long { V::Long(i as i64) } else { V::Str(format!("w{} common", i)) };
                    ops.push(Op::Add(EP::Temp(t.clone()), a.clone(), VP::Val(v)));
                }
            }
            None => {
                for _ in 0..n / 2 {
                    let t = self.temp();
                    let (a, d) = self.attr();
                    let v = self.val(&d, &[]);
                    ops.push(Op::Add(EP::Temp(t), a, v));
                }
            }
        }
        // With some upserts in the crowd.
        if self.r.pct(40) {
            self.op_upsert(&mut ops);
        }
        if self.r.pct(30) {
            self.op_retract(&mut ops);
        }
        ops
    }

    fn schema_ops(&mut self, ops: &mut Vec<Op>) {
        let kwv = |s: &str| VP::E(EP::Ident(s.to_string()));
        let b = |x: bool| VP::Val(V::Bool(x));
        let (a, d) = self.attr();
        let e = EP::Ident(a.clone());
        match self.r.below(16) {
            0 | 1 => {
                let vt = *self.r.pick(&[Vt::Ref, Vt::Bool, Vt::Long, Vt::Str, Vt::Kw, Vt::Inst, Vt::Uuid, Vt::Dbl]);
                let mut s = self.spec(vt);
                if self.r.pct(15) {
                    // Not allowed.
                    match self.r.below(3) {
                        0 => {
                            s.unique = 1;
                            s.index = false;
                        }
                        1 => {
                            s.fulltext = true;
                            s.index = false;
                        }
                        _ => s.component = true,
                    }
                }
                let t = self.temp();
                let mut op = s.install(&t);
                if let Op::Map(_, kvs) = &mut op {
                    // What is not said is false; it may be said.
                    for f in [":db/isComponent", ":db/noHistory", ":db/index", ":db/fulltext"].iter() {
                        if self.r.pct(12) && kvs.iter().all(|x| x.0 != *f) {
                            kvs.push((f.to_string(), b(false)));
                        }
                    }
                }
                if self.r.pct(30) {
                    if let Op::Map(Some(e), kvs) = op {
                        let skip = if self.r.pct(15) { Some(self.r.below(3) as usize) } else { None };
                        for (i, (a, v)) in kvs.into_iter().enumerate() {
                            if Some(i) != skip {
                                ops.push(Op::Add(e.clone(), a, v));
                            }
                        }
                    }
                } else {
                    ops.push(op);
                }
            }
            2 | 3 => ops.push(Op::Add(
                e,
                ":db/cardinality".into(),
                kwv(if d.many { ":db.cardinality/one" } else { ":db.cardinality/many" }),
            )),
            4 => {
                if d.unique.is_none() && (d.index || self.r.pct(20)) {
                    let u = *self.r.pick(&[":db.unique/value", ":db.unique/identity"]);
                    ops.push(Op::Add(e, ":db/unique".into(), kwv(u)));
                } else if d.unique.is_none() {
                    ops.push(Op::Add(e.clone(), ":db/index".into(), b(true)));
                    ops.push(Op::Add(e, ":db/unique".into(), kwv(":db.unique/identity")));
                } else {
                    let cur = if d.unique == Some(Uniq::Value) { ":db.unique/value" } else { ":db.unique/identity" };
                    ops.push(Op::Retract(e, ":db/unique".into(), kwv(cur)));
                }
            }
            5 => {
                let u = *self.r.pick(&[":db.unique/value", ":db.unique/identity"]);
                ops.push(Op::Add(e, ":db/unique".into(), kwv(u)));
            }
            6 => ops.push(Op::Add(e, ":db/index".into(), b(!d.index))),
            7 => {
                if d.component {
                    ops.push(Op::Retract(e, ":db/isComponent".into(), b(true)));
                } else {
                    ops.push(Op::Add(e, ":db/isComponent".into(), b(true)));
                }
            }
            8 => {
                let x = self.m.idents.get(&a).cloned().unwrap_or(0);
                match self.m.values(x, 10).first().cloned() {
                    // Whatever is said of it is taken back.
                    Some(V::Bool(v)) if self.r.pct(50) => ops.push(Op::Retract(e, ":db/isComponent".into(), b(v))),
                    None if self.r.pct(50) => ops.push(Op::Add(e, ":db/isComponent".into(), b(d.component))),
                    _ => ops.push(Op::Add(e, ":db/isComponent".into(), b(!d.component))),
                }
            }
            9 => {
                let vt = *self.r.pick(&[Vt::Ref, Vt::Bool, Vt::Long, Vt::Str]);
                ops.push(Op::Add(e, ":db/valueType".into(), kwv(vt.ident())));
            }
            10 => {
                let v = if self.r.pct(40) { d.fulltext } else { !d.fulltext };
                ops.push(if self.r.pct(60) {
                    Op::Add(e, ":db/noHistory".into(), b(!d.no_history))
                } else {
                    Op::Add(e, ":db/fulltext".into(), b(v))
                })
            }
            11 | 12 => {
                self.nattr += 1;
                let n = format!(":s/ren{}", self.nattr);
                ops.push(Op::Add(e, ":db/ident".into(), VP::Val(V::Kw(n))));
            }
            13 => {
                // Remove it altogether.
                if let Some(x) = self.m.idents.get(&a).cloned() {
                    let facts: Vec<(E, V)> = self
                        .m
                        .datoms
                        .range((x, i64::MIN, V::Ref(i64::MIN))..)
                        .take_while(|(k, _)| k.0 == x)
                        .map(|(k, _)| (k.1, k.2.clone()))
                        .collect();
                    // Now and then not quite altogether.
                    let keep = if self.r.pct(25) && !facts.is_empty() { self.r.below(facts.len() as u64) as usize } else { usize::MAX };
                    for (i, (p, v)) in facts.into_iter().enumerate() {
                        if i == keep {
                            continue;
                        }
                        if let Some(n) = self.m.names.get(&p).cloned() {
                            let v = self.to_vp(&v);
                            ops.push(Op::Retract(e.clone(), n, v));
                        }
                    }
                }
            }
            14 => {
                // Two alterations at once.
                ops.push(Op::Add(
                    e.clone(),
                    ":db/cardinality".into(),
                    kwv(if d.many { ":db.cardinality/one" } else { ":db.cardinality/many" }),
                ));
                ops.push(Op::Add(e, ":db/index".into(), b(true)));
            }
            _ => {
                // Swap two names.
                let (c, _) = self.attr();
                if c != a {
                    ops.push(Op::Add(e, ":db/ident".into(), VP::Val(V::Kw(c.clone()))));
                    ops.push(Op::Add(EP::Ident(c), ":db/ident".into(), VP::Val(V::Kw(a))));
                }
            }
        }
    }

    // -----------------------------------------------------------------------------------------
    // Vocabularies.

    fn vocab_spec(&mut self) -> AttrSpec {
        let vt = *self.r.pick(&[Vt::Ref, Vt::Bool, Vt::Long, Vt::Dbl, Vt::Str, Vt::Str, Vt::Kw, Vt::Inst, Vt::Uuid]);
        let mut s = self.spec(vt);
        s.name = s.name.replace(":s/", ":v/");
        s.no_history = self.r.pct(15);
        s
    }

    /// The definition a later release of the same application would have.
    fn evolve(&mut self, d: &crate::vocab::VDef) -> crate::vocab::VDef {
        let mut d = d.clone();
        d.pre = Default::default();
        d.post = Default::default();
        match self.r.weighted(&[45, 10, 15, 20, 3]) {
            0 => d.version = d.version.saturating_add(1 + self.r.below(2) as u32).min(u32::MAX - 1),
            // The same version with other attributes.
            1 => {}
            // An older release.
            2 => d.version = d.version.saturating_sub(1).max(1),
            3 => return d,
            _ => d.version = u32::MAX - 3,
        }
        for _ in 0..1 + self.r.below(2) {
            if d.attrs.is_empty() || self.r.pct(35) {
                let s = self.vocab_spec();
                d.attrs.push(s);
                continue;
            }
            let i = self.r.below(d.attrs.len() as u64) as usize;
            match self.r.below(9) {
                0 | 1 => d.attrs[i].many = !d.attrs[i].many,
                2 | 3 => {
                    d.attrs[i].unique = self.r.below(3) as u8;
                    d.attrs[i].index |= d.attrs[i].unique != 0;
                }
                4 => d.attrs[i].index = !d.attrs[i].index,
                5 => d.attrs[i].no_history = !d.attrs[i].no_history,
                6 => {
                    if d.attrs[i].vt == Vt::Ref {
                        d.attrs[i].component = !d.attrs[i].component
                    } else if self.r.pct(20) {
                        d.attrs[i].vt = *self.r.pick(&[Vt::Bool, Vt::Long, Vt::Str]);
                        d.attrs[i].fulltext = false;
                    }
                }
                7 => {
                    d.attrs.remove(i);
                }
                _ => {
                    let s = self.vocab_spec();
                    d.attrs.push(s);
                }
            }
        }
        d
    }

    fn hook(&mut self) -> crate::vocab::Hook {
        let mut h = crate::vocab::Hook { ops: vec![], fail: self.r.pct(8) };
        if self.r.pct(45) {
            for _ in 0..1 + self.r.below(2) {
                match self.r.below(3) {
                    0 => self.op_new(&mut h.ops),
                    1 => self.op_update(&mut h.ops),
                    _ => self.op_retract(&mut h.ops),
                }
            }
        }
        h
    }

    fn ensure(&mut self) -> crate::vocab::Ensure {
        let mut e = crate::vocab::Ensure {
            defs: vec![],
            source: self.r.pct(50),
            pre: Default::default(),
            post: Default::default(),
        };
        for _ in 0..1 + self.r.below(3) {
            let mut d = if !self.defs.is_empty() && self.r.pct(70) {
                let mut d = self.r.pick(&self.defs).clone();
                if self.r.pct(75) {
                    d = self.defs.iter().rev().find(|x| x.name == d.name).unwrap().clone();
                }
                if let (Ok(Some(v)), true) = (crate::vocab::named(&self.m, &d.name), self.r.pct(70)) {
                    d.version = v.version;
                }
                self.evolve(&d)
            } else {
                let n = 1 + self.r.below(4);
                let mut attrs = vec![];
                for _ in 0..self.r.below(4) {
                    let s = self.vocab_spec();
                    attrs.push(s);
                }
                // One which another vocabulary has as well, or which was there before.
                if self.r.pct(20) {
                    let any = self.r.pct(15);
                    let known: Vec<(String, AttrDef)> =
                        self.attrs().into_iter().filter(|x| any || x.0.starts_with(":v/")).collect();
                    if !known.is_empty() {
                        let (name, x) = self.r.pick(&known).clone();
                        let unique = match x.unique {
                            None => 0,
                            Some(Uniq::Value) => 1,
                            Some(Uniq::Identity) => 2,
                        };
                        attrs.push(AttrSpec {
                            name,
                            vt: x.vt,
                            many: x.many,
                            unique,
                            index: x.index,
                            fulltext: x.fulltext,
                            component: x.component,
                            no_history: x.no_history,
                        });
                    }
                }
                let version = *self.r.pick(&[1, 1, 1, 2, 5]);
                crate::vocab::VDef { name: format!(":vocab/n{}", n), version, attrs, pre: Default::default(), post: Default::default() }
            };
            if e.defs.iter().any(|x| x.name == d.name) {
                continue;
            }
            // What was refused before would be again.
            if self.m.idents.contains_key(&d.name) && self.r.pct(70) {
                let m = &self.m;
                d.attrs.retain(|a| match m.attr(&a.name) {
                    None => true,
                    Some((_, x)) => x.fulltext == a.fulltext && x.vt == a.vt,
                });
            }
            let mut names: Vec<String> = vec![];
            d.attrs.retain(|a| {
                let new = !names.contains(&a.name);
                names.push(a.name.clone());
                new
            });
            d.pre = self.hook();
            d.post = self.hook();
            e.defs.push(d);
        }
        if e.source {
            e.pre = self.hook();
            e.post = self.hook();
        }
        // What comes of it, as far as can be foreseen.
        for es in self.one_by_one(&e) {
            if let Ok(s) = crate::vocab::script(&self.m, &es) {
                if let crate::vocab::Rehearsal::Fine(m, h) = crate::vocab::rehearse(&self.m, &self.h, &s.acts) {
                    self.m = m;
                    self.h = h;
                }
            }
        }
        for d in &e.defs {
            self.defs.push(d.clone());
        }
        e
    }

    fn one_by_one(&self, e: &crate::vocab::Ensure) -> Vec<crate::vocab::Ensure> {
        if e.source {
            return vec![e.clone()];
        }
        e.defs
            .iter()
            .map(|d| crate::vocab::Ensure {
                defs: vec![d.clone()],
                source: false,
                pre: Default::default(),
                post: Default::default(),
            })
            .collect()
    }

    // -----------------------------------------------------------------------------------------
    // Caches and observers.

    fn cache_kind(&mut self) -> Option<Kind> {
        let known = self.cached.clone();
        let (a, _) = if !known.is_empty() && self.r.pct(40) {
            let a = self.r.pick(&known).clone();
            let d = self.m.attr(&a)?.1.clone();
            (a, d)
        } else {
            self.attr()
        };
        if !self.cached.contains(&a) {
            self.cached.push(a.clone());
        }
        let d = *self.r.pick(&[Dir::Forward, Dir::Reverse, Dir::Both, Dir::Both]);
        Some(Kind::Cache(a, d))
    }

    fn observe(&mut self) -> Kind {
        let n = 1 + self.r.below(3);
        let mut attrs: Vec<String> = (0..n).map(|_| self.attr().0).collect();
        if self.r.pct(15) {
            attrs.push(":db/txInstant".into());
        }
        if self.r.pct(10) {
            attrs.push(":db/ident".into());
        }
        attrs.sort();
        attrs.dedup();
        let key = if self.p.panicky && self.r.pct(20) {
            format!("!o{}", self.r.below(2))
        } else if self.p.panicky && self.r.pct(25) {
            format!("~o{}", self.r.below(2))
        } else {
            format!("o{}", self.r.below(4))
        };
        if !self.keys.contains(&key) {
            self.keys.push(key.clone());
        }
        Kind::Observe { key, attrs }
    }

    // -----------------------------------------------------------------------------------------
    // Queries.

    fn var(s: &str) -> PT {
        PT::Var(s.to_string())
    }

    fn pa(a: &str) -> PT {
        PT::E(EP::Ident(a.to_string()))
    }

    fn pat(e: PT, a: &str, v: PT) -> Cl {
        Cl::Pat { e, a: Self::pa(a), v, tx: None }
    }

    /// A constant for the value position of attribute `a`.
    fn qconst(&mut self, a: &str, d: &AttrDef) -> PT {
        let ae = self.m.idents.get(a).cloned().unwrap_or(0);
        let have: Vec<V> = self
            .m
            .avet
            .range((ae, V::Ref(i64::MIN))..)
            .take_while(|(k, _)| k.0 == ae)
            .map(|(k, _)| k.1.clone())
            .collect();
        if !have.is_empty() && self.r.pct(75) {
            let v = self.r.pick(&have).clone();
            return match v {
                V::Ref(e) => match self.name_of(e) {
                    Some(n) => PT::E(EP::H(n)),
                    None => match self.m.names.get(&e) {
                        Some(k) => PT::E(EP::Ident(k.clone())),
                        None => PT::E(EP::Raw(e)),
                    },
                },
                v => PT::C(v),
            };
        }
        if d.vt == Vt::Ref {
            match self.handle() {
                Some(h) => PT::E(EP::H(h)),
                None => PT::E(EP::Ident(":db/ident".into())),
            }
        } else {
            PT::C(self.atom(d.vt))
        }
    }

    fn pull_spec(&mut self) -> Vec<PA> {
        let mut p = vec![];
        if self.r.pct(30) {
            p.push(if self.r.pct(50) { PA::Id } else { PA::IdAs(":p/it".into()) });
        }
        if self.r.pct(15) {
            p.push(PA::All);
            return p;
        }
        let mut attrs: Vec<String> = (0..1 + self.r.below(3)).map(|_| self.attr().0).collect();
        attrs.sort();
        attrs.dedup();
        for (i, a) in attrs.into_iter().enumerate() {
            p.push(if self.r.pct(30) { PA::As(a, format!(":p/a{}", i)) } else { PA::Attr(a) });
        }
        let k = self.r.below(p.len() as u64) as usize;
        p.rotate_left(k);
        p
    }

    pub fn query(&mut self) -> Q {
        if self.p.odd_pct > 0 && self.r.pct(self.p.odd_pct) {
            let q = loop {
                match self.plain_query() {
                    q @ Q::D(_) | q @ Q::PullF { .. } => break q,
                    _ => {}
                }
            };
            return Q::Odd { q: Box::new(q), salt: self.r.next() };
        }
        self.plain_query()
    }

    fn plain_query(&mut self) -> Q {
        match self.r.weighted(&[60, 14, 10, 6, 3]) {
            0 => Q::D(if self.r.pct(45) { self.composed() } else { self.dq() }),
            1 => {
                let e = match self.handle() {
                    Some(h) => EP::H(h),
                    None => EP::Ident(":db/ident".into()),
                };
                let (a, all) = (self.attr().0, self.r.pct(50));
                Q::Lookup { e, a, all }
            }
            2 => {
                let n = 1 + self.r.below(4);
                let mut es: Vec<EP> = vec![];
                for _ in 0..n {
                    if let Some(h) = self.handle() {
                        es.push(EP::H(h));
                    }
                }
                if es.is_empty() {
                    es.push(EP::Ident(":db/ident".into()));
                }
                let mut attrs: Vec<String> = (0..1 + self.r.below(4)).map(|_| self.attr().0).collect();
                attrs.sort();
                attrs.dedup();
                Q::Pull { es, attrs, many: self.r.pct(50) }
            }
            3 if self.r.pct(60) => {
                let mut p = self.pull_spec();
                let p2 = self.pull_spec();
                let (mut by, d) = self.attr();
                let mut shape = self.r.below(8) as u8;
                if shape == 7 && d.vt != Vt::Ref {
                    // Two entities are pulled: it takes a reference.
                    let refs: Vec<String> =
                        self.m.names.iter().filter(|(e, _)| self.m.attrs.get(e).map_or(false, |d| d.vt == Vt::Ref)).map(|x| x.1.clone()).collect();
                    if refs.is_empty() {
                        shape = 5;
                    } else {
                        by = self.r.pick::<String>(&refs).clone();
                    }
                }
                if shape == 0 && self.r.pct(50) {
                    p.retain(|x| !matches!(x, PA::IdAs(_)));
                    if !p.contains(&PA::Id) {
                        p.insert(0, PA::Id);
                    }
                }
                let order = if self.r.pct(30) && ![2, 3, 4].contains(&shape) { Some(self.r.pct(50)) } else { None };
                let limit = if self.r.pct(25) { Some(1 + self.r.below(4) as u64) } else { None };
                Q::PullF { shape, p, p2, by, order, limit }
            }
            3 => {
                let mut attrs: Vec<String> = (0..1 + self.r.below(3)).map(|_| self.attr().0).collect();
                attrs.sort();
                attrs.dedup();
                let by = self.attr().0;
                Q::PullQ { attrs, by }
            }
            _ => Q::Idents,
        }
    }

    /// A number, string, keyword or the like which some datom of an attribute of that type has, if there
    /// is one.
    fn const_of(&mut self, a: &str, d: &AttrDef) -> V {
        let ae = self.m.idents.get(a).cloned().unwrap_or(0);
        let have: Vec<V> =
            self.m.avet.range((ae, V::Ref(i64::MIN))..).take_while(|(k, _)| k.0 == ae).map(|(k, _)| k.1.clone()).collect();
        if !have.is_empty() && self.r.pct(80) {
            self.r.pick(&have).clone()
        } else if d.vt == Vt::Ref {
            V::Ref(1)
        } else {
            self.atom(d.vt)
        }
    }

    fn as_pt(&self, v: V) -> PT {
        match v {
            V::Ref(e) => match self.name_of(e) {
                Some(n) => PT::E(EP::H(n)),
                None => match self.m.names.get(&e) {
                    Some(k) => PT::E(EP::Ident(k.clone())),
                    None => PT::E(EP::Raw(e)),
                },
            },
            v => PT::C(v),
        }
    }

    /// Any attribute, those of the core schema now and then.
    fn any_attr(&mut self) -> (String, AttrDef) {
        if self.r.pct(12) {
            let k = *self.r.pick(&[":db/ident", ":db/valueType", ":db/cardinality", ":db/txInstant", ":db/unique"]);
            if let Some((_, d)) = self.m.attr(k) {
                return (k.to_string(), d.clone());
            }
        }
        self.attr()
    }

    /// Clauses put together at random, over variables whose types are remembered.
    fn composed(&mut self) -> DQ {
        let mut q = DQ {
            find: Find::Rel(vec![]),
            with: vec![],
            ins: vec![],
            clauses: vec![],
            order: vec![],
            limit: None,
            limit_in: false,
            wild: true,
        };
        // None: any type.
        let mut vars: Vec<(String, Option<Vt>)> = vec![];
        let mut n = 0;
        let pats = *self.r.pick(&[1, 1, 2, 2, 2, 3, 3, 4]);
        let mut domains: std::collections::BTreeMap<String, (String, AttrDef)> = Default::default();
        for _ in 0..pats {
            let c = self.pattern(&mut vars, &mut n, &mut domains);
            q.clauses.push(c);
        }
        if vars.is_empty() {
            let (a, d) = self.attr();
            q.clauses.push(Self::pat(Self::var("?e"), &a, Self::var("?v")));
            vars.push(("?e".into(), Some(Vt::Ref)));
            vars.push(("?v".into(), Some(d.vt)));
            domains.insert("?v".into(), (a, d));
        }
        for _ in 0..*self.r.pick(&[0, 0, 1, 1, 1, 2, 2, 3]) {
            let of = |t: Vt, vars: &Vec<(String, Option<Vt>)>| -> Vec<String> {
                vars.iter().filter(|x| x.1 == Some(t)).map(|x| x.0.clone()).collect()
            };
            match self.r.below(9) {
                0 | 1 => {
                    // A comparison.
                    let c: Vec<(String, Option<Vt>)> = vars
                        .iter()
                        .filter(|x| matches!(x.1, Some(Vt::Long) | Some(Vt::Dbl) | Some(Vt::Inst)) || (x.1.is_none() && self.r.pct(30)))
                        .cloned()
                        .collect();
                    if c.is_empty() || self.r.pct(25) {
                        let c = of(Vt::Ref, &vars);
                        if c.len() >= 2 {
                            let (x, y) = (self.r.pick(&c).clone(), self.r.pick(&c).clone());
                            let op = *self.r.pick(&["differ", "unpermute", "tx-after", "tx-before"]);
                            q.clauses.push(Cl::Pred { op: op.into(), l: Self::var(&x), r: Self::var(&y) });
                        }
                        continue;
                    }
                    let (x, t) = self.r.pick(&c).clone();
                    let same: Vec<String> =
                        c.iter().filter(|y| y.0 != x && t.is_some() && (y.1 == t || (y.1 == Some(Vt::Dbl) && t == Some(Vt::Long)) || (y.1 == Some(Vt::Long) && t == Some(Vt::Dbl)))).map(|y| y.0.clone()).collect();
                    let other = if !same.is_empty() && self.r.pct(40) {
                        Self::var(self.r.pick::<String>(&same))
                    } else {
                        match domains.get(&x).cloned() {
                            Some((a, d)) if t.is_some() && self.r.pct(70) => PT::C(self.const_of(&a, &d)),
                            _ => match t {
                                Some(Vt::Inst) => PT::C(self.atom(Vt::Inst)),
                                _ => {
                                    let t = *self.r.pick(&[Vt::Long, Vt::Long, Vt::Dbl]);
                                    PT::C(self.atom(t))
                                }
                            },
                        }
                    };
                    let op = *self.r.pick(&["<", "<=", ">", ">=", "!="]);
                    let (l, r) = if self.r.pct(70) { (Self::var(&x), other) } else { (other, Self::var(&x)) };
                    q.clauses.push(Cl::Pred { op: op.into(), l, r });
                }
                2 | 3 => {
                    // Not.
                    let c = of(Vt::Ref, &vars);
                    if c.is_empty() {
                        continue;
                    }
                    let e = self.r.pick(&c).clone();
                    let (a, d) = self.any_attr();
                    if self.r.pct(60) {
                        let same = of(d.vt, &vars);
                        let v = match self.r.below(4) {
                            0 if !same.is_empty() => Self::var(self.r.pick::<String>(&same)),
                            0 | 1 | 2 => {
                                let v = self.const_of(&a, &d);
                                self.as_pt(v)
                            }
                            _ => PT::Blank,
                        };
                        let mut inner = vec![Self::pat(Self::var(&e), &a, v)];
                        if self.r.pct(25) {
                            let (b, bd) = self.any_attr();
                            let v = if self.r.pct(50) {
                                PT::Blank
                            } else {
                                let v = self.const_of(&b, &bd);
                                self.as_pt(v)
                            };
                            inner.push(Self::pat(Self::var(&e), &b, v));
                        }
                        q.clauses.push(Cl::Not(inner));
                    } else {
                        let mut inner = vec![Self::pat(Self::var(&e), &a, Self::var("?l0"))];
                        if d.vt == Vt::Ref && self.r.pct(50) {
                            let (b, _) = self.any_attr();
                            inner.push(Self::pat(Self::var("?l0"), &b, Self::var("?l1")));
                        } else if matches!(d.vt, Vt::Long | Vt::Inst) && self.r.pct(60) {
                            let v = self.const_of(&a, &d);
                            inner.push(Cl::Pred { op: self.r.pick(&["<", ">="]).to_string(), l: Self::var("?l0"), r: PT::C(v) });
                        }
                        q.clauses.push(Cl::NotJoin(vec![e], inner));
                    }
                }
                4 | 5 => {
                    // Or.
                    let c = of(Vt::Ref, &vars);
                    let fresh = c.is_empty() || self.r.pct(15);
                    let e = if fresh { "?o".to_string() } else { self.r.pick(&c).clone() };
                    let join = self.r.pct(40);
                    let bound = !join && self.r.pct(45);
                    let mut bs = vec![];
                    let mut types = std::collections::BTreeSet::new();
                    n += 1;
                    let w = format!("?w{}", n);
                    let one = self.any_attr();
                    for _ in 0..2 + self.r.below(2) {
                        let (a, d) = if self.r.pct(30) { one.clone() } else { self.any_attr() };
                        let v = if bound {
                            types.insert(d.vt);
                            Self::var(&w)
                        } else if join && self.r.pct(50) {
                            Self::var("?l2")
                        } else {
                            let v = self.const_of(&a, &d);
                            self.as_pt(v)
                        };
                        let mut b = vec![Self::pat(Self::var(&e), &a, v.clone())];
                        let mut v = v;
                        if bound && self.r.pct(12) {
                            // The same variables elsewhere: the transaction, or the other way about.
                            types.insert(Vt::Ref);
                            if d.vt == Vt::Ref && self.r.pct(60) {
                                b[0] = Self::pat(Self::var(&w), &a, Self::var(&e));
                            } else {
                                b[0] = Self::pat(Self::var(&e), &a, PT::Blank);
                                if let Cl::Pat { tx, .. } = &mut b[0] {
                                    *tx = Some(Self::var(&w));
                                }
                            }
                            v = PT::Blank;
                        } else if !bound && d.vt == Vt::Ref && self.r.pct(20) {
                            // The entity as the value.
                            let x = match self.r.below(3) {
                                0 => PT::Blank,
                                1 if join => Self::var("?l2"),
                                _ => {
                                    let (x, xd) = self.attr_where(|d| d.vt == Vt::Ref).unwrap_or((a.clone(), d.clone()));
                                    let x = self.const_of(&x, &xd);
                                    self.as_pt(x)
                                }
                            };
                            v = PT::Blank;
                            b[0] = Self::pat(x, &a, Self::var(&e));
                        } else if let (Cl::Pat { tx, .. }, true) = (&mut b[0], self.r.pct(15)) {
                            // Which transaction it's of.
                            *tx = Some(match self.r.below(3) {
                                0 if join => Self::var("?l3"),
                                0 => PT::Blank,
                                _ => {
                                    let txs: Vec<E> = self.m.datoms.values().map(|t| *t).collect();
                                    if txs.is_empty() { PT::Blank } else { PT::E(EP::Raw(*self.r.pick(&txs))) }
                                }
                            });
                        }
                        if self.r.pct(25) {
                            let (x, xd) = self.any_attr();
                            let y = if self.r.pct(40) {
                                PT::Blank
                            } else {
                                let y = self.const_of(&x, &xd);
                                self.as_pt(y)
                            };
                            b.push(Self::pat(Self::var(&e), &x, y));
                        }
                        if let (PT::Var(x), true) = (&v, matches!(d.vt, Vt::Long | Vt::Inst) && self.r.pct(30)) {
                            let y = self.const_of(&a, &d);
                            b.push(Cl::Pred { op: self.r.pick(&["<", ">"]).to_string(), l: Self::var(x), r: PT::C(y) });
                        }
                        if self.r.pct(12) {
                            let (x, xd) = self.any_attr();
                            let y = self.const_of(&x, &xd);
                            let y = self.as_pt(y);
                            b.push(Cl::Not(vec![Self::pat(Self::var(&e), &x, y)]));
                        }
                        bs.push(b);
                    }
                    if bound {
                        let t = if types.len() == 1 { types.iter().next().cloned() } else { None };
                        vars.push((w, t));
                    }
                    if fresh && !vars.iter().any(|x| x.0 == e) {
                        vars.push((e.clone(), Some(Vt::Ref)));
                    }
                    q.clauses.push(if join { Cl::OrJoin(vec![e], bs) } else { Cl::Or(bs) });
                }
                6 => {
                    // The type of something.
                    let any: Vec<String> = vars.iter().filter(|x| x.1.is_none() || self.r.pct(10)).map(|x| x.0.clone()).collect();
                    if !any.is_empty() {
                        let t = *self.r.pick(&[Vt::Ref, Vt::Bool, Vt::Long, Vt::Dbl, Vt::Str, Vt::Kw, Vt::Inst, Vt::Uuid]);
                        let x = self.r.pick(&any).clone();
                        q.clauses.push(Cl::Type(x.clone(), t));
                        for v in vars.iter_mut() {
                            if v.0 == x && v.1.is_none() {
                                v.1 = Some(t);
                            }
                        }
                    }
                }
                7 => {
                    // Given values.
                    let c: Vec<(String, (String, AttrDef))> = domains
                        .iter()
                        .filter(|(_, d)| d.1.vt != Vt::Ref)
                        .map(|(k, v)| (k.clone(), v.clone()))
                        .collect();
                    if c.is_empty() {
                        continue;
                    }
                    let (x, (a, d)) = self.r.pick(&c).clone();
                    let k = 1 + self.r.below(3) as usize;
                    let mut vs: Vec<V> = (0..k).map(|_| self.const_of(&a, &d)).collect();
                    vs.sort();
                    vs.dedup();
                    if self.r.pct(50) {
                        let at = self.r.below(q.clauses.len() as u64 + 1) as usize;
                        q.clauses.insert(at, Cl::Ground { var: x, vals: vs });
                    } else {
                        let label = format!("?g{}", n);
                        n += 1;
                        let rows: Vec<Vec<V>> =
                            vs.into_iter().enumerate().map(|(i, v)| vec![v, V::Long(i as i64 / 2)]).collect();
                        let named = self.r.pct(75);
                        let at = self.r.below(q.clauses.len() as u64 + 1) as usize;
                        q.clauses.insert(at, Cl::GroundRel { vars: vec![Some(x), if named { Some(label.clone()) } else { None }], rows });
                        if named {
                            vars.push((label, Some(Vt::Long)));
                        }
                    }
                }
                _ => {
                    if let Some((f, _)) = self.attr_where(|d| d.fulltext) {
                        let c = of(Vt::Ref, &vars);
                        let e = if c.is_empty() || self.r.pct(20) { "?fe".to_string() } else { self.r.pick(&c).clone() };
                        let mut binds = vec![Some(e.clone())];
                        let mut new = vec![(e, Some(Vt::Ref))];
                        for (x, t) in [("?fv", Vt::Str), ("?ft", Vt::Ref), ("?fs", Vt::Dbl)].iter() {
                            if self.r.pct(40) {
                                break;
                            }
                            if self.r.pct(70) {
                                binds.push(Some(x.to_string()));
                                new.push((x.to_string(), Some(*t)));
                            } else {
                                binds.push(None);
                            }
                        }
                        let term = V::Str(self.r.pick(&["hello", "world", "a", "common", "c", "common hello", "HELLO", "Common A"]).to_string());
                        let had = q.ins.len();
                        let term = if had == 0 && self.r.pct(30) {
                            q.ins.push(("?term".into(), term));
                            Self::var("?term")
                        } else {
                            PT::C(term)
                        };
                        if new.iter().skip(1).any(|x| vars.iter().any(|y| y.0 == x.0)) {
                            q.ins.truncate(had);
                            continue;
                        }
                        q.clauses.push(Cl::FtsR { a: f, term, binds });
                        for x in new {
                            if !vars.iter().any(|y| y.0 == x.0) {
                                vars.push(x);
                            }
                        }
                    }
                }
            }
        }
        // An input.
        if self.r.pct(20) && !q.clauses.iter().any(|c| matches!(c, Cl::Ground { .. } | Cl::GroundRel { .. })) {
            // The score of a match cannot be given.
            let c: Vec<(String, Option<Vt>)> = vars.iter().filter(|x| x.1.is_some() && x.0 != "?fs").cloned().collect();
            if !c.is_empty() {
                let (x, t) = self.r.pick(&c).clone();
                let v = match (domains.get(&x).cloned(), t) {
                    (Some((a, d)), _) => Some(self.const_of(&a, &d)),
                    (None, Some(Vt::Ref)) => {
                        let es: Vec<E> = self.m.datoms.keys().map(|k| k.0).filter(|e| *e >= USER0).collect();
                        if es.is_empty() { None } else { Some(V::Ref(*self.r.pick(&es))) }
                    }
                    (None, Some(t)) => Some(self.atom(t)),
                    _ => None,
                };
                if let Some(v) = v {
                    q.ins.push((x, v));
                }
            }
        }
        // What to find.
        for i in (1..vars.len()).rev() {
            let j = self.r.below(i as u64 + 1) as usize;
            vars.swap(i, j);
        }
        let nv = 1 + self.r.below(vars.len().min(4) as u64) as usize;
        let shown: Vec<(String, Option<Vt>)> = vars.iter().take(nv).cloned().collect();
        let els: Vec<El> = shown.iter().map(|v| El::Var(v.0.clone())).collect();
        match self.r.below(12) {
            0 => q.find = Find::Coll(els[0].clone()),
            1 => q.find = Find::Scalar(els[0].clone()),
            2 => q.find = Find::Tuple(els),
            3 | 4 | 5 => {
                let mut out = vec![];
                let mut with_max = false;
                for (x, t) in &shown {
                    if out.is_empty() || self.r.pct(50) {
                        let f = match t {
                            Some(Vt::Long) | Some(Vt::Dbl) => *self.r.pick(&["count", "sum", "avg", "min", "max"]),
                            Some(Vt::Str) | Some(Vt::Inst) | Some(Vt::Bool) => *self.r.pick(&["count", "min", "max"]),
                            _ => "count",
                        };
                        with_max |= f == "min" || f == "max";
                        out.push(El::Agg(f.to_string(), x.clone()));
                    } else {
                        out.push(El::Var(x.clone()));
                    }
                }
                if with_max && out.iter().filter(|e| matches!(e, El::Agg(f, _) if f == "min" || f == "max")).count() == 1 {
                    for e in out.iter_mut() {
                        if let El::Var(x) = e {
                            if self.r.pct(50) {
                                *e = El::Agg("the".into(), x.clone());
                            }
                        }
                    }
                }
                if let (Some(w), true) = (vars.get(nv), self.r.pct(30)) {
                    q.with.push(w.0.clone());
                }
                let by: Vec<String> = out.iter().filter_map(|e| if let El::Var(x) = e { Some(x.clone()) } else { None }).collect();
                q.find = if out.len() == 1 && self.r.pct(50) { Find::Scalar(out.remove(0)) } else { Find::Rel(out) };
                if matches!(q.find, Find::Rel(_)) {
                    if let (Some(x), true) = (by.first(), self.r.pct(30)) {
                        if shown.iter().any(|y| y.0 == *x && y.1.is_some() && y.1 != Some(Vt::Dbl) && y.1 != Some(Vt::Uuid)) {
                            q.order.push((self.r.pct(50), x.clone()));
                        }
                    }
                    if self.r.pct(20) {
                        q.limit = Some(1 + self.r.below(3));
                        q.limit_in = self.r.pct(40);
                    }
                }
            }
            _ => {
                q.find = Find::Rel(els);
                let s: Vec<String> = shown
                    .iter()
                    .filter(|x| matches!(x.1, Some(Vt::Ref) | Some(Vt::Long) | Some(Vt::Str) | Some(Vt::Kw) | Some(Vt::Inst) | Some(Vt::Bool)))
                    .map(|x| x.0.clone())
                    .collect();
                if !s.is_empty() && self.r.pct(40) {
                    q.order.push((self.r.pct(50), s[0].clone()));
                    if s.len() > 1 && self.r.pct(50) {
                        q.order.push((self.r.pct(50), s[1].clone()));
                    }
                }
                if self.r.pct(30) {
                    q.limit = Some(1 + self.r.below(4));
                    q.limit_in = self.r.pct(40);
                }
            }
        }
        q
    }

    /// A value which looks the same and is of another type.
    fn alike(&mut self, v: V) -> V {
        match v {
            V::Kw(k) => V::Str(k),
            V::Str(s) => match KWS.iter().find(|k| **k == s) {
                Some(k) => V::Kw(k.to_string()),
                None => V::Str(s),
            },
            V::Long(x) | V::Ref(x) if x == 0 || x == 1 => V::Bool(x == 1),
            V::Bool(x) => V::Long(x as i64),
            V::Long(x) if x.abs() < 1 << 52 && x % 1000 == 0 => V::Inst(x),
            V::Inst(x) => V::Long(x),
            v => v,
        }
    }

    fn pattern(
        &mut self,
        vars: &mut Vec<(String, Option<Vt>)>,
        n: &mut usize,
        domains: &mut std::collections::BTreeMap<String, (String, AttrDef)>,
    ) -> Cl {
        let refs: Vec<String> = vars.iter().filter(|x| x.1 == Some(Vt::Ref)).map(|x| x.0.clone()).collect();
        let mut fresh = |vars: &mut Vec<(String, Option<Vt>)>, t: Option<Vt>| {
            *n += 1;
            let x = format!("?{}{}", if t == Some(Vt::Ref) { "e" } else { "v" }, n);
            vars.push((x.clone(), t));
            Self::var(&x)
        };
        let (a, d) = self.any_attr();
        if d.vt == Vt::Ref && self.r.pct(20) {
            let e = if !refs.is_empty() && self.r.pct(40) { Self::var(self.r.pick::<String>(&refs)) } else { fresh(vars, Some(Vt::Ref)) };
            let v = match self.r.below(3) {
                0 if !refs.is_empty() => Self::var(self.r.pick::<String>(&refs)),
                1 => {
                    let v = self.const_of(&a, &d);
                    self.as_pt(v)
                }
                _ => fresh(vars, Some(Vt::Ref)),
            };
            return Cl::Rev { v, a, e };
        }
        let e = match self.r.below(10) {
            0 => match self.handle() {
                Some(h) => PT::E(EP::H(h)),
                None => fresh(vars, Some(Vt::Ref)),
            },
            1 if !refs.is_empty() => PT::Blank,
            _ if !refs.is_empty() && self.r.pct(75) => Self::var(self.r.pick::<String>(&refs)),
            _ => fresh(vars, Some(Vt::Ref)),
        };
        let (at, dom) = match self.r.below(12) {
            0 => (fresh(vars, Some(Vt::Ref)), None),
            1 => (PT::Blank, None),
            _ => (Self::pa(&a), Some((a.clone(), d.clone()))),
        };
        let v = match &dom {
            Some((a, d)) => {
                let same: Vec<String> = vars.iter().filter(|x| x.1 == Some(d.vt)).map(|x| x.0.clone()).collect();
                match self.r.below(10) {
                    0 | 1 => {
                        let v = self.const_of(a, d);
                        self.as_pt(v)
                    }
                    2 | 3 if !same.is_empty() => Self::var(self.r.pick::<String>(&same)),
                    4 => PT::Blank,
                    _ => {
                        let v = fresh(vars, Some(d.vt));
                        if let PT::Var(x) = &v {
                            domains.insert(x.clone(), (a.clone(), d.clone()));
                        }
                        v
                    }
                }
            }
            None => match self.r.below(4) {
                0 => {
                    let v = self.const_of(&a, &d);
                    let v = if self.r.pct(30) { self.alike(v) } else { v };
                    self.as_pt(v)
                }
                1 => PT::Blank,
                2 if !vars.is_empty() && self.r.pct(30) => {
                    let c: Vec<String> = vars.iter().map(|x| x.0.clone()).collect();
                    Self::var(self.r.pick::<String>(&c))
                }
                _ => fresh(vars, None),
            },
        };
        let tx = if self.r.pct(12) {
            Some(match self.r.below(4) {
                0 => PT::E(EP::Raw(TX0 + self.r.range(0, 8))),
                1 if !refs.is_empty() => Self::var(self.r.pick::<String>(&refs)),
                _ => fresh(vars, Some(Vt::Ref)),
            })
        } else {
            None
        };
        Cl::Pat { e, a: at, v, tx }
    }

    fn dq(&mut self) -> DQ {
        let (a, d) = self.attr();
        let (b, bd) = self.attr();
        let mut q = DQ { find: Find::Rel(vec![]), with: vec![], ins: vec![], clauses: vec![], order: vec![], limit: None, limit_in: false, wild: false };
        let e = || Self::var("?e");
        let v = || Self::var("?v");
        let mut vars: Vec<String> = vec!["?e".into(), "?v".into()];
        let mut sortable: Vec<String> = vec!["?e".into()];
        if matches!(d.vt, Vt::Long | Vt::Str | Vt::Kw | Vt::Inst) {
            sortable.push("?v".into());
        }
        // What `min` and `max` take.
        let mut orderable = matches!(d.vt, Vt::Long | Vt::Inst | Vt::Str);
        let shape = if self.r.pct(self.p.fts_pct) {
            12
        } else if self.r.pct(self.p.log_pct) {
            *self.r.pick(&[11, 13, 13])
        } else {
            self.r.below(15)
        };
        match shape {
            0 | 1 => q.clauses.push(Self::pat(e(), &a, v())),
            2 => {
                q.clauses.push(Self::pat(e(), &a, v()));
                q.clauses.push(Self::pat(e(), &b, Self::var("?w")));
                vars.push("?w".into());
            }
            3 => {
                if let Some((r, _)) = self.attr_where(|d| d.vt == Vt::Ref) {
                    q.clauses.push(Self::pat(e(), &r, Self::var("?f")));
                    q.clauses.push(Self::pat(Self::var("?f"), &a, v()));
                    vars.push("?f".into());
                } else {
                    q.clauses.push(Self::pat(e(), &a, v()));
                }
            }
            4 => {
                let c = self.qconst(&a, &d);
                q.clauses.push(Self::pat(e(), &a, c));
                vars = vec!["?e".into()];
                sortable = vars.clone();
                if self.r.pct(50) {
                    q.clauses.push(Self::pat(e(), &b, Self::var("?w")));
                    vars.push("?w".into());
                }
            }
            5 => {
                let h = self.handle();
                match h {
                    Some(h) => {
                        q.clauses.push(Self::pat(PT::E(EP::H(h)), &a, v()));
                        vars = vec!["?v".into()];
                        sortable.retain(|x| x == "?v");
                    }
                    None => q.clauses.push(Self::pat(e(), &a, v())),
                }
            }
            6 => {
                // An input.
                q.clauses.push(Self::pat(e(), &a, v()));
                match self.qconst(&a, &d) {
                    PT::C(x) => {
                        q.ins.push(("?v".into(), x));
                        vars = vec!["?e".into()];
                        sortable = vars.clone();
                    }
                    _ => {}
                }
            }
            7 => {
                // A comparison.
                match self.attr_where(|d| matches!(d.vt, Vt::Long | Vt::Inst)) {
                    Some((x, xd)) => {
                        q.clauses.push(Self::pat(e(), &x, v()));
                        let op = *self.r.pick(&["<", "<=", ">", ">=", "!="]);
                        let c = self.atom(xd.vt);
                        q.clauses.push(Cl::Pred { op: op.into(), l: v(), r: PT::C(c) });
                        orderable = true;
                        sortable = vec!["?e".into(), "?v".into()];
                    }
                    None => q.clauses.push(Self::pat(e(), &a, v())),
                }
            }
            8 => {
                q.clauses.push(Self::pat(e(), &a, v()));
                let c = if self.r.pct(50) { self.qconst(&b, &bd) } else { PT::Blank };
                q.clauses.push(Cl::Not(vec![Self::pat(e(), &b, c)]));
            }
            9 => {
                let (c1, c2) = (self.qconst(&a, &d), self.qconst(&b, &bd));
                orderable = false;
                q.clauses.push(Cl::Or(vec![vec![Self::pat(e(), &a, c1)], vec![Self::pat(e(), &b, c2)]]));
                vars = vec!["?e".into()];
                sortable = vars.clone();
                if self.r.pct(40) {
                    let (x, _) = self.attr();
                    q.clauses.push(Self::pat(e(), &x, v()));
                    vars.push("?v".into());
                }
            }
            10 => {
                // Any attribute of one entity.
                if let Some(h) = self.handle() {
                    q.clauses.push(Cl::Pat {
                        e: PT::E(EP::H(h)),
                        a: Self::var("?a"),
                        v: v(),
                        tx: None,
                    });
                    vars = vec!["?a".into(), "?v".into()];
                    sortable = vec!["?a".into()];
                } else {
                    q.clauses.push(Self::pat(e(), &a, v()));
                }
            }
            11 => {
                q.clauses.push(Cl::Pat { e: e(), a: Self::pa(&a), v: v(), tx: Some(Self::var("?tx")) });
                vars.push("?tx".into());
                sortable.push("?tx".into());
                if self.r.pct(50) {
                    q.clauses.push(Self::pat(Self::var("?tx"), ":db/txInstant", Self::var("?i")));
                    vars.push("?i".into());
                }
            }
            12 => {
                if let Some((f, _)) = self.attr_where(|d| d.fulltext) {
                    let term = self.r.pick(&["hello", "world", "a", "common", "c", "World"]).to_string();
                    orderable = false;
                    q.clauses.push(Cl::Fts { a: f, term, e: "?e".into(), v: "?v".into() });
                    sortable = vec!["?e".into(), "?v".into()];
                } else {
                    q.clauses.push(Self::pat(e(), &a, v()));
                }
            }
            13 => {
                if self.r.pct(50) {
                    q.clauses.push(Cl::TxIds {
                        lo: PT::E(EP::Raw(TX0)),
                        hi: PT::E(EP::Raw(TX0 + self.r.range(0, 12))),
                        tx: "?tx".into(),
                    });
                    vars = vec!["?tx".into()];
                    sortable = vars.clone();
                } else {
                    let t = TX0 + self.r.range(0, 10);
                    q.clauses.push(Cl::TxData {
                        tx: PT::E(EP::Raw(t)),
                        e: "?e".into(),
                        a: "?a".into(),
                        v: "?v".into(),
                        added: "?added".into(),
                    });
                    vars = vec!["?e".into(), "?a".into(), "?v".into(), "?added".into()];
                    sortable = vec!["?e".into()];
                }
            }
            _ => {
                if d.vt != Vt::Ref {
                    let vals: Vec<V> = (0..1 + self.r.below(3)).map(|_| self.atom(d.vt)).collect();
                    let mut vals = vals;
                    vals.sort();
                    vals.dedup();
                    q.clauses.push(Cl::Ground { var: "?v".into(), vals });
                }
                q.clauses.push(Self::pat(e(), &a, v()));
            }
        }
        // What to find.
        let nv = 1 + self.r.below(vars.len() as u64) as usize;
        for i in (1..vars.len()).rev() {
            let j = self.r.below(i as u64 + 1) as usize;
            vars.swap(i, j);
        }
        let els: Vec<El> = vars.iter().take(nv).map(|v| El::Var(v.clone())).collect();
        match self.r.below(12) {
            0 => q.find = Find::Coll(els[0].clone()),
            1 => q.find = Find::Scalar(els[0].clone()),
            2 => q.find = Find::Tuple(els),
            3 if vars.contains(&"?e".to_string()) && q.ins.is_empty() => {
                // Aggregates.
                match self.r.below(3) {
                    0 => q.find = Find::Rel(vec![El::Agg("count".into(), "?e".into())]),
                    1 if vars.contains(&"?v".to_string()) && sortable.contains(&"?v".to_string()) && orderable => {
                        let f = *self.r.pick(&["min", "max"]);
                        q.find = Find::Rel(vec![El::Var("?e".into()), El::Agg(f.into(), "?v".into())]);
                    }
                    _ => {
                        q.find = Find::Scalar(El::Agg("count".into(), "?e".into()));
                    }
                }
                return q;
            }
            _ => {
                q.find = Find::Rel(els.clone());
                let s: Vec<String> = els
                    .iter()
                    .filter_map(|x| match x {
                        El::Var(v) if sortable.contains(v) => Some(v.clone()),
                        _ => None,
                    })
                    .collect();
                if !s.is_empty() && self.r.pct(30) {
                    q.order.push((self.r.pct(50), s[0].clone()));
                    if s.len() > 1 && self.r.pct(50) {
                        q.order.push((self.r.pct(50), s[1].clone()));
                    }
                    if self.r.pct(50) {
                        q.limit = Some(1 + self.r.below(4));
                    }
                }
            }
        }
        q
    }
}

/// scale: 0 for reading, 1 for opening, 2 for writing, 4 for creating a store.
pub fn fault(r: &mut Rng, p: &Profile, scale: u32) -> Fault {
        let mem = r.pct(p.mem_fault_pct);
        let (class, kind) = if mem {
            (Class::Malloc, FaultKind::NoMem)
        } else if scale == 0 || r.pct(p.read_fault_pct) {
            (Class::Read, FaultKind::Error)
        } else {
            match r.weighted(&[30, 8, 10, 20, 8, 4, 4, 4, 4, 4, 4]) {
                0 => (Class::Write, FaultKind::Error),
                1 => (Class::Write, FaultKind::Partial),
                2 => (Class::Write, FaultKind::Full),
                3 => (Class::Sync, FaultKind::Error),
                4 => (Class::Sync, FaultKind::LostSync),
                5 => (Class::Truncate, FaultKind::Error),
                6 => (Class::Open, FaultKind::Error),
                7 => (Class::FileSize, FaultKind::Error),
                8 => (Class::Lock, FaultKind::Busy),
                9 => (Class::ShmMap, FaultKind::Error),
                _ => (Class::ShmLock, FaultKind::Busy),
            }
        };
        let nth = match class {
            Class::Malloc => match r.below(3) {
                0 => r.below(40),
                1 => r.below(400),
                _ => r.below(if scale >= 4 { 20_000 } else { 4000 }),
            },
            Class::Write => {
                let n = *r.pick(&[2, 8, 40]);
                r.below(if scale >= 4 { n * 10 } else { n })
            }
            Class::Read => {
                let n = *r.pick(&[1, 4, 15]);
                r.below(n)
            }
            Class::ShmLock | Class::Lock => r.below(4),
            _ => {
                let n = *r.pick(&[1, 2, 5]);
                r.below(if scale >= 4 { n * 10 } else { n })
            }
        } as u32;
        let times = match r.below(6) {
            0 => 0,
            1 => 2 + r.below(4) as u32,
            _ => 1,
        };
        Fault { class, kind, nth, times }
}
