//! A scenario: one seeded execution, whatever engine runs it.

use serde::{Deserialize, Serialize};

use crate::exec::{Cov, Violation, World, M};
use crate::plan::*;
use crate::value::*;
use crate::{sys, vfs};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Scn {
    Single(Plan),
    Sync(crate::sync::SPlan),
    Conc(crate::conc::CPlan),
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub cov: Cov,
    pub trace: Vec<String>,
    /// Hash of every scheduling decision and every I/O operation.
    pub fingerprint: u64,
}

fn sim_cfg(seed: u64, c: &Cfg) -> sys::SimCfg {
    sys::SimCfg { seed, switch_pct: c.switch_pct, pct_depth: c.pct_depth, start_wall_ns: c.start_wall_ns }
}

pub fn run(s: &Scn, verbose: bool) -> Outcome {
    vfs::reset();
    let (cfg, body): (sys::SimCfg, Box<dyn FnOnce() -> (Option<Violation>, Cov, Vec<String>) + Send>) = match s {
        Scn::Single(p) => {
            if !p.cfg.bare {
                vfs::install(M, crate::golden_image());
            }
            let p = p.clone();
            (
                sim_cfg(p.seed, &p.cfg),
                Box::new(move || {
                    let mut w = World::new(p, verbose);
                    let t0 = sys::mono_ns();
                    let r = w.run();
                    w.abandon();
                    w.cov.sim_ns = sys::mono_ns() - t0;
                    (r.err(), w.cov, w.trace)
                }),
            )
        }
        Scn::Conc(p) => {
            if !p.cfg.bare {
                vfs::install(M, crate::golden_image());
            }
            let p = p.clone();
            (
                sim_cfg(p.seed, &p.cfg),
                Box::new(move || {
                    let mut w = crate::conc::Conc::new(p, verbose);
                    let t0 = sys::mono_ns();
                    let r = w.run();
                    w.abandon();
                    w.cov.sim_ns = sys::mono_ns() - t0;
                    (r.err(), w.cov, w.trace)
                }),
            )
        }
        Scn::Sync(p) => {
            for i in 0..p.n {
                vfs::install(&crate::sync::machine(i), crate::golden_image());
            }
            let p = p.clone();
            (
                sim_cfg(p.seed, &p.cfg),
                Box::new(move || {
                    let mut w = crate::sync::Sync::new(p, verbose);
                    let t0 = sys::mono_ns();
                    let r = w.run();
                    w.abandon();
                    w.cov.sim_ns = sys::mono_ns() - t0;
                    (r.err(), w.cov, w.trace)
                }),
            )
        }
    };
    let r = sys::run(&cfg, body);
    let st = sys::stats();
    let (iolog, iohash) = vfs::take_log();
    let io = vfs::io_stats();
    let fingerprint = crate::rng::mix(st.trace_hash, iohash);
    match r {
        Ok((violation, mut cov, mut trace)) => {
            for (k, n) in io.injected {
                *cov.counts.entry(format!("injected.{}", k)).or_insert(0) += n;
            }
            *cov.counts.entry("io.ops".into()).or_insert(0) += io.ops.values().sum::<u64>();
            *cov.counts.entry("sched.switches".into()).or_insert(0) += st.switches;
            *cov.counts.entry("sched.points".into()).or_insert(0) += st.decisions;
            cov.sched = st.trace_hash;
            if verbose {
                trace.extend(iolog);
            }
            Outcome { violation, cov, trace, fingerprint }
        }
        Err(p) => Outcome {
            violation: Some(Violation {
                tag: "panic:harness".into(),
                what: format!(
                    "the run itself failed: {}",
                    p.downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default()
                ),
                step: 0,
            }),
            cov: Cov::default(),
            trace: vec![],
            fingerprint,
        },
    }
}

/// Simpler scenarios, the biggest cuts first.
pub fn shrink(s: &Scn) -> Vec<Scn> {
    let mut out = vec![];
    match s {
        Scn::Sync(p) => out.extend(crate::sync::shrink(p).into_iter().map(Scn::Sync)),
        Scn::Conc(p) => out.extend(crate::conc::shrink(p).into_iter().map(Scn::Conc)),
        Scn::Single(p) => {
            let n = p.steps.len();
            let mut k = n / 2;
            while k >= 1 {
                let mut i = 0;
                while i < n {
                    let mut q = p.clone();
                    q.steps.drain(i..(i + k).min(n));
                    out.push(Scn::Single(q));
                    i += k;
                }
                k /= 2;
            }
            for (i, st) in p.steps.iter().enumerate() {
                let mut put = |f: &dyn Fn(&mut Step)| {
                    let mut q = p.clone();
                    f(&mut q.steps[i]);
                    if q != *p {
                        out.push(Scn::Single(q));
                    }
                };
                put(&|s| s.jump_ms = 0);
                put(&|s| s.faults.clear());
                put(&|s| s.crash = None);
                put(&|s| {
                    for f in s.faults.iter_mut() {
                        f.times = 1;
                    }
                });
                match &st.kind {
                    Kind::Auto(ops) => {
                        for o in shrink_ops(ops) {
                            put(&|s| s.kind = Kind::Auto(o.clone()));
                        }
                    }
                    Kind::Txn { parts, end } => {
                        for j in 0..parts.len() {
                            let mut ps = parts.clone();
                            ps.remove(j);
                            put(&|s| s.kind = Kind::Txn { parts: ps.clone(), end: *end });
                            match &parts[j] {
                                Part::Ops(ops) | Part::Built(ops) if !ops.is_empty() => {
                                    for o in shrink_ops(ops) {
                                        let mut ps = parts.clone();
                                        ps[j] = Part::Ops(o);
                                        put(&|s| s.kind = Kind::Txn { parts: ps.clone(), end: *end });
                                    }
                                }
                                Part::Ensure(e) => {
                                    for x in crate::vocab::shrink(e) {
                                        let mut ps = parts.clone();
                                        ps[j] = Part::Ensure(Box::new(x));
                                        put(&|s| s.kind = Kind::Txn { parts: ps.clone(), end: *end });
                                    }
                                }
                                _ => {}
                            }
                        }
                        if let (1, Some(Part::Ops(o)), End::Commit) = (parts.len(), parts.get(0), end) {
                            put(&|s| s.kind = Kind::Auto(o.clone()));
                        }
                    }
                    Kind::Apart { cache, ops, qs } => {
                        put(&|s| s.kind = Kind::Auto(ops.clone()));
                        put(&|s| s.kind = Kind::Apart { cache: None, ops: ops.clone(), qs: qs.clone() });
                        put(&|s| s.kind = Kind::Apart { cache: cache.clone(), ops: vec![], qs: qs.clone() });
                        for o in shrink_ops(ops) {
                            put(&|s| s.kind = Kind::Apart { cache: cache.clone(), ops: o.clone(), qs: qs.clone() });
                        }
                        for i in 0..qs.len() {
                            let mut less = qs.clone();
                            less.remove(i);
                            put(&|s| s.kind = Kind::Apart { cache: cache.clone(), ops: ops.clone(), qs: less.clone() });
                        }
                    }
                    Kind::Query { q, via } if *via != Via::Store => {
                        put(&|s| s.kind = Kind::Query { q: q.clone(), via: Via::Store });
                    }
                    _ => {}
                }
            }
            let mut cfg = |f: &dyn Fn(&mut Cfg)| {
                let mut q = p.clone();
                f(&mut q.cfg);
                if q != *p {
                    out.push(Scn::Single(q));
                }
            };
            cfg(&|c| c.var_limit = None);
            cfg(&|c| c.cache_pages = None);
            cfg(&|c| c.autockpt = None);
            cfg(&|c| {
                c.switch_pct = 0;
                c.pct_depth = 0;
            });
        }
    }
    out
}

pub fn shrink_ops(ops: &[Op]) -> Vec<Vec<Op>> {
    let mut out = vec![];
    let n = ops.len();
    let mut k = n / 2;
    while k >= 1 {
        let mut i = 0;
        while i < n {
            let mut o = ops.to_vec();
            o.drain(i..(i + k).min(n));
            if !o.is_empty() {
                out.push(o);
            }
            i += k;
        }
        k /= 2;
    }
    for (i, o) in ops.iter().enumerate() {
        let mut put = |n: Op| {
            let mut v = ops.to_vec();
            v[i] = n;
            out.push(v);
        };
        match o {
            Op::Map(id, kvs) => {
                for j in 0..kvs.len() {
                    if kvs.len() > 1 {
                        let mut k = kvs.clone();
                        k.remove(j);
                        put(Op::Map(id.clone(), k));
                    }
                    match &kvs[j].1 {
                        VP::Many(vs) if vs.len() > 1 => {
                            for x in 0..vs.len() {
                                let mut w = vs.clone();
                                w.remove(x);
                                let mut k = kvs.clone();
                                k[j].1 = VP::Many(w);
                                put(Op::Map(id.clone(), k));
                            }
                        }
                        VP::Many(vs) if vs.len() == 1 => {
                            let mut k = kvs.clone();
                            k[j].1 = vs[0].clone();
                            put(Op::Map(id.clone(), k));
                        }
                        VP::Map(i2, inner) => {
                            for x in 0..inner.len() {
                                let mut w = inner.clone();
                                w.remove(x);
                                let mut k = kvs.clone();
                                k[j].1 = VP::Map(i2.clone(), w);
                                put(Op::Map(id.clone(), k));
                            }
                        }
                        _ => {}
                    }
                }
            }
            Op::Add(e, a, VP::Many(vs)) if vs.len() > 1 => {
                for x in 0..vs.len() {
                    let mut w = vs.clone();
                    w.remove(x);
                    put(Op::Add(e.clone(), a.clone(), VP::Many(w)));
                }
            }
            _ => {}
        }
    }
    out
}

/// Greedy minimisation, within a real-time budget.
pub fn minimise<F: FnMut(&Scn) -> bool>(s: &Scn, budget_s: i64, mut fails: F) -> (Scn, u32) {
    let t0 = sys::real_now_ns();
    let mut best = s.clone();
    let mut tried = 0;
    'outer: loop {
        for c in shrink(&best) {
            if sys::real_now_ns() - t0 > budget_s * 1_000_000_000 {
                break 'outer;
            }
            tried += 1;
            if fails(&c) {
                best = c;
                continue 'outer;
            }
        }
        break;
    }
    (best, tried)
}

impl Scn {
    pub fn nothing() -> Scn {
        Scn::Single(Plan {
            seed: 0,
            cfg: Cfg {
                switch_pct: 0,
                pct_depth: 0,
                start_wall_ns: 1_577_836_800_000_000_000,
                sector: 512,
                var_limit: None,
                cache_pages: None,
                autockpt: None,
                bare: false,
            },
            steps: vec![],
        })
    }

    /// How many steps there are.
    pub fn len(&self) -> usize {
        match self {
            Scn::Single(p) => p.steps.len(),
            Scn::Sync(p) => p.steps.len(),
            Scn::Conc(p) => p.steps.len(),
        }
    }
}
