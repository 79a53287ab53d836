//! Which fresh ids did the store choose?  The changes a transaction should make are known up to
//! the names of the entities it creates; the ids are read off the changes it did make.

use std::collections::{BTreeMap, BTreeSet};

use crate::model::Change;
use crate::rng::mix;
use crate::value::*;

enum Term {
    Node(usize),
    Const(u64),
}

struct Side {
    nodes: Vec<E>,
    facts: Vec<(Term, E, Term, bool)>,
}

fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn side(changes: &BTreeSet<Change>, nodes: Vec<E>, rename: &BTreeMap<E, E>) -> Side {
    let term = |x: E| -> Term {
        match nodes.iter().position(|n| *n == x) {
            Some(i) => Term::Node(i),
            None => Term::Const(hash(&(0, rename.get(&x).cloned().unwrap_or(x)))),
        }
    };
    let facts = changes
        .iter()
        .map(|c| {
            let v = match &c.2 {
                V::Ref(x) => term(*x),
                v => Term::Const(hash(&(1, v))),
            };
            (term(c.0), c.1, v, c.3)
        })
        .collect();
    Side { nodes, facts }
}

fn refine(s: &Side, colors: &mut Vec<u64>) {
    for _ in 0..s.nodes.len().min(8) + 1 {
        let mut seen: Vec<Vec<u64>> = vec![vec![]; s.nodes.len()];
        let c = |t: &Term| match t {
            Term::Node(i) => mix(7, colors[*i]),
            Term::Const(h) => mix(11, *h),
        };
        for f in &s.facts {
            let base = mix(f.1 as u64, u64::from(f.3));
            if let Term::Node(i) = f.0 {
                seen[i].push(mix(mix(base, 1), c(&f.2)));
            }
            if let Term::Node(i) = f.2 {
                seen[i].push(mix(mix(base, 2), c(&f.0)));
            }
        }
        for (i, mut l) in seen.into_iter().enumerate() {
            l.sort();
            colors[i] = l.into_iter().fold(mix(3, colors[i]), mix);
        }
    }
}

fn search(x: &Side, y: &Side, cx: &[u64], cy: &[u64], budget: &mut u32) -> Option<Vec<usize>> {
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    let (mut cx, mut cy) = (cx.to_vec(), cy.to_vec());
    refine(x, &mut cx);
    refine(y, &mut cy);
    let group = |c: &[u64]| {
        let mut m: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
        for (i, k) in c.iter().enumerate() {
            m.entry(*k).or_default().push(i);
        }
        m
    };
    let (gx, gy) = (group(&cx), group(&cy));
    if gx.len() != gy.len() || gx.iter().any(|(k, v)| gy.get(k).map_or(true, |w| w.len() != v.len())) {
        return None;
    }
    match gx.iter().filter(|g| g.1.len() > 1).min_by_key(|g| g.1.len()) {
        None => {
            let m: Vec<usize> = cx.iter().map(|k| gy[k][0]).collect();
            let mut fx: Vec<(u64, E, u64, bool)> = vec![];
            let mut fy = vec![];
            for f in &x.facts {
                let t = |t: &Term| match t {
                    Term::Node(i) => hash(&(2, m[*i])),
                    Term::Const(h) => *h,
                };
                fx.push((t(&f.0), f.1, t(&f.2), f.3));
            }
            for f in &y.facts {
                let t = |t: &Term| match t {
                    Term::Node(i) => hash(&(2, *i)),
                    Term::Const(h) => *h,
                };
                fy.push((t(&f.0), f.1, t(&f.2), f.3));
            }
            fx.sort();
            fy.sort();
            if fx == fy {
                Some(m)
            } else {
                None
            }
        }
        Some((k, v)) => {
            let i = v[0];
            for j in &gy[k] {
                let (mut dx, mut dy) = (cx.clone(), cy.clone());
                dx[i] = mix(dx[i], 0x1d);
                dy[*j] = mix(dy[*j], 0x1d);
                if let Some(m) = search(x, y, &dx, &dy, budget) {
                    return Some(m);
                }
            }
            None
        }
    }
}

/// Ids for the entities `fresh` (provisional ids used in `want`), some already `known`, such that
/// `want` becomes `got`; the store's own fresh ids are those in `lo..hi`.
pub fn assign(
    want: &BTreeSet<Change>,
    fresh: &[E],
    known: &BTreeMap<E, E>,
    got: &BTreeSet<Change>,
    lo: E,
    hi: E,
) -> Option<BTreeMap<E, E>> {
    let used = |s: &BTreeSet<Change>| -> BTreeSet<E> {
        let mut u: BTreeSet<E> = s.iter().map(|c| c.0).collect();
        u.extend(s.iter().filter_map(|c| if let V::Ref(x) = c.2 { Some(x) } else { None }));
        u
    };
    let in_want = used(want);
    let xs: Vec<E> = fresh.iter().cloned().filter(|e| in_want.contains(e) && !known.contains_key(e)).collect();
    let taken: BTreeSet<E> = known.values().cloned().collect();
    let ys: Vec<E> = used(got).into_iter().filter(|e| *e >= lo && *e < hi && !taken.contains(e)).collect();
    if xs.len() != ys.len() {
        return None;
    }
    let x = side(want, xs, known);
    let y = side(got, ys, &BTreeMap::new());
    let m = search(&x, &y, &vec![1; x.nodes.len()], &vec![1; y.nodes.len()], &mut 20_000)?;
    let mut out = known.clone();
    for (i, j) in m.into_iter().enumerate() {
        out.insert(x.nodes[i], y.nodes[j]);
    }
    // Entities nothing is said of.
    let mut pad = lo;
    for e in fresh {
        if !out.contains_key(e) {
            while out.values().any(|v| *v == pad) || y.nodes.contains(&pad) {
                pad += 1;
            }
            out.insert(*e, pad);
        }
    }
    Some(out)
}
