//! Transactions through the programmatic builder.

use edn::entities::{EntidOrIdent, EntityPlace, TxFunction, ValuePlace};
use edn::PlainSymbol;
use mentat::entity_builder::{BuildTerms, TermBuilder};
use mentat::{InProgress, TxReport};
use mentat::TypedValue;

use crate::exec::text;
use crate::value::*;

fn ep_ok(e: &EP) -> bool {
    match e {
        EP::Lookup(_, v) => atom_ok(v),
        _ => true,
    }
}

fn atom_ok(_v: &V) -> bool {
    true
}

fn vp_ok(v: &VP) -> bool {
    match v {
        // In text these are ambiguous and resolved by the attribute; the builder takes typed values.
        VP::Val(V::Ref(_)) => false,
        VP::Val(_) => true,
        VP::E(e) => ep_ok(e),
        VP::Many(vs) => vs.iter().all(|v| !matches!(v, VP::Many(_)) && vp_ok(v)),
        VP::Map(..) => false,
        VP::Lit(_, v) => v.is_some(),
    }
}

pub fn can_build(ops: &[Op]) -> bool {
    ops.iter().all(|o| !o.numbered() && match o {
        Op::Add(e, _, v) | Op::Retract(e, _, v) => ep_ok(e) && vp_ok(v) && !bare_temp(v),
        Op::Map(..) => false,
    })
}

fn bare_temp(_v: &VP) -> bool {
    false
}

fn ent<B: BuildTerms>(b: &mut B, e: &EP, h: &Handles) -> EntityPlace<TypedValue> {
    match e {
        EP::H(n) => EntityPlace::Entid(EntidOrIdent::Entid(h[n])),
        EP::Raw(x) => EntityPlace::Entid(EntidOrIdent::Entid(*x)),
        EP::Temp(t) => EntityPlace::TempId(b.named_tempid(t.clone())),
        EP::Lookup(a, v) => EntityPlace::LookupRef(TermBuilder::lookup_ref(kw(a), v.to_typed())),
        EP::Ident(k) => EntityPlace::Entid(EntidOrIdent::Ident(kw(k))),
        EP::Tx => EntityPlace::TxFunction(TxFunction { op: PlainSymbol::plain("transaction-tx") }),
    }
}

fn val<B: BuildTerms>(b: &mut B, v: &VP, h: &Handles, is_ref: bool) -> ValuePlace<TypedValue> {
    match v {
        // In text a number is an entid where an entid belongs; here values are typed.
        VP::Val(V::Long(x)) if is_ref => ValuePlace::Entid(EntidOrIdent::Entid(*x)),
        VP::Val(x) => ValuePlace::Atom(x.to_typed()),
        VP::E(e) => match ent(b, e, h) {
            EntityPlace::Entid(e) => ValuePlace::Entid(e),
            EntityPlace::TempId(t) => ValuePlace::TempId(t),
            EntityPlace::LookupRef(l) => ValuePlace::LookupRef(l),
            EntityPlace::TxFunction(t) => ValuePlace::TxFunction(t),
        },
        VP::Many(vs) => ValuePlace::Vector(vs.iter().map(|v| val(b, v, h, is_ref)).collect()),
        VP::Lit(_, Some(x)) => val(b, &VP::Val(x.clone()), h, is_ref),
        VP::Map(..) | VP::Lit(_, None) => unreachable!(),
    }
}

pub fn transact(ip: &mut InProgress, ops: &[Op], h: &Handles, is_ref: &dyn Fn(&str) -> bool) -> Result<TxReport, String> {
    let mut b = TermBuilder::new();
    for o in ops {
        match o {
            Op::Add(e, a, v) => {
                let (e, v) = (ent(&mut b, e, h), val(&mut b, v, h, is_ref(a)));
                b.add(e, kw(a), v).map_err(|e| text(&e))?;
            }
            Op::Retract(e, a, v) => {
                let (e, v) = (ent(&mut b, e, h), val(&mut b, v, h, is_ref(a)));
                b.retract(e, kw(a), v).map_err(|e| text(&e))?;
            }
            Op::Map(..) => unreachable!(),
        }
    }
    ip.transact_builder(b).map_err(|e| text(&e))
}

/// A transaction of its own, by way of the builder which holds on to it.
pub fn commit(store: &mut mentat::Store, ops: &[Op], h: &Handles, is_ref: &dyn Fn(&str) -> bool, way: u64) -> Result<TxReport, String> {
    let mut b = store.begin_transaction().map_err(|e| text(&e))?.builder();
    if way == 0 {
        // An entity at a time.
        for (i, o) in ops.iter().enumerate() {
            let (e, a, v, add) = match o {
                Op::Add(e, a, v) => (e, a, v, true),
                Op::Retract(e, a, v) => (e, a, v, false),
                Op::Map(..) => unreachable!(),
            };
            let (place, v) = (ent(&mut b, e, h), val(&mut b, v, h, is_ref(a)));
            let mut one = match e {
                EP::Temp(t) => b.describe_tempid(t),
                _ => b.describe(place),
            };
            if add {
                one.add(kw(a), v).map_err(|e| text(&e))?;
            } else {
                one.retract(kw(a), v).map_err(|e| text(&e))?;
            }
            if i + 1 == ops.len() {
                return one.commit().map_err(|e| text(&e));
            }
            b = one.finish().0;
        }
        return Err("nothing to do".into());
    }
    for o in ops {
        match o {
            Op::Add(e, a, v) => {
                let (e, v) = (ent(&mut b, e, h), val(&mut b, v, h, is_ref(a)));
                b.add(e, kw(a), v).map_err(|e| text(&e))?;
            }
            Op::Retract(e, a, v) => {
                let (e, v) = (ent(&mut b, e, h), val(&mut b, v, h, is_ref(a)));
                b.retract(e, kw(a), v).map_err(|e| text(&e))?;
            }
            Op::Map(..) => unreachable!(),
        }
    }
    if way == 1 {
        return b.commit().map_err(|e| text(&e));
    }
    let (ip, r) = b.transact();
    let r = r.map_err(|e| text(&e))?;
    ip.commit().map_err(|e| text(&e))?;
    Ok(r)
}
