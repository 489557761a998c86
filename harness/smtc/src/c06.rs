//! C06: every content and every chosen key set; the serialised vector is hashed
//! and read by an independent walker.
use smt_trie::smt::{hash_serialize, hash_serialize_u256};
use vc::rayon::prelude::*;
use vc::{json, Check};

use crate::common::*;

#[derive(Debug, PartialEq)]
enum Found {
    Value(U256),
    Absent,
    Hashed,
}

fn at(v: &[U256], i: usize) -> Result<U256, String> {
    v.get(i).copied().ok_or(format!("pointer to {i} beyond the end"))
}
fn ptr(v: &[U256], i: usize) -> Result<usize, String> {
    let x = at(v, i)?;
    if x > U256::from(v.len()) {
        return Err(format!("{x} at {i} is no pointer"));
    }
    Ok(x.to::<usize>())
}

fn walk(v: &[U256], k: &[bool]) -> Result<Found, String> {
    let (mut p, mut depth) = (2, 0);
    loop {
        match at(v, p)?.to::<u64>() {
            0 => return Ok(if at(v, p + 1)?.is_zero() { Found::Absent } else { Found::Hashed }),
            1 => {
                p = ptr(v, p + 1 + k[depth] as usize)?;
                depth += 1;
            }
            2 => {
                return Ok(if at(v, p + 1)? == hu(rem(k, depth)) { Found::Value(at(v, p + 2)?) } else { Found::Absent })
            }
            t => return Err(format!("node type {t}")),
        }
    }
}

fn hash(v: &[U256], p: usize, depth: usize) -> Result<H, String> {
    if depth > 256 {
        return Err("too deep".into());
    }
    Ok(match at(v, p)?.to::<u64>() {
        0 => *at(v, p + 1)?.as_limbs(),
        1 => node_hash(hash(v, ptr(v, p + 1)?, depth + 1)?, hash(v, ptr(v, p + 2)?, depth + 1)?),
        2 => leaf_hash(*at(v, p + 1)?.as_limbs(), at(v, p + 2)?),
        t => return Err(format!("node type {t}")),
    })
}

fn check_vec(ck: &Check, v: &[U256], want: H, chosen: &[&BitVec], m: &Map, u: &Universe, ctx: &dyn Fn() -> String) {
    if v.len() < 4 || !v[0].is_zero() || !v[1].is_zero() {
        ck.violate("format", format!("vector {v:?}\n{}", ctx()));
        return;
    }
    match hash(v, 2, 0) {
        Ok(x) if x == want => {}
        x => ck.violate("own-hash", format!("vector hashes to {x:?}, root {want:?}\n{}", ctx())),
    }
    if h(hash_serialize(v)) != want || hash_serialize_u256(v) != hu(want) {
        ck.violate("hash_serialize", format!("hash_serialize is {:?}, root {want:?}\n{}", h(hash_serialize(v)), ctx()));
    }
    for k in u.keys.iter().chain(&u.absent) {
        let truth = m.get(k).map_or(Found::Absent, |x| Found::Value(*x));
        match walk(v, k) {
            Err(e) => ck.violate("walk", format!("{e} looking for {}\n{}", show_key(k), ctx())),
            Ok(Found::Hashed) if !chosen.contains(&k) => {}
            Ok(f) if f == truth => {}
            Ok(f) => ck.violate(
                if chosen.contains(&k) { "read-chosen" } else { "read-other" },
                format!("{} reads {f:?}, truth {truth:?}\n{}", show_key(k), ctx()),
            ),
        }
    }
}

pub fn run() -> ! {
    let ck = Check::new("C06", "model_checking");
    let us = universes(ck.thorough);
    for u in &us {
        let all: Vec<&BitVec> = u.keys.iter().chain(&u.absent).collect();
        contents(u).into_par_iter().for_each(|m| {
            if ck.stopped() {
                return;
            }
            // at most two distinct values matter to pruning: contents whose
            // values are all the first are pruned to every subset, the others
            // to every set of at most two and the full set
            let uniform = m.values().all(|v| *v == u.vals[0]);
            ck.state(&(u.name, &m));
            let ctx = || format!("universe {}, contents {{{}}}", u.name, show(&m));
            ck.guard("panic-build", ctx, || {
                let mut t = T::default();
                for (k, v) in &m {
                    t.set(key_of(k), *v);
                }
                let want = root(&m);
                if h(t.root) != want {
                    ck.violate("root", format!("root {:?}, expected {want:?}\n{}", h(t.root), ctx()));
                }
                let full = t.serialize();
                ck.eval("full");
                let present: Vec<&BitVec> = m.keys().collect();
                check_vec(&ck, &full, want, &present, &m, u, &ctx);
                // nothing is hashed out of the full serialisation
                for k in &all {
                    if walk(&full, k) == Ok(Found::Hashed) {
                        ck.violate("full-hashed", format!("{} is hashed out of serialize()\n{}", show_key(k), ctx()));
                    }
                }
                for set in 0u32..1 << all.len() {
                    let n = set.count_ones() as usize;
                    let most = match (uniform, ck.thorough, u.name) {
                        (true, true, _) | (true, _, "top bits" | "values") => all.len(),
                        (true, ..) => 2,
                        (_, true, _) => 3,
                        (_, _, "top bits" | "values") => 2,
                        _ => 1,
                    };
                    if n > most && n != all.len() {
                        continue;
                    }
                    let chosen: Vec<&BitVec> = all.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|x| *x.1).collect();
                    let c = || format!("{}, chosen {:?}", ctx(), chosen.iter().map(|k| show_key(k)).collect::<Vec<_>>());
                    ck.guard("panic-prune", c, || {
                        let v = t.serialize_and_prune(chosen.iter().map(|k| key_of(k)));
                        ck.transition(1);
                        ck.eval("pruned");
                        check_vec(&ck, &v, want, &chosen, &m, u, &c);
                    });
                }
            });
        });
        // trees holding hash nodes for parts the prover was never given
        pruned_sources(&ck, u);
    }
    ck.finish(
        "every content of each key universe x every chosen subset of present and absent keys (all-equal values: all subsets; otherwise subsets up to a size), read back by an independent walker",
        json!({"universes": us.iter().map(|u| json!({"name": u.name, "keys": u.keys.len(), "absent": u.absent.len(), "values": u.vals.len()})).collect::<Vec<_>>()}),
        &["plonky2's Poseidon permutation is correct"],
    )
}

fn pruned_sources(ck: &Check, u: &Universe) {
    let all: Vec<&BitVec> = u.keys.iter().chain(&u.absent).collect();
    let ms: Vec<Map> = contents(u).into_iter().filter(|m| m.values().all(|v| *v == u.vals[0]) && m.len() >= 2).collect();
    ms.into_par_iter().for_each(|m| {
        // hash out, in turn, every subtree hanging off the path to the first key
        let first = m.keys().next().unwrap().clone();
        for d in 0..256 {
            let p = flip(&first[..=d], &[d]);
            if !m.keys().any(|k| k.starts_with(&p)) || m.keys().filter(|k| k.starts_with(&first[..d])).count() < 2 {
                continue;
            }
            let ctx = || format!("universe {}, contents {{{}}}, hashed below depth {d}", u.name, show(&m));
            ck.guard("panic-partial", ctx, || {
                let mut t = T::default();
                let mut b = smt_trie::bits::Bits::empty();
                p.iter().for_each(|x| b.push_bit(*x));
                t.set_hash(b, HashOut { elements: subroot(&m, &p).map(plonky2::field::types::Field::from_canonical_u64) });
                let rest: Vec<&BitVec> = m.keys().filter(|k| !k.starts_with(&p)).collect();
                for k in &rest {
                    t.set(key_of(k), m[*k]);
                }
                let reachable: Vec<&BitVec> = all.iter().copied().filter(|k| !k.starts_with(&p)).collect();
                for (name, v, chosen) in [
                    ("serialize", t.serialize(), rest.clone()),
                    ("prune-all", t.serialize_and_prune(all.iter().map(|k| key_of(k))), reachable.clone()),
                    ("prune-none", t.serialize_and_prune(std::iter::empty::<Key>()), vec![]),
                ] {
                    ck.eval("partial trees");
                    let c = || format!("{}, {name}", ctx());
                    check_vec(ck, &v, root(&m), &chosen, &m, u, &c);
                }
            });
        }
    });
}
