//! C05: explicit-state exploration of the real sparse Merkle tree in lockstep
//! with a map; keys, bit strings and code hashes against plain formulas.
use std::collections::{HashMap, HashSet};

use plonky2::field::types::PrimeField64;
use smt_trie::bits::Bits;
use smt_trie::code::{hash_bytecode_h256, hash_contract_bytecode};
use smt_trie::keys::*;
use vc::rayon::prelude::*;
use vc::{json, Check};

use crate::common::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Set(usize, usize),
    SetZero(usize),
    Delete(usize),
}

fn apply(t: &mut T, u: &Universe, op: Op) {
    match op {
        Op::Set(k, v) => t.set(key_of(&u.keys[k]), u.vals[v]),
        Op::SetZero(k) => t.set(key_of(&u.keys[k]), U256::ZERO),
        Op::Delete(k) => t.delete(key_of(&u.keys[k])),
    }
}
fn apply_map(m: &mut Map, u: &Universe, op: Op) {
    match op {
        Op::Set(k, v) => {
            m.insert(u.keys[k].clone(), u.vals[v]);
        }
        Op::SetZero(k) | Op::Delete(k) => {
            m.remove(&u.keys[k]);
        }
    }
}

fn observe(ck: &Check, u: &Universe, t: &T, m: &Map, ctx: &dyn Fn() -> String) {
    for k in u.keys.iter().chain(&u.absent) {
        let want = m.get(k).copied().unwrap_or_default();
        let got = t.get(key_of(k));
        if got != want {
            ck.violate("get", format!("get({}) = {got}, expected {want}\n{}", show_key(k), ctx()));
        }
    }
    let kv: Map = t.kv_store.iter().map(|(k, v)| (bits_of(*k), *v)).collect();
    if kv != *m {
        ck.violate("kv_store", format!("kv_store = {{{}}}\n{}", show(&kv), ctx()));
    }
}

fn ops(u: &Universe) -> Vec<Op> {
    (0..u.keys.len())
        .flat_map(|k| (0..u.vals.len()).map(move |v| Op::Set(k, v)).chain([Op::SetZero(k), Op::Delete(k)]))
        .collect()
}

fn graph(ck: &Check, u: &Universe) {
    let ops = ops(u);
    let roots: HashMap<Map, H> = contents(u).into_par_iter().map(|m| (m.clone(), root(&m))).collect();
    let mut seen = HashSet::from([Map::new()]);
    ck.state(&(u.name, &Map::new()));
    let mut frontier = vec![(Map::new(), T::default())];
    while !frontier.is_empty() && !ck.stopped() {
        let next: Vec<_> = frontier
            .into_par_iter()
            .flat_map_iter(|(m, t)| {
                let ctx = || format!("universe {}, contents {{{}}}", u.name, show(&m));
                ck.guard("panic-get", ctx, || observe(ck, u, &t, &m, &ctx));
                let mut out = vec![];
                for &op in &ops {
                    let (mut m2, mut t2) = (m.clone(), t.clone());
                    apply_map(&mut m2, u, op);
                    let c = || format!("universe {}, contents {{{}}}, then {op:?}", u.name, show(&m));
                    ck.transition(1);
                    ck.guard("panic-op", c, || {
                        apply(&mut t2, u, op);
                        if h(t2.root) != roots[&m2] {
                            ck.violate("root", format!("root {:?}, expected {:?}\n{}", h(t2.root), roots[&m2], c()));
                        }
                    });
                    ck.eval(u.name);
                    out.push((m2, t2));
                }
                out
            })
            .collect();
        frontier = vec![];
        for (m, t) in next {
            if seen.insert(m.clone()) {
                ck.state(&(u.name, &m));
                frontier.push((m, t));
            }
        }
    }
    if seen.len() != roots.len() && !ck.has_violation() {
        ck.violate("coverage", format!("universe {}: {} of {} states reached", u.name, seen.len(), roots.len()));
    }
    ck.sample(u.name, || json!(u.keys.iter().map(|k| show_key(k)).collect::<Vec<_>>()));
}

/// Every operation sequence up to a depth, without merging states: what a tree
/// answers may not depend on what was in it before.
fn histories(ck: &Check, u: &Universe, depth: usize) {
    let ops: Vec<Op> = ops(u).into_iter().filter(|o| !matches!(o, Op::SetZero(_))).collect();
    fn rec(ck: &Check, u: &Universe, ops: &[Op], t: &T, m: &Map, hist: &mut Vec<Op>, depth: usize) {
        if ck.stopped() {
            return;
        }
        for &op in ops {
            let (mut t2, mut m2) = (t.clone(), m.clone());
            apply_map(&mut m2, u, op);
            hist.push(op);
            let ctx = || format!("universe {}, history {hist:?}", u.name);
            ck.guard("panic-history", ctx, || {
                apply(&mut t2, u, op);
                ck.transition(1);
                if depth == 1 {
                    ck.eval("histories");
                    if h(t2.root) != root(&m2) {
                        ck.violate("history-root", format!("wrong root\n{}", ctx()));
                    }
                    observe(ck, u, &t2, &m2, &ctx);
                }
            });
            if depth > 1 {
                rec(ck, u, ops, &t2, &m2, hist, depth - 1);
            }
            hist.pop();
        }
    }
    ops.par_iter().for_each(|&op| {
        let (mut t, mut m) = (T::default(), Map::new());
        apply_map(&mut m, u, op);
        ck.guard("panic-history", || format!("{op:?}"), || {
            apply(&mut t, u, op);
            rec(ck, u, &ops, &t, &m, &mut vec![op], depth - 1);
        });
    });
}

/// Hash nodes planted first, then the rest: the same root as the full tree,
/// before and after every further operation outside the hashed parts.
fn with_hashes(ck: &Check, u: &Universe, depth: usize) {
    let mut prefixes: Vec<BitVec> = vec![vec![]];
    for k in &u.keys {
        for n in 1..=depth {
            if !prefixes.contains(&k[..n].to_vec()) {
                prefixes.push(k[..n].to_vec());
            }
        }
    }
    let ops = ops(u);
    contents(u).into_par_iter().filter(|m| m.len() >= 2).for_each(|m| {
        if ck.stopped() {
            return;
        }
        for set in 1u32..1 << prefixes.len().min(12) {
            let ps: Vec<&BitVec> = prefixes.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|x| x.1).collect();
            // an antichain of prefixes with something below each
            if ps.iter().any(|p| !m.keys().any(|k| k.starts_with(p)))
                || ps.iter().any(|p| ps.iter().any(|q| p.len() < q.len() && q.starts_with(p)))
            {
                continue;
            }
            // a hash below the point where a leaf sits is not part of the tree
            if ps.iter().any(|p| !p.is_empty() && m.keys().filter(|k| k.starts_with(&p[..p.len() - 1])).count() < 2) {
                continue;
            }
            let ctx = || format!("universe {}, contents {{{}}}, hashed {ps:?}", u.name, show(&m));
            ck.guard("panic-set_hash", ctx, || {
                let mut t = T::default();
                for p in &ps {
                    let mut b = Bits::empty();
                    p.iter().for_each(|x| b.push_bit(*x));
                    t.set_hash(b, HashOut { elements: subroot(&m, p).map(plonky2::field::types::Field::from_canonical_u64) });
                }
                let below = |k: &BitVec| ps.iter().any(|p| k.starts_with(p));
                for (k, v) in m.iter().filter(|(k, _)| !below(k)) {
                    t.set(key_of(k), *v);
                }
                ck.eval("hashed parts");
                if h(t.root) != root(&m) {
                    ck.violate("hashed-root", format!("wrong root\n{}", ctx()));
                }
                for k in u.keys.iter().filter(|k| !below(k)) {
                    if t.get(key_of(k)) != m.get(k).copied().unwrap_or_default() {
                        ck.violate("hashed-get", format!("get({})\n{}", show_key(k), ctx()));
                    }
                }
                for &op in &ops {
                    let (mut m2, mut t2) = (m.clone(), t.clone());
                    apply_map(&mut m2, u, op);
                    ck.transition(1);
                    // An operation that needs a hashed part may be refused.
                    let refused = vc::catch(|| apply(&mut t2, u, op)).is_err();
                    if !refused && h(t2.root) != root(&m2) {
                        ck.violate("hashed-op", format!("wrong root after {op:?}\n{}", ctx()));
                    }
                    let k = match op {
                        Op::Set(k, _) | Op::SetZero(k) | Op::Delete(k) => &u.keys[k],
                    };
                    if refused && !below(k) && !(m.contains_key(k) && !m2.contains_key(k)) {
                        ck.violate("hashed-refused", format!("{op:?} refused\n{}", ctx()));
                    }
                }
            });
        }
    });
}

fn keys(ck: &Check) {
    let cap = poseidon([0; 12]);
    let formula = |a: &[u8; 20], ty: u64, cap: H| {
        // little-endian 32-bit limbs of the address as a number
        let mut le = *a;
        le.reverse();
        let l: Vec<u64> = le.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap()) as u64).collect();
        poseidon([l[0], l[1], l[2], l[3], l[4], 0, ty, 0, cap[0], cap[1], cap[2], cap[3]])
    };
    let mut addrs = vec![[0u8; 20], [0xff; 20], std::array::from_fn(|i| i as u8 + 1)];
    for i in 0..20 {
        for v in [1, 0x80, 0xff] {
            let mut a = [0; 20];
            a[i] = v;
            addrs.push(a);
        }
    }
    let one = U256::from(1);
    let mut slots = vec![U256::ZERO, U256::MAX, U256::MAX - one];
    for i in 0..256 {
        slots.push(one << i);
    }
    for i in 0..8 {
        slots.push(U256::from(u32::MAX) << (32 * i));
    }
    let mut all: HashMap<H, String> = HashMap::new();
    let mut put = |got: Key, want: H, what: String| {
        let g = got.0.map(|x| x.to_canonical_u64());
        ck.eval("keys");
        ck.state(&("key", g));
        if g != want {
            ck.violate("key-formula", format!("{what}: {g:?}, expected {want:?}"));
        }
        if let Some(o) = all.insert(g, what.clone()) {
            ck.violate("key-collision", format!("{o} and {what} have the same key"));
        }
    };
    for a in &addrs {
        let ad = Address::from(*a);
        put(key_balance(ad), formula(a, 0, cap), format!("balance {ad}"));
        put(key_nonce(ad), formula(a, 1, cap), format!("nonce {ad}"));
        put(key_code(ad), formula(a, 2, cap), format!("code {ad}"));
        put(key_code_length(ad), formula(a, 4, cap), format!("code length {ad}"));
        for s in &slots {
            put(key_storage(ad, *s), formula(a, 3, value_hash(*s)), format!("storage {ad} {s}"));
        }
    }
}

fn bits(ck: &Check) {
    let n = ck.pick(7, 9);
    let all: Vec<BitVec> = (0..=n).flat_map(|l| (0..1u32 << l).map(move |x| (0..l).map(|i| x >> i & 1 == 1).collect())).collect();
    let mk = |b: &BitVec| {
        let mut r = Bits::empty();
        b.iter().for_each(|x| r.push_bit(*x));
        r
    };
    let back = |b: &Bits| (0..b.count).map(|i| b.get_bit(i)).collect::<BitVec>();
    all.par_iter().for_each(|a| {
        ck.guard("panic-bits", || format!("{a:?}"), || {
            let x = mk(a);
            ck.state(&("bits", a));
            let mut bad = vec![];
            if back(&x) != *a || x.is_empty() != a.is_empty() {
                bad.push("push_bit/get_bit");
            }
            for b in [false, true] {
                let mut l = a.clone();
                l.push(b);
                if back(&x.add_bit(b)) != l || x.add_bit(b) != mk(&l) {
                    bad.push("add_bit");
                }
            }
            let (mut y, mut l) = (x, a.clone());
            while let Some(b) = l.pop() {
                if y.pop_next_bit() != b || y != mk(&l) {
                    bad.push("pop_next_bit");
                }
            }
            for b in &bad {
                ck.violate(&format!("bits-{b}"), format!("{b} on {a:?}"));
            }
            for c in &all {
                ck.eval("bits");
                let y = mk(c);
                let mut cat = a.clone();
                cat.extend(c);
                if back(&(x + y)) != cat || (x == y) != (a == c) {
                    ck.violate("bits-add", format!("{a:?} + {c:?}"));
                }
                let p = a.iter().zip(c).take_while(|(p, q)| p == q).count();
                let want = (a[..p].to_vec(), a.get(p).zip(c.get(p)).map(|(x, y)| (*x, *y)));
                let (g, d) = x.common_prefix(&y);
                if (back(&g), d) != want {
                    ck.violate("bits-common_prefix", format!("common_prefix({a:?}, {c:?}) = {:?}, expected {want:?}", (back(&g), d)));
                }
            }
        });
    });
    // keys and bits
    let mut ks: Vec<BitVec> = (0..256).map(|i| flip(&vec![false; 256], &[i])).collect();
    ks.extend(universes(true).into_iter().flat_map(|u| u.keys));
    ks.par_iter().for_each(|k| {
        ck.guard("panic-split", || show_key(k), || {
            let key = key_of(k);
            let s = key.split();
            if back(&s) != *k {
                ck.violate("split", format!("split of {key:?}"));
            }
            for n in 0..=256 {
                ck.eval("split/join");
                let r = rem(k, n);
                let j = Key::join(mk(&k[..n].to_vec()), Key(r.map(plonky2::field::types::Field::from_canonical_u64)));
                if j != key {
                    ck.violate("join", format!("join of {n} bits of {key:?} with the rest"));
                }
            }
            let u = smt_trie::utils::key2u(key);
            if u != hu(key.0.map(|x| x.to_canonical_u64())) {
                ck.violate("key2u", format!("{key:?}"));
            }
        });
    });
}

fn code(ck: &Check) {
    let max = ck.pick(230, 700);
    let all = std::sync::Mutex::new(HashMap::new());
    (0..=max).into_par_iter().for_each(|len| {
        for (i, fill) in [0u8, 1, 0x80, 0xff, 0x5b].into_iter().chain([2]).enumerate() {
            let code: Vec<u8> = (0..len).map(|j| if i == 5 { j as u8 ^ 0x3c } else { fill }).collect();
            let mut p = code.clone();
            p.push(1);
            while p.len() % 56 != 0 {
                p.push(0);
            }
            let l = p.len();
            p[l - 1] |= 0x80;
            let mut cap = [0u64; 4];
            for b in p.chunks(56) {
                let mut x = [0u64; 12];
                for (i, w) in b.chunks(7).enumerate() {
                    x[i] = w.iter().rev().fold(0, |a, b| a << 8 | *b as u64);
                }
                x[8..].copy_from_slice(&cap);
                cap = poseidon(x);
            }
            ck.eval("code hashes");
            let got = h(hash_contract_bytecode(code.clone()));
            if got != cap || hash_bytecode_h256(&code).0 != hu(cap).to_be_bytes::<32>() {
                ck.violate("code-hash", format!("code {code:?}: {got:?}, expected {cap:?}"));
            }
            if let Some(o) = all.lock().unwrap().insert(got, code.clone()) {
                if o != code {
                    ck.violate("code-collision", format!("{o:?} and {code:?}"));
                }
            }
        }
    });
}

pub fn run() -> ! {
    let ck = Check::new("C05", "model_checking");
    let us = universes(ck.thorough);
    for u in &us {
        graph(&ck, u);
    }
    let small = |n: usize, i: usize| Universe {
        name: us[i].name,
        keys: us[i].keys[..n].to_vec(),
        absent: us[i].absent.clone(),
        vals: us[i].vals[..1].to_vec(),
    };
    histories(&ck, &small(3, 0), ck.pick(5, 7));
    histories(&ck, &small(3, 2), ck.pick(4, 6));
    histories(&ck, &small(4, 1), ck.pick(4, 6));
    with_hashes(&ck, &us[0], 2);
    with_hashes(&ck, &small(5, 1), ck.pick(4, 6));
    keys(&ck);
    bits(&ck);
    code(&ck);
    ck.finish(
        "every content of each key universe reached by explicit-state search over the real tree, every write/overwrite/zero/delete from every state; every history to a depth; every planting of hash nodes; all bit strings to a length",
        json!({"universes": us.iter().map(|u| json!({"name": u.name, "keys": u.keys.len(), "values": u.vals.len()})).collect::<Vec<_>>()}),
        &["plonky2's Poseidon permutation is correct", "keys outside the universes behave like those inside with the same shared prefixes"],
    )
}
