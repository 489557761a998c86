//! C01: explicit-state exploration of the real tries in lockstep with a map.
use std::collections::HashMap;
use std::sync::Mutex;

use mpt_trie::partial_trie::{HashedPartialTrie, PartialTrie, StandardTrie};
use mpt_trie::trie_ops::ValOrHash;
use mpt_trie::trie_subsets::create_trie_subset;
use vc::rayon::prelude::*;
use vc::refmpt::{self, Map};
use vc::{json, Check, H256};

use crate::common::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Insert(usize, usize),
    Delete(usize),
}

struct Roots(Mutex<HashMap<Map, H256>>);
impl Roots {
    fn get(&self, m: &Map) -> H256 {
        if let Some(h) = self.0.lock().unwrap().get(m) {
            return *h;
        }
        let h = refmpt::root(m);
        self.0.lock().unwrap().insert(m.clone(), h);
        h
    }
}

fn observe<T: PartialTrie>(ck: &Check, u: &Universe, t: &T, m: &Map, ctx: &dyn Fn() -> String) {
    for k in u.keys.iter().chain(&u.absent) {
        let got = t.get(nib(k)).map(|v| v.to_vec());
        if got.as_ref() != m.get(k) {
            ck.violate("get", format!("get({}) = {:?}\n{}", hex(k), got, ctx()));
        }
        if t.contains(nib(k)) != m.contains_key(k) {
            ck.violate("contains", format!("contains({}) = {}\n{}", hex(k), t.contains(nib(k)), ctx()));
        }
    }
    let want: Vec<_> = m.iter().map(|(k, v)| (k.clone(), ValOrHash::Val(v.clone()))).collect();
    let mut got: Vec<_> = t.items().map(|(k, v)| (seq(&k), v)).collect();
    got.sort_by(|a, b| a.0.cmp(&b.0));
    if got != want {
        ck.violate("items", format!("items() = {got:?}\n{}", ctx()));
    }
    let mut ks: Vec<_> = t.keys().map(|k| seq(&k)).collect();
    ks.sort();
    if ks != m.keys().cloned().collect::<Vec<_>>() {
        ck.violate("keys", format!("keys() = {ks:?}\n{}", ctx()));
    }
    let mut vs: Vec<_> = t.values().map(|v| v.expect_val()).collect();
    vs.sort();
    let mut wv: Vec<_> = m.values().cloned().collect();
    wv.sort();
    if vs != wv {
        ck.violate("values", format!("values() = {vs:?}\n{}", ctx()));
    }
}

fn apply<T: PartialTrie>(t: &mut T, u: &Universe, op: Op) -> Result<Option<Vec<u8>>, String> {
    match op {
        Op::Insert(k, v) => t.insert(nib(&u.keys[k]), u.vals[v].clone()).map(|_| None).map_err(|e| e.to_string()),
        Op::Delete(k) => t.delete(nib(&u.keys[k])).map_err(|e| e.to_string()),
    }
}
fn apply_map(m: &mut Map, u: &Universe, op: Op) -> Option<Vec<u8>> {
    match op {
        Op::Insert(k, v) => {
            m.insert(u.keys[k].clone(), u.vals[v].clone());
            None
        }
        Op::Delete(k) => m.remove(&u.keys[k]),
    }
}

/// Every state reachable from the empty trie by insertions, overwrites and
/// deletions; every operation from every state.
fn graph(ck: &Check, u: &Universe) {
    let ops: Vec<Op> = (0..u.keys.len())
        .flat_map(|k| (0..u.vals.len()).map(move |v| Op::Insert(k, v)).chain([Op::Delete(k)]))
        .collect();
    let roots = Roots(Mutex::default());
    let mut frontier: Vec<(Map, StandardTrie, HashedPartialTrie)> =
        vec![(Map::new(), StandardTrie::default(), HashedPartialTrie::default())];
    ck.state(&(&u.name, observed(&*frontier[0].1), observed(&*frontier[0].2)));
    let want_states = (u.vals.len() + 1).pow(u.keys.len() as u32);
    let mut seen = 1;
    let mut depth = 0;
    while !frontier.is_empty() && !ck.stopped() && depth < 40 {
        depth += 1;
        frontier = frontier
            .into_par_iter()
            .flat_map_iter(|(m, s, h)| {
                let mut next = vec![];
                let ctx = || format!("universe {}, contents {{{}}}", u.name, show(&m));
                ck.guard("panic-observe", ctx, || {
                    observe(ck, u, &s, &m, &ctx);
                    observe(ck, u, &h, &m, &ctx);
                    let want = roots.get(&m);
                    for (got, which) in [(s.hash(), "StandardTrie"), (h.hash(), "HashedPartialTrie"), (h.hash(), "cached")] {
                        if got != want {
                            ck.violate("root", format!("{which} root {got:?}, expected {want:?}\n{}", ctx()));
                        }
                    }
                });
                for &op in &ops {
                    let (mut m2, mut s2, mut h2) = (m.clone(), s.clone(), h.clone());
                    let want = apply_map(&mut m2, u, op);
                    ck.transition(1);
                    let c = || format!("universe {}, contents {{{}}}, then {op:?}", u.name, show(&m));
                    let r = vc::catch(|| (apply(&mut s2, u, op), apply(&mut h2, u, op)));
                    match r {
                        Err(e) => ck.violate("panic-op", format!("{e}\n{}", c())),
                        Ok((a, b)) => {
                            if a != Ok(want.clone()) || b != Ok(want.clone()) {
                                ck.violate("result", format!("results {a:?} / {b:?}, expected {want:?}\n{}", c()));
                            }
                            let want = roots.get(&m2);
                            match vc::catch(|| (s2.hash(), h2.hash(), h.hash())) {
                                Err(e) => ck.violate("panic-hash", format!("{e}\n{}", c())),
                                Ok((x, y, z)) => {
                                    if x != want || y != want {
                                        ck.violate("root", format!("roots {x:?} / {y:?}, expected {want:?}\n{}", c()));
                                    }
                                    if z != roots.get(&m) {
                                        ck.violate("clone", format!("the clone taken before changed its root\n{}", c()));
                                    }
                                }
                            }
                            if ck.state(&(&u.name, &m2, observed(&*s2), observed(&*h2))) {
                                next.push((m2, s2, h2));
                            }
                        }
                    }
                }
                ck.evals(&u.name, ops.len() as u64);
                ck.sample(&u.name, || json!({"contents": show(&m), "operations_applied": ops.len()}));
                next
            })
            .collect();
        seen += frontier.len();
        if seen > 4 * want_states {
            ck.capped(&format!("{}: more trie shapes than contents", u.name));
            break;
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum HOp {
    Insert(usize, usize),
    Delete(usize),
    Root,
    /// Ask for a fully pruned copy (this fills the hash caches).
    Prune,
    Save,
    Swap,
}

/// Every history up to a depth, on one live trie and saved clones, re-run from
/// the start for each history so that nothing is shared between histories.
fn histories(ck: &Check, name: &str, keys: &[&str], vals_: &[&str], depth: usize) {
    let u = Universe {
        name: name.into(),
        keys: keys.iter().map(|s| s.chars().map(|c| c.to_digit(16).unwrap() as u8).collect()).collect(),
        absent: vec![],
        vals: vals(vals_),
    };
    let mut ops: Vec<HOp> = vec![HOp::Root, HOp::Prune, HOp::Save, HOp::Swap];
    for k in 0..u.keys.len() {
        for v in 0..u.vals.len() {
            ops.push(HOp::Insert(k, v));
        }
        ops.push(HOp::Delete(k));
    }
    let n = ops.len();
    let roots: HashMap<Map, H256> = all_maps(&u).into_iter().map(|m| (m.clone(), refmpt::root(&m))).collect();
    let total = n.pow(depth as u32);
    (0..total).into_par_iter().for_each(|i| {
        if ck.stopped() {
            return;
        }
        let seq_: Vec<HOp> = {
            let mut i = i;
            (0..depth)
                .map(|_| {
                    let o = ops[i % n];
                    i /= n;
                    o
                })
                .collect()
        };
        // a history that ends in an operation that changes nothing is covered
        // by its prefix followed by something else
        let run = || {
            let mut live = (HashedPartialTrie::default(), Map::new());
            let mut saved = live.clone();
            for op in &seq_ {
                match *op {
                    HOp::Insert(k, v) => {
                        live.0.insert(nib(&u.keys[k]), u.vals[v].clone()).unwrap();
                        live.1.insert(u.keys[k].clone(), u.vals[v].clone());
                    }
                    HOp::Delete(k) => {
                        let got = live.0.delete(nib(&u.keys[k])).unwrap();
                        let want = live.1.remove(&u.keys[k]);
                        assert_eq!(got, want, "delete's result");
                    }
                    HOp::Root => {
                        live.0.hash();
                    }
                    HOp::Prune => {
                        create_trie_subset(&live.0, std::iter::empty::<mpt_trie::nibbles::Nibbles>()).unwrap();
                    }
                    HOp::Save => saved = live.clone(),
                    HOp::Swap => std::mem::swap(&mut live, &mut saved),
                }
            }
            for (which, (t, m)) in [("live", &live), ("saved", &saved)] {
                let got = t.hash();
                if got != roots[m] {
                    ck.violate(
                        "history-root",
                        format!("{which} trie: root {got:?}, expected {:?}\nuniverse {name}, history {seq_:?}", roots[m]),
                    );
                }
                for k in &u.keys {
                    if t.get(nib(k)).map(|v| v.to_vec()).as_ref() != m.get(k) {
                        ck.violate("history-get", format!("{which} trie: get({})\nuniverse {name}, history {seq_:?}", hex(k)));
                    }
                }
            }
        };
        ck.guard("history-panic", || format!("history {seq_:?}"), run);
        if i % (total / 3 + 1) == 0 {
            ck.sample(name, || json!({"history": format!("{seq_:?}")}));
        }
    });
    ck.evals(&format!("histories {name}"), total as u64);
    ck.transition(total as u64 * depth as u64);
    ck.note(&format!("histories_{name}"), json!({"operations": n, "depth": depth, "histories": total}));
}

pub fn run() -> ! {
    let ck = Check::new("C01", "model_checking");
    let us = universes(ck.thorough);
    for u in &us {
        graph(&ck, u);
    }
    let d = ck.pick(6, 7);
    histories(&ck, "alias", &["1234", "1235", "1299"], &["long"], d);
    histories(&ck, "alias-short", &["12", "13"], &["one", "long"], d);
    histories(&ck, "alias-apart", &["0", "f"], &["long", "w60"], d);
    let bounds = json!({
        "universes": us.iter().map(|u| json!({"name": u.name, "keys": u.keys.len(), "absent_keys": u.absent.len(), "values": u.vals.len()})).collect::<Vec<_>>(),
        "history_depth": d,
    });
    ck.finish(
        "a state is a distinct pair of trie structures (caching, non-caching) with its contents; every operation is applied in every state, and every history of the alias universes is run",
        bounds,
        &["no inserted value is empty and no key is a proper prefix of another (documented assumption of the crate)"],
    )
}
