//! C02: every contents x every set of kept keys x every operation (and every
//! sequence of operations) on the pruned trie, against the full trie.
use std::collections::HashMap;

use mpt_trie::builder::PartialTrieBuilder;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, OnOrphanedHashNode, PartialTrie, StandardTrie};
use mpt_trie::trie_ops::{TrieOpError, ValOrHash};
use mpt_trie::trie_subsets::{create_trie_subset, create_trie_subsets};
use vc::rayon::prelude::*;
use vc::refmpt::{self, Map};
use vc::{json, Check};

use crate::common::*;

fn build<T: PartialTrie>(m: &Map) -> T {
    let mut t = T::default();
    for (k, v) in m {
        t.insert(nib(k), v.clone()).unwrap();
    }
    t
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(usize, usize),
    Delete(usize),
}

fn subset_keys(u: &Universe, mask: usize) -> Vec<Vec<u8>> {
    u.keys.iter().chain(&u.absent).enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, k)| k.clone()).collect()
}

/// Where two branches of the pruned trie merge into a hashed-out sibling, what
/// is that sibling in the full trie?
fn orphan_is_branch(m2: &Map, h: vc::H256) -> bool {
    // any prefix whose node hashes to h
    let mut seen = false;
    for k in m2.keys() {
        for i in 0..=k.len() {
            if vc::keccak(&refmpt::subnode(m2, &k[..i])) == h {
                seen |= matches!(expected(m2, &k[..i], None), Exp::Branch(..));
            }
        }
    }
    seen
}

struct Ctx<'a> {
    ck: &'a Check,
    u: &'a Universe,
    roots: &'a HashMap<Map, vc::H256>,
    depth: usize,
}

/// Applies every operation to the pruned trie in a state that agrees with the
/// full contents `m`, recursively.
fn operate<T: PartialTrie>(c: &Ctx, t: &T, m: &Map, hist: &mut Vec<Op>, what: &dyn Fn(&[Op]) -> String, collapse: bool) {
    if c.ck.stopped() {
        return;
    }
    let n_ops = c.u.keys.len() * (c.u.vals.len() + 1);
    for i in 0..n_ops {
        let (k, v) = (i % c.u.keys.len(), i / c.u.keys.len());
        let op = if v < c.u.vals.len() { Op::Insert(k, v) } else { Op::Delete(k) };
        hist.push(op);
        c.ck.transition(1);
        let mut m2 = m.clone();
        let mut t2 = t.clone();
        let key = &c.u.keys[k];
        let r = vc::catch(|| match op {
            Op::Insert(_, v) => {
                m2.insert(key.clone(), c.u.vals[v].clone());
                t2.insert(nib(key), c.u.vals[v].clone()).map(|_| None)
            }
            Op::Delete(_) => {
                let r = t2.delete(nib(key));
                m2.remove(key);
                r
            }
        });
        match r {
            Err(e) => c.ck.violate("panic", format!("{e}\n{}", what(hist))),
            Ok(Err(e)) => {
                // An error must leave the trie as it was.
                if t2.hash() != c.roots[m] {
                    c.ck.violate("error-changes-root", format!("{e}\n{}", what(hist)));
                }
                if collapse {
                    if let TrieOpError::ExtensionCollapsedIntoHashError(..) = e {
                        c.ck.violate("collapse-rejected", format!("{e}\n{}", what(hist)));
                    }
                }
            }
            Ok(Ok(res)) => {
                let want = if matches!(op, Op::Delete(_)) { m.get(key).cloned() } else { None };
                if res != want {
                    c.ck.violate("result", format!("result {res:?}, full trie gives {want:?}\n{}", what(hist)));
                }
                let (a, b) = (t2.hash(), c.roots[&m2]);
                if a != b {
                    // With CollapseToExtension the caller vouches for the orphan
                    // being a branch.
                    let mut orphans = vec![];
                    if collapse {
                        hashes_under_ext(&t2, &mut orphans);
                    }
                    if orphans.iter().all(|h| orphan_is_branch(&m2, *h)) {
                        c.ck.violate("root", format!("root {a:?}, full trie gives {b:?}\n{}", what(hist)));
                    }
                } else {
                    read(c, &t2, &m2, &|| what(hist));
                    if hist.len() < c.depth {
                        operate(c, &t2, &m2, hist, what, collapse);
                    }
                }
            }
        }
        hist.pop();
    }
}

fn hashes_under_ext<T: PartialTrie>(n: &Node<T>, out: &mut Vec<vc::H256>) {
    match n {
        Node::Extension { child, .. } => match &***child as &Node<T> {
            Node::Hash(h) => out.push(*h),
            o => hashes_under_ext(o, out),
        },
        Node::Branch { children, .. } => children.iter().for_each(|c| hashes_under_ext::<T>(c, out)),
        _ => {}
    }
}

/// A pruned trie may fail to find a key, but never finds a wrong value.
fn read<T: PartialTrie>(c: &Ctx, t: &T, m: &Map, what: &dyn Fn() -> String) {
    for k in c.u.keys.iter().chain(&c.u.absent) {
        if let Some(v) = t.get(nib(k)) {
            if Some(v) != m.get(k).map(|v| v.as_slice()) {
                c.ck.violate("get", format!("get({}) = {v:?}\n{}", hex(k), what()));
            }
        }
    }
    for (k, v) in t.items() {
        if let ValOrHash::Val(v) = v {
            if m.get(&seq(&k)) != Some(&v) {
                c.ck.violate("items", format!("items() has ({k}, {v:?})\n{}", what()));
            }
        }
    }
}

fn one<T: PartialTrie>(c: &Ctx, m: &Map, mask: usize, which: &str) {
    let (ck, u) = (c.ck, c.u);
    let keys = subset_keys(u, mask);
    let what = || {
        format!("{which}, universe {}, contents {{{}}}, pruned to {:?}", u.name, show(m), keys.iter().map(|k| hex(k)).collect::<Vec<_>>())
    };
    let full: T = build(m);
    let pruned = match create_trie_subset(&full, keys.iter().map(|k| nib(k))) {
        Ok(p) => p,
        Err(e) => return ck.violate("subset-error", format!("{e}\n{}", what())),
    };
    let want = expected(m, &[], Some(&keys));
    let got = observed::<T>(&pruned);
    if got != want {
        ck.violate("shape", format!("pruned trie is {got:?}\nexpected {want:?}\n{}", what()));
    }
    if !ck.state(&(&u.name, which, &got)) && which != "HashedPartialTrie" {
        // the same pruned trie with the same root arises from one contents only
    }
    if pruned.hash() != c.roots[m] || full.hash() != c.roots[m] {
        ck.violate("root", format!("root {:?}, expected {:?}\n{}", pruned.hash(), c.roots[m], what()));
    }
    for k in &keys {
        if pruned.get(nib(k)).map(|v| v.to_vec()).as_ref() != m.get(k) {
            ck.violate("kept-key", format!("get({}) = {:?}\n{}", hex(k), pruned.get(nib(k)), what()));
        }
    }
    let mut want_items = vec![];
    items_of(&want, &[], &mut want_items);
    let mut items: Vec<_> = pruned.items().map(|(k, v)| (seq(&k), v)).collect();
    want_items.sort_by(|a, b| a.0.cmp(&b.0));
    items.sort_by(|a, b| a.0.cmp(&b.0));
    if items != want_items {
        ck.violate("pruned-items", format!("items() = {items:?}, expected {want_items:?}\n{}", what()));
    }
    // Pruning again to fewer keys, from the pruned trie.
    for i in 0..u.keys.len() {
        if mask >> i & 1 == 1 {
            let fewer = subset_keys(u, mask & !(1 << i));
            match create_trie_subset(&pruned, fewer.iter().map(|k| nib(k))) {
                Ok(p) => {
                    if observed::<T>(&p) != expected(m, &[], Some(&fewer)) {
                        ck.violate("reprune", format!("then pruned to {fewer:?}\n{}", what()));
                    }
                }
                Err(e) => ck.violate("reprune-error", format!("{e}\n{}", what())),
            }
        }
    }
    // Pruning it to more keys than it still has is refused.
    for i in 0..u.keys.len() + u.absent.len() {
        if mask >> i & 1 == 0 {
            let one = subset_keys(u, 1 << i);
            let w = || format!("then pruned to {:?}\n{}", hex(&one[0]), what());
            match vc::catch(|| create_trie_subset(&pruned, one.iter().map(|k| nib(k)))) {
                Err(e) => ck.violate("reprune-panic", format!("{e}\n{}", w())),
                Ok(Err(e)) => {
                    if vc::catch(|| e.to_string()).is_err() {
                        ck.violate("reprune-error-text", w())
                    }
                }
                Ok(Ok(p)) => {
                    let t = p.hash();
                    if t != c.roots[m] {
                        ck.violate("reprune-root", w());
                    }
                    // it holds everything there is to know about that key
                    let got = p.get(nib(&one[0])).map(|v| v.to_vec());
                    let is_hash = p.items().any(|(k, v)| seq(&k) == one[0] && v.is_hash());
                    if got.as_ref() != m.get(&one[0]) && !is_hash {
                        ck.violate("reprune-get", format!("get gives {got:?}\n{}", w()));
                    }
                }
            }
        }
    }
    // The same trie from Merkle proofs.
    let mut b = PartialTrieBuilder::<T>::new(c.roots[m], Default::default());
    let mut b2 = b.clone();
    for k in &keys {
        b.insert_proof(proof(m, k));
        b2.insert_proof(proof(m, k));
        b2.insert_short_node_variants_from_proof(proof(m, k));
    }
    let from_proof = b.build();
    let fp = observed::<T>(&from_proof);
    if keys.is_empty() && (m.is_empty() || refmpt::subnode(m, &[]).len() < 32) {
        // without a proof only the root is known
    } else if !refines(&fp, &want, m, &[]) || keys.iter().any(|k| from_proof.get(nib(k)).map(|v| v.to_vec()).as_ref() != m.get(k)) {
        ck.violate("proof", format!("trie rebuilt from proofs is {fp:?}\nexpected {want:?}\n{}", what()));
    }
    let v = b2.build();
    if v.hash() != c.roots[m] {
        ck.violate("proof-variants-root", what());
    }
    read(c, &v, m, &|| format!("rebuilt with short node variants, {}", what()));
    ck.eval(&format!("{} {which}", u.name));
    ck.sample(&u.name, || json!({"case": what()}));
    operate(c, &pruned, m, &mut vec![], &|h| format!("{}, then {h:?}", what()), false);
    if which == "HashedPartialTrie" {
        let col = HashedPartialTrie::new_with_strategy(rebuild(&pruned), OnOrphanedHashNode::CollapseToExtension);
        let c1 = Ctx { depth: 1, ..*c };
        operate(&c1, &col, m, &mut vec![], &|h| format!("collapsing, {}, then {h:?}", what()), true);
    }
}

fn rebuild<T: PartialTrie>(n: &Node<T>) -> Node<HashedPartialTrie> {
    match n {
        Node::Empty => Node::Empty,
        Node::Hash(h) => Node::Hash(*h),
        Node::Leaf { nibbles, value } => Node::Leaf { nibbles: *nibbles, value: value.clone() },
        Node::Extension { nibbles, child } => Node::Extension { nibbles: *nibbles, child: rebuild::<T>(child).into() },
        Node::Branch { children, value } => Node::Branch {
            children: std::array::from_fn(|i| rebuild::<T>(&children[i]).into()),
            value: value.clone(),
        },
    }
}

fn subsets(ck: &Check, u: &Universe, m: &Map) {
    // every ordered pair of key sets in one call
    let n = 1 << u.keys.len();
    let full: StandardTrie = build(m);
    for a in 0..n {
        for b in 0..n {
            let (ka, kb) = (subset_keys(u, a), subset_keys(u, b));
            let what = || format!("universe {}, contents {{{}}}, subsets {ka:?} and {kb:?}", u.name, show(m));
            ck.transition(1);
            match create_trie_subsets(&full, [&ka, &kb].map(|l| l.iter().map(|k| nib(k)).collect::<Vec<_>>())) {
                Ok(v) => {
                    for (t, k) in v.iter().zip([&ka, &kb]) {
                        if observed(&**t) != expected(m, &[], Some(k)) {
                            ck.violate("subsets", format!("{:?}\n{}", observed(&**t), what()));
                        }
                    }
                }
                Err(e) => ck.violate("subsets-error", format!("{e}\n{}", what())),
            }
        }
    }
    ck.evals("pairs of subsets", (n * n) as u64);
}

/// The kept paths need not be whole keys: they may end anywhere.
fn paths<T: PartialTrie>(ck: &Check, u: &Universe, m: &Map, root: vc::H256) {
    let mut ps: Vec<Vec<u8>> = vec![];
    for k in u.keys.iter().chain(&u.absent) {
        for n in (0..k.len().min(10)).chain([k.len().saturating_sub(1), k.len()]) {
            if !ps.contains(&k[..n].to_vec()) {
                ps.push(k[..n].to_vec());
            }
        }
    }
    let full: T = build(m);
    for (i, p) in ps.iter().enumerate() {
        for q in &ps[i..] {
            ck.eval("pairs of paths");
            let what = || format!("universe {}, contents {{{}}}, pruned to the paths {:?}", u.name, show(m), [hex(p), hex(q)]);
            let t = match vc::catch(|| create_trie_subset(&full, [p, q].map(|k| nib(k)))) {
                Ok(Ok(t)) => t,
                Ok(Err(e)) => return ck.violate("path-error", format!("{e}\n{}", what())),
                Err(e) => return ck.violate("path-panic", format!("{e}\n{}", what())),
            };
            if t.hash() != root {
                return ck.violate("path-root", format!("root {:?}\n{}", t.hash(), what()));
            }
            for p in [p, q] {
                let mut n: &Node<T> = &t;
                let mut at = 0;
                while at < p.len() {
                    match n {
                        Node::Branch { children, .. } => {
                            n = &children[p[at] as usize];
                            at += 1;
                        }
                        Node::Extension { nibbles, child } => {
                            let s = seq(nibbles);
                            if !p[at..].starts_with(&s) {
                                break;
                            }
                            at += s.len();
                            n = child;
                        }
                        Node::Hash(_) => return ck.violate("path-hidden", format!("the path {} meets a hash after {at} nibbles\n{}", hex(p), what())),
                        _ => break,
                    }
                }
            }
            for k in &u.keys {
                if (k == p || k == q) && t.get(nib(k)).map(|v| v.to_vec()).as_ref() != m.get(k) {
                    return ck.violate("path-get", what());
                }
            }
        }
    }
}

pub fn run() -> ! {
    let ck = Check::new("C02", "model_checking");
    let mut us = universes(false);
    us.retain(|u| u.keys.len() <= 7);
    let key_limit = ck.pick(4, 6);
    for u in &mut us {
        while u.keys.len() > key_limit || (u.vals.len() + 1).pow(u.keys.len() as u32) > ck.pick(256, 1024) {
            if u.keys.len() > 3 {
                let k = u.keys.pop().unwrap();
                u.absent.insert(0, k);
            } else {
                u.vals.remove(1);
            }
        }
        u.absent.truncate(ck.pick(2, 3));
    }
    let depth = ck.pick(2, 3);
    for u in &us {
        let maps = all_maps(u);
        let roots: HashMap<Map, vc::H256> = maps.iter().map(|m| (m.clone(), refmpt::root(m))).collect();
        let n = 1usize << (u.keys.len() + u.absent.len());
        let cases: Vec<(usize, usize)> = (0..maps.len()).flat_map(|i| (0..n).map(move |j| (i, j))).collect();
        cases.into_par_iter().for_each(|(i, mask)| {
            if ck.stopped() {
                return;
            }
            let m = &maps[i];
            // sequences of several operations where the pruned keys are universe keys
            let deep = mask >> u.keys.len() == 0 && u.keys.len() * (u.vals.len() + 1) <= 16;
            let c = Ctx { ck: &ck, u, roots: &roots, depth: if deep { depth } else { 1 } };
            ck.guard("panic", || format!("universe {}, contents {{{}}}, keys {:?}", u.name, show(m), subset_keys(u, mask)), || {
                one::<HashedPartialTrie>(&c, m, mask, "HashedPartialTrie");
                let c1 = Ctx { depth: 1, ..c };
                one::<StandardTrie>(&c1, m, mask, "StandardTrie");
            });
        });
        maps.par_iter().for_each(|m| ck.guard("panic", || show(m), || subsets(&ck, u, m)));
        maps.par_iter().for_each(|m| paths::<HashedPartialTrie>(&ck, u, m, roots[m]));
    }
    let bounds = json!({
        "universes": us.iter().map(|u| json!({"name": u.name, "keys": u.keys.len(), "absent_keys": u.absent.len(), "values": u.vals.len()})).collect::<Vec<_>>(),
        "operations_after_pruning": depth,
    });
    ck.finish(
        "a state is a distinct pruned trie; every contents over the universe, every set of kept keys, every sequence of operations until the first error",
        bounds,
        &[
            "no inserted value is empty and no key is a proper prefix of another",
            "the lookup of a key that was hashed out finds nothing (the API has no error there)",
        ],
    )
}
