//! C04: every pair of tries over a universe, every query of every trie.
use mpt_trie::debug_tools::diff::create_full_diff_between_tries;
use mpt_trie::debug_tools::query::{get_path_from_query, DebugQueryParamsBuilder};
use mpt_trie::debug_tools::stats::get_trie_stats;
use mpt_trie::partial_trie::{HashedPartialTrie, PartialTrie};
use mpt_trie::special_query::path_for_query;
use mpt_trie::trie_subsets::create_trie_subset;
use mpt_trie::utils::{IntoTrieKey, TrieNodeType, TrieSegment};
use vc::rayon::prelude::*;
use vc::refmpt::Map;
use vc::{json, Check};

use crate::common::*;

struct Case {
    map: Map,
    trie: HashedPartialTrie,
    exp: Exp,
    what: String,
}

fn cases(u: &Universe, with_pruned: bool) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    for map in all_maps(u) {
        let mut full = HashedPartialTrie::default();
        for (k, v) in &map {
            full.insert(nib(k), v.clone()).unwrap();
        }
        let mut masks: Vec<Option<usize>> = vec![None];
        if with_pruned {
            masks.extend((0..1 << u.keys.len()).map(Some));
        }
        for mask in masks {
            let (trie, exp, what) = match mask {
                None => (full.clone(), expected(&map, &[], None), format!("{{{}}}", show(&map))),
                Some(mask) => {
                    let keys: Vec<Vec<u8>> =
                        u.keys.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, k)| k.clone()).collect();
                    (
                        create_trie_subset(&full, keys.iter().map(|k| nib(k))).unwrap(),
                        expected(&map, &[], Some(&keys)),
                        format!("{{{}}} pruned to {:?}", show(&map), keys.iter().map(|k| hex(k)).collect::<Vec<_>>()),
                    )
                }
            };
            if out.iter().all(|c| c.exp != exp) {
                out.push(Case { map: map.clone(), trie, exp, what });
            }
        }
    }
    out
}

fn node_type(e: &Exp) -> TrieNodeType {
    match e {
        Exp::Empty => TrieNodeType::Empty,
        Exp::Hash(_) => TrieNodeType::Hash,
        Exp::Branch(..) => TrieNodeType::Branch,
        Exp::Ext(..) => TrieNodeType::Extension,
        Exp::Leaf(..) => TrieNodeType::Leaf,
    }
}

/// The node a path leads to.
fn follow<'a>(e: &'a Exp, path: &[TrieSegment]) -> Option<&'a Exp> {
    let Some((seg, rest)) = path.split_first() else { return Some(e) };
    match (seg, e) {
        (TrieSegment::Branch(n), Exp::Branch(c, _)) => follow(&c[*n as usize], rest),
        (TrieSegment::Extension(n), Exp::Ext(k, c)) if seq(n) == *k => follow(c, rest),
        // a difference between two hash nodes is reported below a Hash segment
        (TrieSegment::Hash, Exp::Hash(_)) => follow(e, rest),
        _ => None,
    }
}

fn diff(ck: &Check, u: &Universe, a: &Case, b: &Case) {
    let what = || format!("universe {}\na: {}\nb: {}", u.name, a.what, b.what);
    ck.transition(1);
    let d = match vc::catch(|| create_full_diff_between_tries(&a.trie, &b.trie)) {
        Ok(d) => d,
        Err(e) => return ck.violate("panic-diff", format!("{e}\n{}", what())),
    };
    let same = a.map == b.map;
    if same != d.diff_points.is_empty() {
        return ck.violate("diff-presence", format!("same contents: {same}; {d}\n{}", what()));
    }
    for p in &d.diff_points {
        let key = seq(&p.key);
        let c = || format!("{p}\n{}", what());
        if seq(&p.path.iter().into_key()) != key {
            ck.violate("diff-path-key", c());
        }
        let mut hashes = vec![];
        for (case, info) in [(a, &p.a_info), (b, &p.b_info)] {
            let Some(e) = follow(&case.exp, &p.path.0) else {
                ck.violate("diff-path", c());
                continue;
            };
            let enc = vc::refmpt::subnode(&case.map, &key);
            let h = match e {
                Exp::Hash(h) => *h,
                _ => vc::keccak(&enc),
            };
            hashes.push(h);
            if info.hash != h || info.node_type != node_type(e) {
                ck.violate("diff-info", format!("expected hash {h:?}, type {}\n{}", node_type(e), c()));
            }
            let (piece, value) = match e {
                Exp::Leaf(k, v) => (k.clone(), Some(v.clone())),
                Exp::Ext(k, _) => (k.clone(), None),
                Exp::Branch(_, v) => (vec![], Some(v.clone())),
                _ => (vec![], None),
            };
            if seq(&info.key) != [key.clone(), piece].concat() || info.value != value {
                ck.violate("diff-node-key-value", c());
            }
        }
        if hashes.len() == 2 && hashes[0] == hashes[1] {
            ck.violate("diff-not-different", c());
        }
    }
    if !same && d.diff_points.len() < 10 {
        // every differing key is below some reported point
        for k in a.map.keys().chain(b.map.keys()) {
            if a.map.get(k) != b.map.get(k) && !d.diff_points.iter().any(|p| k.starts_with(&seq(&p.key))) {
                ck.violate("diff-incomplete", format!("{} differs, but no point covers it: {d}\n{}", hex(k), what()));
            }
        }
    }
}

/// The nodes on the way to a key.
fn way(e: &Exp, key: &[u8], out: &mut Vec<TrieSegment>) -> bool {
    match e {
        Exp::Empty => {
            out.push(TrieSegment::Empty);
            false
        }
        Exp::Hash(_) => {
            out.push(TrieSegment::Hash);
            false
        }
        Exp::Leaf(k, _) => {
            out.push(TrieSegment::Leaf(nib(k)));
            k == key
        }
        Exp::Ext(k, c) => {
            out.push(TrieSegment::Extension(nib(k)));
            key.starts_with(k) && way(c, &key[k.len()..], out)
        }
        Exp::Branch(c, _) => {
            out.push(TrieSegment::Branch(key[0]));
            way(&c[key[0] as usize], &key[1..], out)
        }
    }
}

fn query(ck: &Check, u: &Universe, c: &Case) {
    for k in u.keys.iter().chain(&u.absent) {
        let what = || format!("universe {}, trie {}, key {}", u.name, c.what, hex(k));
        ck.transition(1);
        ck.guard("panic-query", what, || {
            let mut want = vec![];
            let found = way(&c.exp, k, &mut want);
            let all: Vec<TrieSegment> = path_for_query(&*c.trie, nib(k), true).collect();
            if all != want {
                ck.violate("query-path", format!("path {all:?}, expected {want:?}\n{}", what()));
            }
            // without the last node if it does not lie on the path to the key
            let strict: Vec<TrieSegment> = path_for_query(&*c.trie, nib(k), false).collect();
            let mut w2 = want.clone();
            let reached = want.iter().into_key();
            let off = match want.last() {
                Some(TrieSegment::Leaf(_)) | Some(TrieSegment::Extension(_)) => !k.starts_with(&seq(&reached)),
                _ => false,
            };
            if off {
                w2.pop();
            }
            if strict != w2 {
                ck.violate("query-path-strict", format!("path {strict:?}, expected {w2:?}\n{}", what()));
            }
            for (types, pieces) in [(true, true), (true, false), (false, true)] {
                let q = DebugQueryParamsBuilder::default().include_key_pieces(pieces).include_node_type(types).build(nib(k));
                let text = format!("{}", get_path_from_query(&*c.trie, q));
                if !text.contains(&format!("Node Found: {found}")) {
                    ck.violate("debug-query-found", format!("expected found = {found}:\n{text}\n{}", what()));
                }
                let got: Vec<&str> = text.lines().skip_while(|l| *l != "Query path:").skip(1).filter(|l| *l != "V").collect();
                let lines: Vec<String> = want
                    .iter()
                    .map(|s| {
                        let mut parts = vec![];
                        if types {
                            parts.push(s.node_type().to_string());
                        }
                        match s {
                            TrieSegment::Branch(n) if pieces => parts.push(format!("Key: 0x{n:x}")),
                            TrieSegment::Extension(n) | TrieSegment::Leaf(n) if pieces => parts.push(format!("Key: 0x{}", hex(&seq(n)))),
                            _ => {}
                        }
                        format!("({})", parts.join(", "))
                    })
                    .collect();
                if got != lines {
                    ck.violate("debug-query-path", format!("expected {lines:?}:\n{text}\n{}", what()));
                }
            }
        });
    }
}

#[derive(Default)]
struct Counts {
    n: [usize; 5],
    leaf: usize,
    hash: usize,
    deepest: usize,
}
fn count(e: &Exp, depth: usize, c: &mut Counts) {
    let i = match e {
        Exp::Empty => 0,
        Exp::Hash(_) => 1,
        Exp::Branch(..) => 2,
        Exp::Ext(..) => 3,
        Exp::Leaf(..) => 4,
    };
    c.n[i] += 1;
    match e {
        Exp::Hash(_) | Exp::Leaf(..) => {
            c.deepest = c.deepest.max(depth);
            if i == 1 {
                c.hash += depth
            } else {
                c.leaf += depth
            }
        }
        Exp::Branch(cs, _) => cs.iter().for_each(|x| count(x, depth + 1, c)),
        Exp::Ext(_, x) => count(x, depth + 1, c),
        Exp::Empty => {}
    }
}
fn stats(ck: &Check, u: &Universe, c: &Case) {
    let mut w = Counts::default();
    count(&c.exp, 0, &mut w);
    let text = get_trie_stats(&c.trie).to_string();
    for (name, n) in ["Empty", "Hash", "Branch", "Extension", "Leaf"].iter().zip(w.n) {
        if !text.lines().any(|l| l.starts_with(&format!("{name}: {n} "))) {
            ck.violate("stats", format!("expected {name}: {n}\n{text}\nuniverse {}, {}", u.name, c.what));
        }
    }
    let mut lines = vec![format!("Lowest depth: {}", w.deepest)];
    for (name, sum, n) in [("leaf", w.leaf, w.n[4]), ("hash", w.hash, w.n[1])] {
        if n > 0 {
            lines.push(format!("Average {name} depth: {:.3}", sum as f32 / n as f32));
        }
    }
    for l in lines {
        if !text.contains(&l) {
            ck.violate("stats", format!("expected {l}\n{text}\nuniverse {}, {}", u.name, c.what));
        }
    }
}

pub fn run() -> ! {
    let ck = Check::new("C04", "model_checking");
    let mut us = universes(ck.thorough);
    let limit = ck.pick(250, 1100);
    for u in &mut us {
        while (u.vals.len() + 1).pow(u.keys.len() as u32) > limit {
            if u.keys.len() > 4 {
                let k = u.keys.pop().unwrap();
                u.absent.push(k);
            } else {
                u.vals.pop();
            }
        }
    }
    for u in &us {
        // contents x pruning for small universes, contents alone for all
        for pruned in [false, true] {
            let mut v = u.clone();
            if pruned {
                v.vals.truncate(1);
                v.keys.truncate(ck.pick(4, 5));
                v.vals = vals(&["w32"]);
            }
            let cs = cases(&v, pruned);
            cs.par_iter().for_each(|a| {
                ck.state(&(&u.name, &a.exp));
                if ck.stopped() {
                    return;
                }
                for b in &cs {
                    diff(&ck, &v, a, b);
                }
                query(&ck, &v, a);
                stats(&ck, &v, a);
                ck.sample(&u.name, || json!(a.what));
            });
            ck.evals(&format!("pairs {} {}", u.name, if pruned { "pruned" } else { "full" }), (cs.len() * cs.len()) as u64);
        }
    }
    let bounds = json!({
        "universes": us.iter().map(|u| json!({"name": u.name, "keys": u.keys.len(), "values": u.vals.len()})).collect::<Vec<_>>(),
    });
    ck.finish(
        "a state is a distinct trie (full or pruned); every ordered pair is compared and every key of the universe queried",
        bounds,
        &["no key is a proper prefix of another", "at most 10 differences are listed (a documented limit of the tool)"],
    )
}
