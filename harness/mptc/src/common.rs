//! Universes of keys and values, conversions that do not rely on the code
//! under test, and a reference model of trie nodes (full and pruned).
use mpt_trie::nibbles::{Nibbles, NibblesIntern};
use mpt_trie::partial_trie::{Node, PartialTrie};
use mpt_trie::trie_ops::ValOrHash;
use vc::refmpt::{self, Map};
use vc::{keccak, H256};

pub fn nib(s: &[u8]) -> Nibbles {
    let mut buf = [0u8; 40];
    for (i, d) in s.iter().rev().enumerate() {
        buf[39 - i / 2] |= d << (4 * (i % 2));
    }
    Nibbles { count: s.len(), packed: NibblesIntern::from_big_endian(&buf) }
}

pub fn seq(n: &Nibbles) -> Vec<u8> {
    let mut buf = [0u8; 40];
    n.packed.to_big_endian(&mut buf);
    assert!(n.count <= 80, "path of {} nibbles", n.count);
    (0..80).map(|i| if i % 2 == 0 { buf[i / 2] >> 4 } else { buf[i / 2] & 15 }).skip(80 - n.count).collect()
}
/// The packed integer has no digit beyond the sequence.
pub fn well_formed(n: &Nibbles) -> bool {
    n.count <= 64 && nib(&seq(n)).packed == n.packed
}

#[derive(Clone)]
pub struct Universe {
    pub name: String,
    pub keys: Vec<Vec<u8>>,
    /// looked up, pruned for, never inserted
    pub absent: Vec<Vec<u8>>,
    pub vals: Vec<Vec<u8>>,
}

pub fn val(kind: &str) -> Vec<u8> {
    match kind {
        "one" => vec![0x01],           // encoded as itself
        "b80" => vec![0x80],           // needs a length prefix
        "short" => vec![0xaa, 0xbb, 0xcc],
        "long" => (0..40).map(|i| i as u8 ^ 0x5a).collect(),
        "w32" => vec![0xee; 32],
        "w60" => (0..60).map(|i| i as u8).collect(),
        "w25" => vec![0x11; 25],
        "w26" => vec![0x12; 26],
        "w27" => vec![0x13; 27],
        "w28" => vec![0x14; 28],
        "w29" => vec![0x15; 29],
        "w30" => vec![0x16; 30],
        "w55" => vec![0x17; 55],
        "w56" => vec![0x18; 56],
        "w300" => vec![0x19; 300],
        _ => panic!("{kind}"),
    }
}
pub fn vals(k: &[&str]) -> Vec<Vec<u8>> {
    k.iter().map(|k| val(k)).collect()
}

fn h(s: &str) -> Vec<u8> {
    s.chars().map(|c| c.to_digit(16).unwrap() as u8).collect()
}
/// 64 nibbles: `prefix`, then `fill` repeated, then `suffix`.
pub fn long(prefix: &str, fill: char, suffix: &str) -> Vec<u8> {
    let n = 64 - prefix.len() - suffix.len();
    h(&format!("{prefix}{}{suffix}", fill.to_string().repeat(n)))
}

pub fn universes(thorough: bool) -> Vec<Universe> {
    let u = |name: &str, keys: Vec<Vec<u8>>, absent: Vec<Vec<u8>>, v: &[&str]| Universe {
        name: name.into(),
        keys,
        absent,
        vals: vals(v),
    };
    let hs = |l: &[&str]| l.iter().map(|s| h(s)).collect::<Vec<_>>();
    let mut out = vec![
        u("2-nibble", hs(&["00", "01", "0f", "10", "f0", "ff"]), hs(&["11", "1f", "20", "0e"]), &["short", "long"]),
        u("2-nibble-wide", hs(&["00", "01", "0f", "10", "11", "1f", "f0", "f1", "ff"]), hs(&["0e", "e0"]), &["long"]),
        u("4-nibble", hs(&["1234", "1235", "1334", "1200", "5678", "5679"]), hs(&["1236", "1000", "5670", "9999"]), &["one", "w32"]),
        u(
            "64-nibble",
            vec![
                long("", '0', ""),
                long("", '0', "1"),
                long("", '0', "10"),
                long("000000f", '0', ""),
                long("1", '0', ""),
                long("", 'f', ""),
            ],
            vec![long("", '0', "2"), long("2", '0', ""), long("", 'f', "e"), long("0000001", '0', "")],
            &["one", "w32"],
        ),
        u(
            "64-nibble-mid",
            vec![
                long("0123456789abcdef", '7', ""),
                long("0123456789abcdef", '7', "8"),
                long("0123456789abcdef8", '7', ""),
                long("0123456789abcdee", '7', ""),
                long("ff00", '3', ""),
            ],
            vec![long("0123456789abcdef", '7', "9"), long("01234", '7', ""), long("ff01", '3', "")],
            &["b80", "w60"],
        ),
        // rlp(0) = 80, rlp(1) = 01, rlp(127) = 7f, rlp(128) = 8180, rlp(256) = 820100
        u("rlp-index", hs(&["80", "01", "02", "7f", "8180", "81ff", "820100"]), hs(&["03", "8181", "820101"]), &["w32"]),
        u("1-nibble", hs(&["0", "1", "7", "f"]), hs(&["2", "e"]), &["one", "b80", "long"]),
        u("empty-key", vec![vec![]], vec![], &["one", "b80", "short", "long"]),
        u("sizes", hs(&["00", "01"]), hs(&["10"]), &["w25", "w26", "w27", "w28", "w29", "w30", "w32", "w55", "w56", "w300"]),
        u("sizes-6", hs(&["000000", "000001"]), hs(&["000010"]), &["one", "w25", "w26", "w27", "w28", "w29", "w30", "w32"]),
    ];
    if thorough {
        out.push(u(
            "3-nibble",
            hs(&["000", "001", "010", "011", "100", "101", "110", "111"]),
            hs(&["002", "020", "200"]),
            &["short", "long"],
        ));
        out.push(u(
            "2-nibble-3v",
            hs(&["00", "01", "0f", "10", "1f", "f0", "ff"]),
            hs(&["11", "20"]),
            &["one", "w27", "long"],
        ));
        out.push(u("16-way", (0..16).map(|i| vec![i as u8]).collect(), vec![], &["w32"]));
        out.push(u(
            "5-nibble",
            hs(&["00000", "00001", "00010", "00100", "01000", "10000", "fffff"]),
            hs(&["00002", "00020", "20000"]),
            &["b80", "w60"],
        ));
    }
    out
}

/// All maps over the universe.
pub fn all_maps(u: &Universe) -> Vec<Map> {
    let b = u.vals.len() + 1;
    let n = b.pow(u.keys.len() as u32);
    (0..n)
        .map(|mut i| {
            let mut m = Map::new();
            for k in &u.keys {
                let d = i % b;
                i /= b;
                if d > 0 {
                    m.insert(k.clone(), u.vals[d - 1].clone());
                }
            }
            m
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Exp {
    Empty,
    Hash(H256),
    Branch(Vec<Exp>, Vec<u8>),
    Ext(Vec<u8>, Box<Exp>),
    Leaf(Vec<u8>, Vec<u8>),
}

/// The node at `prefix` of the trie with contents `map`, pruned to `keys`
/// (None: not pruned), by definition.
pub fn expected(map: &Map, prefix: &[u8], keys: Option<&[Vec<u8>]>) -> Exp {
    let below: Vec<(&Vec<u8>, &Vec<u8>)> = map.iter().filter(|(k, _)| k.starts_with(prefix)).collect();
    let keys_here: Option<Vec<Vec<u8>>> =
        keys.map(|ks| ks.iter().filter(|k| k.starts_with(prefix)).cloned().collect());
    if let Some(k) = &keys_here {
        if k.is_empty() {
            let enc = refmpt::subnode(map, prefix);
            if enc.len() >= 32 {
                return Exp::Hash(keccak(&enc));
            }
        }
    }
    match below.as_slice() {
        [] => Exp::Empty,
        [(k, v)] => Exp::Leaf(k[prefix.len()..].to_vec(), v.to_vec()),
        _ => {
            let first = below[0].0;
            let mut j = prefix.len();
            while below.iter().all(|(k, _)| k.len() > j && k[j] == first[j]) {
                j += 1;
            }
            let ks = keys_here.as_deref();
            if j > prefix.len() {
                Exp::Ext(first[prefix.len()..j].to_vec(), Box::new(expected(map, &first[..j], ks)))
            } else {
                let children = (0..16u8)
                    .map(|n| {
                        let mut p = prefix.to_vec();
                        p.push(n);
                        expected(map, &p, ks)
                    })
                    .collect();
                Exp::Branch(children, vec![])
            }
        }
    }
}

pub fn observed<T: PartialTrie>(n: &Node<T>) -> Exp {
    match n {
        Node::Empty => Exp::Empty,
        Node::Hash(h) => Exp::Hash(*h),
        Node::Branch { children, value } => {
            Exp::Branch(children.iter().map(|c| observed::<T>(c)).collect(), value.clone())
        }
        Node::Extension { nibbles, child } => Exp::Ext(seq(nibbles), Box::new(observed::<T>(child))),
        Node::Leaf { nibbles, value } => Exp::Leaf(seq(nibbles), value.clone()),
    }
}

/// What iterating over a trie of this shape must yield.
pub fn items_of(e: &Exp, prefix: &[u8], out: &mut Vec<(Vec<u8>, ValOrHash)>) {
    let cat = |s: &[u8]| [prefix, s].concat();
    match e {
        Exp::Empty => {}
        Exp::Hash(h) => out.push((prefix.to_vec(), ValOrHash::Hash(*h))),
        Exp::Leaf(k, v) => out.push((cat(k), ValOrHash::Val(v.clone()))),
        Exp::Ext(k, c) => items_of(c, &cat(k), out),
        Exp::Branch(cs, v) => {
            for (i, c) in cs.iter().enumerate() {
                items_of(c, &cat(&[i as u8]), out);
            }
            if !v.is_empty() {
                out.push((prefix.to_vec(), ValOrHash::Val(v.clone())));
            }
        }
    }
}

/// Proof of `key`: the encodings of the hashed nodes on its path.
pub fn proof(map: &Map, key: &[u8]) -> Vec<Vec<u8>> {
    fn go(map: &Map, prefix: &[u8], key: &[u8], out: &mut Vec<Vec<u8>>) {
        let enc = refmpt::subnode(map, prefix);
        if enc.len() >= 32 || prefix.is_empty() {
            out.push(enc);
        }
        match expected(map, prefix, None) {
            Exp::Ext(k, _) => {
                let p = [prefix, &k].concat();
                if key.starts_with(&p) {
                    go(map, &p, key, out)
                }
            }
            Exp::Branch(..) => {
                if key.len() > prefix.len() {
                    go(map, &key[..prefix.len() + 1], key, out)
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    if !map.is_empty() {
        go(map, &[], key, &mut out);
    }
    out
}

/// `e` is `want`, except that it may know more below some hashes.
pub fn refines(e: &Exp, want: &Exp, map: &Map, prefix: &[u8]) -> bool {
    let cat = |s: &[u8]| [prefix, s].concat();
    match (e, want) {
        (Exp::Hash(a), Exp::Hash(b)) => a == b,
        (_, Exp::Hash(_)) => refines(e, &expected(map, prefix, None), map, prefix),
        (Exp::Ext(a, x), Exp::Ext(b, y)) => a == b && refines(x, y, map, &cat(a)),
        (Exp::Branch(a, v), Exp::Branch(b, w)) => {
            v == w && a.iter().zip(b).enumerate().all(|(i, (x, y))| refines(x, y, map, &cat(&[i as u8])))
        }
        // inside a subtrie known from its twin elsewhere, some of it may be hashed
        (Exp::Hash(h), _) => keccak(&refmpt::subnode(map, prefix)) == *h,
        _ => e == want,
    }
}

pub fn hex(k: &[u8]) -> String {
    k.iter().map(|d| char::from_digit(*d as u32, 16).unwrap()).collect()
}
pub fn show(m: &Map) -> String {
    m.iter()
        .map(|(k, v)| format!("{}=>{}B:{:02x}..", hex(k), v.len(), v[0]))
        .collect::<Vec<_>>()
        .join(", ")
}
