//! An independent encoder of compact witnesses, and of tries of which any
//! nodes are replaced by their hashes.
use std::collections::BTreeMap;

use mpt_trie::nibbles::Nibbles;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, PartialTrie};
use vc::refmpt::{self, Map};
use vc::{keccak, rlp, H256, U256};

/// A trie in which some nodes are hashed out.
#[derive(Clone, Debug)]
pub enum N {
    Hash(H256),
    /// The rest of the key, and the whole key.
    Leaf(Vec<u8>, Vec<u8>),
    Ext(Vec<u8>, Box<N>),
    Branch(Vec<Option<N>>),
    Empty,
}
fn below<'a>(m: &'a Map, p: &'a [u8]) -> impl Iterator<Item = &'a Vec<u8>> + 'a {
    m.keys().filter(move |k| k.starts_with(p))
}
/// Every way to replace nodes below `p` by hashes.
pub fn choices(m: &Map, p: &[u8]) -> Vec<N> {
    let mut out = vec![];
    let enc = refmpt::subnode(m, p);
    let n = below(m, p).count();
    if n > 0 && enc.len() >= 32 {
        out.push(N::Hash(keccak(&enc)));
    }
    match n {
        0 => out.push(N::Empty),
        1 => {
            let k = below(m, p).next().unwrap().clone();
            out.push(N::Leaf(k[p.len()..].to_vec(), k));
        }
        _ => {
            let first = below(m, p).next().unwrap();
            let last = below(m, p).last().unwrap();
            let common = first.iter().zip(last).take_while(|(a, b)| a == b).count();
            if common > p.len() {
                for c in choices(m, &first[..common]) {
                    out.push(N::Ext(first[p.len()..common].to_vec(), Box::new(c)));
                }
            } else {
                let mut all = vec![vec![]];
                for i in 0..16u8 {
                    let q = [p, &[i]].concat();
                    let some = match below(m, &q).next() {
                        None => vec![None],
                        Some(_) => choices(m, &q).into_iter().map(Some).collect(),
                    };
                    all = all.into_iter().flat_map(|v: Vec<Option<N>>| some.iter().map(move |s| [v.clone(), vec![s.clone()]].concat())).collect();
                }
                out.extend(all.into_iter().map(N::Branch));
            }
        }
    }
    out
}
/// Nothing hashed out.
pub fn whole(m: &Map) -> N {
    choices_last(m, &[])
}
fn choices_last(m: &Map, p: &[u8]) -> N {
    let mut keys = below(m, p);
    let (Some(first), last) = (keys.next(), keys.last()) else { return N::Empty };
    let Some(last) = last else { return N::Leaf(first[p.len()..].to_vec(), first.clone()) };
    let common = first.iter().zip(last).take_while(|(a, b)| a == b).count();
    if common > p.len() {
        return N::Ext(first[p.len()..common].to_vec(), Box::new(choices_last(m, &first[..common])));
    }
    N::Branch((0..16u8).map(|i| [p, &[i]].concat()).map(|q| below(m, &q).next().map(|_| choices_last(m, &q))).collect())
}
impl N {
    /// The keys that are not hashed out.
    pub fn shown(&self, out: &mut Vec<Vec<u8>>) {
        match self {
            N::Leaf(_, k) => out.push(k.clone()),
            N::Ext(_, c) => c.shown(out),
            N::Branch(c) => c.iter().flatten().for_each(|c| c.shown(out)),
            _ => {}
        }
    }
    pub fn trie(&self, m: &Map) -> HashedPartialTrie {
        let nib = |k: &[u8]| {
            let mut n = Nibbles::default();
            k.iter().for_each(|x| n.push_nibble_back(*x));
            n
        };
        HashedPartialTrie::new(match self {
            N::Hash(h) => Node::Hash(*h),
            N::Leaf(r, k) => Node::Leaf { nibbles: nib(r), value: m[k].clone() },
            N::Ext(r, c) => Node::Extension { nibbles: nib(r), child: std::sync::Arc::new(Box::new(c.trie(m))) },
            N::Branch(c) => Node::Branch { children: std::array::from_fn(|i| std::sync::Arc::new(Box::new(c[i].as_ref().map_or(HashedPartialTrie::default(), |c| c.trie(m))))), value: vec![] },
            N::Empty => Node::Empty,
        })
    }
}

pub fn cbor_head(major: u8, n: u64) -> Vec<u8> {
    let m = major << 5;
    match n {
        0..=23 => vec![m | n as u8],
        24..=0xff => vec![m | 24, n as u8],
        0x100..=0xffff => [&[m | 25][..], &(n as u16).to_be_bytes()].concat(),
        0x1_0000..=0xffff_ffff => [&[m | 26][..], &(n as u32).to_be_bytes()].concat(),
        _ => [&[m | 27][..], &n.to_be_bytes()].concat(),
    }
}
pub fn cbor_uint(n: u64) -> Vec<u8> {
    cbor_head(0, n)
}
pub fn cbor_bytes(b: &[u8]) -> Vec<u8> {
    [cbor_head(2, b.len() as u64), b.to_vec()].concat()
}
/// A key: one nibble is itself, more are packed after a byte of flags.
pub fn key(nibbles: &[u8], leaf: bool) -> Vec<u8> {
    if nibbles.len() == 1 {
        return cbor_bytes(nibbles);
    }
    let mut v = vec![(nibbles.len() % 2) as u8 | if leaf { 2 } else { 0 }];
    for p in nibbles.chunks(2) {
        v.push(p[0] << 4 | p.get(1).copied().unwrap_or(0));
    }
    cbor_bytes(&v)
}
pub fn trimmed(x: U256) -> Vec<u8> {
    let mut b = [0; 32];
    x.to_big_endian(&mut b);
    rlp::be_trim(&b).to_vec()
}

/// Emits a trie; `leaf` emits what precedes a leaf and the leaf itself.
pub fn emit(n: &N, out: &mut Vec<u8>, leaf: &mut dyn FnMut(&[u8], &[u8], &mut Vec<u8>)) {
    match n {
        N::Hash(h) => {
            out.push(3);
            out.extend(h.0);
        }
        N::Leaf(rest, k) => leaf(rest, k, out),
        N::Ext(k, c) => {
            emit(c, out, leaf);
            out.push(1);
            out.extend(key(k, false));
        }
        N::Branch(c) => {
            let mut mask = 0u64;
            for (i, c) in c.iter().enumerate() {
                if let Some(c) = c {
                    mask |= 1 << i;
                    emit(c, out, leaf);
                }
            }
            out.push(2);
            out.extend(cbor_uint(mask));
        }
        N::Empty => out.push(6),
    }
}
pub fn storage_map(s: &BTreeMap<U256, U256>) -> Map {
    s.iter().filter(|x| !x.1.is_zero()).map(|(k, v)| (refmpt::nibbles_of(&keccak(&crate::refevm::be(*k)).0), rlp::u256(*v))).collect()
}
/// How an account is written.
#[derive(Clone, Debug)]
pub struct Style {
    /// The code itself, not its hash.
    pub code: bool,
    pub storage: N,
    /// Zero fields and empty storage are written too.
    pub verbose: bool,
}
pub fn emit_account(rest: &[u8], a: &crate::refevm::Acct, s: &Style, out: &mut Vec<u8>) {
    let mut flags = 0;
    if !a.code.is_empty() {
        flags |= 1;
        if s.code {
            out.push(4);
            out.extend(cbor_bytes(&a.code));
        } else {
            out.push(3);
            out.extend(keccak(&a.code).0);
        }
    }
    let m: BTreeMap<Vec<u8>, U256> = a.storage.iter().map(|(k, v)| (refmpt::nibbles_of(&keccak(&crate::refevm::be(*k)).0), *v)).collect();
    if s.verbose || !matches!(s.storage, N::Empty) {
        flags |= 2;
        emit(&s.storage, out, &mut |rest, k, out| {
            out.push(0);
            out.extend(key(rest, true));
            out.extend(cbor_bytes(&trimmed(m[k])));
        });
    }
    let mut tail = vec![];
    if s.verbose || a.nonce > 0 {
        flags |= 4;
        tail.extend(cbor_uint(a.nonce));
    }
    if s.verbose || !a.balance.is_zero() {
        flags |= 8;
        tail.extend(cbor_bytes(&trimmed(a.balance)));
    }
    if flags & 1 == 1 {
        tail.extend(cbor_uint(a.code.len() as u64));
    }
    out.push(5);
    out.extend(key(rest, true));
    out.push(flags);
    out.extend(tail);
}
/// The whole state, with every code.
pub fn compact(w: &crate::refevm::World) -> Vec<u8> {
    let by_key: BTreeMap<Vec<u8>, &crate::refevm::Acct> = w.iter().map(|(a, x)| (refmpt::nibbles_of(&keccak(a.as_bytes()).0), x)).collect();
    let m: Map = by_key.keys().map(|k| (k.clone(), vec![1])).collect();
    let mut out = vec![1];
    emit(&whole(&m), &mut out, &mut |rest, k, out| {
        let a = by_key[k];
        emit_account(rest, a, &Style { code: true, storage: whole(&storage_map(&a.storage)), verbose: false }, out);
    });
    out
}
