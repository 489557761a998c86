//! The Merkle-Patricia trie of the yellow paper (appendix D), computed from a
//! map of nibble strings, with no incremental structure at all.
use std::collections::BTreeMap;

use ethereum_types::H256;

use crate::{keccak, rlp};

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

pub fn hex_prefix(nibbles: &[u8], leaf: bool) -> Vec<u8> {
    let f = if leaf { 2u8 } else { 0 };
    let mut v = vec![];
    let rest = if nibbles.len() % 2 == 1 {
        v.push((f + 1) * 16 + nibbles[0]);
        &nibbles[1..]
    } else {
        v.push(f * 16);
        nibbles
    };
    for p in rest.chunks(2) {
        v.push(p[0] * 16 + p[1]);
    }
    v
}

#[derive(Clone, Debug)]
pub enum Kind {
    Leaf,
    Ext(usize),
    Branch,
}

/// RLP structure c(J, i): the entries all agree in their first `i` nibbles.
fn node(entries: &[(&[u8], &[u8])], i: usize) -> Vec<u8> {
    if entries.is_empty() {
        return rlp::bytes(&[]);
    }
    if let [(k, v)] = entries {
        return rlp::list(&[rlp::bytes(&hex_prefix(&k[i..], true)), rlp::bytes(v)]);
    }
    let first = entries[0].0;
    let mut j = i;
    while entries.iter().all(|(k, _)| k.len() > j && k[j] == first[j]) {
        j += 1;
    }
    if j > i {
        let child = reference(node(entries, j));
        return rlp::list(&[rlp::bytes(&hex_prefix(&first[i..j], false)), child]);
    }
    let mut items = vec![];
    for n in 0..16u8 {
        let sub: Vec<(&[u8], &[u8])> = entries.iter().copied().filter(|(k, _)| k.len() > i && k[i] == n).collect();
        items.push(if sub.is_empty() { rlp::bytes(&[]) } else { reference(node(&sub, i + 1)) });
    }
    let value = entries.iter().find(|(k, _)| k.len() == i).map(|(_, v)| *v).unwrap_or(&[]);
    items.push(rlp::bytes(value));
    rlp::list(&items)
}

fn reference(enc: Vec<u8>) -> Vec<u8> {
    if enc.len() < 32 {
        enc
    } else {
        rlp::bytes(keccak(&enc).as_bytes())
    }
}

pub fn root(map: &Map) -> H256 {
    let entries: Vec<(&[u8], &[u8])> = map.iter().map(|(k, v)| (k.as_slice(), v.as_slice())).collect();
    keccak(&node(&entries, 0))
}

/// The hash (or inline encoding's hash) of the subtrie below `prefix`.
pub fn subnode(map: &Map, prefix: &[u8]) -> Vec<u8> {
    let entries: Vec<(&[u8], &[u8])> =
        map.iter().filter(|(k, _)| k.starts_with(prefix)).map(|(k, v)| (k.as_slice(), v.as_slice())).collect();
    node(&entries, prefix.len())
}

pub fn nibbles_of(bytes: &[u8]) -> Vec<u8> {
    bytes.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}
