//! A reference for sparse Merkle trees: a plain map and a recursive hash.
use std::collections::BTreeMap;

pub use alloy::primitives::{Address, U256};
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon::Poseidon;
pub use smt_trie::db::MemoryDb;
pub use smt_trie::smt::{HashOut, Key, Smt, F};

pub type T = Smt<MemoryDb>;
pub type BitVec = Vec<bool>;
pub type Map = BTreeMap<BitVec, U256>;
pub type H = [u64; 4];

pub fn poseidon(x: [u64; 12]) -> H {
    let o = F::poseidon(x.map(F::from_canonical_u64));
    std::array::from_fn(|i| o[i].to_canonical_u64())
}

/// Bit `i` of a key is bit `i / 4` of its limb `i % 4`.
pub fn key_of(bits: &[bool]) -> Key {
    let mut l = [0u64; 4];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            l[i % 4] |= 1 << (i / 4);
        }
    }
    Key(l.map(F::from_canonical_u64))
}
pub fn bits_of(k: Key) -> BitVec {
    let l = k.0.map(|x| x.to_canonical_u64());
    (0..256).map(|i| l[i % 4] >> (i / 4) & 1 == 1).collect()
}

/// The limbs of what remains of a key after removing `n` bits.
pub fn rem(bits: &[bool], n: usize) -> H {
    let mut l = [0u64; 4];
    let mut taken = [0u32; 4];
    for i in 0..n {
        taken[i % 4] += 1;
    }
    for i in n..256 {
        if bits[i] {
            l[i % 4] |= 1 << ((i / 4) as u32 - taken[i % 4]);
        }
    }
    l
}

pub fn value_hash(v: U256) -> H {
    let mut x = [0; 12];
    for (i, l) in v.as_limbs().iter().enumerate() {
        x[2 * i] = l & 0xffff_ffff;
        x[2 * i + 1] = l >> 32;
    }
    poseidon(x)
}

pub fn leaf_hash(rem: H, v: U256) -> H {
    let vh = value_hash(v);
    poseidon([rem[0], rem[1], rem[2], rem[3], vh[0], vh[1], vh[2], vh[3], 1, 0, 0, 0])
}
pub fn node_hash(l: H, r: H) -> H {
    poseidon([l[0], l[1], l[2], l[3], r[0], r[1], r[2], r[3], 0, 0, 0, 0])
}

fn sub(e: &[(&BitVec, U256)], depth: usize) -> H {
    match e {
        [] => [0; 4],
        [(k, v)] => leaf_hash(rem(k, depth), *v),
        _ => {
            // entries are sorted, so zeros come first
            let cut = e.partition_point(|(k, _)| !k[depth]);
            node_hash(sub(&e[..cut], depth + 1), sub(&e[cut..], depth + 1))
        }
    }
}
pub fn root(m: &Map) -> H {
    let e: Vec<_> = m.iter().map(|(k, v)| (k, *v)).collect();
    sub(&e, 0)
}
/// The hash of the part of `m` below `prefix`.
pub fn subroot(m: &Map, prefix: &[bool]) -> H {
    let e: Vec<_> = m.iter().filter(|(k, _)| k.starts_with(prefix)).map(|(k, v)| (k, *v)).collect();
    sub(&e, prefix.len())
}

pub fn h(x: HashOut) -> H {
    x.elements.map(|x| x.to_canonical_u64())
}
pub fn hu(x: H) -> U256 {
    U256::from_limbs(x)
}

pub struct Universe {
    pub name: &'static str,
    pub keys: Vec<BitVec>,
    pub absent: Vec<BitVec>,
    pub vals: Vec<U256>,
}

pub fn flip(base: &[bool], at: &[usize]) -> BitVec {
    let mut b = base.to_vec();
    for i in at {
        b[*i] = !b[*i];
    }
    b
}

fn uni(name: &'static str, base: &BitVec, keys: &[&[usize]], absent: &[&[usize]], vals: &[U256]) -> Universe {
    Universe {
        name,
        keys: keys.iter().map(|f| flip(base, f)).collect(),
        absent: absent.iter().map(|f| flip(base, f)).collect(),
        vals: vals.to_vec(),
    }
}

pub fn universes(thorough: bool) -> Vec<Universe> {
    let zero = vec![false; 256];
    // limbs 0x5555..., never at or above the field's order
    let alt: BitVec = (0..256).map(|i| (i / 4) % 2 == 0).collect();
    // limbs 0x7fff...: setting bit 63 of one would pass the order, so only
    // lower bits are flipped on this base
    let ones: BitVec = (0..256).map(|i| i < 252).collect();
    let one = U256::from(1);
    let v2 = [one, U256::MAX];
    let v3 = [one, (one << 32) + (one << 224), U256::MAX];
    let mut u = vec![
        uni("top bits", &zero, &[&[], &[0], &[1], &[0, 1], &[2], &[0, 2]], &[&[1, 2], &[255], &[0, 3]], &v2),
        uni("chains", &alt, &[&[], &[3], &[4], &[5], &[63], &[64]], &[&[65], &[2], &[3, 4]], &v2),
        uni("last bits", &zero, &[&[], &[251], &[252], &[253], &[254], &[255]], &[&[254, 255], &[0], &[250]], &v2),
        uni("last bits below a branch", &alt, &[&[], &[254], &[255], &[0], &[0, 255], &[0, 253]], &[&[0, 254], &[1], &[254, 255]], &v2),
        uni("mixed", &ones, &[&[], &[0], &[0, 128], &[127], &[0, 1, 2, 3, 4], &[250]], &[&[249], &[0, 127], &[3]], &v2),
        uni("values", &zero, &[&[], &[0], &[7], &[0, 9]], &[&[8], &[0, 255]], &v3),
    ];
    let addrs = [Address::ZERO, Address::repeat_byte(0x11), Address::with_last_byte(1)];
    let mut ks = vec![];
    for a in addrs {
        use smt_trie::keys::*;
        ks.extend([key_balance(a), key_nonce(a), key_code(a), key_code_length(a), key_storage(a, one)]);
    }
    let ks: Vec<BitVec> = ks.into_iter().map(bits_of).collect();
    u.push(Universe { name: "account fields", keys: ks[..6].to_vec(), absent: ks[6..].to_vec(), vals: v2.to_vec() });
    if thorough {
        u.push(Universe { name: "account fields, more", keys: ks[..8].to_vec(), absent: ks[8..].to_vec(), vals: v2.to_vec() });
        u.push(uni(
            "dense",
            &zero,
            &[&[], &[0], &[1], &[0, 1], &[2], &[0, 2], &[1, 2], &[0, 1, 2]],
            &[&[3], &[0, 1, 2, 3]],
            &v2,
        ));
        u.push(uni("dense at the end", &zero, &[&[], &[255], &[254], &[253], &[252], &[254, 255], &[253, 255], &[252, 253, 254, 255]], &[&[251], &[253, 254]], &v2));
    }
    u
}

pub fn show(m: &Map) -> String {
    m.iter().map(|(k, v)| format!("{}={v:#x}", show_key(k))).collect::<Vec<_>>().join(", ")
}
pub fn show_key(k: &[bool]) -> String {
    hu(key_of(k).0.map(|x| x.to_canonical_u64())).to_string()
}

/// All maps over the universe, in lexicographic order.
pub fn contents(u: &Universe) -> Vec<Map> {
    let base = u.vals.len() + 1;
    (0..base.pow(u.keys.len() as u32))
        .map(|mut n| {
            let mut m = Map::new();
            for k in &u.keys {
                let d = n % base;
                n /= base;
                if d > 0 {
                    m.insert(k.clone(), u.vals[d - 1]);
                }
            }
            m
        })
        .collect()
}
