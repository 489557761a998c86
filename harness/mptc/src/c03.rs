//! C03: every operation of a path against the plain list of its digits.
use std::str::FromStr;

use mpt_trie::nibbles::{Nibbles, NibblesIntern, ToNibbles};
use mpt_trie::utils::{IntoTrieKey, TriePath, TrieSegment};
use vc::rayon::prelude::*;
use vc::{json, Check, H256, U256};

use crate::common::*;

type Seq = Vec<u8>;

/// Compares a path with the digits expected, as a state.
fn same(ck: &Check, what: &str, got: &Nibbles, want: &[u8], ctx: &dyn Fn() -> String) {
    ck.transition(1);
    if !well_formed(got) || seq(got) != want {
        ck.violate(what, format!("{what}: got {} nibbles {:x?}, expected {}\n{}", got.count, got.packed, hex(want), ctx()));
    }
}
fn eq<T: PartialEq + std::fmt::Debug>(ck: &Check, what: &str, got: T, want: T, ctx: &dyn Fn() -> String) {
    ck.transition(1);
    if got != want {
        ck.violate(what, format!("{what}: got {got:?}, expected {want:?}\n{}", ctx()));
    }
}

fn bytes_of(s: &[u8]) -> Vec<u8> {
    let p: Seq = if s.len() % 2 == 1 { [&[0], s].concat() } else { s.to_vec() };
    p.chunks(2).map(|c| c[0] * 16 + c[1]).collect()
}
fn int_of(s: &[u8]) -> Option<U256> {
    let t: Vec<u8> = s.iter().copied().skip_while(|d| *d == 0).collect();
    (t.len() <= 64).then(|| t.iter().fold(U256::zero(), |a, d| (a << 4) | U256::from(*d)))
}

/// All operations on one path; `arg` bounds which numeric arguments are tried.
fn single(ck: &Check, s: &Seq, all_args: bool) {
    ck.state(s);
    let n = nib(s);
    let ctx = || format!("path {} ({} nibbles)", hex(s), s.len());
    let l = s.len();
    let run = || {
        // construction and conversion
        let b = bytes_of(s);
        if l % 2 == 0 && l > 0 {
            same(ck, "from_bytes_be", &Nibbles::from_bytes_be(&b).unwrap(), s, &ctx);
            let mut r = b.clone();
            r.reverse();
            same(ck, "from_bytes_le", &Nibbles::from_bytes_le(&r).unwrap(), s, &ctx);
        }
        eq(ck, "bytes_be", n.bytes_be(), b.clone(), &ctx);
        let mut le = b.clone();
        le.reverse();
        eq(ck, "as_byte_slice", n.as_byte_slice().to_vec(), le, &ctx);
        eq(ck, "min_bytes", n.min_bytes(), (l + 1) / 2, &ctx);
        eq(ck, "is_empty", n.is_empty(), l == 0, &ctx);
        let text = format!("0x{}", hex(s));
        eq(ck, "lower_hex", format!("{n:x}"), text.clone(), &ctx);
        eq(ck, "display", format!("{n}"), text.clone(), &ctx);
        eq(ck, "upper_hex", format!("{n:X}"), format!("0x{}", hex(s).to_uppercase()), &ctx);
        if l > 0 {
            same(ck, "from_str", &Nibbles::from_str(&text).unwrap(), s, &ctx);
            same(ck, "from_str", &Nibbles::from_str(&hex(s)).unwrap(), s, &ctx);
        }
        if l == 64 {
            let h = H256::from_slice(&b);
            same(ck, "from_h256_be", &Nibbles::from_h256_be(h), s, &ctx);
            let mut r = b.clone();
            r.reverse();
            same(ck, "from_h256_le", &Nibbles::from_h256_le(H256::from_slice(&r)), s, &ctx);
        }
        let mut padded = vec![0u8; 32 - b.len()];
        padded.extend(&b);
        eq(ck, "into_h256", H256::from(n), H256::from_slice(&padded), &ctx);
        let v = int_of(s).unwrap();
        eq(ck, "into_u256", U256::try_from(&n).ok(), Some(v), &ctx);
        eq(ck, "into_u256", TryInto::<U256>::try_into(n).ok(), Some(v), &ctx);
        eq(ck, "intern_u256", U256::try_from(&n.packed).ok(), Some(v), &ctx);
        eq(ck, "u256_intern", NibblesIntern::from(v), n.packed, &ctx);
        let bare: Seq = s.iter().copied().skip_while(|d| *d == 0).collect();
        same(ck, "from_u256", &v.to_nibbles(), &bare, &ctx);
        same(ck, "from_intern", &n.packed.to_nibbles(), &bare, &ctx);
        let even: Seq = if bare.len() % 2 == 1 { [&[0], &bare[..]].concat() } else { bare.clone() };
        same(ck, "byte_padded", &v.to_nibbles_byte_padded(), &even, &ctx);
        if bare.len() <= 16 {
            let w = v.as_u64();
            same(ck, "from_u64", &w.to_nibbles(), &bare, &ctx);
            same(ck, "from_usize", &(w as usize).to_nibbles(), &bare, &ctx);
            same(ck, "from_u64_padded", &w.to_nibbles_byte_padded(), &even, &ctx);
        }
        if bare.len() <= 8 {
            same(ck, "from_u32", &v.as_u32().to_nibbles(), &bare, &ctx);
        }
        if bare.len() <= 4 {
            same(ck, "from_u16", &(v.as_u32() as u16).to_nibbles(), &bare, &ctx);
        }
        if bare.len() <= 2 {
            same(ck, "from_u8", &(v.as_u32() as u8).to_nibbles(), &bare, &ctx);
        }
        eq(ck, "num_nibbles", Nibbles::get_num_nibbles_in_key(&n.packed), bare.len(), &ctx);
        // compact encoding
        for leaf in [false, true] {
            let enc = n.to_hex_prefix_encoding(leaf);
            eq(ck, "hex_prefix", enc.to_vec(), vc::refmpt::hex_prefix(s, leaf), &ctx);
            let dec = Nibbles::from_hex_prefix_encoding(&enc);
            if !leaf {
                same(ck, "from_hex_prefix", &dec.unwrap(), s, &ctx);
            } else {
                // a leaf's path carries a terminator byte of value 16
                let d = dec.unwrap();
                eq(ck, "from_hex_prefix_leaf", (d.count, seq(&d)), (l + 2, [&s[..], &[1, 0]].concat()), &ctx);
            }
        }
        let ser = vc::json!(n);
        eq(ck, "serde", serde_json::from_value::<Nibbles>(ser).ok(), Some(n), &ctx);
        // digits
        for i in 0..l {
            eq(ck, "get_nibble", n.get_nibble(i), s[i], &ctx);
        }
        let mut r = s.clone();
        r.reverse();
        same(ck, "reverse", &n.reverse(), &r, &ctx);
        if l > 0 {
            let mut a = n;
            eq(ck, "pop_front", a.pop_next_nibble_front(), s[0], &ctx);
            same(ck, "pop_front", &a, &s[1..], &ctx);
            let mut a = n;
            eq(ck, "pop_back", a.pop_next_nibble_back(), s[l - 1], &ctx);
            same(ck, "pop_back", &a, &s[..l - 1], &ctx);
        }
        if l < 64 {
            let digits: Vec<u8> = if all_args { (0..16).collect() } else { vec![0, 1, 8, 15] };
            for d in digits {
                let mut a = n;
                a.push_nibble_front(d);
                same(ck, "push_front", &a, &[&[d], &s[..]].concat(), &ctx);
                let mut a = n;
                a.push_nibble_back(d);
                same(ck, "push_back", &a, &[&s[..], &[d]].concat(), &ctx);
                same(ck, "merge_nibble", &n.merge_nibble(d), &[&s[..], &[d]].concat(), &ctx);
            }
        } else {
            for f in [0u8, 1] {
                let r = vc::catch(|| {
                    let mut a = n;
                    if f == 0 {
                        a.push_nibble_front(1)
                    } else {
                        a.push_nibble_back(1)
                    }
                });
                eq(ck, "push beyond 64 is refused", r.is_err(), true, &ctx);
            }
        }
        // positions
        for i in 0..=l {
            let (a, b) = n.split_at_idx(i);
            same(ck, "split.0", &a, &s[..i], &ctx);
            same(ck, "split.1", &b, &s[i..], &ctx);
            same(ck, "split_prefix", &n.split_at_idx_prefix(i), &s[..i], &ctx);
            same(ck, "split_postfix", &n.split_at_idx_postfix(i), &s[i..], &ctx);
            same(ck, "get_next", &n.get_next_nibbles(i), &s[..i], &ctx);
            let mut a = n;
            same(ck, "pop_nibbles_front", &a.pop_nibbles_front(i), &s[..i], &ctx);
            same(ck, "pop_nibbles_front rest", &a, &s[i..], &ctx);
            let mut a = n;
            let mut back = s[l - i..].to_vec();
            back.reverse();
            same(ck, "pop_nibbles_back", &a.pop_nibbles_back(i), &back, &ctx);
            same(ck, "pop_nibbles_back rest", &a, &s[..l - i], &ctx);
            let step = if all_args || l < 12 { 1 } else { 7 };
            for j in (i..=l).step_by(step) {
                same(ck, "range", &n.get_nibble_range(i..j), &s[i..j], &ctx);
            }
            if i < l {
                eq(ck, "prefix differs", n.nibbles_are_identical_up_to_smallest_count(&nib(&s[..i])), true, &ctx);
            }
        }
        for i in [0, 1, 2, l / 2, l.saturating_sub(1), l, l + 1, 64, 70] {
            let k = i.min(l);
            same(ck, "truncate_front", &n.truncate_n_nibbles_front(i), &s[k..], &ctx);
            same(ck, "truncate_back", &n.truncate_n_nibbles_back(i), &s[..l - k], &ctx);
            let (mut a, mut b) = (n, n);
            a.truncate_n_nibbles_front_mut(i);
            b.truncate_n_nibbles_back_mut(i);
            same(ck, "truncate_front_mut", &a, &s[k..], &ctx);
            same(ck, "truncate_back_mut", &b, &s[..l - k], &ctx);
        }
        // changing one digit at each position
        for i in 0..l {
            let mut t = s.clone();
            t[i] ^= 1 + (i % 15) as u8;
            pair(ck, s, &t);
        }
    };
    ck.guard("panic", ctx, run);
}

fn pair(ck: &Check, a: &Seq, b: &Seq) {
    let (x, y) = (nib(a), nib(b));
    let ctx = || format!("paths {} ({}) and {} ({})", hex(a), a.len(), hex(b), b.len());
    let run = || {
        let common = a.iter().zip(b).take_while(|(p, q)| p == q).count();
        let min = a.len().min(b.len());
        eq(
            ck,
            "first difference",
            Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(&x, &y),
            common,
            &ctx,
        );
        if a.len() == b.len() {
            eq(
                ck,
                "first difference (equal lengths)",
                Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&x, &y),
                common,
                &ctx,
            );
        }
        eq(ck, "identical up to the shorter", x.nibbles_are_identical_up_to_smallest_count(&y), common == min, &ctx);
        eq(ck, "equality", x == y, a == b, &ctx);
        eq(ck, "order", x.cmp(&y), (a.len(), a).cmp(&(b.len(), b)), &ctx);
        if a.len() + b.len() <= 64 {
            let cat = [&a[..], &b[..]].concat();
            same(ck, "merge", &x.merge_nibbles(&y), &cat, &ctx);
            let mut m = x;
            m.push_nibbles_back(&y);
            same(ck, "push_nibbles_back", &m, &cat, &ctx);
            let mut m = y;
            m.push_nibbles_front(&x);
            same(ck, "push_nibbles_front", &m, &cat, &ctx);
            let mut segs = vec![TrieSegment::Hash, TrieSegment::Extension(x)];
            if let Some((d, rest)) = b.split_first() {
                segs.push(TrieSegment::Branch(*d));
                segs.push(TrieSegment::Leaf(nib(rest)));
            }
            segs.push(TrieSegment::Empty);
            same(ck, "path to key", &TriePath(segs).iter().into_key(), &cat, &ctx);
        } else if a.len() + b.len() <= 66 || a.len() == b.len() {
            for i in 0..3 {
                let r = vc::catch(|| match i {
                    0 => {
                        x.merge_nibbles(&y);
                    }
                    1 => {
                        let mut m = x;
                        m.push_nibbles_back(&y);
                    }
                    _ => {
                        let mut m = x;
                        m.push_nibbles_front(&y);
                    }
                });
                eq(ck, "merge beyond 64 is refused", r.is_err(), true, &ctx);
            }
        }
    };
    ck.guard("panic-pair", ctx, run);
}

/// Structured paths of every length.
fn long_paths(thorough: bool) -> Vec<Seq> {
    let mut out = vec![];
    for l in 0..=64usize {
        out.push(vec![0; l]);
        out.push(vec![15; l]);
        out.push((0..l).map(|i| (i % 16) as u8).collect());
        out.push((0..l).map(|i| 15 - (i % 16) as u8).collect());
        out.push((0..l).map(|i| (i * i + 3) as u8 % 16).collect());
        for i in 0..l {
            if thorough || i < 2 || i + 2 >= l || i % 8 == 7 || i % 8 == 0 {
                let mut s = vec![0; l];
                s[i] = 8;
                out.push(s.clone());
                s[i] = 1;
                out.push(s);
                let mut s = vec![15; l];
                s[i] = 0;
                out.push(s);
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

pub fn run() -> ! {
    let ck = Check::new("C03", "model_checking");
    let short = ck.pick(3, 4);
    // every path of up to `short` nibbles
    let mut all: Vec<Seq> = vec![vec![]];
    let mut layer = all.clone();
    for _ in 0..short {
        layer = layer.iter().flat_map(|s| (0..16u8).map(move |d| [&s[..], &[d]].concat())).collect();
        all.extend(layer.clone());
    }
    all.par_iter().for_each(|s| {
        if !ck.stopped() {
            single(&ck, s, true)
        }
    });
    ck.evals("all short paths", all.len() as u64);
    let long = long_paths(ck.thorough);
    long.par_iter().for_each(|s| {
        if !ck.stopped() {
            single(&ck, s, ck.thorough)
        }
    });
    ck.evals("structured paths of every length", long.len() as u64);
    // pairs: all pairs of paths of up to 2 (3) nibbles over 4 digits, and of
    // structured paths
    let mut few: Vec<Seq> = vec![vec![]];
    let mut layer = few.clone();
    for _ in 0..ck.pick(3, 4) {
        layer = layer.iter().flat_map(|s| [0u8, 1, 8, 15].map(|d| [&s[..], &[d]].concat())).collect();
        few.extend(layer.clone());
    }
    let mut mixed: Vec<Seq> = long.iter().filter(|s| ck.thorough || [0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 63, 64].contains(&s.len())).cloned().collect();
    if ck.thorough {
        mixed.retain(|s| s.len() % 3 == 0 || s.len() > 61 || [1, 16, 17, 31, 32].contains(&s.len()));
    }
    for set in [&few, &mixed] {
        set.par_iter().for_each(|a| {
            if ck.stopped() {
                return;
            }
            for b in set.iter() {
                pair(&ck, a, b)
            }
        });
        ck.evals("pairs", (set.len() * set.len()) as u64);
    }
    // malformed compact encodings are refused
    for flag in 4..16u8 {
        for len in 1..=33usize {
            let mut b = vec![0u8; len];
            b[0] = flag << 4;
            eq(&ck, "invalid flags refused", Nibbles::from_hex_prefix_encoding(&b).is_err(), true, &|| format!("{b:?}"));
        }
    }
    for len in 34..=50usize {
        eq(&ck, "too long refused", Nibbles::from_hex_prefix_encoding(&vec![0u8; len]).is_err(), true, &|| format!("{len} bytes"));
        eq(&ck, "too long refused", Nibbles::from_bytes_be(&vec![0u8; len]).is_err(), true, &|| format!("{len} bytes"));
    }
    eq(&ck, "no bytes refused", Nibbles::from_bytes_be(&[]).is_err(), true, &|| "no bytes".into());
    for d in 0..16 {
        same(&ck, "from_nibble", &Nibbles::from_nibble(d), &[d], &|| format!("{d}"));
    }
    for s in all.iter().rev().take(2).chain(long.iter().rev().take(2)) {
        ck.sample("paths", || json!(hex(s)));
    }
    let bounds = json!({"all_paths_up_to": short, "structured_paths": long.len(), "pair_sets": [few.len(), mixed.len()], "lengths": "0..=64"});
    ck.finish(
        "a state is a path; every operation with every argument is applied to every path up to the length bound and to structured paths of all 65 lengths, every pair operation to all pairs",
        bounds,
        &["as_byte_slice gives little-endian bytes, and decoding a leaf's compact encoding keeps its terminator byte, as the crate's tests require"],
    )
}
