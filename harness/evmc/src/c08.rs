//! C08: decoding a witness recovers the encoded state. States are small, every
//! choice of hashed-out nodes is encoded, and every truncation is refused.
use std::collections::BTreeMap;

use either::Either;
use evm_arithmetization::tries::MptKey;
use evm_arithmetization::world::{Hasher as _, Type1World, Type2World, World as _};
use mpt_trie::partial_trie::PartialTrie;
use smt_trie::keys::{key_balance, key_code, key_code_length, key_nonce, key_storage};
use trace_decoder::verif_hooks::{start, Codes};
use trace_decoder::*;
use vc::rayon::prelude::*;
use vc::refmpt::{self, Map};
use vc::{json, keccak, Check, H256, U256};

use crate::batch::addr20;
use crate::c07::slots;
use crate::refevm::{account_rlp, be, state_root, storage_root, Acct, Addr, World};
use crate::refsmt;
use crate::witness::*;

fn addrs() -> [Addr; 4] {
    let a = addr20(0xad, 1);
    let h = |x: Addr| keccak(x.as_bytes()).0[0];
    let find = |f: &dyn Fn(u8) -> bool| (2u64..).map(|i| addr20(0xad, i)).find(|x| f(h(*x))).unwrap();
    [a, find(&|x| x == h(a)), find(&|x| x >> 4 == h(a) >> 4 && x != h(a)), find(&|x| x >> 4 != h(a) >> 4)]
}
fn account(i: usize, storage: &[usize]) -> Acct {
    let vals = [1u64, 0x7f, 0x80, u64::MAX];
    let storage = storage.iter().map(|s| (slots()[*s], U256::from(vals[(s + i) % 4]) << if *s == 3 { 190 } else { 0 })).collect();
    match i % 4 {
        0 => Acct { nonce: 1, balance: U256::MAX, code: vec![0x60, 1, 0x5b], storage },
        1 => Acct { nonce: 0, balance: 0x80.into(), code: vec![], storage },
        2 => Acct { nonce: u64::MAX, balance: 0.into(), code: vec![0xee; 300], storage },
        _ => Acct { nonce: 24, balance: U256::one() << 64, code: vec![], storage },
    }
}
fn world(set: usize, storage: [&[usize]; 4]) -> World {
    (0..4).filter(|i| set >> i & 1 == 1).map(|i| (addrs()[i], account(i, storage[i]))).collect()
}
fn combined(bytes: Vec<u8>) -> BlockTraceTriePreImages {
    BlockTraceTriePreImages::Combined(CombinedPreImages { compact: bytes })
}
type Started = Either<(Type1World, Codes), (Type2World, Codes)>;
fn decode(bytes: &[u8], d: WireDisposition) -> Result<Result<Started, String>, String> {
    vc::catch(|| start(combined(bytes.to_vec()), d).map_err(|e| format!("{e:?}")))
}

/// What of a state is visible.
struct View<'a> {
    world: &'a World,
    /// Keys of accounts and of slots.
    accounts: Vec<Vec<u8>>,
    slots: BTreeMap<Addr, Vec<Vec<u8>>>,
    codes: Vec<Vec<u8>>,
}
fn akey(a: &Addr) -> Vec<u8> {
    refmpt::nibbles_of(&keccak(a.as_bytes()).0)
}
fn skey(s: &U256) -> Vec<u8> {
    refmpt::nibbles_of(&keccak(&be(*s)).0)
}
fn matches1(mut w: Type1World, codes: Option<Codes>, v: &View) -> Result<(), String> {
    if w.root() != state_root(v.world) {
        return Err(format!("root {:?}, not {:?}", w.root(), state_root(v.world)));
    }
    let (state, storage) = w.clone().into_state_and_storage();
    let got: BTreeMap<H256, _> = state.iter().collect();
    if got.len() != v.accounts.len() {
        return Err(format!("{} accounts, not {}", got.len(), v.accounts.len()));
    }
    for (a, x) in v.world {
        let shown = v.accounts.contains(&akey(a));
        let got = got.get(&keccak(a.as_bytes()));
        if got.is_some() != shown || w.contains(*a).ok() != Some(shown) {
            return Err(format!("{a:?} is {got:?}"));
        }
        let Some(got) = got else { continue };
        let want = (x.nonce.into(), x.balance, storage_root(&x.storage), keccak(&x.code));
        if (got.nonce, got.balance, got.storage_root, got.code_hash) != want {
            return Err(format!("{a:?} is {got:?}, not {want:?}"));
        }
        let t = storage.get(&keccak(a.as_bytes())).ok_or(format!("no storage for {a:?}"))?;
        if t.root() != want.2 {
            return Err(format!("the storage of {a:?} has root {:?}", t.root()));
        }
        for s in slots() {
            let value = x.storage.get(&s).copied().filter(|_| v.slots.get(a).is_some_and(|l| l.contains(&skey(&s))));
            let got = w.load_int(*a, s).ok();
            if got != value {
                return Err(format!("slot {s} of {a:?} is {got:?}, not {value:?}"));
            }
        }
        let n = t.as_hashed_partial_trie().items().filter(|x| matches!(x.1, mpt_trie::trie_ops::ValOrHash::Val(_))).count();
        if n != v.slots.get(a).map_or(0, |s| s.len()) {
            return Err(format!("{n} slots of {a:?}"));
        }
    }
    let Some(mut codes) = codes else { return Ok(()) };
    for x in v.world.values() {
        let want = v.codes.contains(&x.code).then(|| x.code.clone());
        let got = codes(keccak(&x.code));
        if got != want && !(x.code.is_empty() && got == Some(vec![])) {
            return Err(format!("the code {:02x?} is {got:02x?}", x.code));
        }
    }
    Ok(())
}

fn mpt(ck: &Check) {
    let mut worlds = vec![];
    for set in 0..16usize {
        worlds.push(world(set, [&[], &[], &[], &[]]));
        worlds.push(world(set, [&[0, 1], &[2], &[], &[3]]));
        if set & 1 == 1 && (ck.thorough || set.count_ones() <= 2) {
            for s in 1..16usize {
                let s: Vec<usize> = (0..4).filter(|i| s >> i & 1 == 1).collect();
                worlds.push(world(set, [&s, &[], &[0], &[]]));
            }
        }
    }
    worlds.dedup();
    worlds.into_par_iter().with_max_len(1).for_each(|w| {
        let m: Map = w.iter().map(|(a, x)| (akey(a), account_rlp(x))).collect();
        let by_key: BTreeMap<Vec<u8>, (Addr, &Acct)> = w.iter().map(|(a, x)| (akey(a), (*a, x))).collect();
        for n in choices(&m, &[]) {
            if ck.stopped() {
                return;
            }
            let mut shown = vec![];
            n.shown(&mut shown);
            // Each account shown: its storage in every form, the rest in two.
            let mut styles: Vec<BTreeMap<Vec<u8>, Style>> = vec![];
            let plain = |code: bool, verbose: bool| -> BTreeMap<Vec<u8>, Style> {
                shown.iter().map(|k| (k.clone(), Style { code, verbose, storage: whole(&storage_map(&by_key[k].1.storage)) })).collect()
            };
            styles.extend([plain(true, false), plain(false, false), plain(true, true), plain(false, true)]);
            for k in &shown {
                for storage in choices(&storage_map(&by_key[k].1.storage), &[]) {
                    for code in [false, true] {
                        let mut s = plain(true, false);
                        *s.get_mut(k).unwrap() = Style { code, verbose: !code, storage: storage.clone() };
                        styles.push(s);
                    }
                }
            }
            for st in styles {
                ck.eval("witnesses");
                let mut bytes = vec![1];
                emit(&n, &mut bytes, &mut |rest, k, out| emit_account(rest, by_key[k].1, &st[k], out));
                if !ck.state(&bytes) {
                    continue;
                }
                let mut view = View { world: &w, accounts: shown.clone(), slots: BTreeMap::new(), codes: vec![] };
                for (k, s) in &st {
                    let mut l = vec![];
                    s.storage.shown(&mut l);
                    view.slots.insert(by_key[k].0, l);
                    if s.code && !by_key[k].1.code.is_empty() {
                        view.codes.push(by_key[k].1.code.clone());
                    }
                }
                let what = || format!("state {w:?}\nencoded as {n:?} with {st:?}: {}", hex(&bytes));
                ck.trace();
                ck.transition(bytes.len() as u64);
                if matches!(n, N::Hash(_)) {
                    // A hash alone is no trie.
                    if !matches!(decode(&bytes, WireDisposition::Type1), Ok(Err(_))) {
                        ck.violate("root-hash", what());
                    }
                    continue;
                }
                match decode(&bytes, WireDisposition::Type1) {
                    Ok(Ok(Either::Left((got, codes)))) => {
                        if let Err(e) = vc::catch(|| matches1(got, Some(codes), &view)).unwrap_or_else(Err) {
                            ck.violate("decoded", format!("{e}; {}", what()));
                        }
                    }
                    o => {
                        let o = o.map(|r| r.map(|_| ()));
                        ck.violate("refused", format!("{o:?}; {}", what()));
                    }
                }
                // The same tries directly.
                ck.eval("tries");
                let storage = |k: &Vec<u8>| st[k].storage.trie(&storage_map(&by_key[k].1.storage));
                let direct = || {
                    BlockTraceTriePreImages::Separate(SeparateTriePreImages {
                        state: SeparateTriePreImage::Direct(n.trie(&m)),
                        storage: SeparateStorageTriesPreImage::MultipleTries(
                            shown.iter().map(|k| (keccak(by_key[k].0.as_bytes()), SeparateTriePreImage::Direct(storage(k)))).collect(),
                        ),
                    })
                };
                match vc::catch(|| start(direct(), WireDisposition::Type1).map_err(|e| format!("{e:?}"))) {
                    Ok(Ok(Either::Left((got, _)))) => {
                        if let Err(e) = vc::catch(|| matches1(got, None, &view)).unwrap_or_else(Err) {
                            ck.violate("direct", format!("given directly: {e}; {}", what()));
                        }
                    }
                    o => ck.violate("direct-refused", format!("given directly: {:?}; {}", o.map(|r| r.map(|_| ())), what())),
                }
            }
        }
    });
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// What is not a witness is refused, without a panic.
fn malformed(ck: &Check, name: &str, bytes: &[u8], d: fn() -> WireDisposition, root: H256) {
    let refused = |b: &[u8], what: &str| {
        ck.eval("malformed");
        match decode(b, d()) {
            Ok(Err(_)) => (),
            Ok(Ok(_)) => ck.violate(&format!("{name}-accepted"), format!("{what} accepted: {} of {}", hex(b), hex(bytes))),
            Err(p) => ck.violate(&format!("{name}-panic"), format!("{what}: panic {p}: {} of {}", hex(b), hex(bytes))),
        }
    };
    for n in 0..bytes.len() {
        refused(&bytes[..n], "a truncation");
    }
    for h in 2..=255u8 {
        let mut b = bytes.to_vec();
        b[0] = h;
        refused(&b, "another header");
    }
    for op in 0x08..=0xffu8 {
        if op != 0xbb {
            refused(&[bytes, &[op]].concat(), "an unknown instruction");
        }
    }
    refused(&[bytes, &[3][..], &[7; 32]].concat(), "another node");
    refused(&[bytes, &bytes[1..]].concat(), "the same nodes twice");
    refused(&[bytes, &[0xbb]].concat(), "another trie without nodes");
    refused(&[bytes, &[0xbb], &bytes[1..]].concat(), "two tries");
    // Any other byte anywhere: refused, or decoded to something else, unless
    // nothing of it is decoded (such as the length of code).
    for i in 1..bytes.len() {
        for v in [0u8, 1, 2, 3, 4, 5, 6, 7, 0x1f, 0x3f, 0x58, 0x5b, 0x5f, 0xbb, 0xff, bytes[i] ^ 1, bytes[i] ^ 0x80, bytes[i].wrapping_add(1), bytes[i].wrapping_sub(1)] {
            if v == bytes[i] {
                continue;
            }
            let mut b = bytes.to_vec();
            b[i] = v;
            ck.eval("changed bytes");
            match decode(&b, d()) {
                Ok(Err(_)) => (),
                Err(p) => {
                    // https://github.com/0xPolygonZero/zk_evm/issues/348: the
                    // second form may panic on untrusted input.
                    if name == "mpt" {
                        ck.violate("mpt-panic", format!("byte {i} changed to {v:#04x}: panic {p}: {}", hex(&b)));
                    }
                }
                Ok(Ok(s)) => {
                    let (whole, orig) = (vc::catch(|| facts(s)), vc::catch(|| facts(decode(bytes, d()).unwrap().unwrap())));
                    if let (Ok((r, f)), Ok((_, g))) = (whole, orig) {
                        if r == root && f != g {
                            ck.violate(&format!("{name}-same-root"), format!("byte {i} changed to {v:#04x}: the same root, but {f} is not {g}: {}", hex(&b)));
                        }
                    }
                }
            }
        }
    }
}
fn facts(s: Started) -> (H256, String) {
    match s {
        Either::Left((mut w, _)) => {
            let r = w.root();
            let (state, sto) = w.into_state_and_storage();
            // Storage of accounts not there is no part of the state.
            let sto: Vec<_> = sto.iter().map(|(k, t)| (k, t.root())).collect();
            (r, format!("{:?} {sto:?}", state.iter().collect::<Vec<_>>()))
        }
        Either::Right((mut w, _)) => (w.root(), String::new()),
    }
}

// The second form.

#[derive(Clone, Debug)]
enum S {
    Hash(refsmt::H),
    Leaf(refsmt::BitVec),
    Branch(Option<Box<S>>, Option<Box<S>>),
}
type Leaves = BTreeMap<refsmt::BitVec, (u8, Addr, Option<U256>, U256)>;
fn smt_choices(l: &Leaves, m: &refsmt::Map, p: &[bool], hide: &mut usize) -> Vec<S> {
    let n = l.keys().filter(|k| k.starts_with(p)).count();
    let mut out = vec![];
    if *hide > 0 && !p.is_empty() {
        out.push(S::Hash(refsmt::subroot(m, p)));
    }
    if n == 1 {
        out.push(S::Leaf(l.keys().find(|k| k.starts_with(p)).unwrap().clone()));
        return out;
    }
    let kids: Vec<Vec<Option<Box<S>>>> = [false, true]
        .map(|b| {
            let q = [p, &[b]].concat();
            match l.keys().any(|k| k.starts_with(&q)) {
                false => vec![None],
                true => smt_choices(l, m, &q, hide).into_iter().map(|s| Some(Box::new(s))).collect(),
            }
        })
        .into();
    for a in &kids[0] {
        for b in &kids[1] {
            out.push(S::Branch(a.clone(), b.clone()));
        }
    }
    out
}
fn smt_emit(s: &S, l: &Leaves, out: &mut Vec<u8>, long: bool) {
    match s {
        S::Hash(h) => {
            out.push(3);
            out.extend(refsmt::hu(*h).to_be_bytes::<32>());
        }
        S::Leaf(k) => {
            let (ty, a, slot, v) = &l[k];
            out.extend([7, *ty]);
            out.extend(cbor_bytes(a.as_bytes()));
            let word = |x: U256| match (long, trimmed(x)) {
                (true, _) => be(x).to_vec(),
                (_, v) if v.is_empty() => vec![0],
                (_, v) => v,
            };
            if let Some(s) = slot {
                out.extend(cbor_bytes(&word(*s)));
            }
            out.extend(cbor_bytes(&word(*v)));
        }
        S::Branch(a, b) => {
            out.push(2);
            out.extend(cbor_uint(a.is_some() as u64 | (b.is_some() as u64) << 1));
            for x in [a, b].into_iter().flatten() {
                smt_emit(x, l, out, long);
            }
        }
    }
}
fn smt_shown(s: &S, out: &mut Vec<refsmt::BitVec>) {
    match s {
        S::Leaf(k) => out.push(k.clone()),
        S::Branch(a, b) => [a, b].into_iter().flatten().for_each(|x| smt_shown(x, out)),
        S::Hash(_) => {}
    }
}
fn al(x: U256) -> refsmt::U256 {
    refsmt::U256::from_limbs(x.0)
}
fn leaf_key(ty: u8, a: Addr, slot: Option<U256>) -> refsmt::BitVec {
    let a = refsmt::Address::from(a.0);
    refsmt::bits_of(match ty {
        0 => key_balance(a),
        1 => key_nonce(a),
        2 => key_code(a),
        3 => key_storage(a, al(slot.unwrap())),
        _ => key_code_length(a),
    })
}
fn smt(ck: &Check) {
    let code = vec![0x60, 1, 0x5b];
    let hash = U256::from_big_endian(&<Type2World as evm_arithmetization::world::World>::CodeHasher::hash(&code).0);
    let [a, _, _, d] = addrs();
    let all: Vec<(u8, Addr, Option<U256>, U256)> = vec![
        (0, a, None, U256::MAX),
        (1, a, None, 1.into()),
        (2, a, None, hash),
        (4, a, None, 3.into()),
        (3, a, Some(0.into()), 7.into()),
        (3, a, Some(U256::MAX), U256::one() << 255),
        (0, d, None, 0x80.into()),
        (3, d, Some(slots()[2]), 256.into()),
        (1, d, None, U256::one() << 64),
    ];
    let limit = ck.pick(6, 7);
    let sets: Vec<usize> = (1..1usize << all.len()).filter(|s| (s.count_ones() as usize) <= limit || *s == (1 << all.len()) - 1).collect();
    sets.into_par_iter().with_max_len(1).for_each(|set| {
        if ck.stopped() {
            return;
        }
        let l: Leaves = all.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, x)| (leaf_key(x.0, x.1, x.2), *x)).collect();
        let m: refsmt::Map = l.iter().map(|(k, v)| (k.clone(), al(v.3))).collect();
        let root = H256(refsmt::hu(refsmt::root(&m)).to_be_bytes());
        let mut forms = smt_choices(&l, &m, &[], &mut usize::from(set.count_ones() <= ck.pick(4, 5)));
        if set.count_ones() > ck.pick(4, 5) {
            forms.truncate(1);
        }
        for (fi, s) in forms.iter().enumerate() {
            for long in [false, true] {
                ck.eval("SMT witnesses");
                let mut bytes = vec![1];
                if fi % 2 == 0 {
                    bytes.push(4);
                    bytes.extend(cbor_bytes(&code));
                }
                smt_emit(s, &l, &mut bytes, long);
                if fi % 3 == 0 {
                    bytes.push(4);
                    bytes.extend(cbor_bytes(&[9]));
                }
                ck.state(&bytes);
                ck.trace();
                ck.transition(bytes.len() as u64);
                let what = || format!("leaves {l:?} encoded as {s:?}: {}", hex(&bytes));
                let mut shown = vec![];
                smt_shown(s, &mut shown);
                match decode(&bytes, WireDisposition::Type2) {
                    Ok(Ok(Either::Right((w, codes)))) => {
                        let r = vc::catch(|| matches2(w, codes, &l, &shown, root, fi, &code)).unwrap_or_else(Err);
                        if let Err(e) = r {
                            ck.violate("smt-decoded", format!("{e}; {}", what()));
                        }
                    }
                    o => ck.violate("smt-refused", format!("{:?}; {}", o.map(|r| r.map(|_| ())), what())),
                }
            }
        }
    });
}
fn matches2(mut w: Type2World, mut codes: Codes, l: &Leaves, shown: &[refsmt::BitVec], root: H256, fi: usize, code: &[u8]) -> Result<(), String> {
    if w.root() != root {
        return Err(format!("root {:?}, not {root:?}", w.root()));
    }
    for a in addrs() {
        let any = shown.iter().any(|k| l[k].1 == a);
        if w.contains(a).map_err(|e| e.to_string())? != any {
            return Err(format!("contains({a:?}) is not {any}"));
        }
    }
    let smt = w.as_smt();
    for k in shown {
        let (ty, a, slot, v) = l[k];
        if smt.get(refsmt::key_of(k)) != al(v) {
            return Err(format!("{:?} is {}", l[k], smt.get(refsmt::key_of(k))));
        }
        if ty == 3 && w.load_int(a, slot.unwrap()).ok() != Some(v) {
            return Err(format!("{:?} is {:?}", l[k], w.load_int(a, slot.unwrap())));
        }
    }
    for (x, there) in [(code, fi % 2 == 0), (&[9][..], fi % 3 == 0)] {
        let got = codes(H256(smt_trie::code::hash_bytecode_h256(x).0));
        if got != there.then(|| x.to_vec()) {
            return Err(format!("the code {x:?} is {got:?}"));
        }
    }
    Ok(())
}

fn crafted(ck: &Check) {
    let w = world(0b1101, [&[0, 1, 3], &[], &[], &[2]]);
    malformed(ck, "mpt", &compact(&w), || WireDisposition::Type1, state_root(&w));
    malformed(ck, "mpt", &compact(&world(1, [&[], &[], &[], &[]])), || WireDisposition::Type1, state_root(&world(1, [&[], &[], &[], &[]])));
    let [a, _, _, d] = addrs();
    let all = [(0, a, None, 5.into()), (1, a, None, 1.into()), (3, a, Some(3.into()), 9.into()), (2, d, None, 77.into()), (4, d, None, 1.into())];
    let l: Leaves = all.into_iter().map(|x| (leaf_key(x.0, x.1, x.2), x)).collect();
    let m: refsmt::Map = l.iter().map(|(k, v)| (k.clone(), al(v.3))).collect();
    let mut bytes = vec![1];
    smt_emit(&smt_choices(&l, &m, &[], &mut 0)[0], &l, &mut bytes, false);
    malformed(ck, "smt", &bytes, || WireDisposition::Type2, H256(refsmt::hu(refsmt::root(&m)).to_be_bytes()));
    // Each kind of ill-formed witness.
    let refused = |what: &str, b: Vec<u8>, d: fn() -> WireDisposition| {
        ck.eval("malformed");
        match decode(&[vec![1], b.clone()].concat(), d()) {
            Ok(Err(_)) => (),
            Ok(Ok(_)) => ck.violate(what, format!("{what}: accepted: {}", hex(&b))),
            Err(p) => ck.violate(what, format!("{what}: panic {p}: {}", hex(&b))),
        }
    };
    let t1 = || WireDisposition::Type1;
    let t2 = || WireDisposition::Type2;
    let full = refmpt::nibbles_of(&[0x12; 32]);
    let acct = |k: &[u8], flags: u8, rest: &[u8]| [&[5][..], &key(k, true), &[flags], rest].concat();
    let h = [&[3][..], &[7; 32]].concat();
    let code = [&[4][..], &cbor_bytes(&[1])].concat();
    for n in [0, 1, 2, 31, 62, 63] {
        if n > 0 {
            refused("an account too shallow", acct(&full[..n], 0, &[]), t1);
        }
        let kids = [acct(&[full.clone(), full.clone()].concat()[..65 + n], 0, &[])].concat();
        refused("an account too deep", kids, t1);
    }
    for flags in 16..=255u8 {
        refused("an account with unknown flags", acct(&full, flags, &[0x00, 0x41, 1, 0x01]), t1);
    }
    refused("an account without its storage", acct(&full, 2, &[]), t1);
    refused("an account without its code", acct(&full, 1, &cbor_uint(1)), t1);
    refused("an account with code but no storage", [code.clone(), acct(&full, 3, &cbor_uint(1))].concat(), t1);
    refused("an account of which the code is a leaf", [[&[0][..], &key(&full, true), &cbor_bytes(&[1])].concat(), acct(&full, 1, &cbor_uint(1))].concat(), t1);
    refused("an account of which the storage is code", [code.clone(), acct(&full, 2, &[])].concat(), t1);
    refused("an account of which the storage has an account", [acct(&full, 0, &[]), acct(&full, 2, &[])].concat(), t1);
    refused("a balance of 33 bytes", acct(&full, 8, &cbor_bytes(&[1; 33])), t1);
    refused("a balance which is a number", acct(&full, 8, &[0x17]), t1);
    refused("a nonce which is negative", acct(&full, 4, &[0x20]), t1);
    refused("a nonce above 64 bits", acct(&full, 4, &[0xc2, 0x49, 1, 0, 0, 0, 0, 0, 0, 0, 0]), t1);
    refused("a leaf of storage on top", [&[0][..], &key(&full, true), &cbor_bytes(&[1])].concat(), t1);
    refused("code on top", code.clone(), t1);
    refused("an extension without a child", [&[1][..], &key(&full[..3], false)].concat(), t1);
    refused("a branch without children", vec![2, 3], t1);
    refused("a branch with one child missing", [h.clone(), vec![2, 3]].concat(), t1);
    for bit in 16..64 {
        refused("a branch of more than 16 children", [h.clone(), h.clone(), vec![2], cbor_uint(1 | 1 << bit)].concat(), t1);
    }
    refused("an empty key", [vec![5], cbor_bytes(&[]), vec![0]].concat(), t1);
    for k in [vec![0x10], vec![0xff], vec![4, 0x12], vec![0x81, 0x12, 0x10], vec![1, 0x12, 0x13]] {
        refused("an ill-formed key", [h.clone(), vec![1], cbor_bytes(&k)].concat(), t1);
    }
    refused("a storage trie above itself", [acct(&full, 0, &[]), acct(&full, 0, &[]), vec![2, 3]].concat(), t1);
    refused("a leaf of the other form", [vec![7, 0], cbor_bytes(a.as_bytes()), cbor_bytes(&[1])].concat(), t1);
    let leaf = |ty: u8, a: &[u8], rest: Vec<u8>| [vec![7, ty], cbor_bytes(a), rest].concat();
    let one = cbor_bytes(&[1]);
    for ty in 5..=255u8 {
        refused("an unknown leaf", leaf(ty, a.as_bytes(), one.clone()), t2);
    }
    for n in (0..=40).filter(|n| *n != 20) {
        refused("an address of another length", leaf(0, &vec![1; n], one.clone()), t2);
    }
    for n in [0, 33, 64] {
        refused("a value of another length", leaf(1, a.as_bytes(), cbor_bytes(&vec![1; n])), t2);
        refused("a slot of another length", leaf(3, a.as_bytes(), [cbor_bytes(&vec![1; n]), one.clone()].concat()), t2);
    }
    for ty in [0, 1, 2, 4] {
        let x = leaf(ty, a.as_bytes(), one.clone());
        refused("a field twice", [vec![2, 3], x.clone(), leaf(ty, a.as_bytes(), cbor_bytes(&[2]))].concat(), t2);
    }
    let s = |v: u8, slot: &[u8]| leaf(3, a.as_bytes(), [cbor_bytes(slot), cbor_bytes(&[v])].concat());
    refused("a slot twice", [vec![2, 3], s(1, &[5]), s(2, &[5])].concat(), t2);
    refused("a slot twice, padded", [vec![2, 3], s(1, &[5]), s(2, &[0, 5])].concat(), t2);
    for mask in [0u64, 4, 5, 7, 255, 1 << 40] {
        refused("a branch of other children", [vec![2], cbor_uint(mask), h.clone(), h.clone(), h.clone()].concat(), t2);
    }
    refused("a branch of one child", [vec![2, 3], h.clone()].concat(), t2);
    for op in [vec![6], acct(&full, 0, &[]), [h.clone(), vec![1], key(&full[..2], false)].concat(), [vec![0], key(&full, true), one.clone()].concat()] {
        refused("an instruction of the other form", op, t2);
    }
    refused("only code", code, t2);
}

pub fn run() -> ! {
    let ck = Check::new("C08", "model_check");
    crafted(&ck);
    mpt(&ck);
    smt(&ck);
    let _ = MptKey::new([]);
    ck.sample("witness", || json!(hex(&compact(&world(3, [&[0], &[], &[], &[]])))));
    ck.finish(
        "one state per witness; transitions are bytes decoded",
        json!({"accounts": "all sets of 4", "slots": "all sets of 4 for one account", "hashed_out": "every set of nodes of the state trie and of each storage trie, one storage trie at a time", "smt_leaves": "all sets of up to 6 of 9 (hashed out: up to 4)"}),
        &["the keys of the accounts are the hashes of their addresses"],
    )
}
