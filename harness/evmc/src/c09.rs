//! C09: the world state behaves like a plain map of accounts, of which its
//! roots are the state roots; ordered tries are those of the list inserted.
use std::collections::{BTreeMap, BTreeSet};

use either::Either;
use evm_arithmetization::tries::*;
use evm_arithmetization::world::*;
use mpt_trie::nibbles::Nibbles;
use mpt_trie::partial_trie::PartialTrie;
use smt_trie::keys::{key_balance, key_code, key_code_length, key_nonce, key_storage};
use vc::rayon::prelude::*;
use vc::{json, keccak, rlp, Check, H256, U256};

use crate::c07::slots;
use crate::batch::addr20;
use crate::refevm::{be, Addr};
use crate::refsmt;

#[derive(Clone, Default, PartialEq, Debug)]
struct Account {
    nonce: U256,
    balance: U256,
    code: Option<H256>,
    /// The second kind of world records it.
    code_len: Option<usize>,
    /// Of hashed slots.
    storage: BTreeMap<H256, Vec<u8>>,
    /// Of slots.
    slots: BTreeMap<U256, U256>,
    /// Which fields were ever set.
    set: [bool; 2],
}
#[derive(Clone, Default, PartialEq, Debug)]
struct Model {
    accounts: BTreeMap<Addr, Account>,
    /// Who has a storage trie.
    tries: BTreeSet<Addr>,
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Birth(usize),
    Balance(usize, u64),
    Add(usize, u64),
    Nonce(usize, u64),
    Code(usize, &'static [u8]),
    CodeHash(usize),
    Store(usize, usize, u64),
    StoreHash(usize, usize),
    Clear(usize, usize),
    Destroy(usize),
}
use Op::*;

fn addrs() -> [Addr; 3] {
    let a = addr20(0xaa, 1);
    let h = |x: Addr| keccak(x.as_bytes()).0[0];
    let find = |f: &dyn Fn(u8) -> bool| (2u64..).map(|i| addr20(0xaa, i)).find(|x| f(h(*x))).unwrap();
    [a, find(&|x| x == h(a)), find(&|x| x >> 4 != h(a) >> 4)]
}
fn slot_hash(s: U256) -> H256 {
    keccak(&be(s))
}
const SOME_CODE: &[u8] = &[0x60, 1, 0x5b];

impl Model {
    fn apply(&mut self, ad: &[Addr; 3], op: Op) -> bool {
        let sl = slots();
        let has = |m: &Model, a: usize| m.accounts.contains_key(&ad[a]);
        let stored = |m: &Model, a: usize| has(m, a) && m.tries.contains(&ad[a]);
        match op {
            Birth(a) => {
                if has(self, a) {
                    return false;
                }
                self.tries.insert(ad[a]);
            }
            Balance(a, v) => {
                let x = self.accounts.entry(ad[a]).or_default();
                x.balance = v.into();
                x.set[0] = true;
            }
            Add(a, v) => {
                let x = self.accounts.entry(ad[a]).or_default();
                x.balance += v.into();
                x.set[0] = true;
            }
            Nonce(a, v) => {
                let x = self.accounts.entry(ad[a]).or_default();
                x.nonce = v.into();
                x.set[1] = true;
            }
            Code(a, c) => {
                let x = self.accounts.entry(ad[a]).or_default();
                x.code = (!c.is_empty()).then(|| keccak(c));
                x.code_len = Some(c.len());
            }
            CodeHash(a) => self.accounts.entry(ad[a]).or_default().code = Some(keccak(SOME_CODE)),
            Store(a, s, v) => {
                if !stored(self, a) {
                    return false;
                }
                let x = self.accounts.get_mut(&ad[a]).unwrap();
                x.storage.insert(slot_hash(sl[s]), rlp::uint(v));
                x.slots.insert(sl[s], v.into());
            }
            StoreHash(a, s) => {
                if !stored(self, a) {
                    return false;
                }
                let x = self.accounts.get_mut(&ad[a]).unwrap();
                x.storage.insert(slot_hash(sl[s]), rlp::bytes(&[0xee; 32]));
                x.slots.insert(U256::from_big_endian(&slot_hash(sl[s]).0), U256::from_big_endian(&[0xee; 32]));
            }
            Clear(a, s) => {
                if !stored(self, a) {
                    return false;
                }
                let x = self.accounts.get_mut(&ad[a]).unwrap();
                x.storage.remove(&slot_hash(sl[s]));
                x.slots.remove(&sl[s]);
            }
            Destroy(a) => {
                if !stored(self, a) {
                    return false;
                }
                self.tries.remove(&ad[a]);
                self.accounts.remove(&ad[a]);
            }
        }
        true
    }
    fn storage_root(s: &BTreeMap<H256, Vec<u8>>) -> H256 {
        vc::refmpt::root(&s.iter().map(|(k, v)| (vc::refmpt::nibbles_of(&k.0), v.clone())).collect())
    }
    fn root1(&self) -> H256 {
        let m = self
            .accounts
            .iter()
            .map(|(a, x)| {
                let code = x.code.unwrap_or(keccak(&[]));
                let v = rlp::list(&[rlp::u256(x.nonce), rlp::u256(x.balance), rlp::bytes(&Self::storage_root(&x.storage).0), rlp::bytes(&code.0)]);
                (vc::refmpt::nibbles_of(&keccak(a.as_bytes()).0), v)
            })
            .collect();
        vc::refmpt::root(&m)
    }
    fn root2(&self) -> H256 {
        let al = |x: U256| refsmt::U256::from_limbs(x.0);
        let mut m = refsmt::Map::new();
        for (a, x) in &self.accounts {
            let a = refsmt::Address::from(a.0);
            let mut put = |k, v: U256| {
                if !v.is_zero() {
                    m.insert(refsmt::bits_of(k), al(v));
                }
            };
            put(key_balance(a), x.balance);
            put(key_nonce(a), x.nonce);
            if x.code.is_some() {
                put(key_code(a), code2());
            }
            put(key_code_length(a), x.code_len.unwrap_or(0).into());
            for (k, v) in &x.slots {
                put(key_storage(a, al(*k)), *v);
            }
        }
        H256(refsmt::hu(refsmt::root(&m)).to_be_bytes())
    }
}
/// The Poseidon hash of the code, which C05 compares with its definition.
fn code2() -> U256 {
    U256::from_big_endian(&smt_trie::code::hash_bytecode_h256(SOME_CODE).0)
}

/// Applies one operation and reports the path it returns.
fn apply<W: World>(w: &mut W, ad: &[Addr; 3], op: Op) -> Result<(Option<W::SubtriePath>, Option<MptKey>), String> {
    let sl = slots();
    let e = |e| format!("{op:?}: {e:?}");
    match op {
        Birth(a) => w.create_storage(ad[a]).map_err(e)?,
        Balance(a, v) => w.update_balance(ad[a], |b| *b = v.into()).map_err(e)?,
        Add(a, v) => w.update_balance(ad[a], |b| *b += v.into()).map_err(e)?,
        Nonce(a, v) => w.update_nonce(ad[a], |b| *b = v.into()).map_err(e)?,
        Code(a, c) => w.set_code(ad[a], Either::Left(c)).map_err(e)?,
        CodeHash(a) => w.set_code(ad[a], Either::Right(W::CodeHasher::hash(SOME_CODE))).map_err(e)?,
        Store(a, s, v) => w.store_int(ad[a], sl[s], v.into()).map_err(e)?,
        StoreHash(a, s) => w.store_hash(ad[a], slot_hash(sl[s]), H256([0xee; 32])).map_err(e)?,
        Clear(a, s) => return Ok((None, w.reporting_destroy_slot(ad[a], sl[s]).map_err(e)?)),
        Destroy(a) => {
            w.destroy_storage(ad[a]).map_err(e)?;
            return Ok((w.reporting_destroy(ad[a]).map_err(e)?, None));
        }
    }
    Ok((None, None))
}
/// What the operations of a history need of the world they began with.
#[derive(Clone, Default, Debug)]
struct Needs {
    state: BTreeSet<MptKey>,
    storage: BTreeMap<Addr, BTreeSet<MptKey>>,
}
fn touched(op: Op) -> (usize, Option<usize>) {
    match op {
        Birth(a) | Balance(a, _) | Add(a, _) | Nonce(a, _) | Code(a, _) | CodeHash(a) | Destroy(a) => (a, None),
        Store(a, s, _) | StoreHash(a, s) | Clear(a, s) => (a, Some(s)),
    }
}

fn compare1(ad: &[Addr; 3], w: &mut Type1World, m: &Model) -> Result<(), String> {
    let (got, want) = (w.root(), m.root1());
    if got != want {
        return Err(format!("root {got:?}, not {want:?}"));
    }
    let (state, storage) = w.clone().into_state_and_storage();
    let accounts: BTreeMap<H256, _> = state.iter().collect();
    let n = m.accounts.len();
    if accounts.len() != n {
        return Err(format!("{} accounts, not {n}", accounts.len()));
    }
    for a in ad {
        let want = m.accounts.get(a);
        if w.contains(*a).map_err(|e| e.to_string())? != want.is_some() {
            return Err(format!("contains({a:?}) is not {}", want.is_some()));
        }
        if m.tries.contains(a) {
            let t = storage.get(&keccak(a.as_bytes())).ok_or("no storage")?;
            let sr = want.map(|x| Model::storage_root(&x.storage)).unwrap_or(vc::refmpt::root(&Default::default()));
            if t.root() != sr {
                return Err(format!("the storage of {a:?} has root {:?}", t.root()));
            }
        }
        let Some(x) = want else { continue };
        let r = accounts[&keccak(a.as_bytes())];
        if (r.nonce, r.balance, r.code_hash) != (x.nonce, x.balance, x.code.unwrap_or(keccak(&[]))) {
            return Err(format!("{a:?} is {r:?}, not {x:?}"));
        }
        if m.tries.contains(a) {
            for s in slots() {
                let want = x.storage.get(&slot_hash(s)).map(|v| U256::from_big_endian(if v.len() > 1 { &v[1..] } else { &v[..] }));
                let got = w.load_int(*a, s).ok();
                if got != want {
                    return Err(format!("slot {s} of {a:?} is {got:?}, not {want:?}"));
                }
            }
        }
    }
    Ok(())
}
fn compare2(ad: &[Addr; 3], w: &mut Type2World, m: &Model, root: bool) -> Result<(), String> {
    if root {
        let (got, want) = (w.root(), m.root2());
        if got != want {
            return Err(format!("root {got:?}, not {want:?}"));
        }
    }
    for a in ad {
        let want = m.accounts.get(a);
        if w.contains(*a).map_err(|e| e.to_string())? != want.is_some() {
            return Err(format!("contains({a:?}) is not {}", want.is_some()));
        }
        for s in slots() {
            let got = w.load_int(*a, s).ok();
            let want = want.map(|x| x.slots.get(&s).copied().unwrap_or_default());
            if got != want {
                return Err(format!("slot {s} of {a:?} is {got:?}, not {want:?}"));
            }
        }
    }
    Ok(())
}

struct Kit {
    ad: [Addr; 3],
    ops: Vec<Op>,
    depth: usize,
    start: Vec<Op>,
    first: Type1World,
    first_root: H256,
}
#[derive(Clone)]
struct Node {
    one: Type1World,
    two: Type2World,
    model: Model,
    needs: Needs,
    hist: Vec<Op>,
}
fn rec(ck: &Check, k: &Kit, n: &Node) {
    for &op in &k.ops {
        if ck.stopped() {
            return;
        }
        let mut c = n.clone();
        if !c.model.apply(&k.ad, op) {
            continue;
        }
        c.hist.push(op);
        ck.eval("histories");
        ck.transition(1);
        ck.state(&format!("{:?}{:?}", c.model.accounts, c.model.tries));
        let r = vc::catch(|| step(ck, k, n, &mut c, op)).unwrap_or_else(|p| Err(format!("panic: {p}")));
        if let Err(e) = r {
            ck.violate("history", format!("after {:?} then {:?}: {e}", k.start, c.hist));
            continue;
        }
        if c.hist.len() < k.depth {
            rec(ck, k, &c);
        } else {
            ck.trace();
        }
    }
}
fn step(ck: &Check, k: &Kit, before: &Node, c: &mut Node, op: Op) -> Result<(), String> {
    let (acct, slot) = apply(&mut c.one, &k.ad, op)?;
    let (who, at) = touched(op);
    c.needs.state.insert(k.ad[who].into());
    c.needs.state.extend(acct);
    if let Some(s) = at {
        let n = c.needs.storage.entry(k.ad[who]).or_default();
        n.insert(MptKey::from_slot_position(slots()[s]));
        n.extend(slot);
    }
    compare1(&k.ad, &mut c.one, &c.model).map_err(|e| format!("the first kind of world: {e}"))?;
    // What it was cloned from is as it was.
    let mut old = before.one.clone();
    compare1(&k.ad, &mut old, &before.model).map_err(|e| format!("the world before {op:?}: {e}"))?;
    apply(&mut c.two, &k.ad, op)?;
    compare2(&k.ad, &mut c.two, &c.model, c.hist.len() == k.depth || matches!(op, Destroy(_))).map_err(|e| format!("the second kind of world: {e}"))?;
    // What was reported is enough to repeat the history on what was pruned.
    if c.hist.len() == k.depth || !matches!(acct_or(op), None) {
        ck.eval("pruned replays");
        let mut w = k.first.clone();
        for (a, t) in &c.needs.storage {
            let _ = (a, t);
        }
        let mut st = c.needs.storage.clone();
        for a in k.ad {
            if c.needs.state.contains(&a.into()) {
                st.entry(a).or_default();
            }
        }
        w.mask_storage(st).map_err(|e| format!("pruning the storage: {e:?}"))?;
        w.mask(c.needs.state.iter().copied()).map_err(|e| format!("pruning: {e:?}"))?;
        if w.root() != k.first_root {
            return Err(format!("pruning to {:?} changes the root", c.needs));
        }
        for op in &c.hist {
            apply(&mut w, &k.ad, *op).map_err(|e| format!("on the world pruned to {:?}: {e}", c.needs))?;
        }
        if w.root() != c.model.root1() {
            return Err(format!("on the world pruned to {:?} the root is {:?}, not {:?}", c.needs, w.root(), c.model.root1()));
        }
    }
    Ok(())
}
/// Whether something goes away.
fn acct_or(op: Op) -> Option<()> {
    matches!(op, Clear(..) | Destroy(_)).then_some(())
}

fn histories(ck: &Check) {
    let ad = addrs();
    let mut universes: Vec<(Vec<Op>, Vec<Op>, usize)> = vec![];
    // Storage of one account, in every starting content.
    let stores = |a: usize| -> Vec<Op> { (0..4).flat_map(move |s| [Store(a, s, 1 + s as u64), Clear(a, s)]).chain([Store(a, 0, 0xdead_beef), StoreHash(a, 3)]).collect() };
    for set in 0..16u32 {
        let mut start = vec![Birth(0), Nonce(0, 1)];
        start.extend((0..4).filter(|s| set >> s & 1 == 1).map(|s| Store(0, s, 10 * (s as u64 + 1))));
        universes.push((start, stores(0), ck.pick(3, 4)));
    }
    // Accounts, in every starting content.
    let acct = |a: usize| -> Vec<Op> { vec![Birth(a), Balance(a, 5), Nonce(a, 1), Code(a, SOME_CODE), Destroy(a), Store(a, 0, 7)] };
    for set in 0..8u32 {
        let mut start = vec![];
        for a in (0..3).filter(|a| set >> a & 1 == 1) {
            start.extend([Birth(a), Balance(a, 1 + a as u64), Store(a, 1, 3)]);
        }
        universes.push((start.clone(), (0..3).flat_map(acct).collect(), ck.pick(3, 4)));
        let all = |a: usize| vec![Birth(a), Balance(a, 0), Add(a, u64::MAX), Nonce(a, u64::MAX), Nonce(a, 0), Code(a, &[]), Code(a, SOME_CODE), CodeHash(a), Store(a, 0, 1), Clear(a, 0), Clear(a, 1), Destroy(a)];
        universes.push((start, [0, 2].into_iter().flat_map(all).collect(), ck.pick(2, 3)));
    }
    universes.into_par_iter().with_max_len(1).for_each(|(start, ops, depth)| {
        let mut n = Node {
            one: Type1World::new(StateMpt::new(), BTreeMap::new()).unwrap(),
            two: Type2World::new_unchecked(BTreeMap::new(), BTreeMap::new()),
            model: Model::default(),
            needs: Needs::default(),
            hist: vec![],
        };
        for op in &start {
            assert!(n.model.apply(&ad, *op), "{op:?} in {start:?}");
            if let Err(e) = apply(&mut n.one, &ad, *op).map(|_| ()).and_then(|_| apply(&mut n.two, &ad, *op).map(|_| ())) {
                return ck.violate("start", format!("{start:?}: {e}"));
            }
        }
        let k = Kit { ad, ops, depth, start, first: n.one.clone(), first_root: n.model.root1() };
        masks(ck, &k, &n);
        n.needs = Needs::default();
        rec(ck, &k, &n);
    });
}
/// Every mask of addresses and slots keeps the root and what it names.
fn masks(ck: &Check, k: &Kit, n: &Node) {
    for set in 0..8u32 {
        let keep: Vec<Addr> = (0..3).filter(|i| set >> i & 1 == 1).map(|i| k.ad[i]).collect();
        for slots_kept in 0..16u32 {
            ck.eval("masks");
            let what = || format!("{:?} pruned to {keep:?}, slots {slots_kept:04b}", k.start);
            let r = vc::catch(|| -> Result<(), String> {
                let mut w = k.first.clone();
                let st: BTreeSet<MptKey> = (0..4).filter(|i| slots_kept >> i & 1 == 1).map(|i| MptKey::from_slot_position(slots()[i])).collect();
                w.mask(keep.iter().map(|a| MptKey::from(*a))).map_err(|e| e.to_string())?;
                w.mask_storage(keep.iter().map(|a| (*a, st.clone())).collect()).map_err(|e| e.to_string())?;
                if w.root() != k.first_root {
                    return Err("another root".into());
                }
                for a in &keep {
                    let want = n.model.accounts.get(a);
                    if w.contains(*a).unwrap() != want.is_some() {
                        return Err(format!("contains({a:?})"));
                    }
                    let Some(x) = want else { continue };
                    for (i, s) in slots().into_iter().enumerate() {
                        let want = x.slots.get(&s).copied();
                        let got = w.load_int(*a, s).ok();
                        if (slots_kept >> i & 1 == 1 && got != want) || (got.is_some() && got != want) {
                            return Err(format!("slot {s} of {a:?} is {got:?}"));
                        }
                    }
                    let (_, sto) = w.clone().into_state_and_storage();
                    if sto.len() > keep.len() || sto.get(&keccak(a.as_bytes())).map(|t| t.root()) != Some(Model::storage_root(&x.storage)) {
                        return Err(format!("storage of {a:?}"));
                    }
                }
                // What is kept suffices to begin again.
                let (state, sto) = w.into_state_and_storage();
                let mut again = Type1World::new(state, sto).map_err(|e| format!("the same tries are refused: {e:?}"))?;
                if again.root() != k.first_root {
                    return Err("the same tries have another root".into());
                }
                Ok(())
            });
            if let Err(e) = r.unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                ck.violate("mask", format!("{}: {e}", what()));
            }
        }
    }
    // Storage tries which are not those of the accounts are refused.
    let (state, sto) = k.first.clone().into_state_and_storage();
    for a in n.model.accounts.keys() {
        let h = keccak(a.as_bytes());
        let mut bad = sto.clone();
        let mut t = bad[&h].clone();
        t.insert(MptKey::from_slot_position(99.into()), vec![9]).unwrap();
        bad.insert(h, t);
        ck.eval("wrong storage tries");
        if !matches!(vc::catch(|| Type1World::new(state.clone(), bad).is_err()), Ok(true)) {
            ck.violate("wrong-storage", format!("{:?}: another storage trie is accepted for {a:?}", k.start));
        }
        // Without any the account's storage is a hash.
        let mut less = sto.clone();
        less.remove(&h);
        let r = vc::catch(|| Type1World::new(state.clone(), less).map(|w| w.into_state_and_storage().1[&h].root()));
        if r.as_ref().ok().and_then(|r| r.as_ref().ok()) != Some(&sto[&h].root()) {
            ck.violate("missing-storage", format!("{:?}: without the storage of {a:?}: {r:?}", k.start));
        }
    }
}

fn key_of(i: usize) -> Vec<u8> {
    vc::refmpt::nibbles_of(&rlp::uint(i as u64))
}
fn lists(ck: &Check) {
    let item = |i: usize, len: usize| -> Vec<u8> { (0..len).map(|j| (i * 7 + j) as u8 | 1).collect() };
    let max = ck.pick(300, 1200);
    let ends: Vec<usize> = (0..=20).chain(120..=140).chain(250..=260).chain([max]).collect();
    for len in [1, 20, 60] {
        let mut t = TransactionTrie::new();
        let mut r = ReceiptTrie::new();
        let mut m = vc::refmpt::Map::new();
        let mut saved = vec![];
        for n in 0..=max {
            ck.eval("lists");
            ck.state(&(len, n));
            let want = vc::refmpt::root(&m);
            let got = [t.root(), r.root(), t.as_hashed_partial_trie().hash(), r.as_hashed_partial_trie().hash()];
            if got != [want; 4] {
                return ck.violate("list-root", format!("{n} items of length {len}: roots {got:?}, not {want:?}"));
            }
            if ends.contains(&n) {
                saved.push((n, t.clone(), r.clone(), want));
            }
            let v = item(n, len);
            m.insert(key_of(n), v.clone());
            let mut ok = vec![t.insert(n, v.clone()).ok(), r.insert(n, v.clone()).ok()];
            ck.transition(2);
            if n % 5 == 0 {
                // Another value is replaced and returned.
                let mut w = v.clone();
                w.push(9);
                ok.extend([t.insert(n, w.clone()).ok().map(|x| x.filter(|x| *x != v)), r.insert(n, w.clone()).ok().map(|x| x.filter(|x| *x != v))]);
                ok.extend([t.insert(n, v.clone()).ok().map(|x| x.filter(|x| *x != w)), r.insert(n, v).ok().map(|x| x.filter(|x| *x != w))]);
            }
            if ok.iter().any(|x| *x != Some(None)) {
                return ck.violate("list-insert", format!("inserting item {n} of length {len}: {ok:?}"));
            }
        }
        saved.into_par_iter().for_each(|(n, t, r, want)| {
            let near: Vec<usize> = [0, 1, 2, 3, 15, 16, 17, 126, 127, 128, 129, 255, 256, 257].into_iter().chain(n.saturating_sub(3)..n + 2).collect();
            for a in &near {
                for b in &near {
                    if a > b || ck.stopped() {
                        continue;
                    }
                    ck.eval("pruned lists");
                    let res = vc::catch(|| -> Result<(), String> {
                        let (mut t, mut r) = (t.clone(), r.clone());
                        t.mask(*a..*b).map_err(|e| e.to_string())?;
                        r.mask(*a..*b).map_err(|e| e.to_string())?;
                        for x in [t.as_hashed_partial_trie(), r.as_hashed_partial_trie()] {
                            if x.hash() != want {
                                return Err("another root".into());
                            }
                            for i in *a..(*b).min(n) {
                                let k = key_of(i).into_iter().fold(Nibbles::default(), |mut k, x| {
                                    k.push_nibble_back(x);
                                    k
                                });
                                if x.get(k) != Some(&item(i, len)[..]) {
                                    return Err(format!("item {i} is lost"));
                                }
                            }
                        }
                        // It goes on from there.
                        for x in [n, n + 1] {
                            let mut whole = (t.clone(), r.clone());
                            if *b >= n && *a < n && x == n {
                                let (p, q) = (whole.0.insert(x, item(x, len)), whole.1.insert(x, item(x, len)));
                                if p.is_ok() && q.is_ok() {
                                    let m = (0..=n).map(|i| (key_of(i), item(i, len))).collect();
                                    let want = vc::refmpt::root(&m);
                                    if whole.0.root() != want || whole.1.root() != want {
                                        return Err("another root after inserting the next".into());
                                    }
                                }
                            }
                        }
                        Ok(())
                    });
                    if let Err(e) = res.unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                        ck.violate("list-mask", format!("{n} items of length {len} pruned to {a}..{b}: {e}"));
                    }
                }
            }
        });
    }
}

fn keys(ck: &Check) {
    let nib = |k: MptKey| {
        let mut n = k.into_nibbles();
        let mut v = vec![];
        while !n.is_empty() {
            v.push(n.pop_next_nibble_front());
        }
        v
    };
    let key = |v: &[u8]| MptKey::new(v.iter().map(|x| u4::U4::new(*x).unwrap()));
    for len in 0..=66usize {
        for fill in 0..18usize {
            let v: Vec<u8> = (0..len).map(|i| if fill < 16 { fill as u8 } else { ((i + 1) * (fill - 14) % 16) as u8 }).collect();
            ck.eval("keys");
            ck.state(&v);
            let r = vc::catch(|| key(&v).ok().map(|k| (nib(k), MptKey::from_nibbles(k.into_nibbles()) == k, k.into_hash(), k.to_string())));
            let text: String = v.iter().map(|x| format!("{x:x}")).collect();
            let hash = (len == 64).then(|| H256(std::array::from_fn(|i| v[2 * i] << 4 | v[2 * i + 1])));
            let want = (len <= 64).then(|| (v.clone(), true, hash, text));
            if r.as_ref().ok() != Some(&want) {
                ck.violate("mpt-key", format!("key {v:?}: {r:?}"));
            }
            if let Some(h) = hash {
                if MptKey::from_hash(h) != key(&v).unwrap() {
                    ck.violate("mpt-key-hash", format!("{h:?}"));
                }
            }
        }
    }
    for i in (0..70_000).chain([1 << 24, (1 << 24) - 1, u32::MAX as usize, 1 << 32, usize::MAX]) {
        ck.eval("keys");
        if nib(MptKey::from_txn_ix(i)) != key_of(i) {
            ck.violate("mpt-key-index", format!("index {i}"));
        }
    }
    for i in 0..256 {
        for s in [U256::one() << i, U256::MAX >> i] {
            ck.eval("keys");
            if MptKey::from_slot_position(s).into_hash() != Some(slot_hash(s)) {
                ck.violate("mpt-key-slot", format!("slot {s}"));
            }
        }
    }
    let mut all: Vec<(Vec<bool>, SmtKey)> = vec![];
    for len in 0..=258usize {
        for pat in 0..4usize {
            let v: Vec<bool> = (0..len).map(|i| [false, true, i % 3 == 0, i + 1 == len][pat]).collect();
            ck.eval("keys");
            let Ok(k) = SmtKey::new(v.clone()) else {
                if len <= 256 {
                    ck.violate("smt-key", format!("{len} bits refused"));
                }
                continue;
            };
            if len > 256 {
                ck.violate("smt-key", format!("{len} bits accepted"));
                continue;
            }
            let b = k.into_smt_bits();
            let n = b.count;
            let got: Vec<bool> = (0..n).map(|i| b.get_bit(i)).collect();
            let text: String = v.iter().map(|x| if *x { '1' } else { '0' }).collect();
            if got != v || k.to_string() != text {
                ck.violate("smt-key-bits", format!("{v:?} becomes {got:?}"));
            }
            all.push((v, k));
        }
    }
    for (a, x) in all.iter().step_by(3) {
        for (b, y) in all.iter().step_by(7) {
            ck.eval("keys");
            if x.cmp(y) != a.cmp(b) || (x == y) != (a == b) {
                ck.violate("smt-key-order", format!("{a:?} {b:?}"));
            }
        }
    }
}

pub fn run() -> ! {
    let ck = Check::new("C09", "model_check");
    keys(&ck);
    lists(&ck);
    histories(&ck);
    ck.sample("operations", || json!(format!("{:?}", [Birth(0), Store(0, 1, 2), Clear(0, 1), Destroy(0)])));
    let depth = if ck.thorough { "4 (3 over all operations)" } else { "3 (2 over all operations)" };
    ck.finish(
        "one state per content of the world, and per list; transitions are operations applied to the real worlds",
        json!({"history_depth": depth, "starting_contents": "16 storages, 8 sets of accounts", "list_length": if ck_thorough() { 1200 } else { 300 }}),
        &["a storage trie is created for accounts which do not exist, and destroyed together with its account, as the decoder does"],
    )
}
fn ck_thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}
