//! C20: public values are encoded faithfully. Every value of every public
//! value is varied by itself, over all its limbs, through the public inputs,
//! the challenges, and what the verifier adds to the memory's lookup.
use std::collections::{BTreeMap, BTreeSet};

use evm_arithmetization::proof::*;
use evm_arithmetization::verif_hooks::tables::Starks;
use evm_arithmetization::verif_hooks::values::{self, Encoder};
use evm_arithmetization::verif_hooks::vm;
use evm_arithmetization::SegmentDataIterator;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon::PoseidonHash;
use plonky2::plonk::config::Hasher;
use vc::rayon::prelude::*;
use vc::{json, keccak, Check, H256, U256};

use crate::asm::*;
use crate::batch::*;
use crate::c13;
use crate::common::*;
use crate::ctl::{self, f, u};
use crate::refevm::*;

type Pv = PublicValues<F>;

/// A value among the public values.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Atom {
    /// Before or after; state, transactions, receipts.
    Root(bool, usize),
    Beneficiary,
    /// timestamp, number, difficulty, gas limit, chain, gas used
    Meta(usize),
    Random,
    /// base fee, blob gas used, excess blob gas
    Wide(usize),
    BeaconRoot,
    Bloom(usize),
    PrevHash(usize),
    CurHash,
    CheckpointRoot,
    Consolidated(usize),
    /// transactions before, after, gas before, after
    Extra(usize),
    /// Before or after; pc, mode, stack length, context, gas
    Reg(bool, usize),
    StackTop(bool),
    Cap(bool, usize, usize),
}
use Atom::*;
const CAP: usize = 16;
const WIDE: [&str; 3] = ["BlockBaseFee", "BlockBlobGasUsed", "BlockExcessBlobGas"];
const META: [&str; 6] = ["BlockTimestamp", "BlockNumber", "BlockDifficulty", "BlockGasLimit", "BlockChainId", "BlockGasUsed"];
const EXTRA: [&str; 4] = ["TxnNumberBefore", "TxnNumberAfter", "BlockGasUsedBefore", "BlockGasUsedAfter"];

fn atoms() -> Vec<Atom> {
    let mut v = vec![Beneficiary, Random, BeaconRoot, CurHash, CheckpointRoot];
    for b in [false, true] {
        v.extend((0..3).map(|i| Root(b, i)));
        v.extend((0..5).map(|i| Reg(b, i)));
        v.push(StackTop(b));
        v.extend((0..CAP * 4).map(|i| Cap(b, i / 4, i % 4)));
    }
    v.extend((0..6).map(Meta));
    v.extend((0..3).map(Wide));
    v.extend((0..8).map(Bloom));
    v.extend((0..256).map(PrevHash));
    v.extend((0..4).map(Consolidated));
    v.extend((0..4).map(Extra));
    v
}
impl Atom {
    fn bits(&self) -> usize {
        match self {
            Beneficiary => 160,
            Meta(_) | Extra(_) | Reg(..) => 32,
            Wide(_) | Consolidated(_) | Cap(..) => 64,
            _ => 256,
        }
    }
    /// Elements of the field, not numbers of so many bits.
    fn field(&self) -> bool {
        matches!(self, Consolidated(_) | Cap(..))
    }
    fn set(&self, p: &mut Pv, v: U256) {
        let h = H256(be(v));
        let m = &mut p.block_metadata;
        match *self {
            Root(a, i) => {
                let r = if a { &mut p.trie_roots_after } else { &mut p.trie_roots_before };
                *[&mut r.state_root, &mut r.transactions_root, &mut r.receipts_root][i] = h
            }
            Beneficiary => m.block_beneficiary = vc::H160(be(v)[12..].try_into().unwrap()),
            Meta(i) => {
                *[
                    &mut m.block_timestamp,
                    &mut m.block_number,
                    &mut m.block_difficulty,
                    &mut m.block_gaslimit,
                    &mut m.block_chain_id,
                    &mut m.block_gas_used,
                ][i] = v
            }
            Wide(i) => *[&mut m.block_base_fee, &mut m.block_blob_gas_used, &mut m.block_excess_blob_gas][i] = v,
            Random => m.block_random = h,
            BeaconRoot => m.parent_beacon_block_root = h,
            Bloom(i) => m.block_bloom[i] = v,
            PrevHash(i) => p.block_hashes.prev_hashes[i] = h,
            CurHash => p.block_hashes.cur_hash = h,
            CheckpointRoot => p.extra_block_data.checkpoint_state_trie_root = h,
            Consolidated(i) => p.extra_block_data.checkpoint_consolidated_hash[i] = f(v.low_u64()),
            Extra(i) => {
                let e = &mut p.extra_block_data;
                *[&mut e.txn_number_before, &mut e.txn_number_after, &mut e.gas_used_before, &mut e.gas_used_after][i] = v
            }
            Reg(..) | StackTop(_) => {
                let (a, i) = match *self {
                    Reg(a, i) => (a, i),
                    StackTop(a) => (a, 5),
                    _ => unreachable!(),
                };
                let r = if a { &mut p.registers_after } else { &mut p.registers_before };
                *[&mut r.program_counter, &mut r.is_kernel, &mut r.stack_len, &mut r.context, &mut r.gas_used, &mut r.stack_top][i] = v
            }
            Cap(a, i, j) => (if a { &mut p.mem_after } else { &mut p.mem_before }).mem_cap[i][j] = v,
        }
    }
    /// Where the memory must hold it: segment and offset.
    fn cell(&self) -> Option<(usize, usize)> {
        let g = |n: &str| Some((seg("GlobalMetadata"), *names().global.get(n).unwrap_or_else(|| panic!("no field {n}"))));
        match *self {
            Root(a, i) => g(&format!("{}TrieRootDigest{}", ["State", "Transaction", "Receipt"][i], if a { "After" } else { "Before" })),
            Beneficiary => g("BlockBeneficiary"),
            Meta(i) => g(META[i]),
            Random => g("BlockRandom"),
            Wide(i) => g(WIDE[i]),
            BeaconRoot => g("ParentBeaconBlockRoot"),
            Bloom(i) => Some((seg("GlobalBlockBloom"), i)),
            PrevHash(i) => Some((seg("BlockHashes"), i)),
            CurHash => g("BlockCurrentHash"),
            CheckpointRoot | Consolidated(_) | Cap(..) => None,
            Extra(i) => g(EXTRA[i]),
            // pc, mode, length, top, context, gas
            Reg(a, i) => Some((seg("RegistersStates"), [0, 1, 2, 4, 5][i] + if a { 6 } else { 0 })),
            StackTop(a) => Some((seg("RegistersStates"), 3 + if a { 6 } else { 0 })),
        }
    }
    /// Values to try.
    fn values(&self, all: bool) -> Vec<U256> {
        let mut v = vec![U256::zero(), U256::one()];
        let full = (U256::one() << (self.bits() - 1)) - 1 + (U256::one() << (self.bits() - 1));
        if self.field() {
            // The greatest element of the field.
            v.push(F::NEG_ONE.to_canonical_u64().into());
            v.push(U256::one() << 32);
        } else {
            v.push(full);
            v.push(U256::one() << (self.bits() - 1));
            for l in 0..self.bits() / 32 {
                for x in if all { vec![1u64, 1 << 31, u32::MAX as u64] } else { vec![0x8000_0001] } {
                    v.push(U256::from(x) << (32 * l));
                }
            }
            // A number above the order of the field in two limbs.
            if self.bits() >= 64 {
                v.push(u64::MAX.into());
            }
        }
        v.sort();
        v.dedup();
        v
    }
}
fn base(kind: usize) -> (Pv, BTreeMap<Atom, U256>) {
    let mut p = Pv::default();
    p.mem_before.mem_cap = vec![Default::default(); CAP];
    p.mem_after.mem_cap = vec![Default::default(); CAP];
    let mut m = BTreeMap::new();
    for (i, a) in atoms().into_iter().enumerate() {
        let v = match kind {
            0 => U256::zero(),
            1 => {
                let h = h2u(keccak(&(i as u64).to_be_bytes()));
                if a.field() {
                    h >> 193
                } else {
                    h >> (256 - a.bits())
                }
            }
            _ => {
                if a.field() {
                    F::NEG_ONE.to_canonical_u64().into()
                } else {
                    (U256::MAX) >> (256 - a.bits())
                }
            }
        };
        a.set(&mut p, v);
        m.insert(a, v);
    }
    (p, m)
}
/// The rows of memory that the verifier must add.
fn rows(m: &BTreeMap<Atom, U256>) -> Vec<[u64; 13]> {
    let mut v: Vec<((usize, usize), U256)> = m.iter().filter_map(|(a, x)| a.cell().map(|c| (c, *x))).collect();
    v.push(((seg("GlobalMetadata"), names().global["KernelHash"]), h2u(vm::kernel_hash())));
    v.push(((seg("GlobalMetadata"), names().global["KernelLen"]), vm::kernel_code().len().into()));
    v.into_iter()
        .map(|((s, o), x)| {
            let mut r = [0; 13];
            r[2] = s as u64;
            r[3] = o as u64;
            for i in 0..8 {
                r[4 + i] = (x >> (32 * i)).low_u32() as u64;
            }
            r[12] = 2;
            r
        })
        .collect()
}
fn sum(rows: &[[u64; 13]], beta: F, gamma: F) -> F {
    rows.iter()
        .map(|r| (r.iter().rev().fold(F::ZERO, |acc, x| acc * beta + f(*x)) + gamma).inverse())
        .sum()
}

fn variations(c: &Check, enc: &Encoder, kind: usize) {
    let (p, m) = base(kind);
    let ch = [(f(0x1234_5678_9abc_def1), f(0xfeed_face_cafe_f00d)), (f(3), f(1u64 << 63))];
    let Ok(Ok(at_base)) = vc::catch(|| enc.encode(&p, ch[0].0, ch[0].1)) else {
        c.violate(&format!("base {kind}"), "the circuit refuses public values within their bounds");
        return;
    };
    let base_challenges = values::challenges(&p).expect("the challenges of values within their bounds");
    // Elements of the public inputs by the value that changes them.
    let owners: Vec<(Atom, BTreeSet<usize>)> = atoms()
        .into_par_iter()
        .map(|a| {
            let mut mine = BTreeSet::new();
            for (k, v) in a.values(c.thorough || (kind == 1 && !matches!(a, PrevHash(i) if i > 3 && i < 250))).into_iter().enumerate() {
                if c.stopped() {
                    break;
                }
                let (beta, gamma) = ch[k % 2];
                let mut q = p.clone();
                a.set(&mut q, v);
                let mut mq = m.clone();
                mq.insert(a, v);
                let key = format!("{a:?} of base {kind} as {v:#x}");
                c.eval("variations");
                c.state(&(a, v, kind));
                let bad = vc::catch(|| -> Result<(), String> {
                    let e = enc.encode(&q, beta, gamma).map_err(|e| format!("the circuit refuses it: {e}"))?;
                    let back = Pv::from_public_inputs(&e.inputs);
                    if back != q {
                        return Err("read back from the public inputs, the values differ".into());
                    }
                    let native = values::challenges(&q).map_err(|e| format!("no challenges: {e}"))?;
                    if native != e.challenges {
                        return Err("the circuit draws other challenges than the prover".into());
                    }
                    let ns = values::memory_sum(&q, beta, gamma);
                    let want = sum(&rows(&mq), beta, gamma);
                    if ns != want {
                        return Err("the verifier does not add the cells that hold the values to the memory's lookup".into());
                    }
                    if e.sum != want {
                        return Err("the circuit does not add the cells that hold the values to the memory's lookup".into());
                    }
                    if v != m[&a] {
                        let d: Vec<usize> = (0..e.inputs.len()).filter(|i| e.inputs[*i] != at_base.inputs[*i]).collect();
                        if d.is_empty() {
                            return Err("the public inputs do not change with it".into());
                        }
                        mine.extend(d);
                        if !matches!(a, Cap(..)) && native == base_challenges {
                            return Err("the challenges do not change with it".into());
                        }
                    }
                    Ok(())
                });
                c.transition(5);
                match bad {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => c.violate(&key, format!("{key}: {e}")),
                    Err(e) => c.violate(&key, format!("{key}: panic: {e}")),
                }
            }
            (a, mine)
        })
        .collect();
    let mut owner: BTreeMap<usize, Atom> = BTreeMap::new();
    for (a, mine) in owners {
        if !c.stopped() && mine.len() != a.bits().div_ceil(32) && !a.field() {
            c.violate(&format!("elements {a:?} {kind}"), format!("{a:?} takes {} of the public inputs", mine.len()));
        }
        for i in mine {
            if let Some(b) = owner.insert(i, a) {
                c.violate(&format!("shared {i}"), format!("element {i} of the public inputs holds both {a:?} and {b:?}"));
            }
        }
    }
}

/// Numbers too large for their field are refused by all, not cut.
fn refusals(c: &Check, enc: &Encoder) {
    let (p, _) = base(1);
    atoms().into_par_iter().filter(|a| a.bits() < 160).for_each(|a| {
        let w = a.bits();
        let mut vs: Vec<U256> = [w, w + 1, 64, 128, 255].iter().filter(|x| **x >= w).map(|x| U256::one() << *x).collect();
        vs.push((U256::one() << w) + 5);
        vs.push(U256::MAX);
        if matches!(a, Consolidated(_)) {
            return;
        }
        for v in vs {
            let mut q = p.clone();
            a.set(&mut q, v);
            let key = format!("{a:?} as {v:#x}");
            c.eval("refusals");
            c.state(&(a, v));
            if let Ok(Ok(e)) = vc::catch(|| enc.encode(&q, f(5), f(7))) {
                c.violate(&key, format!("{key}, more than its {w} bits, is accepted as {:?}", Pv::from_public_inputs(&e.inputs) == q));
            }
            if !matches!(a, Cap(..)) {
                if let Ok(Ok(_)) = vc::catch(|| values::challenges(&q)) {
                    c.violate(&key, format!("challenges are drawn for {key}, more than its {w} bits"));
                }
            }
        }
    });
}

/// The final values of a chain of blocks.
fn finals(c: &Check) {
    for kind in 0..3 {
        let (p, m) = base(kind);
        atoms().into_par_iter().for_each(|a| {
            for v in a.values(false) {
                let mut q = p.clone();
                a.set(&mut q, v);
                let mut mq = m.clone();
                mq.insert(a, v);
                let key = format!("final values with {a:?} of base {kind} as {v:#x}");
                c.eval("final values");
                let r = vc::catch(|| -> Result<(), String> {
                    let fp: FinalPublicValues<F, PoseidonHash> = q.clone().into();
                    let hashes: Vec<U256> = (1..256).map(|i| mq[&PrevHash(i)]).chain([mq[&CurHash]]).collect();
                    let limbs = |x: U256| (0..8).map(move |i| f((x >> (32 * i)).low_u32() as u64));
                    let payload: Vec<F> = hashes.iter().flat_map(|h| limbs(*h)).collect();
                    let consolidated = PoseidonHash::hash_no_pad(&payload).elements;
                    let ckpt: [F; 4] = std::array::from_fn(|i| f(mq[&Consolidated(i)].low_u64()));
                    let h = |a: Atom| H256(be(mq[&a]));
                    if (fp.chain_id, fp.checkpoint_state_trie_root, fp.new_state_trie_root, fp.checkpoint_consolidated_hash, fp.new_consolidated_hash)
                        != (mq[&Meta(4)], h(Root(false, 0)), h(Root(true, 0)), ckpt, consolidated)
                    {
                        return Err(format!("made {fp:?}"));
                    }
                    let pis: Vec<F> = [f(mq[&Meta(4)].low_u64())]
                        .into_iter()
                        .chain(limbs(mq[&Root(false, 0)]))
                        .chain(limbs(mq[&Root(true, 0)]))
                        .chain(ckpt)
                        .chain(consolidated)
                        .chain([F::ONE, F::TWO])
                        .collect();
                    let back = FinalPublicValues::<F, PoseidonHash>::from_public_inputs(&pis);
                    if back != fp {
                        return Err(format!("read back as {back:?}, not {fp:?}"));
                    }
                    Ok(())
                });
                if let Some(e) = r.unwrap_or_else(|e| Err(format!("panic: {e}"))).err() {
                    c.violate(&key, format!("{key}: {e}"));
                }
            }
        });
    }
}

/// Segments of an execution: the values claimed are those given, and the
/// memory holds them.
fn executions(c: &Check, starks: &Starks, log: Option<usize>) {
    let lk = ctl::lookups(starks);
    let mut world = c13::world();
    world.insert(c13::contract(9), Acct { nonce: 1, balance: 90.into(), code: Code::new().sstore(1, 7).p(299).o(0x40).p(2).o(SSTORE).0, ..Acct::default() });
    let t = Tx { ty: 2, chain_id: Some(1), nonce: 0, tip: 2.into(), max_fee: 50.into(), gas: 100_000, to: Some(c13::contract(9)), key: 1, ..Tx::default() };
    let batch = Batch { world, block: base_block(), txs: vec![t], earlier: vec![(vec![0xc1, 1], receipt(0, true, 21000, &[]))], gas_before: 21000, ..Batch::default() };
    let e = batch.expect(false);
    let mut inputs = batch.inputs(&e);
    inputs.block_metadata.block_gas_used = 0x1234_5678.into();
    inputs.block_metadata.block_difficulty = 0x7777_1111.into();
    inputs.block_metadata.block_blob_gas_used = 0x20000u64.into();
    inputs.block_metadata.block_bloom = std::array::from_fn(|i| h2u(keccak(&[i as u8, 0xbb])));
    inputs.checkpoint_state_trie_root = keccak(b"checkpoint");
    inputs.checkpoint_consolidated_hash = std::array::from_fn(|i| f(77 + i as u64));
    let mut n = 0;
    for d in SegmentDataIterator::<F>::new(&inputs, log) {
        let key = format!("execution cut at {log:?}, segment {n}");
        let bad = vc::catch(|| -> Result<(), String> {
            let (trimmed, mut data) = d.map_err(|e| e.to_string())?;
            let (tables, used, pv) = starks.segment(&trimmed, &mut data)?;
            if pv.block_metadata != inputs.block_metadata || pv.block_hashes != inputs.block_hashes || pv.trie_roots_after != e.roots {
                return Err("the block's data or the roots after claimed are not those given".into());
            }
            let before = batch.tries();
            use mpt_trie::partial_trie::PartialTrie;
            let roots = (before.state_trie.hash(), before.transactions_trie.hash(), before.receipts_trie.hash());
            let r = &pv.trie_roots_before;
            if (r.state_root, r.transactions_root, r.receipts_root) != roots {
                return Err("the roots before claimed are not those of the tries given".into());
            }
            let x = &pv.extra_block_data;
            if x.checkpoint_state_trie_root != inputs.checkpoint_state_trie_root
                || x.checkpoint_consolidated_hash != inputs.checkpoint_consolidated_hash
                || x.txn_number_before != 1.into()
                || x.txn_number_after != 2.into()
                || x.gas_used_before != inputs.gas_used_before
                || x.gas_used_after != inputs.gas_used_after
            {
                return Err(format!("claims {x:?}"));
            }
            // The claims, as atoms.
            let mut m = BTreeMap::new();
            for (a, v) in read(&pv) {
                m.insert(a, v);
            }
            let mut count: BTreeMap<Vec<u64>, i64> = BTreeMap::new();
            let ctl = &lk.ctls[6];
            for (sign, s) in ctl.looking.iter().map(|s| (1, s)).chain([(-1, &ctl.looked)]) {
                if !used[s.table] {
                    continue;
                }
                let t = &tables[s.table];
                let len = t[0].len();
                for i in 0..len {
                    let (lv, nv) = (ctl::row(t, i), ctl::row(t, (i + 1) % len));
                    let k = s.filter.eval(&lv, &nv);
                    if k != F::ZERO {
                        if k != F::ONE {
                            return Err(format!("row {i} of table {} has the filter {k}", s.table));
                        }
                        *count.entry(s.tuple(&lv, &nv).into_iter().map(u).collect()).or_default() += sign;
                    }
                }
                c.transition(len as u64);
            }
            for r in rows(&m) {
                *count.entry(r.to_vec()).or_default() += 1;
            }
            if let Some((r, k)) = count.iter().find(|x| *x.1 != 0) {
                return Err(format!("the memory's lookups do not balance: the access {r:?} is {} times too often {}", k.abs(), if *k > 0 { "made" } else { "in memory" }));
            }
            Ok(())
        });
        c.eval("executions");
        c.trace();
        match bad {
            Ok(Ok(())) => {}
            Ok(Err(e)) => c.violate(&key, format!("{key}: {e}")),
            Err(e) => c.violate(&key, format!("{key}: panic: {e}")),
        }
        n += 1;
    }
    c.sample("executions", || json!(format!("cut at {log:?}: {n} segments")));
}
/// All values of public values.
fn read(p: &Pv) -> Vec<(Atom, U256)> {
    let m = &p.block_metadata;
    let x = &p.extra_block_data;
    let mut v = vec![
        (Beneficiary, U256::from_big_endian(&m.block_beneficiary.0)),
        (Random, h2u(m.block_random)),
        (BeaconRoot, h2u(m.parent_beacon_block_root)),
        (CurHash, h2u(p.block_hashes.cur_hash)),
    ];
    for (b, r, g) in [(false, &p.trie_roots_before, &p.registers_before), (true, &p.trie_roots_after, &p.registers_after)] {
        v.extend([r.state_root, r.transactions_root, r.receipts_root].into_iter().enumerate().map(|(i, h)| (Root(b, i), h2u(h))));
        v.extend([g.program_counter, g.is_kernel, g.stack_len, g.context, g.gas_used].into_iter().enumerate().map(|(i, h)| (Reg(b, i), h)));
        v.push((StackTop(b), g.stack_top));
    }
    let meta = [m.block_timestamp, m.block_number, m.block_difficulty, m.block_gaslimit, m.block_chain_id, m.block_gas_used];
    v.extend(meta.into_iter().enumerate().map(|(i, x)| (Meta(i), x)));
    v.extend([m.block_base_fee, m.block_blob_gas_used, m.block_excess_blob_gas].into_iter().enumerate().map(|(i, x)| (Wide(i), x)));
    v.extend(m.block_bloom.iter().enumerate().map(|(i, x)| (Bloom(i), *x)));
    v.extend(p.block_hashes.prev_hashes.iter().enumerate().map(|(i, x)| (PrevHash(i), h2u(*x))));
    v.extend([x.txn_number_before, x.txn_number_after, x.gas_used_before, x.gas_used_after].into_iter().enumerate().map(|(i, x)| (Extra(i), x)));
    v
}

pub fn run() -> ! {
    let c = Check::new("C20", "model_check");
    let only = std::env::var("VERIF_ONLY").ok();
    let on = |n: &str| only.as_deref().map_or(true, |o| o.split(',').any(|x| x == n));
    let enc = Encoder::default();
    let time = |n: &str| eprintln!("{n} {:.1}s", c.elapsed().as_secs_f64());
    time("circuit");
    if on("round") {
        match enc.targets_round_trip() {
            Ok((true, true)) => {}
            x => c.violate("targets", format!("targets of the public values do not come back as they were: {x:?}")),
        }
        if values::final_targets_round_trip() != Ok(true) {
            c.violate("final targets", "targets of the final values do not come back as they were");
        }
        c.evals("targets", 3);
    }
    if on("variations") {
        for kind in 0..3 {
            variations(&c, &enc, kind);
            time("variations");
        }
    }
    if on("refusals") {
        refusals(&c, &enc);
        time("refusals");
    }
    if on("finals") {
        finals(&c);
        time("final");
    }
    if on("executions") {
        let starks = Starks::default();
        let logs: Vec<Option<usize>> = if c.thorough { vec![None, Some(12), Some(13), Some(14)] } else { vec![None, Some(14)] };
        for l in logs {
            executions(&c, &starks, l);
        }
        time("executions");
    }
    let n = atoms().len();
    c.sample("variations", || json!(atoms().iter().step_by(37).map(|a| format!("{a:?}: {:x?}", a.values(true))).collect::<Vec<_>>()));
    c.finish(
        "each value of the public values x each boundary of each of its limbs x {all zero, all distinct, all greatest} for the rest, through public inputs, challenges and memory sum, natively and in circuit; and the memory lookups of segments of executions",
        json!({"values": n, "bases": 3, "cap_elements": 2 * CAP * 4}),
        &["Poseidon and the field arithmetic of plonky2 are taken as they are", "the features of the default build (eth_mainnet)"],
    )
}
