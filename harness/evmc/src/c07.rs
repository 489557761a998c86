//! C07: splitting a block into batches never changes what is proven. Blocks
//! are executed by the reference, which also writes the trace an honest node
//! would give; the decoder's batches are compared with the states between the
//! transactions and executed by the real machine.
use std::collections::{BTreeMap, BTreeSet, HashMap};

type GenerationInputs = evm_arithmetization::generation::GenerationInputs<F>;
use evm_arithmetization::proof::BlockHashes;
use evm_arithmetization::verif_hooks::vm::Stop;
use mpt_trie::partial_trie::{HashedPartialTrie, PartialTrie};
use trace_decoder::observer::TriesObserver;
use trace_decoder::*;
use vc::rayon::prelude::*;
use vc::{json, keccak, rlp, Check, H256, U256};

use crate::asm::*;
use crate::batch::*;
use crate::c13;
use crate::common::*;
use crate::refevm::*;

const GWEI: u64 = 1_000_000_000;

/// Slots of which a and b share two nibbles of their keys, c one with them.
pub fn slots() -> [U256; 4] {
    let h = |i: u64| keccak(&be(i.into())).0[0];
    let a = 1u64;
    let find = |f: &dyn Fn(u8) -> bool| (2u64..).find(|i| f(h(*i))).unwrap();
    let b = find(&|x| x == h(a));
    let c = find(&|x| x >> 4 == h(a) >> 4 && x != h(a));
    let d = find(&|x| x >> 4 != h(a) >> 4);
    [a.into(), b.into(), c.into(), d.into()]
}
/// Code storing the pairs of words it is given.
fn storing() -> Vec<u8> {
    vec![0x5f, 0x5b, 0x80, 0x36, 0x14, 0x60, 0x16, 0x57, 0x80, 0x60, 0x20, 0x01, 0x35, 0x81, 0x35, 0x55, 0x60, 0x40, 0x01, 0x60, 0x01, 0x56, 0x5b, 0x00]
}
fn pairs(p: &[(U256, u64)]) -> Vec<u8> {
    p.iter().flat_map(|(k, v)| [be(*k), be((*v).into())].concat()).collect()
}
fn store() -> Addr {
    c13::contract(1)
}
/// Creates what its input says with CREATE2 and no salt.
fn factory() -> Addr {
    c13::contract(5)
}
/// Code that destroys itself at once.
fn doomed() -> Code {
    Code::new().sstore(1, 1).p(c13::eoa(7)).o(SELFDESTRUCT)
}
/// A bystander sharing two nibbles with the account to be destroyed.
fn bystander(of: Addr) -> Addr {
    (0..).map(|i| addr20(0xbb, i)).find(|a| keccak(a.as_bytes()).0[0] == keccak(of.as_bytes()).0[0]).unwrap()
}
pub fn world(with_coinbase: bool) -> World {
    let [a, b, c, _] = slots();
    let mut w = base_world();
    for k in 1..=3u64 {
        w.insert(address_of(k), Acct { balance: U256::exp10(18) * k, nonce: 5 * k, ..Acct::default() });
    }
    w.insert(c13::eoa(1), Acct { balance: 500.into(), ..Acct::default() });
    let con = |code: Vec<u8>, s: &[(U256, u64)]| Acct { nonce: 1, balance: 50.into(), code, storage: s.iter().map(|(k, v)| (*k, (*v).into())).collect() };
    w.insert(store(), con(storing(), &[(a, 1), (b, 2), (c, 3)]));
    w.insert(c13::contract(2), con(Code::new().p(a).o(SLOAD).sstore(a, 7).p(77).o(SLOAD).p(3).p(0).o(REVERT).0, &[(a, 5), (b, 6)]));
    w.insert(
        factory(),
        con(Code::new().o(CALLDATASIZE).p(0).p(0).o(CALLDATACOPY).p(0).o(CALLDATASIZE).p(0).p(0).os(&[0xf5, POP]).0, &[]),
    );
    // Looks at what is not there, and calls what reverts.
    w.insert(
        c13::contract(6),
        con(
            Code::new().p(c13::eoa(8)).o(0x31).p(0).o(SSTORE).p(c13::contract(2)).o(0x3b).p(1).o(SSTORE).p(99).o(SLOAD).p(c13::eoa(6)).o(0x3f).p(3).o(SSTORE)
                .p(0).p(0).p(0).p(0).p(0).p(c13::contract(2)).os(&[GAS, 0xf1]).p(2).o(SSTORE).0,
            &[(2.into(), 1)],
        ),
    );
    let target = create2_address(factory(), U256::zero(), &doomed().0);
    w.insert(target, Acct { balance: 3.into(), ..Acct::default() });
    w.insert(bystander(target), Acct { balance: 9.into(), nonce: 3, ..Acct::default() });
    if with_coinbase {
        w.insert(base_block().coinbase, Acct { balance: 1.into(), ..Acct::default() });
    }
    w
}

/// What a transaction of a block may be.
pub const KINDS: usize = 17;
fn tx(kind: usize, key: u64, nonce: u64) -> Tx {
    let [a, b, c, d] = slots();
    let mut t = Tx { ty: 2, chain_id: Some(1), nonce, tip: 2.into(), max_fee: 50.into(), gas: 300_000, key, max_blob_fee: GWEI.into(), ..Tx::default() };
    let put = |t: &mut Tx, p: &[(U256, u64)]| {
        t.to = Some(store());
        t.data = pairs(p);
    };
    match kind {
        0 => put(&mut t, &[(d, 5)]),
        1 => put(&mut t, &[(a, 0)]),
        2 => put(&mut t, &[(b, 0)]),
        3 => put(&mut t, &[(c, 0)]),
        4 => put(&mut t, &[(a, 9), (b, 0), (d, 0), (77.into(), 7), (77.into(), 0)]),
        5 => {
            t.to = Some(c13::eoa(1));
            t.value = 1.into();
        }
        6 => {
            t.to = Some(c13::eoa(9));
            t.value = 1.into();
        }
        7 => t.to = Some(c13::eoa(8)),
        8 => t.data = Code::new().sstore(1, 2).ret(&[0x5b, 0x5f]).0,
        9 => t.data = Code::new().sstore(1, 2).p(0).p(0).o(REVERT).0,
        10 => {
            t.to = Some(factory());
            t.data = doomed().0;
        }
        11 => t.to = Some(c13::contract(2)),
        12 => {
            t.to = Some(c13::contract(6));
            t.ty = 3;
            t.blobs = vec![(U256::one() << 248) + 1];
        }
        13 => {
            t.to = Some(c13::contract(6));
            t.ty = 1;
            t.access = vec![(c13::contract(6), vec![2.into(), 50.into()]), (c13::eoa(6), vec![])];
        }
        14 => {
            t.ty = 0;
            t.to = Some(factory());
            t.data = Code::new().sstore(1, 2).ret(&[0x5b]).0;
        }
        15 => {
            t.gas = 60_000;
            put(&mut t, &[(a, 0), (b, 0), (c, 0), (d, 4), (78.into(), 4), (79.into(), 4)]);
        }
        _ => {
            t.to = Some(c13::eoa(1));
            t.data = vec![1, 0, 2];
            t.ty = 0;
            t.chain_id = None;
        }
    }
    t
}
fn block_of(kinds: &[usize], with_coinbase: bool, withdrawals: Vec<(Addr, U256)>, block: Block) -> Batch {
    let world = world(with_coinbase);
    let mut nonces: BTreeMap<u64, u64> = (1..=3).map(|k| (k, world[&address_of(k)].nonce)).collect();
    let txs = kinds
        .iter()
        .enumerate()
        .map(|(i, k)| {
            // The first two come from the same account.
            let key = [1, 1, 2, 3][i % 4];
            let n = nonces.get_mut(&key).unwrap();
            *n += 1;
            tx(*k, key, *n - 1)
        })
        .collect();
    Batch { world, block, txs, withdrawals, ..Batch::default() }
}

/// What an honest node reports of a transaction.
fn trace_of(before: &World, o: &Outcome) -> BTreeMap<Addr, TxnTrace> {
    let mut v = BTreeMap::new();
    let mut all: BTreeSet<Addr> = o.seen.clone();
    all.extend(before.keys().chain(o.world.keys()).filter(|a| before.get(a) != o.world.get(a)));
    for a in all {
        let none = Acct::default();
        let (b, n) = (before.get(&a).unwrap_or(&none), o.world.get(&a).unwrap_or(&none));
        let gone = o.destroyed.contains(&a) && !o.world.contains_key(&a);
        let mut t = TxnTrace { self_destructed: gone, ..TxnTrace::default() };
        t.storage_read = o.seen_slots.iter().filter(|s| s.0 == a).map(|s| H256(be(s.1))).collect();
        if !gone {
            t.balance = (b.balance != n.balance).then_some(n.balance);
            t.nonce = (b.nonce != n.nonce).then(|| n.nonce.into());
            let slots: BTreeSet<U256> = b.storage.keys().chain(n.storage.keys()).copied().collect();
            for k in slots {
                let get = |x: &Acct| x.storage.get(&k).copied().unwrap_or_default();
                if get(b) != get(n) {
                    t.storage_written.insert(H256(be(k)), get(n));
                }
            }
            if b.code != n.code {
                t.code_usage = Some(ContractCodeUsage::Write(n.code.clone()));
            }
        }
        if t.code_usage.is_none() && o.seen_codes.contains(&a) && !b.code.is_empty() {
            t.code_usage = Some(ContractCodeUsage::Read(keccak(&b.code)));
        }
        v.insert(a, t);
    }
    v
}
/// The state between the transactions.
struct Stages {
    /// Before each transaction and after the last, then with the withdrawals.
    worlds: Vec<World>,
    gas: Vec<u64>,
    txns: Vec<Vec<u8>>,
    receipts: Vec<Vec<u8>>,
    info: Vec<TxnInfo>,
}
fn stages(b: &Batch) -> Stages {
    let e = b.expect(false);
    let mut start = b.clone();
    start.txs.clear();
    start.withdrawals.clear();
    let first = start.expect(false).world;
    let mut worlds = vec![b.world.clone()];
    let mut gas = vec![0];
    let mut info = vec![];
    let mut before = &first;
    for (i, o) in e.outcomes.iter().enumerate() {
        let r = &e.receipts[i];
        info.push(TxnInfo {
            traces: trace_of(before, o),
            meta: TxnMeta {
                byte_code: e.txns[i].clone(),
                new_receipt_trie_node_byte: if b.txs[i].ty == 0 { r.clone() } else { rlp::bytes(r) },
                gas_used: o.gas,
            },
        });
        worlds.push(o.world.clone());
        gas.push(gas[i] + o.gas);
        before = &o.world;
    }
    if b.txs.is_empty() {
        worlds.push(first.clone());
        gas.push(0);
    }
    worlds.push(e.world.clone());
    Stages { worlds, gas, txns: e.txns, receipts: e.receipts, info }
}
fn block_trace(b: &Batch, s: &Stages) -> BlockTrace {
    let t = b.tries();
    BlockTrace {
        trie_pre_images: BlockTraceTriePreImages::Separate(SeparateTriePreImages {
            state: SeparateTriePreImage::Direct(t.state_trie),
            storage: SeparateStorageTriesPreImage::MultipleTries(t.storage_tries.into_iter().map(|(k, v)| (k, SeparateTriePreImage::Direct(v))).collect()),
        }),
        code_db: b.world.values().map(|a| a.code.clone()).collect(),
        txn_info: s.info.clone(),
    }
}
fn other(b: &Batch) -> OtherBlockData {
    OtherBlockData {
        b_data: BlockLevelData {
            b_meta: b.metadata(),
            b_hashes: BlockHashes { prev_hashes: b.block.prev_hashes.clone(), cur_hash: keccak(b"current") },
            withdrawals: b.withdrawals.iter().map(|(a, v)| (*a, v / GWEI)).collect(),
        },
        checkpoint_state_trie_root: keccak(b"checkpoint"),
        checkpoint_consolidated_hash: [7, 8, 9, 10].map(plonky2::field::types::Field::from_canonical_u64),
        burn_addr: None,
        ger_data: None,
    }
}
fn items(t: &HashedPartialTrie) -> String {
    format!("{:?}", t.items().collect::<Vec<_>>())
}
fn content(g: &GenerationInputs) -> String {
    let mut s: Vec<_> = g.tries.storage_tries.iter().map(|(k, t)| format!("{k:?} {}", items(t))).collect();
    s.sort();
    let codes: BTreeSet<_> = g.contract_code.keys().collect();
    format!(
        "{} {:?} {} {} {} {s:?} {codes:?} {:?} {:?}",
        g.txn_number_before,
        g.signed_txns.len(),
        items(&g.tries.state_trie),
        items(&g.tries.transactions_trie),
        items(&g.tries.receipts_trie),
        g.trie_roots_after,
        g.withdrawals
    )
}
/// The sizes of the batches of n transactions, of which there are at least two.
fn sizes(n: usize, hint: usize) -> Vec<usize> {
    if n <= 1 {
        return vec![n, 0];
    }
    if hint >= n {
        return vec![n / 2, n - n / 2];
    }
    (0..n).step_by(hint).map(|i| hint.min(n - i)).collect()
}

/// Decodes the block with one batch size, compares with the stages, and runs
/// each batch not seen before.
fn split(ck: &Check, b: &Batch, s: &Stages, hint: usize, ran: &mut BTreeSet<String>, strict: bool) -> Result<(), String> {
    let n = b.txs.len();
    let mut seen = TriesObserver::new();
    let out = entrypoint(block_trace(b, s), other(b), hint, &mut seen, WireDisposition::Type1).map_err(|e| format!("not decoded: {e:?}"))?;
    let got: Vec<usize> = out.iter().map(|g| g.signed_txns.len()).collect();
    if strict && got != sizes(n, hint) {
        return Err(format!("batches of {got:?} transactions"));
    }
    if out.is_empty() || got.iter().sum::<usize>() != n {
        return Err(format!("batches of {got:?} transactions, for {n}"));
    }
    let mut at = 0;
    for (i, g) in out.iter().enumerate() {
        let last = i + 1 == out.len();
        let end = at + got[i];
        let fail = |m: String| format!("batch {i} (transactions {at}..{end}): {m}");
        // A batch without transactions at the start has done what precedes them.
        let before = if at == 0 && i > 0 { s.worlds[s.worlds.len() - 2].clone() } else { s.worlds[at].clone() };
        let after = match last {
            true => s.worlds[s.worlds.len() - 1].clone(),
            false if n == 0 => s.worlds[1].clone(),
            false => s.worlds[end].clone(),
        };
        let want = [state_root(&before), index_root(&s.txns[..at]), index_root(&s.receipts[..at])];
        let have = [g.tries.state_trie.hash(), g.tries.transactions_trie.hash(), g.tries.receipts_trie.hash()];
        if want != have {
            return Err(fail(format!("begins with roots {have:?}, not {want:?}")));
        }
        let want = [state_root(&after), index_root(&s.txns[..end]), index_root(&s.receipts[..end])];
        let r = &g.trie_roots_after;
        let have = [r.state_root, r.transactions_root, r.receipts_root];
        if want != have {
            return Err(fail(format!("ends with roots {have:?}, not {want:?}")));
        }
        let got_n = (g.txn_number_before, g.gas_used_before, g.gas_used_after);
        let want_n = (at.into(), s.gas[at].into(), s.gas[end].into());
        if got_n != want_n {
            return Err(fail(format!("transaction number, gas before and after are {got_n:?}, not {want_n:?}")));
        }
        if g.signed_txns != s.txns[at..end] {
            return Err(fail("other transactions".into()));
        }
        let w = if last { b.withdrawals.clone() } else { vec![] };
        if g.withdrawals != w {
            return Err(fail(format!("withdrawals {:?}", g.withdrawals)));
        }
        let o = other(b);
        if g.block_metadata != b.metadata()
            || format!("{:?}", g.block_hashes) != format!("{:?}", o.b_data.b_hashes)
            || g.checkpoint_state_trie_root != o.checkpoint_state_trie_root
            || g.checkpoint_consolidated_hash != o.checkpoint_consolidated_hash
            || g.burn_addr.is_some()
            || g.ger_data.is_some()
        {
            return Err(fail("other block data".into()));
        }
        let by_hash: HashMap<H256, (Addr, &Acct)> = before.iter().map(|(a, x)| (keccak(a.as_bytes()), (*a, x))).collect();
        for (k, t) in &g.tries.storage_tries {
            let want = by_hash.get(k).map_or(storage_root(&BTreeMap::new()), |x| storage_root(&x.1.storage));
            if t.hash() != want {
                return Err(fail(format!("the storage of {k:?} has root {:?}, not {want:?}", t.hash())));
            }
        }
        for (h, c) in &g.contract_code {
            if keccak(c) != *h {
                return Err(fail(format!("code of hash {h:?} is {c:02x?}")));
            }
        }
        ck.eval("batches");
        if ran.insert(content(g)) {
            ck.trace();
            let mut vm = machine(g);
            let stop = vm.run(&[label("halt")], 200_000_000);
            ck.transition(vm.clock() as u64);
            if !matches!(stop, Stop::Halted(_)) {
                return Err(fail(format!("its execution: {}", place(&vm, &stop))));
            }
        }
        at = end;
    }
    // The tries seen after each batch are complete.
    let last = seen.data.last().ok_or("nothing observed")?;
    let (st, sto) = last.tries.world.clone().into_state_and_storage();
    if state_root(&s.worlds[s.worlds.len() - 1]) != st.root() {
        return Err("the tries observed at the end have another root".into());
    }
    let fin = &s.worlds[s.worlds.len() - 1];
    for (a, x) in fin {
        if let Some(t) = sto.get(&keccak(a.as_bytes())) {
            if t.root() != storage_root(&x.storage) {
                return Err(format!("the storage observed at the end for {a:?} has another root"));
            }
        }
    }
    Ok(())
}

fn withdrawals(k: usize) -> Vec<(Addr, U256)> {
    let g = |a: Addr, n: u64| (a, U256::from(n) * GWEI);
    match k % 5 {
        0 => vec![],
        1 => vec![g(c13::eoa(1), 5)],
        2 => vec![g(c13::eoa(3), 7), g(c13::eoa(3), 1), g(store(), 2)],
        3 => vec![g(c13::eoa(9), 1), g(base_block().coinbase, u64::MAX), g(address_of(1), 3)],
        _ => vec![g(c13::eoa(4), 0), g(c13::eoa(1), 0), g(c13::eoa(1), 1)],
    }
}

pub fn run() -> ! {
    let ck = Check::new("C07", "model_check");
    let th = ck.thorough;
    let only = std::env::var("VERIF_ONLY").ok();
    let mut jobs: Vec<(Vec<usize>, bool, usize)> = vec![];
    let all = 0..KINDS;
    for coinbase in [true, false] {
        for w in 0..5 {
            jobs.push((vec![], coinbase, w));
            for a in all.clone() {
                jobs.push((vec![a], coinbase, w));
            }
        }
    }
    for a in all.clone() {
        for b in all.clone() {
            for coinbase in [true, false] {
                if th || coinbase == ((a + b) % 2 == 0) {
                    jobs.push((vec![a, b], coinbase, a + 2 * b));
                }
            }
            for c in all.clone() {
                if th || (a < 5 && b < 5 && c < 5) || c == (a * 7 + b * 3) % KINDS {
                    jobs.push((vec![a, b, c], (a + b + c) % 3 > 0, a + b + c));
                }
            }
        }
    }
    for i in 0..ck.pick(20, 400) {
        let k: Vec<usize> = (0..4 + i % 3).map(|j| (i * 5 + j * 7 + i * j) % KINDS).collect();
        jobs.push((k, i % 2 == 0, i));
    }
    if let Some(o) = only {
        jobs.retain(|j| format!("{:?}", j.0) == o);
    }
    jobs.par_iter().with_max_len(1).for_each(|(kinds, coinbase, w)| {
        if ck.stopped() {
            return;
        }
        let mut block = base_block();
        if w % 2 == 1 {
            block.timestamp = 8191.into();
            block.beacon_root = keccak(b"root");
        }
        let b = block_of(kinds, *coinbase, withdrawals(*w), block);
        let key = format!("{kinds:?}");
        let what = |h: usize, e: String| format!("transactions of kinds {kinds:?}, {} coinbase, batch size {h}: {e}; {}", if *coinbase { "with" } else { "without" }, b.describe());
        let s = match vc::catch(|| stages(&b)) {
            Ok(s) => s,
            Err(e) => return ck.violate("reference", format!("reference failed: {e}")),
        };
        let mut ran = BTreeSet::new();
        for hint in 1..=kinds.len() + 1 {
            ck.eval("blocks");
            ck.state(&(kinds, coinbase, w, hint));
            match vc::catch(|| split(&ck, &b, &s, hint, &mut ran, false)) {
                Ok(Ok(())) => (),
                Ok(Err(e)) => return ck.violate(&key, what(hint, e)),
                Err(e) => return ck.violate(&key, what(hint, format!("panic: {e}"))),
            }
        }
        ck.sample("block", || json!({"kinds": kinds, "batch_sizes": kinds.len() + 1}));
    });
    ck.finish(
        "one state per block and batch size; transitions are machine steps of the batches",
        json!({"kinds_of_transaction": KINDS, "length": if th { "0..3 all" } else { "0..2 all, 3 over storage and part" }, "batch_sizes": "1..n+1"}),
        &["the traces are those of the reference EVM, exact and complete"],
    )
}
