//! C13: a batch of transactions ends in the Ethereum post-state or is rejected.
use evm_arithmetization::verif_hooks::vm::Stop;
use vc::rayon::prelude::*;
use vc::{Check, H256, U256};

use crate::asm::*;
use crate::batch::*;
use crate::common::*;
use crate::refevm::*;

const GWEI: u64 = 1_000_000_000;

pub fn contract(i: u64) -> Addr {
    addr20(0xc0 + i as u8, i)
}
pub fn eoa(i: u64) -> Addr {
    addr20(0xe0 + i as u8, i)
}
/// Accounts of every kind.
pub fn world() -> World {
    let mut w = base_world();
    for k in 1..=3u64 {
        w.insert(address_of(k), Acct { balance: U256::exp10(18) * k, nonce: [0, 127, 255][k as usize - 1], ..Acct::default() });
    }
    w.insert(eoa(1), Acct { balance: 500.into(), ..Acct::default() });
    let con = |code: Code, storage: &[(u64, u64)]| Acct { nonce: 1, balance: 50.into(), code: code.0, storage: storage.iter().map(|(k, v)| ((*k).into(), (*v).into())).collect() };
    // 1: writes, clears and logs.
    w.insert(contract(1), con(Code::new().sstore(1, 0).sstore(2, 9).sstore(3, 4).p(7).p(8).p(40).p(0).o(0xa2).p(1).p(1).p(0).o(0xa1), &[(1, 5), (2, 6)]));
    // 2: writes and reverts.
    w.insert(contract(2), con(Code::new().sstore(1, 7).p(3).p(0).o(REVERT), &[(1, 5)]));
    // 3: writes and fails.
    w.insert(contract(3), con(Code::new().sstore(1, 7).o(INVALID), &[]));
    // 4: destroys itself for the caller.
    w.insert(contract(4), con(Code::new().o(CALLER).o(SELFDESTRUCT), &[(1, 5)]));
    // 5: creates what its input says, with CREATE2, and calls it.
    w.insert(
        contract(5),
        con(
            Code::new().o(CALLDATASIZE).p(0).p(0).o(CALLDATACOPY).p(7).o(CALLDATASIZE).p(0).p(2).o(0xf5)
                .os(&[0x80]).p(1).o(SSTORE).p(0).p(0).p(0).p(0).p(0).os(&[0x85, GAS, 0xf1]).p(2).o(SSTORE),
            &[],
        ),
    );
    // 6: counts in persistent and transient storage, clears a slot and sets another.
    w.insert(contract(6), con(Code::new().p(1).os(&[SLOAD]).p(1).os(&[ADD]).p(1).os(&[SSTORE]).p(1).os(&[TLOAD]).p(1).os(&[ADD, 0x80]).p(1).os(&[TSTORE]).p(5).o(SSTORE).p(0).o(BALANCE_).p(6).o(SSTORE).o(CALLER).o(BALANCE_).p(7).o(SSTORE).o(0x3a).p(8).o(SSTORE), &[(1, 1)]));
    // 7: clears ten slots.
    let clear = (0..10u64).fold(Code::new(), |c, i| c.sstore(100 + i, 0));
    w.insert(contract(7), con(clear, &(0..10).map(|i| (100 + i, i + 1)).collect::<Vec<_>>()));
    // 8: sends to an account that does not exist, and to itself.
    w.insert(contract(8), con(Code::new().p(0).p(0).p(0).p(0).p(5).p(eoa(9)).os(&[GAS, 0xf1]).p(0).p(0).p(0).p(0).p(0).p(eoa(8)).os(&[GAS, 0xf1]).p(0).p(0).p(0).p(0).p(6).o(ADDRESS).p(0).o(0xf1), &[]));
    w
}
const BALANCE_: u8 = 0x31;
pub fn init_codes() -> Vec<Code> {
    vec![
        Code::new(),
        Code::new().ret(&[0x5f, 0x5f, 0x55]),
        Code::new().sstore(1, 2).ret(&[0x5b]),
        Code::new().p(3).p(0).o(REVERT),
        Code::new().o(INVALID),
        Code::new().ret(&[0xef]),
        Code::new().p(24577).p(0).o(RETURN),
        Code::new().o(CALLER).o(SELFDESTRUCT),
        Code::new().p(9).p(5).p(0).o(0xa1).ret(&[0x33, 0xff]),
    ]
}
pub fn tx(key: u64, to: Option<Addr>) -> Tx {
    let nonce = [0u64, 127, 255][key as usize - 1];
    Tx { ty: 2, chain_id: Some(1), nonce, tip: 2.into(), max_fee: 50.into(), gas: 400_000, to, key, max_blob_fee: GWEI.into(), ..Tx::default() }
}
pub fn with_type(mut t: Tx, kind: usize) -> Tx {
    match kind {
        0 => {
            t.ty = 0;
            t.chain_id = None;
        }
        k => t.ty = k as u8 - 1,
    }
    if t.ty == 3 {
        t.blobs = vec![(U256::one() << 248) + 1, (U256::one() << 248) + 2];
    }
    if t.ty < 2 {
        t.tip = t.max_fee;
    }
    if t.ty == 0 {
        t.access.clear();
    }
    t
}
pub fn batch(txs: Vec<Tx>) -> Batch {
    Batch { world: world(), block: base_block(), txs, ..Batch::default() }
}

/// Every type of transaction with every outcome.
fn outcomes(th: bool) -> Vec<Batch> {
    let mut v = vec![];
    let mut targets: Vec<Addr> = (1..=8).map(contract).collect();
    targets.extend([eoa(1), eoa(9), address_of(1), address_of(2), base_block().coinbase, beacon_addr()]);
    targets.extend((1..=5u64).chain([9, 11]).map(|i| u2a(i.into())));
    for kind in 0..5 {
        for (i, to) in targets.iter().enumerate() {
            for (j, value) in [0u64, 1, 77].iter().enumerate() {
                for (k, data) in [vec![], vec![0u8; 5], (0..70u8).collect::<Vec<_>>()].into_iter().enumerate() {
                    for (l, access) in [vec![], vec![(*to, vec![1.into(), 2.into(), 2.into()])], vec![(eoa(9), vec![]), (eoa(9), vec![0.into()]), (contract(1), vec![U256::MAX])]].into_iter().enumerate() {
                        if kind < 2 && l > 0 || !th && (i + j + k + l + kind) % 6 != 0 {
                            continue;
                        }
                        let mut t = tx(1, Some(*to));
                        t.value = (*value).into();
                        t.data = data.clone();
                        t.access = access;
                        v.push(batch(vec![with_type(t, kind)]));
                    }
                }
            }
        }
        if kind == 4 {
            continue;
        }
        for (i, c) in init_codes().into_iter().enumerate() {
            for value in [0u64, 3] {
                for pre in 0..3u8 {
                    if !th && (i + value as usize + kind + pre as usize) % 3 != 0 {
                        continue;
                    }
                    let mut t = tx(1, None);
                    t.gas = 6_000_000;
                    t.value = value.into();
                    t.data = c.0.clone();
                    let mut b = batch(vec![with_type(t, kind)]);
                    // The address may hold ether before, or be taken.
                    let a = create_address(address_of(1), 0);
                    if pre == 1 {
                        b.world.insert(a, Acct { balance: 5.into(), ..Acct::default() });
                    } else if pre == 2 {
                        b.world.insert(a, Acct { nonce: 1, ..Acct::default() });
                    }
                    v.push(b);
                }
            }
        }
        for c in init_codes() {
            let mut t = tx(1, Some(contract(5)));
            t.gas = 6_000_000;
            t.data = c.0;
            v.push(batch(vec![with_type(t, kind)]));
        }
    }
    v
}
/// Fees and gas at their limits.
fn fees(th: bool) -> Vec<Batch> {
    let mut v = vec![];
    for to in [Some(contract(1)), Some(contract(7)), Some(contract(2)), Some(eoa(9)), Some(u2a(2.into())), None] {
        let mut t = tx(1, to);
        t.data = if to.is_none() { init_codes()[1].0.clone() } else { vec![1, 0, 2] };
        let o = transact(&batch(vec![]).expect(false).world, &base_block(), &t, false, &Tweak::default());
        let i = t.intrinsic();
        // Gas used without refunds cannot exceed 5/4 of that with them.
        for g in [i, i + 1, i + 2300, i + 5000, o.gas - 1, o.gas, o.gas + 1, o.gas * 5 / 4, o.gas * 5 / 4 + 1, o.gas * 5 / 4 + 5000, 29_999_999, 30_000_000] {
            if g < i {
                continue;
            }
            let mut u = t.clone();
            u.gas = g;
            u.max_fee = 11.into();
            v.push(batch(vec![u]));
        }
        for (base, tip, max) in [(0u64, 0u64, 0u64), (0, 0, 5), (0, 5, 5), (10, 0, 10), (10, 1, 10), (10, 10, 10), (10, 3, 12), (10, 3, 13), (10, 3, 14), (10, 0, 100), (7, 100, 100), (GWEI, GWEI, 3 * GWEI)] {
            for kind in 0..5 {
                if kind == 4 && to.is_none() || !th && (kind + tip as usize) % 2 == 1 {
                    continue;
                }
                let mut u = t.clone();
                u.tip = tip.into();
                u.max_fee = max.into();
                let u = with_type(u, kind);
                for (excess, cb) in [(0u64, 0), (5_000_000, 1), (20_000_000, 2), (1, 3), (3, 4)] {
                    if !th && (excess / 1000 + kind as u64 + base + max) % 3 != 0 {
                        continue;
                    }
                    let mut b = batch(vec![u.clone()]);
                    b.block.base_fee = base.into();
                    b.block.excess_blob_gas = excess;
                    b.block.coinbase = [base_block().coinbase, address_of(1), eoa(1), contract(4), to.unwrap_or(eoa(7))][cb];
                    // Just what the transaction may cost.
                    let cost = U256::from(u.max_fee) * u.gas + u.max_blob_fee * u.blob_gas() + u.value;
                    b.world.get_mut(&address_of(1)).unwrap().balance = cost;
                    v.push(b);
                }
            }
        }
    }
    // Nonces.
    for n in [0u64, 1, 127, 128, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX - 1] {
        for to in [Some(eoa(9)), None] {
            let mut t = tx(1, to);
            t.nonce = n;
            let mut b = batch(vec![t]);
            b.world.get_mut(&address_of(1)).unwrap().nonce = n;
            v.push(b);
        }
    }
    // Values.
    for x in [0u32, 7, 8, 31, 32, 63, 64, 127, 128, 200, 255] {
        for d in [0u64, 1] {
            let mut t = tx(1, Some(eoa(9)));
            t.value = (U256::one() << x) - d;
            let mut b = batch(vec![t.clone()]);
            b.world.get_mut(&address_of(1)).unwrap().balance = t.value + U256::exp10(12);
            v.push(b.clone());
            b.txs[0].to = Some(eoa(1));
            v.push(b);
        }
    }
    v
}
/// Transactions after one another.
fn sequences(th: bool) -> Vec<Batch> {
    let create = |data: Code| {
        let mut t = tx(1, Some(contract(5)));
        t.data = data.0;
        t.gas = 1_000_000;
        t
    };
    let mut ts: Vec<Tx> = (1..=8).map(|i| tx(1, Some(contract(i)))).collect();
    // Storage and refunds, a creation that a second one finds taken, one that
    // destroys itself and can be made again, transfers, failures.
    ts.extend([create(init_codes()[1].clone()), create(init_codes()[7].clone()), create(Code::new().ret(&[0x33, 0xff])), tx(1, Some(eoa(9))), tx(1, Some(address_of(2)))]);
    let mut d = tx(1, None);
    d.data = init_codes()[8].0.clone();
    ts.push(d);
    let mut v = vec![];
    let n = ts.len();
    let len: u32 = if th { 3 } else { 2 };
    for i in 0..n.pow(len) {
        let mut m = i;
        let mut seq = vec![];
        let mut next = [0u64, 127, 255];
        for j in 0..len as u64 {
            let k = (i as u64 + j) % 2 + 1;
            let mut t = ts[m % n].clone();
            t.key = k;
            t.nonce = next[k as usize - 1];
            next[k as usize - 1] += 1;
            if (i / 3) % 2 == 1 {
                t.value = 1.into();
            }
            let kind = 1 + (i + j as usize) % if t.to.is_none() { 3 } else { 4 };
            seq.push(with_type(t, kind));
            m /= n;
        }
        v.push(batch(seq));
    }
    // Many of the same sender.
    let mut seq = vec![];
    for i in 0..6 {
        let mut t = ts[[5, 0, 9, 5, 8, 6][i]].clone();
        t.nonce = i as u64;
        seq.push(t);
    }
    v.push(batch(seq));
    v.push(batch(vec![]));
    v
}
/// Batches within a block: the index of the transaction, what came before,
/// and withdrawals.
fn places(th: bool) -> Vec<Batch> {
    let mut v = vec![];
    let all = [0usize, 1, 2, 15, 16, 17, 126, 127, 128, 129, 255, 256, 257];
    for n in all {
        for m in 0..=2usize {
            if n > 17 && !th && m != 2 && n != 127 {
                continue;
            }
            let mut seq = vec![];
            for i in 0..m {
                let mut t = tx(1, Some(if i == 0 { contract(1) } else { eoa(9) }));
                t.nonce = i as u64;
                seq.push(t);
            }
            let mut b = batch(seq);
            b.prune = n > 2;
            b.gas_before = [0u64, 21000, 1 << 31][n % 3] * (n > 0) as u64;
            b.earlier = (0..n)
                .map(|i| {
                    let logs = vec![Log { addr: eoa(i as u64 % 5), topics: vec![i.into(); i % 5], data: vec![i as u8; i % 70] }];
                    let mut t = tx(2, Some(eoa(1)));
                    t.nonce = i as u64;
                    (with_type(t, i % 5).encode(), receipt([0u8, 0, 1, 2, 3][i % 5], i % 3 > 0, 100 * i as u64, if i % 2 == 0 { &logs } else { &[] }))
                })
                .collect();
            v.push(b);
        }
    }
    let who = [eoa(9), eoa(1), contract(1), address_of(1), base_block().coinbase, beacon_addr()];
    let amounts = [U256::one(), U256::from(GWEI) * u64::MAX, U256::from(GWEI)];
    for i in 0..who.len() {
        for m in 0..2 {
            let mut b = batch((0..m).map(|_| tx(1, Some(contract(6)))).collect());
            b.withdrawals = vec![(who[i], amounts[i % 3])];
            v.push(b.clone());
            for j in 0..who.len() {
                b.withdrawals = vec![(who[i], amounts[j % 3]), (who[j], amounts[i % 3])];
                v.push(b.clone());
            }
            b.withdrawals = (0..20).map(|k| (who[(i + k) % who.len()], amounts[k % 3])).collect();
            v.push(b.clone());
            b.withdrawals = vec![(eoa(8), U256::zero()), (who[i], U256::zero())];
            v.push(b.clone());
        }
    }
    // The beacon root: every shape of its slots.
    for ts in [1u64, 8190, 8191, 8192, 16382, 1_700_000_000, u32::MAX as u64] {
        for root in [H256::zero(), vc::keccak(b"root"), H256::from_low_u64_be(1)] {
            for before in 0..4u64 {
                let mut b = batch(if before == 0 { vec![tx(1, Some(contract(6)))] } else { vec![] });
                b.block.timestamp = ts.into();
                b.block.beacon_root = root;
                let s = &mut b.world.get_mut(&beacon_addr()).unwrap().storage;
                if before & 1 > 0 {
                    s.insert((ts % 8191).into(), 3.into());
                }
                if before & 2 > 0 {
                    s.insert((ts % 8191 + 8191).into(), 4.into());
                }
                v.push(b);
            }
        }
    }
    // What contracts see of the block.
    let see = [0x41u8, 0x42, 0x43, 0x44, 0x45, 0x46, 0x48, 0x4a].iter().enumerate().fold(Code::new(), |c, (i, op)| c.o(*op).p(i).o(SSTORE));
    let see = (0..4u64).fold(see, |c, i| c.p([299u64, 300, 44, 43][i as usize]).o(0x40).p(20 + i).o(SSTORE));
    for (i, n) in [0u64, 1, 255, 256, 257, 300, u32::MAX as u64].iter().enumerate() {
        let mut t = tx(1, Some(contract(1)));
        t.gas = 2_000_000;
        let mut b = batch(vec![t]);
        b.world.get_mut(&contract(1)).unwrap().code = see.0.clone();
        b.block.number = (*n).into();
        b.block.gas_limit = if i % 2 == 0 { 3_000_000.into() } else { U256::from(u32::MAX) };
        b.block.random = U256::MAX - i;
        b.block.excess_blob_gas = 1_000_000 * i as u64;
        v.push(b);
    }
    v
}

/// Claims that differ from the truth in one place.
fn wrong_claims(ck: &Check, th: bool) {
    let mut bs = vec![batch(vec![]), batch(vec![tx(1, Some(contract(1)))]), batch(vec![tx(1, Some(contract(3)))]), batch(vec![tx(1, Some(eoa(9))), tx(2, None)])];
    let mut b = batch(vec![tx(2, Some(contract(7)))]);
    b.withdrawals = vec![(eoa(9), 5.into())];
    b.earlier = (0..3u64).map(|i| (with_type(tx(2, Some(eoa(1))), i as usize).encode(), receipt([0u8, 0, 1][i as usize], true, i, &[]))).collect();
    b.gas_before = 777;
    bs.push(b);
    let early = ["StateTrieRootDigestBefore", "TransactionTrieRootDigestBefore", "ReceiptTrieRootDigestBefore", "TxnNumberBefore", "BlockGasUsedBefore"];
    let late = ["StateTrieRootDigestBefore", "StateTrieRootDigestAfter", "TransactionTrieRootDigestAfter", "ReceiptTrieRootDigestAfter", "TxnNumberAfter", "BlockGasUsedAfter"];
    bs.par_iter().enumerate().for_each(|(bi, b)| {
        let e = b.expect(false);
        let mut vm = start(b, &e);
        let first = vm.save();
        let halt = [label("halt")];
        if !matches!(vm.run(&[label("perform_final_checks")], 100_000_000), Stop::Halted(_)) {
            return; // reported elsewhere
        }
        let last = vm.save();
        for (snap, fields) in [(&first, &early[..]), (&last, &late[..])] {
            for f in fields {
                let bits: Vec<u32> = if th { (0..256).collect() } else { (0..8).map(|i| 32 * i + (7 * i + bi as u32) % 32).collect() };
                for bit in bits.iter().map(|b| Some(*b)).chain([None]) {
                    if ck.stopped() || (f.starts_with("Txn") || f.starts_with("Block")) && bit.is_some_and(|b| b > 63) {
                        continue;
                    }
                    vm.load(snap);
                    let old = get_global(&vm, f);
                    let new = match bit {
                        Some(b) => old ^ (U256::one() << b),
                        None => U256::zero(),
                    };
                    if new == old {
                        continue;
                    }
                    ck.eval("wrong claim");
                    set_global(&mut vm, f, new);
                    let r = vm.run(&halt, 100_000_000);
                    if !matches!(r, Stop::Failed(_)) {
                        ck.violate(&format!("wrong {f}"), format!("{} with {f} = {new:#x} instead of {old:#x}: {}", b.describe(), place(&vm, &r)));
                    }
                }
            }
        }
    });
}

/// Transactions the protocol does not admit, each with what is wrong.
fn invalid(th: bool) -> Vec<(String, Batch)> {
    let mut v = vec![];
    for kind in 0..5 {
        for to in [Some(eoa(9)), Some(contract(1)), None] {
            let mut t = tx(1, to);
            t.value = 7.into();
            if to.is_none() {
                t.data = init_codes()[2].0.clone();
            }
            let t = with_type(t, kind);
            let me = address_of(1);
            let cost = |t: &Tx| t.max_fee * t.gas + t.max_blob_fee * t.blob_gas() + t.value;
            let mut add = |what: &str, f: &dyn Fn(&mut Batch)| {
                let mut b = batch(vec![t.clone()]);
                b.world.get_mut(&me).unwrap().balance = cost(&t);
                f(&mut b);
                v.push((format!("kind {kind}: {what}"), b));
            };
            if kind == 4 && to.is_none() {
                add("creation with blobs", &|_| {});
                continue;
            }
            add("", &|_| {});
            for n in [1u64, 2, 126, 128, u64::MAX - 1, u64::MAX] {
                add("nonce too high", &|b| b.txs[0].nonce = n);
                add("nonce too low", &|b| b.world.get_mut(&me).unwrap().nonce = n);
            }
            add("largest nonce", &|b| {
                b.txs[0].nonce = u64::MAX;
                b.world.get_mut(&me).unwrap().nonce = u64::MAX;
            });
            add("sender with code", &|b| b.world.get_mut(&me).unwrap().code = vec![0]);
            for d in [1u64, 2, 700] {
                add("gas below the intrinsic gas", &|b| b.txs[0].gas = t.intrinsic() - d);
                add("gas above the block's limit", &|b| b.block.gas_limit = (t.gas - d).into());
                add("base fee above the fee cap", &|b| b.block.base_fee = t.max_fee + d);
                add("balance below the cost", &|b| b.world.get_mut(&me).unwrap().balance = cost(&t) - d);
                if kind >= 3 {
                    add("tip above the fee cap", &|b| b.txs[0].tip = t.max_fee + d);
                }
            }
            add("gas of zero", &|b| b.txs[0].gas = 0);
            add("balance for the effective price only", &|b| b.world.get_mut(&me).unwrap().balance = U256::from(t.gas) * 12 + t.value + t.max_blob_fee * t.blob_gas());
            if kind >= 3 {
                // The price actually paid is lower than the cap.
                add("balance for the effective price", &|b| b.world.get_mut(&me).unwrap().balance = cost(&t) - 1);
            }
            add("no balance", &|b| b.world.get_mut(&me).unwrap().balance = 0.into());
            add("no sender", &|b| {
                b.world.remove(&me);
            });
            for x in [U256::MAX, U256::MAX - 7, U256::one() << 255, U256::MAX - cost(&t), U256::MAX - cost(&t) + 1, U256::MAX - cost(&t) + 8] {
                add("value beyond the balance", &|b| b.txs[0].value = x);
            }
            // Fees which overflow 256 bits to little or nothing.
            for x in [U256::one() << 255, U256::one() << 251, (U256::MAX / t.gas) + 1, U256::MAX] {
                for full in [false, true] {
                    add("price overflowing", &|b| {
                        b.txs[0].max_fee = x;
                        b.txs[0].tip = if full || b.txs[0].ty < 2 { x } else { 2.into() };
                        b.txs[0].value = 0.into();
                    });
                }
            }
            if kind > 0 {
                for c in [0u64, 2, 257] {
                    add("another chain", &|b| b.txs[0].chain_id = Some(c));
                }
            }
            if kind == 4 {
                for x in [0u64, 1, 2] {
                    add("blob fee cap below the fee", &|b| {
                        b.block.excess_blob_gas = 5_000_000;
                        b.txs[0].max_blob_fee = x.into();
                    });
                }
                for x in [U256::one() << 255, (U256::MAX / t.blob_gas()) + 1] {
                    add("blob fee overflowing", &|b| b.txs[0].max_blob_fee = x);
                }
                add("no blobs", &|b| b.txs[0].blobs.clear());
                for x in [0u64, 2, 255] {
                    add("blob of another version", &|b| b.txs[0].blobs[1] = (U256::from(x) << 248) + 1);
                }
            }
            if to.is_none() {
                for n in [49153, 49184] {
                    add("code too long", &|b| {
                        b.txs[0].data = vec![0; n];
                        b.txs[0].gas = 6_000_000;
                        b.world.get_mut(&me).unwrap().balance = U256::exp10(18);
                    });
                }
            }
        }
    }
    if !th {
        // Creations once in three.
        v = v.into_iter().enumerate().filter(|(i, (_, b))| b.txs[0].to != Some(eoa(9)) || i % 3 != 0).map(|x| x.1).collect();
    }
    v
}
/// No such transaction may change the state: the kernel fails, or passes it by.
fn inadmissible(ck: &Check, th: bool) {
    let passed = std::sync::atomic::AtomicUsize::new(0);
    invalid(th).par_iter().with_max_len(1).for_each(|(what, b)| {
        if ck.stopped() {
            return;
        }
        ck.eval("invalid");
        ck.state(&(what, b.raw_txns()));
        let plain = Batch { txs: vec![], ..b.clone() };
        let e = plain.expect(false);
        let r = vc::catch(|| {
            let mut vm = start(b, &e);
            let mut stop = vm.run(&[label("perform_final_checks")], 20_000_000);
            if let Stop::Halted(_) = stop {
                // The claim is that the state is as it was.
                vm.set_stack(&[1.into()]);
                vm.set_pc(label("check_state_trie"));
                stop = vm.run(&[label("halt")], 20_000_000);
                ck.transition(vm.clock() as u64);
                return Some((matches!(stop, Stop::Halted(_)), place(&vm, &stop)));
            }
            ck.transition(vm.clock() as u64);
            None
        });
        let valid = what.ends_with(": ");
        match r {
            Ok(None) | Err(_) if valid => ck.violate("valid refused", format!("{}: a valid transaction fails", b.describe())),
            Ok(Some((true, _))) if valid => ck.violate("valid", format!("{}: a valid transaction leaves the state as it was", b.describe())),
            Ok(Some((false, at))) if !valid => ck.violate(&format!("invalid: {what}"), format!("an invalid transaction ({what}) changes the state ({at}): {}", b.describe())),
            Ok(Some((true, _))) => {
                passed.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
            _ => {}
        }
    });
    ck.note("invalid transactions passed by without effect", vc::json!(passed.into_inner()));
}

pub fn run() -> ! {
    let ck = Check::new("C13", "model_check");
    let th = ck.thorough;
    let only = std::env::var("VERIF_ONLY").ok();
    for (n, f) in [("outcomes", outcomes as fn(bool) -> Vec<Batch>), ("fees", fees), ("sequences", sequences), ("places", places)] {
        if only.as_ref().is_some_and(|o| o != n) {
            continue;
        }
        let v = f(th);
        let t = ck.elapsed();
        v.par_iter().with_max_len(1).for_each(|b| {
            if ck.stopped() {
                return;
            }
            ck.eval(n);
            if let Some((_, e)) = b.check(&ck, n) {
                ck.sample(n, || vc::json!({"transactions": b.txs.len(), "gas": e.gas_after, "status": e.outcomes.iter().map(|o| o.status).collect::<Vec<_>>()}));
            }
        });
        eprintln!("C13 {n}: {} batches, {:.1} s", v.len(), (ck.elapsed() - t).as_secs_f64());
    }
    if only.as_ref().is_none_or(|o| o == "invalid") {
        let t = ck.elapsed();
        inadmissible(&ck, th);
        eprintln!("C13 invalid: {:.1} s", (ck.elapsed() - t).as_secs_f64());
    }
    wrong_claims(&ck, th);
    ck.finish(
        "one state per batch; transitions are machine steps",
        vc::json!({"transactions_per_batch": if th {3} else {2}, "withdrawals": 20, "transaction_index": 257}),
        &["the reference of the harness states the protocol (Cancun)", "a batch with a transaction that is not valid may be refused, or pass it by"],
    )
}
