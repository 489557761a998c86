//! Running short programs in the machine: a transaction is run once up to the
//! point where the code of its target has been loaded, and from there every
//! program takes the place of that code.
use evm_arithmetization::verif_hooks::vm::{Snapshot, Stop, Vm};
use vc::{Check, U256};

use crate::batch::*;
use crate::common::*;
use crate::refevm::*;

pub struct Prog {
    pub batch: Batch,
    vm: Vm,
    snap: Snapshot,
    ctx: usize,
    target: Addr,
    halts: Vec<usize>,
    /// The state before the transaction (the beacon root has been written).
    world: World,
}

impl Prog {
    /// The batch has one transaction, to a contract with code.
    pub fn new(batch: Batch) -> Self {
        let e = batch.expect(false);
        let mut vm = start(&batch, &e);
        let at = label("process_message_txn_code_loaded");
        match vm.run(&[at], 10_000_000) {
            Stop::Halted(_) => {}
            s => panic!("the transaction does not start: {}", place(&vm, &s)),
        }
        let st = vm.stack();
        let ctx = (st[st.len() - 2] >> 64).as_usize();
        let snap = vm.save();
        let target = batch.txs[0].to.unwrap();
        let mut b = batch.clone();
        b.txs.clear();
        b.withdrawals.clear();
        b.raw = None;
        let world = b.expect(false).world;
        Prog { batch, vm, snap, ctx, target, halts: vec![label("txn_loop_after"), label("halt")], world }
    }
    /// Runs a program with the given gas left after the intrinsic gas.
    /// `finish`: go on to the end of the batch, where the kernel compares the
    /// roots with those of the reference.
    pub fn run(&mut self, ck: &Check, code: &[u8], gas: u64, finish: bool, key: &str) -> Option<Outcome> {
        self.run_told(ck, code, gas, finish, key, &String::new)
    }
    /// The same, with a description of the code.
    pub fn run_told(&mut self, ck: &Check, code: &[u8], gas: u64, finish: bool, key: &str, what: &dyn Fn() -> String) -> Option<Outcome> {
        self.batch.tweak.code = [(self.target, code.to_vec())].into();
        self.batch.tweak.intrinsic = Some(self.batch.txs[0].gas - gas);
        let want = if finish { None } else { Some(transact(&self.world, &self.batch.block, &self.batch.txs[0], true, &self.batch.tweak)) };
        let full = if finish { Some(self.batch.expect(true)) } else { None };
        let vm = &mut self.vm;
        vm.load(&self.snap);
        let cs = seg("Code");
        vm.clear(self.ctx, cs);
        let mut cells: Vec<U256> = code.iter().map(|b| U256::from(*b)).collect();
        cells.extend(vec![U256::zero(); 33]);
        vm.set_cells(self.ctx, cs, &cells);
        let mut st = vm.stack();
        *st.last_mut().unwrap() = code.len().into();
        vm.set_stack(&st);
        let f = names().txn["TXN_FIELD_INTRINSIC_GAS"];
        vm.set(0, seg("TxnFields"), f, (self.batch.txs[0].gas - gas).into());
        let c0 = vm.clock();
        let mut rows = vec![];
        let stop = user_rows(vm, &self.halts, 30_000_000, &mut rows);
        let o = match (&want, &full) {
            (Some(o), _) => o,
            (_, Some(e)) => &e.outcomes[0],
            _ => unreachable!(),
        };
        let mut bad = compare_rows(&rows, o.trace.as_ref().unwrap());
        if bad.is_none() {
            match &stop {
                Stop::Halted(_) => {
                    let s = vm.stack();
                    let (ok, left) = (s[s.len() - 1], s[s.len() - 2]);
                    let used = U256::from(self.batch.txs[0].gas) - left;
                    if ok != U256::from(o.status as u8) || used != U256::from(o.gas) {
                        bad = Some(format!("the transaction ends with status {ok} and {used} gas used, expected {} and {}", o.status as u8, o.gas));
                    }
                }
                s => bad = Some(place(vm, s)),
            }
        } else if !matches!(stop, Stop::Halted(_)) {
            bad = Some(format!("{}; {}", bad.unwrap(), place(vm, &stop)));
        }
        if let (None, Some(e)) = (&bad, &full) {
            for (n, v) in [
                ("StateTrieRootDigestAfter", h2u(e.roots.state_root)),
                ("TransactionTrieRootDigestAfter", h2u(e.roots.transactions_root)),
                ("ReceiptTrieRootDigestAfter", h2u(e.roots.receipts_root)),
                ("BlockGasUsedAfter", e.gas_after.into()),
            ] {
                set_global(vm, n, v);
            }
            let s = vm.run(&self.halts[1..], 30_000_000);
            if !matches!(s, Stop::Halted(_)) {
                bad = Some(format!("the final state, receipts or gas differ: {}", place(vm, &s)));
            }
        }
        ck.transition((vm.clock() - c0) as u64);
        ck.state(&(code.to_vec(), gas));
        if let Some(b) = bad {
            ck.violate(key, format!("{key}: {} code {} with {gas} gas: {b}", what(), hex(code)));
        }
        Some(match (want, full) {
            (Some(o), _) => o,
            (_, Some(mut e)) => e.outcomes.remove(0),
            _ => unreachable!(),
        })
    }
    pub fn vm(&self) -> &Vm {
        &self.vm
    }
}
pub fn hex(b: &[u8]) -> String {
    if b.len() > 400 {
        return format!("{}… ({} bytes)", hex(&b[..200]), b.len());
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}
