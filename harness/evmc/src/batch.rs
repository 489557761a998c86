//! Batches of transactions for the kernel, with the reference's results.
use std::collections::{BTreeMap, HashMap};

use evm_arithmetization::generation::{GenerationInputs, TrieInputs};
use evm_arithmetization::proof::{BlockHashes, BlockMetadata, TrieRoots};
use evm_arithmetization::verif_hooks::vm::{self, Stop, Vm};
use evm_arithmetization::EMPTY_CONSOLIDATED_BLOCKHASH;
use mpt_trie::nibbles::Nibbles;
use mpt_trie::partial_trie::{HashedPartialTrie, Node, PartialTrie};
use plonky2::field::goldilocks_field::GoldilocksField;
use plonky2::field::types::Field;
use vc::{keccak, rlp, H160, H256, U256};

use crate::common::*;
use crate::refevm::*;

pub type F = GoldilocksField;

#[derive(Clone, Default)]
pub struct Batch {
    pub world: World,
    pub block: Block,
    /// The transactions of the block before these, and their receipts.
    pub earlier: Vec<(Vec<u8>, Vec<u8>)>,
    pub gas_before: u64,
    pub txs: Vec<Tx>,
    pub withdrawals: Vec<(Addr, U256)>,
    /// Transactions encoded otherwise than `Tx::encode` does.
    pub raw: Option<Vec<Vec<u8>>>,
    pub tweak: Tweak,
    /// Hash out what the batch does not need of the transactions and receipts
    /// before it.
    pub prune: bool,
}
pub struct Expect {
    pub world: World,
    pub txns: Vec<Vec<u8>>,
    pub receipts: Vec<Vec<u8>>,
    pub gas_after: u64,
    pub outcomes: Vec<Outcome>,
    pub roots: TrieRoots,
}

pub fn addr20(tag: u8, n: u64) -> Addr {
    let mut a = [tag; 20];
    a[12..].copy_from_slice(&n.to_be_bytes());
    H160(a)
}
pub fn beacon_addr() -> Addr {
    H160(hex20("000F3df6D732807Ef1319fB7B8bB8522d0Beac02"))
}
fn hex20(s: &str) -> [u8; 20] {
    std::array::from_fn(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
}
/// Anything will do as the code of the beacon roots contract; the kernel
/// writes its storage itself at the start of a block.
pub fn beacon_code() -> Vec<u8> {
    let s = "3373fffffffffffffffffffffffffffffffffffffffe14604d57602036146024575f5ffd5b5f35801560495762001fff810690815414603c575f5ffd5b62001fff01545f5260205ff35b5f5ffd5b62001fff42064281555f359062001fff015500";
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn base_world() -> World {
    let mut w = World::new();
    w.insert(beacon_addr(), Acct { nonce: 1, code: beacon_code(), ..Acct::default() });
    w
}
pub fn base_block() -> Block {
    Block {
        coinbase: addr20(0xcb, 1),
        timestamp: 1000.into(),
        number: 300.into(),
        random: (U256::from(0x77u64) << 240) + 9,
        gas_limit: 30_000_000.into(),
        chain_id: 1.into(),
        base_fee: 10.into(),
        excess_blob_gas: 0,
        beacon_root: H256::zero(),
        prev_hashes: (0..256).map(|i| keccak(&[i as u8, 7])).collect(),
    }
}
fn nib(k: H256) -> Nibbles {
    Nibbles::from_bytes_be(k.as_bytes()).unwrap()
}
pub fn state_trie(w: &World) -> HashedPartialTrie {
    let mut t = HashedPartialTrie::from(Node::Empty);
    for (a, x) in w {
        t.insert(nib(keccak(a.as_bytes())), account_rlp(x)).unwrap();
    }
    t
}
pub fn storage_trie(s: &BTreeMap<U256, U256>) -> HashedPartialTrie {
    let mut t = HashedPartialTrie::from(Node::Empty);
    for (k, v) in s {
        t.insert(nib(keccak(&be(*k))), rlp::u256(*v)).unwrap();
    }
    t
}
fn index_trie(items: &[Vec<u8>]) -> HashedPartialTrie {
    let mut t = HashedPartialTrie::from(Node::Empty);
    for (i, v) in items.iter().enumerate() {
        t.insert(Nibbles::from_bytes_be(&rlp::uint(i as u64)).unwrap(), v.clone()).unwrap();
    }
    t
}

impl Batch {
    pub fn raw_txns(&self) -> Vec<Vec<u8>> {
        self.raw.clone().unwrap_or_else(|| self.txs.iter().map(|t| t.encode()).collect())
    }
    pub fn expect(&self, trace: bool) -> Expect {
        let mut w = self.world.clone();
        let mut txns: Vec<Vec<u8>> = self.earlier.iter().map(|x| x.0.clone()).collect();
        let mut receipts: Vec<Vec<u8>> = self.earlier.iter().map(|x| x.1.clone()).collect();
        let mut gas = self.gas_before;
        if self.earlier.is_empty() {
            let a = w.get_mut(&beacon_addr()).unwrap();
            let i = self.block.timestamp % 8191;
            for (k, v) in [(i, self.block.timestamp), (i + 8191, h2u(self.block.beacon_root))] {
                if v.is_zero() {
                    a.storage.remove(&k);
                } else {
                    a.storage.insert(k, v);
                }
            }
        }
        let mut outcomes = vec![];
        for (t, raw) in self.txs.iter().zip(self.raw_txns()) {
            let o = transact(&w, &self.block, t, trace, &self.tweak);
            w = o.world.clone();
            gas += o.gas;
            receipts.push(receipt(t.ty, o.status, gas, &o.logs));
            txns.push(raw);
            outcomes.push(o);
        }
        for (a, v) in &self.withdrawals {
            if !v.is_zero() {
                w.entry(*a).or_default().balance += *v;
            }
        }
        let roots = TrieRoots { state_root: state_root(&w), transactions_root: index_root(&txns), receipts_root: index_root(&receipts) };
        Expect { world: w, txns, receipts, gas_after: gas, outcomes, roots }
    }
    /// Runs the whole batch in step with the reference; the kernel must reach
    /// its end, where it has checked the results claimed.
    pub fn check(&self, ck: &vc::Check, key: &str) -> Option<(Vm, Expect)> {
        ck.state(&(self.raw_txns(), &self.withdrawals, self.earlier.len(), &self.world.values().map(|a| (a.code.clone(), a.balance, a.nonce)).collect::<Vec<_>>()));
        let r = vc::catch(|| {
            let e = self.expect(true);
            let mut vm = start(self, &e);
            let mut rows = vec![];
            let stop = user_rows(&mut vm, &[label("halt")], 200_000_000, &mut rows);
            ck.transition(vm.clock() as u64);
            let want: Vec<Row> = e.outcomes.iter().flat_map(|o| o.trace.clone().unwrap()).collect();
            let mut bad = compare_rows(&rows, &want);
            if !matches!(stop, Stop::Halted(_)) {
                bad = Some(format!("{}{}", bad.map_or(String::new(), |b| b + "; "), place(&vm, &stop)));
            }
            (vm, e, bad)
        });
        match r {
            Ok((vm, e, None)) => Some((vm, e)),
            Ok((_, _, Some(bad))) => {
                ck.violate(key, format!("{key}: {}: {bad}", self.describe()));
                None
            }
            Err(p) => {
                ck.violate(key, format!("{key}: {}: panic: {p}", self.describe()));
                None
            }
        }
    }
    pub fn describe(&self) -> String {
        let cut = |s: String| if s.len() > 700 { format!("{}…", s.chars().take(700).collect::<String>()) } else { s };
        let txs: Vec<String> = self.txs.iter().map(|t| cut(format!("{:?} data {} bytes: {}", Tx { data: vec![], ..t.clone() }, t.data.len(), crate::prog::hex(&t.data)))).collect();
        format!("transactions [{}], {} earlier, withdrawals {:?}", txs.join("; "), self.earlier.len(), self.withdrawals)
    }
    pub fn metadata(&self) -> BlockMetadata {
        let b = &self.block;
        BlockMetadata {
            block_beneficiary: b.coinbase,
            block_timestamp: b.timestamp,
            block_number: b.number,
            block_difficulty: U256::zero(),
            block_random: H256(be(b.random)),
            block_gaslimit: b.gas_limit,
            block_chain_id: b.chain_id,
            block_base_fee: b.base_fee,
            block_gas_used: U256::zero(),
            block_blob_gas_used: U256::zero(),
            block_excess_blob_gas: b.excess_blob_gas.into(),
            parent_beacon_block_root: b.beacon_root,
            block_bloom: [U256::zero(); 8],
        }
    }
    /// The tries of the state before, complete.
    pub fn tries(&self) -> TrieInputs {
        let cut = |t: HashedPartialTrie| {
            if !self.prune {
                return t;
            }
            let keys = (self.earlier.len()..self.earlier.len() + self.txs.len()).map(|i| Nibbles::from_bytes_be(&rlp::uint(i as u64)).unwrap());
            mpt_trie::trie_subsets::create_trie_subset(&t, keys).unwrap()
        };
        TrieInputs {
            state_trie: state_trie(&self.world),
            transactions_trie: cut(index_trie(&self.earlier.iter().map(|x| x.0.clone()).collect::<Vec<_>>())),
            receipts_trie: cut(index_trie(&self.earlier.iter().map(|x| x.1.clone()).collect::<Vec<_>>())),
            storage_tries: self.world.iter().map(|(a, x)| (keccak(a.as_bytes()), storage_trie(&x.storage))).collect(),
        }
    }
    pub fn inputs(&self, e: &Expect) -> GenerationInputs<F> {
        let mut code: HashMap<H256, Vec<u8>> = self.world.values().map(|a| (keccak(&a.code), a.code.clone())).collect();
        code.insert(keccak(&[]), vec![]);
        code.extend(e.outcomes.iter().flat_map(|o| &o.codes).map(|c| (keccak(c), c.clone())));
        GenerationInputs {
            txn_number_before: self.earlier.len().into(),
            gas_used_before: self.gas_before.into(),
            gas_used_after: e.gas_after.into(),
            signed_txns: self.raw_txns(),
            burn_addr: None,
            withdrawals: self.withdrawals.clone(),
            tries: self.tries(),
            trie_roots_after: e.roots.clone(),
            checkpoint_state_trie_root: HashedPartialTrie::from(Node::Empty).hash(),
            checkpoint_consolidated_hash: EMPTY_CONSOLIDATED_BLOCKHASH.map(F::from_canonical_u64),
            contract_code: code,
            block_metadata: self.metadata(),
            block_hashes: BlockHashes { prev_hashes: self.block.prev_hashes.clone(), cur_hash: keccak(b"current") },
            ger_data: None,
        }
    }
}

pub fn machine(i: &GenerationInputs<F>) -> Vm {
    Vm::new_with_inputs(label("main"), vec![], i)
}
pub fn start(b: &Batch, e: &Expect) -> Vm {
    machine(&b.inputs(e))
}
/// Running an empty code is no execution.
fn runs_no_code(vm: &Vm, ctx: usize) -> bool {
    vm.get(ctx, seg("ContextMetadata"), names().ctx["CodeSize"]).is_zero()
}
/// What the machine shows before each instruction of user code.
pub fn user_rows(vm: &mut Vm, halts: &[usize], max: usize, rows: &mut Vec<Row>) -> Stop {
    for _ in 0..max {
        let r = vm.regs();
        if r.is_kernel {
            if halts.contains(&r.pc) {
                return Stop::Halted(r.pc);
            }
        } else if r.pc > 0 || r.stack_len > 0 || !runs_no_code(vm, r.context) {
            rows.push(Row { pc: r.pc, gas: r.gas_used, len: r.stack_len, top: if r.stack_len > 0 { r.stack_top } else { U256::zero() }, depth: 0 });
        }
        if let Err(e) = vm.step() {
            return Stop::Failed(e);
        }
    }
    Stop::OutOfSteps
}
/// Compares what user code was seen to do with the reference.
pub fn compare_rows(got: &[Row], want: &[Row]) -> Option<String> {
    for i in 0..got.len().max(want.len()) {
        let (g, w) = (got.get(i), want.get(i));
        let same = match (g, w) {
            (Some(g), Some(w)) => (g.pc, g.gas, g.len, g.top) == (w.pc, w.gas, w.len, w.top),
            _ => false,
        };
        if !same {
            return Some(format!("instruction {i} executed: {} but the reference has {}", g.map_or("none".into(), row), w.map_or("none".into(), row)));
        }
    }
    None
}
fn row(r: &Row) -> String {
    format!("[offset {}, gas used {}, {} items on the stack, top {:#x}]", r.pc, r.gas, r.len, r.top)
}
/// Where and why a run ended, for messages.
pub fn place(vm: &Vm, s: &Stop) -> String {
    let r = vm.regs();
    let at = if r.is_kernel { vm::offset_name(r.pc) } else { format!("user code {}", r.pc) };
    match s {
        Stop::Failed(e) => format!("the machine failed at {at}: {e}"),
        Stop::OutOfSteps => format!("still running at {at}"),
        Stop::Halted(_) => format!("halted at {at}"),
    }
}
