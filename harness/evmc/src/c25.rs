//! C25: the prover's advice cannot change the outcome. Wherever the kernel
//! asks for advice every answer of a set is given; it must refuse, or end as
//! it does with the honest answer.
use std::collections::{BTreeMap, BTreeSet};

use evm_arithmetization::verif_hooks::vm::{self, Stop, Vm};
use vc::rayon::prelude::*;
use vc::{json, Check, U256};

use crate::batch::*;
use crate::common::*;

pub const PROVER_INPUT: u8 = 0xee;

/// Whether the machine is about to ask for advice.
fn asks(vm: &Vm) -> bool {
    let r = vm.regs();
    r.is_kernel && vm::kernel_code().get(r.pc) == Some(&PROVER_INPUT)
}
/// Whether the machine is about to write, or hash, so far that no memory
/// table could hold it: the prover cannot go on.
fn beyond(vm: &Vm) -> bool {
    let r = vm.regs();
    let Some(op) = vm::kernel_code().get(r.pc).filter(|_| r.is_kernel) else { return false };
    if !matches!(op, 0xfc | 0xc0..=0xdf | 0xf7 | 0x21) {
        return false;
    }
    let s = vm.stack();
    let n = s.len();
    let far = |a: U256| a.low_u64() & 0xffff_ffff > 1 << 21 || a >> 64 > U256::from(4000);
    match op {
        0xfc => n > 1 && far(s[n - 2]),
        0x21 => n > 1 && s[n - 2] > U256::from(1 << 21),
        _ => n > 0 && far(s[n - 1]),
    }
}
/// Answers in place of the prover.
fn answer(vm: &mut Vm, v: U256) {
    let pc = vm.regs().pc;
    let mut s = vm.stack();
    s.push(v);
    vm.set_stack(&s);
    vm.set_pc(pc + 1);
}
/// Runs with every question answered by `f`.
fn run_advised(vm: &mut Vm, halts: &[usize], max: usize, mut f: impl FnMut(&Vm) -> U256) -> Stop {
    for _ in 0..max {
        let r = vm.regs();
        if r.is_kernel && halts.contains(&r.pc) {
            return Stop::Halted(r.pc);
        }
        if beyond(vm) {
            return Stop::OutOfSteps;
        }
        if asks(vm) {
            let v = f(vm);
            answer(vm, v);
            continue;
        }
        if let Err(e) = vm.step() {
            return Stop::Failed(e);
        }
    }
    Stop::OutOfSteps
}
/// Calls a routine, answering with `advice` in turn (then zero); gives the
/// stack above `below`, top first, or nothing if the routine refuses.
fn advised(vm: &mut Vm, name: &str, args: &[U256], advice: &[U256]) -> Option<Vec<U256>> {
    let below = [U256::from(0x1234567), U256::MAX];
    let mut st = below.to_vec();
    st.push(HALT.into());
    st.extend(args.iter().rev());
    vm.set_stack(&st);
    vm.set_pc(label(name));
    vm.set_kernel(true);
    let mut it = advice.iter().copied();
    // Writing what a segment cannot hold makes the memory panic: no proof then.
    let r = vc::catch(std::panic::AssertUnwindSafe(|| run_advised(vm, &[HALT], 20_000, |_| it.next().unwrap_or_default())));
    if !matches!(r.unwrap_or_else(Stop::Failed), Stop::Halted(_)) {
        return None;
    }
    let s = vm.stack();
    if s.len() < below.len() || s[..below.len()] != below {
        return Some(vec![U256::MAX; 9]);
    }
    let mut r = s[below.len()..].to_vec();
    r.reverse();
    Some(r)
}

// ------------------------------------------------------------ sorted lists

/// A sorted list whose operations take the predecessor as advice.
struct Kind {
    name: &'static str,
    segment: &'static str,
    len: &'static str,
    /// Cells per node, words of the key, cell of the pointer to the next.
    size: usize,
    keys: usize,
    next: usize,
    /// Whether advice and pointers are relative to the segment.
    relative: bool,
    universe: Vec<Vec<u64>>,
}
fn kinds() -> Vec<Kind> {
    let one: Vec<Vec<u64>> = [5, 10, 15, 20, 25, 30, 35].iter().map(|x| vec![*x]).collect();
    let two: Vec<Vec<u64>> = [(5, 20), (10, 5), (10, 10), (10, 15), (10, 20), (15, 1), (15, 12), (20, 10), (20, 20), (25, 3)].iter().map(|(a, b)| vec![*a, *b]).collect();
    vec![
        Kind { name: "accounts", segment: "AccountsLinkedList", len: "AccountsLinkedListNextAvailable", size: 4, keys: 1, next: 3, relative: false, universe: one.clone() },
        Kind { name: "slots", segment: "StorageLinkedList", len: "StorageLinkedListNextAvailable", size: 5, keys: 2, next: 4, relative: true, universe: two.clone() },
        Kind { name: "accessed addresses", segment: "AccessedAddresses", len: "AccessedAddressesLen", size: 2, keys: 1, next: 1, relative: false, universe: one },
        Kind { name: "accessed slots", segment: "AccessedStorageKeys", len: "AccessedStorageKeysLen", size: 4, keys: 2, next: 3, relative: false, universe: two },
    ]
}
/// A list as it lies in memory: nodes in the order of their insertion, with
/// the next node, or none if the node was removed. Node 0 is the head.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct List {
    nodes: Vec<(Vec<u64>, Option<usize>)>,
}
impl List {
    fn new() -> Self {
        List { nodes: vec![(vec![], Some(0))] }
    }
    fn order(&self) -> Vec<usize> {
        let mut v = vec![];
        let mut i = self.nodes[0].1.unwrap();
        while i != 0 {
            v.push(i);
            i = self.nodes[i].1.unwrap();
        }
        v
    }
    fn pred(&self, k: &[u64]) -> usize {
        self.order().into_iter().take_while(|i| self.nodes[*i].0.as_slice() < k).last().unwrap_or(0)
    }
    fn find(&self, k: &[u64]) -> Option<usize> {
        self.order().into_iter().find(|i| self.nodes[*i].0 == k)
    }
    fn insert(&mut self, k: &[u64]) {
        let p = self.pred(k);
        let n = self.nodes.len();
        self.nodes.push((k.to_vec(), self.nodes[p].1));
        self.nodes[p].1 = Some(n);
    }
    fn remove(&mut self, k: &[u64]) {
        let i = self.find(k).unwrap();
        let p = self.pred(k);
        self.nodes[p].1 = self.nodes[i].1;
        self.nodes[i].1 = None;
    }
}
/// All lists that `n` insertions and removals over every other key can make.
fn lists(k: &Kind, n: usize) -> Vec<List> {
    let mut seen: BTreeSet<List> = [List::new()].into();
    let mut front = vec![List::new()];
    for _ in 0..n {
        let mut next = vec![];
        for l in front {
            for key in k.universe.iter().skip(1).step_by(2) {
                let mut m = l.clone();
                if m.find(key).is_some() {
                    m.remove(key);
                } else {
                    m.insert(key);
                }
                if seen.insert(m.clone()) {
                    next.push(m);
                }
            }
        }
        front = next;
    }
    seen.into_iter().collect()
}
fn value_of(key: &[u64]) -> U256 {
    U256::from(key.iter().fold(7000, |a, x| a * 100 + x))
}
const PAYLOAD: usize = 1000;

impl Kind {
    fn base(&self) -> U256 {
        addr(self.segment, 0)
    }
    fn write(&self, vm: &mut Vm, l: &List) {
        let s = seg(self.segment);
        vm.clear(0, s);
        for (i, (k, n)) in l.nodes.iter().enumerate() {
            let at = i * self.size;
            for j in 0..self.keys {
                let v = if i == 0 { U256::MAX } else { U256::from(k[j]) };
                if i > 0 || j == 0 {
                    vm.set(0, s, at + j, v);
                }
            }
            vm.set(0, s, at + self.next, n.map_or(U256::MAX, |n| self.base() + n * self.size));
            if i > 0 {
                match self.name {
                    "accounts" => {
                        vm.set(0, s, at + 1, U256::from(PAYLOAD + 4 * i));
                        vm.set(0, s, at + 2, U256::from(PAYLOAD + 400 + 4 * i));
                    }
                    "slots" => {
                        vm.set(0, s, at + 2, value_of(k));
                        vm.set(0, s, at + 3, value_of(k) + 1);
                    }
                    "accessed slots" => vm.set(0, s, at + 2, value_of(k)),
                    _ => {}
                }
            }
        }
        set_global(vm, self.len, self.base() + l.nodes.len() * self.size);
        for c in ["JournalLen", "JournalDataLen"] {
            set_global(vm, c, U256::zero());
        }
    }
    /// The list in memory, with the first data cell of each node.
    fn read(&self, vm: &Vm) -> Option<Vec<(Vec<U256>, U256)>> {
        let s = seg(self.segment);
        let mut v = vec![];
        let mut p = vm.get(0, s, self.next);
        for _ in 0..40 {
            let o = p.checked_sub(self.base())?;
            if o.is_zero() {
                return Some(v);
            }
            if o > U256::from(4000) {
                return None;
            }
            let at = o.as_usize();
            let data = if self.next > self.keys { vm.get(0, s, at + self.keys) } else { U256::zero() };
            v.push(((0..self.keys).map(|j| vm.get(0, s, at + j)).collect(), data));
            p = vm.get(0, s, at + self.next);
        }
        None
    }
    /// What a prover might answer.
    fn advice(&self, nodes: usize, planted: &[U256]) -> Vec<U256> {
        let mut v = vec![];
        let unit = U256::from(self.size);
        let start = if self.relative { U256::zero() } else { self.base() };
        let first = start / unit;
        for i in 0..nodes as u64 + 3 {
            v.push(first + i);
        }
        for p in planted {
            // The cell `p`, and cells near it, in units of a node.
            let q = if self.relative { p.overflowing_sub(self.base()).0 } else { *p };
            for d in 0..self.size as u64 {
                v.push((q + d) / unit);
                // With a wrap around 2^256.
                if self.relative {
                    let m = modinv(self.size as u64);
                    v.push((q + d).overflowing_mul(m).0);
                }
            }
        }
        for s in [0u64, 1, 2] {
            v.push(s.into());
            v.push(U256::MAX - s);
        }
        // Multiples that wrap to a node.
        for i in 0..nodes as u64 {
            let target = U256::from(i * self.size as u64) + start;
            let t = self.size.trailing_zeros();
            if t > 0 {
                v.push((target >> t) + (U256::one() << (256 - t)));
            }
        }
        v.sort();
        v.dedup();
        v
    }
}
/// The inverse of an odd number modulo 2^256.
fn modinv(x: u64) -> U256 {
    if x % 2 == 0 {
        return U256::one();
    }
    let x = U256::from(x);
    let mut y = x;
    for _ in 0..8 {
        y = y.overflowing_mul(U256::from(2).overflowing_sub(x.overflowing_mul(y).0).0).0;
    }
    y
}

/// What an operation must leave: the stack, and the keys with their data.
type After = (Vec<U256>, Vec<(Vec<U256>, Option<U256>)>);

fn list_family(ck: &Check, th: bool) {
    let kinds = kinds();
    let mut jobs = vec![];
    for (ki, k) in kinds.iter().enumerate() {
        for l in lists(k, if th { 3 } else { 2 }) {
            jobs.push((ki, l));
        }
    }
    let done: Vec<BTreeMap<String, usize>> = jobs
        .par_iter()
        .map(|(ki, l)| {
            let k = &kinds[*ki];
            let mut took = BTreeMap::new();
            if ck.stopped() {
                return took;
            }
            ck.state(&(k.name, l));
            with_vm(|vm| {
                vm.set_context(0);
                plant(vm);
                for op in operations(k) {
                    for key in &k.universe {
                        list_case(ck, k, l, op, key, vm, &mut took);
                    }
                }
            });
            took
        })
        .collect();
    let mut all: BTreeMap<String, usize> = BTreeMap::new();
    for d in done {
        for (k, n) in d {
            *all.entry(k).or_default() += n;
        }
    }
    ck.note("list operations accepted", json!(all));
}
fn operations(k: &Kind) -> &'static [&'static str] {
    match k.name {
        "accounts" => &["insert_account_with_overwrite", "search_account", "remove_account"],
        "slots" => &["insert_slot_with_value", "insert_slot", "search_slot", "remove_slot", "remove_all_account_slots"],
        "accessed addresses" => &["insert_accessed_addresses", "remove_accessed_addresses"],
        _ => &["insert_accessed_storage_keys", "remove_accessed_storage_keys"],
    }
}
/// Cells elsewhere which look like nodes: key words as an attacker may have
/// them in his own storage, balances or data.
const PLANTED: usize = 6000;
fn plant(vm: &mut Vm) {
    for s in ["TrieData", "KernelGeneral", "TransientStorage"] {
        let s = seg(s);
        for (i, w) in plants().iter().enumerate() {
            vm.set(0, s, PLANTED + i, *w);
        }
    }
    // Payloads of accounts.
    for i in 0..900 {
        vm.set(0, seg("TrieData"), PAYLOAD + i, U256::from(50_000 + i));
    }
    set_global(vm, "TrieDataSize", U256::from(5000));
}
fn plants() -> Vec<U256> {
    let mut v = vec![];
    for k in [5u64, 10, 15, 20, 25, 30, 35] {
        for j in [1u64, 5, 10, 12, 15, 20] {
            v.extend([k.into(), j.into(), U256::zero(), U256::zero(), U256::zero()]);
        }
    }
    // A node whose next is the head of each list.
    for s in ["AccountsLinkedList", "StorageLinkedList", "AccessedAddresses", "AccessedStorageKeys"] {
        v.extend([U256::one(), U256::one(), addr(s, 0), addr(s, 0), addr(s, 0), addr(s, 0)]);
    }
    v
}

fn list_case(ck: &Check, k: &Kind, l: &List, op: &'static str, key: &[u64], vm: &mut Vm, took: &mut BTreeMap<String, usize>) {
    let new_value = U256::from(990_000 + key[0]);
    let kw: Vec<U256> = key.iter().map(|x| U256::from(*x)).collect();
    let by_addr = op == "remove_all_account_slots";
    let mut args: Vec<U256> = if by_addr { kw[..1].to_vec() } else { kw.clone() };
    // What must come of it, if anything.
    let mut m = l.clone();
    let data_of = |i: usize| -> U256 {
        match k.name {
            "accounts" => U256::from(PAYLOAD + 4 * i),
            "slots" => value_of(&l.nodes[i].0),
            "accessed slots" => value_of(&l.nodes[i].0),
            _ => U256::zero(),
        }
    };
    let mut data: BTreeMap<Vec<u64>, U256> = l.order().into_iter().map(|i| (l.nodes[i].0.clone(), data_of(i))).collect();
    let there = l.find(key);
    let mut want: Option<Vec<U256>> = Some(vec![]);
    match op {
        "insert_account_with_overwrite" => {
            args.push(U256::from(PAYLOAD + 4));
            if there.is_none() {
                m.insert(key);
            }
            data.insert(key.to_vec(), U256::from(PAYLOAD + 4));
        }
        "search_account" => want = Some(vec![there.map_or(U256::zero(), data_of)]),
        "insert_slot_with_value" => {
            args.push(new_value);
            if there.is_none() {
                m.insert(key);
            }
            data.insert(key.to_vec(), new_value);
        }
        "insert_slot" => {
            args.push(new_value);
            want = Some(vec![there.map_or(new_value, data_of)]);
            if there.is_none() {
                m.insert(key);
            }
            data.insert(key.to_vec(), new_value);
        }
        "search_slot" => {
            args.push(new_value);
            want = Some(vec![there.map_or(new_value, data_of)]);
        }
        "remove_account" | "remove_slot" | "remove_accessed_addresses" | "remove_accessed_storage_keys" => match there {
            None => want = None,
            Some(_) => {
                m.remove(key);
                data.remove(key);
            }
        },
        "remove_all_account_slots" => {
            for i in l.order() {
                if l.nodes[i].0[0] == key[0] {
                    m.remove(&l.nodes[i].0);
                    data.remove(&l.nodes[i].0);
                }
            }
        }
        "insert_accessed_addresses" => {
            want = Some(vec![U256::from(there.is_none() as u8)]);
            if there.is_none() {
                m.insert(key);
                data.insert(key.to_vec(), U256::zero());
            }
        }
        "insert_accessed_storage_keys" => {
            let i = there.unwrap_or(l.nodes.len());
            want = Some(vec![U256::from(there.is_none() as u8), k.base() + i * k.size + 2]);
            if there.is_none() {
                m.insert(key);
                data.insert(key.to_vec(), U256::zero());
            }
        }
        _ => unreachable!(),
    }
    let after: Option<After> = want.map(|w| {
        let list = m.order().into_iter().map(|i| {
            let n = &m.nodes[i].0;
            (n.iter().map(|x| U256::from(*x)).collect(), data.get(n).copied())
        });
        (w, list.collect())
    });
    let planted: Vec<U256> = ["TrieData", "TransientStorage"].iter().flat_map(|s| (0..plants().len()).step_by(5).map(|i| addr(s, PLANTED + i))).collect();
    let mut accepted = 0;
    for h in k.advice(l.nodes.len(), &planted) {
        ck.eval(k.name);
        k.write(vm, l);
        let c0 = vm.clock();
        let r = advised(vm, op, &args, &[h]);
        ck.transition((vm.clock() - c0) as u64);
        let Some(st) = r else { continue };
        accepted += 1;
        let got = k.read(vm);
        let ok = match (&after, &got) {
            (Some((w, list)), Some(g)) => *w == st && list.len() == g.len() && list.iter().zip(g).all(|((a, x), (b, y))| a == b && x.map_or(true, |x| x == *y)),
            _ => false,
        };
        if !ok {
            ck.violate(&format!("{op}"), format!("{op} of {key:?} in the list {:?} (nodes {:?}) with the advice {h:#x} ends with the stack [{}] and the list {got:?}; honestly: {after:?}", l.order().iter().map(|i| &l.nodes[*i].0).collect::<Vec<_>>(), l.nodes, words(&st)));
        }
    }
    if after.is_some() && accepted == 0 {
        ck.violate(&format!("{op} refused"), format!("{op} of {key:?} in the list {:?}: no advice is accepted", l.nodes));
    }
    *took.entry(format!("{op}{}", if there.is_some() { " (present)" } else { "" })).or_default() += accepted;
}

// ------------------------------------------------------ numbers and fields

fn boundary_words() -> Vec<U256> {
    let mut v = vec![U256::zero(), U256::one(), U256::from(2), U256::MAX, U256::MAX - 1];
    for b in 1..256 {
        let x = U256::one() << b;
        v.extend([x - 1, x, x + 1]);
    }
    v.sort();
    v.dedup();
    v
}
fn bits_family(ck: &Check) {
    let ws = boundary_words();
    let hints: Vec<U256> = (0..=300u64).map(U256::from).chain([U256::MAX, U256::MAX - 1, U256::one() << 32, U256::one() << 255, (U256::one() << 32) + 7, (U256::one() << 64) + 8]).collect();
    ws.par_iter().for_each(|x| {
        ck.state(&("bits", *x));
        with_vm(|vm| {
            vm.set_context(0);
            let want = U256::from(x.bits().div_ceil(8).max(1));
            let mut n = 0;
            for h in &hints {
                ck.eval("lengths");
                if let Some(st) = advised(vm, "num_bytes", &[*x], &[*h]) {
                    n += 1;
                    if st != [want] {
                        ck.violate("num_bytes", format!("num_bytes of {x:#x} with the advice {h:#x} gives {st:?}"));
                    }
                }
            }
            if n == 0 {
                ck.violate("num_bytes refused", format!("num_bytes of {x:#x}: no advice is accepted"));
            }
        })
    });
}

// -------------------------------------------------------- whole executions

/// The routine asking, and where in it.
fn site(pc: usize) -> String {
    vm::offset_name(pc)
}
fn routine(pc: usize) -> String {
    let s = site(pc);
    s.rsplit(' ').next().unwrap_or(&s).to_string()
}
/// What is given to the prover to prove, rather than asked of him.
fn is_input(routine: &str) -> bool {
    ["read_rlp_to_memory", "txn_loop", "withdrawals"].iter().any(|r| routine.starts_with(r))
}
/// Whether the answer becomes an address, of which few may be tried (memory
/// is allocated up to the highest).
fn is_address(routine: &str) -> bool {
    ["main", "after_store_initial", "check_state_trie", "store_initial", "load_code", "jumpdest_analysis"].iter().any(|r| routine.starts_with(r))
}
fn moduli() -> Vec<U256> {
    [
        "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f",
        "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
        "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47",
    ]
    .iter()
    .map(|s| U256::from_str_radix(s, 16).unwrap())
    .collect()
}
/// What else might be answered in place of `h`, others having been answered
/// in the same place at other times.
fn others(routine: &str, h: U256, seen: &BTreeSet<U256>, few: usize) -> Vec<U256> {
    let mut v: Vec<U256> = vec![U256::zero(), U256::one(), h.overflowing_add(1.into()).0, h.saturating_sub(1.into()), h.overflowing_add(2.into()).0, h.saturating_sub(2.into())];
    // Those next to it, up to a number.
    v.extend(seen.range(..h).rev().take(few));
    v.extend(seen.range(h..).skip(1).take(few));
    if is_address(routine) {
        v.extend([U256::from(4), U256::from(1000), U256::one() << 32, U256::one() << 64].map(|d| h.overflowing_add(d).0));
    } else {
        v.extend([U256::MAX, h ^ (U256::one() << 255), h.overflowing_add(U256::one() << 128).0, h.overflowing_add(U256::one() << 254).0, !h]);
        for m in moduli() {
            v.push(h.overflowing_add(m).0);
            v.push(m.overflowing_sub(h).0);
        }
    }
    v.retain(|x| *x != h);
    v.sort();
    v.dedup();
    v
}
/// A question: the machine before it, and the answers there may be.
struct Question {
    pc: usize,
    before: vm::Snapshot,
    honest: U256,
}
enum End {
    Refused,
    Same,
    Unfinished,
    Differs(String),
}
/// Runs honestly, then with each answer changed in every way. `end` says what
/// became of a run, given where it was before it stopped.
fn alter_all(ck: &Check, family: &str, name: &str, vm: Vm, halts: &[usize], few: usize, stride: usize, end: impl Fn(&Vm, &Stop, Option<usize>) -> End + Sync) {
    let mut vm = vm;
    let mut qs = vec![];
    let mut seen: BTreeMap<usize, BTreeSet<U256>> = BTreeMap::new();
    let c0 = vm.clock();
    let stop = loop {
        let r = vm.regs();
        if r.is_kernel && halts.contains(&r.pc) {
            break Stop::Halted(r.pc);
        }
        let q = (asks(&vm) && !is_input(&routine(r.pc))).then(|| vm.save());
        if let Err(e) = vm.step() {
            break Stop::Failed(e);
        }
        if let Some(before) = q {
            let honest = *vm.stack().last().unwrap();
            seen.entry(r.pc).or_default().insert(honest);
            qs.push(Question { pc: r.pc, before, honest });
        }
    };
    let steps = vm.clock() - c0;
    ck.transition(steps as u64);
    ck.trace();
    if !matches!(end(&vm, &stop, None), End::Same) {
        ck.violate(&format!("{family}: honest"), format!("{name}: honestly: {}", place(&vm, &stop)));
        return;
    }
    let counts: Vec<[usize; 3]> = qs
        .par_iter()
        .enumerate()
        .map(|(n, q)| {
            let mut c = [0; 3];
            if n % stride != 0 {
                return c;
            }
            let who = routine(q.pc);
            for x in others(&who, q.honest, &seen[&q.pc], few) {
                if ck.stopped() {
                    return c;
                }
                ck.eval(family);
                ck.state(&(name, n, x));
                let r = vc::catch(std::panic::AssertUnwindSafe(|| {
                    with_vm(|vm| {
                        vm.load(&q.before);
                        let c0 = vm.clock();
                        if vm.step().is_err() {
                            return End::Refused;
                        }
                        let mut s = vm.stack();
                        *s.last_mut().unwrap() = x;
                        vm.set_stack(&s);
                        let (stop, lied) = to_end(vm, halts, 2 * steps + 50_000);
                        ck.transition((vm.clock() - c0) as u64);
                        end(vm, &stop, lied)
                    })
                }));
                match r {
                    // A prover that panics proves nothing.
                    Err(_) | Ok(End::Refused) => c[0] += 1,
                    Ok(End::Same) => c[1] += 1,
                    Ok(End::Unfinished) => c[2] += 1,
                    Ok(End::Differs(w)) => ck.violate(&format!("{family}: {who}"), format!("{name}: answering {x:#x} instead of {:#x} at {} (question {n}): {w}", q.honest, site(q.pc))),
                }
            }
            c
        })
        .collect();
    let t = counts.iter().fold([0; 3], |a, c| [a[0] + c[0], a[1] + c[1], a[2] + c[2]]);
    ck.note(&format!("{family}: {name}"), json!({"questions": qs.len(), "steps": steps, "refused": t[0], "accepted, same": t[1], "unfinished": t[2]}));
}
/// Runs to the end of a batch. Where a result is compared with what is claimed
/// and differs, goes on as if the claim had been another; says where that was.
fn to_end(vm: &mut Vm, halts: &[usize], max: usize) -> (Stop, Option<usize>) {
    let panic = label("panic");
    let claims = claims();
    let (mut last, mut lied) = (0, None);
    for _ in 0..max {
        let r = vm.regs();
        if r.is_kernel {
            if halts.contains(&r.pc) {
                return (Stop::Halted(r.pc), lied);
            }
            if r.pc == panic {
                if !claims.iter().any(|(a, b)| (*a..*b).contains(&last)) {
                    return (Stop::Failed("panic".into()), lied);
                }
                lied.get_or_insert(last);
                // After the jump.
                vm.set_pc(last + 1);
            }
        }
        last = vm.regs().pc;
        if beyond(vm) {
            break;
        }
        if let Err(e) = vm.step() {
            return (Stop::Failed(e), lied);
        }
    }
    (Stop::OutOfSteps, lied)
}
/// Where the kernel compares what it found with what is claimed.
fn claims() -> Vec<(usize, usize)> {
    vec![(label("perform_final_checks"), label("check_state_trie")), (label("check_final_state_trie"), label("check_final_state_trie") + 100)]
}
fn batch_end(_: &Vm, s: &Stop, lied: Option<usize>) -> End {
    match (s, lied) {
        (Stop::Halted(_), None) => End::Same,
        (Stop::Halted(_), Some(at)) => End::Differs(format!("the execution is accepted with other results (first at {})", site(at))),
        (Stop::OutOfSteps, _) => End::Unfinished,
        (Stop::Failed(_), _) => End::Refused,
    }
}
fn batches(th: bool) -> Vec<(&'static str, Batch)> {
    use crate::asm::*;
    use crate::c13;
    let mut v: Vec<(&str, Batch)> = vec![];
    let one = |name, t: crate::refevm::Tx| (name, c13::batch(vec![t]));
    let with = |name, code: Code| {
        let mut b = c13::batch(vec![c13::tx(1, Some(c13::contract(9)))]);
        b.world.insert(c13::contract(9), crate::refevm::Acct { nonce: 1, balance: 90.into(), code: code.0, ..Default::default() });
        (name, b)
    };
    let mut t = c13::with_type(c13::tx(1, Some(c13::eoa(9))), 0);
    t.value = 7.into();
    v.push(one("payment", t));
    let mut t = c13::tx(1, Some(c13::contract(1)));
    t.access = vec![(c13::contract(1), vec![1.into(), 3.into()]), (c13::eoa(9), vec![])];
    v.push(one("writes", t.clone()));
    v.push(one("blobs", c13::with_type(t, 4)));
    v.push(one("revert", c13::tx(1, Some(c13::contract(2)))));
    v.push(one("destruction", c13::tx(1, Some(c13::contract(4)))));
    let mut t = c13::tx(1, None);
    t.data = c13::init_codes()[2].0.clone();
    v.push(one("creation", t));
    let mut x = c13::batch(vec![]);
    x.withdrawals = vec![(c13::eoa(9), 9.into()), (c13::eoa(1), 3.into())];
    v.push(("withdrawals", x));
    // A jump to a valid destination, and to one which is not.
    v.push(with("jump", Code::new().p(6).o(0x56).o(STOP).o(STOP).o(STOP).o(JUMPDEST).sstore(1, 1)));
    v.push(with("reads", reads()));
    // Slots that come and go.
    v.push(with("slots", Code::new().sstore(1, 5).sstore(2, 6).sstore(1, 0).sstore(3, 7).sstore(2, 8)));
    for (name, a, data) in precompile_inputs(th) {
        let c = Code::new().mem(0, &data).p(96).p(512).p(data.len()).p(0).p(a).os(&[GAS, 0xfa]).p(1).os(&[ADD]).p(1).o(SSTORE);
        let c = c.p(512).o(0x51).p(2).o(SSTORE).p(544).o(0x51).p(3).o(SSTORE);
        v.push(with(name, c));
    }
    v.push(with("bad jump", Code::new().p(4).o(0x56).p(0x5b).o(STOP)));
    v
}
/// What contract 9 reads of others.
fn reads() -> crate::asm::Code {
    use crate::asm::*;
    use crate::c13;
    Code::new().p(c13::eoa(1)).o(0x31).p(6).o(SSTORE).p(c13::contract(1)).o(0x3f).p(7).o(SSTORE).p(3).o(SLOAD).p(8).o(SSTORE)
}
fn precompile_inputs(th: bool) -> Vec<(&'static str, u64, Vec<u8>)> {
    let w = |xs: &[U256]| xs.iter().flat_map(|x| crate::refevm::be(*x)).collect::<Vec<u8>>();
    let u = |x: u64| U256::from(x);
    let t = crate::c13::tx(1, None);
    let (odd, r, s) = t.sign();
    let h = crate::refevm::h2u(t.signing_hash());
    let n = moduli()[1];
    let p = moduli()[2];
    let minus = p - 2;
    let mut v = vec![
        ("ecrecover", 1, w(&[h, u(27 + odd as u64), r, s])),
        // No point has 5 for its first coordinate.
        ("ecrecover, no point", 1, w(&[h, u(27), u(5), s])),
        ("ecrecover, s = n", 1, w(&[h, u(27), r, n])),
        ("modexp, 1 byte", 5, [w(&[u(1), u(1), u(1)]), vec![7, 5, 11]].concat()),
        ("modexp, 17 bytes", 5, [w(&[u(17), u(1), u(17)]), vec![0xfe; 17], vec![3], vec![0xfd; 17]].concat()),
        ("modexp, modulus 0", 5, [w(&[u(1), u(1), u(1)]), vec![7, 5, 0]].concat()),
        ("bn_add, same", 6, w(&[u(1), u(2), u(1), u(2)])),
        ("bn_add, opposite", 6, w(&[u(1), u(2), u(1), minus])),
        ("bn_mul", 7, w(&[u(1), u(2), u(6)])),
    ];
    if th {
        v.push(("modexp, 40 bytes", 5, [w(&[u(40), u(1), u(40)]), vec![0xfe; 40], vec![5], vec![0xfd; 40]].concat()));
        v.push(("bn_mul, large", 7, w(&[u(1), u(2), U256::MAX])));
    }
    v
}
fn executions(ck: &Check, th: bool) {
    for (name, b) in batches(th) {
        if ck.stopped() {
            return;
        }
        let t = ck.elapsed();
        let e = b.expect(false);
        alter_all(ck, "batch", name, start(&b, &e), &[label("halt")], if th { 40 } else { 3 }, 1, batch_end);
        eprintln!("  {name} {:.1} s", (ck.elapsed() - t).as_secs_f64());
    }
}

// -------------------------------------------------- what memory begins with

/// Parts of the state which the prover does not show.
fn hidden(ck: &Check) {
    use crate::asm::*;
    use crate::c13;
    let with = |code: Code| {
        let mut b = c13::batch(vec![c13::tx(1, Some(c13::contract(9)))]);
        let storage = [(1u64, 5u64), (2, 6), (3, 7), (77, 9)].iter().map(|(k, v)| (U256::from(*k), U256::from(*v))).collect();
        b.world.insert(c13::contract(9), crate::refevm::Acct { nonce: 1, balance: 90.into(), code: code.0, storage });
        b
    };
    let call = |a| Code::new().p(0).p(0).p(0).p(0).p(0).p(a).os(&[GAS, 0xf1]).p(7).o(SSTORE);
    let pay = |a| Code::new().p(0).p(0).p(0).p(0).p(3).p(a).os(&[GAS, 0xf1]).p(7).o(SSTORE);
    let of = |op: u8, a| Code::new().p(a).o(op).p(7).o(SSTORE);
    let (e, c) = (c13::eoa(1), c13::contract(1));
    let cases: Vec<(&str, Code)> = vec![
        ("nothing", Code::new().sstore(2, 9)),
        ("balance", of(0x31, e)),
        ("code size", of(0x3b, c)),
        ("code hash", of(0x3f, c)),
        ("code", Code::new().p(32).p(0).p(0).p(c).o(0x3c).p(0).o(0x51).p(7).o(SSTORE)),
        ("call", call(c)),
        ("payment", pay(e)),
        ("slot", Code::new().p(1).o(SLOAD).p(2).o(SSTORE)),
        ("slot set", Code::new().sstore(1, 8)),
        ("slot cleared", Code::new().sstore(1, 0)),
        ("destruction", Code::new().p(e).o(SELFDESTRUCT)),
    ];
    let mut notes = BTreeMap::new();
    for (name, code) in cases {
        let b = with(code);
        let ex = b.expect(false);
        let full = b.inputs(&ex);
        let all: Vec<_> = b.world.keys().map(|a| vc::keccak(a.as_bytes())).collect();
        let nib = |h: &vc::H256| mpt_trie::nibbles::Nibbles::from_h256_be(*h);
        let mut jobs = vec![("nothing".to_string(), full.clone())];
        for (i, a) in b.world.keys().enumerate() {
            // The accounts every batch uses are hidden once.
            if (name == "nothing") != ![e, c].contains(a) {
                continue;
            }
            let mut g = full.clone();
            g.tries.state_trie = mpt_trie::trie_subsets::create_trie_subset(&full.tries.state_trie, all.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, h)| nib(h))).unwrap();
            let h = all[i];
            g.tries.storage_tries.retain(|(k, _)| *k != h);
            jobs.push((format!("account {a:?}"), g));
        }
        let me = c13::contract(9);
        let slots: Vec<U256> = b.world[&me].storage.keys().copied().collect();
        for hide in slots.iter().filter(|_| name.starts_with("slot")) {
            let mut g = full.clone();
            let h = vc::keccak(me.as_bytes());
            for (k, t) in g.tries.storage_tries.iter_mut().filter(|(k, _)| *k == h) {
                let _ = k;
                let keys = slots.iter().filter(|s| *s != hide).map(|s| nib(&vc::keccak(&crate::refevm::be(*s))));
                *t = mpt_trie::trie_subsets::create_trie_subset(t, keys).unwrap();
            }
            jobs.push((format!("slot {hide}"), g));
        }
        let ends: Vec<(String, End)> = jobs
            .par_iter()
            .map(|(what, g)| {
                ck.eval("hidden");
                ck.state(&(name, what));
                let r = vc::catch(std::panic::AssertUnwindSafe(|| {
                    let mut vm = machine(g);
                    let (stop, lied) = to_end(&mut vm, &[label("halt")], 3_000_000);
                    ck.transition(vm.clock() as u64);
                    batch_end(&vm, &stop, lied)
                }));
                (what.clone(), r.unwrap_or(End::Refused))
            })
            .collect();
        let mut c = [0; 3];
        for (what, end) in ends {
            let honest = what == "nothing";
            match end {
                End::Same => c[0] += 1,
                End::Differs(w) => {
                    c[2] += 1;
                    ck.violate(&format!("hidden: {name}: {what}"), format!("{name}, with {what} not shown: {w}"));
                }
                _ if honest => ck.violate("hidden: honest", format!("{name}, all shown: refused")),
                _ => c[1] += 1,
            }
        }
        notes.insert(name, c);
    }
    ck.note("hidden: same, refused, different", json!(notes));
}
/// Cells of the lists and of the trie data which the prover provides, changed.
fn preset(ck: &Check, th: bool) {
    let which = if th { vec![0, 1, 4, 9, 10] } else { vec![1] };
    for (name, mut b) in batches(th).into_iter().enumerate().filter(|(i, _)| which.contains(i)).map(|x| x.1) {
        // Two accounts of the same content.
        b.world.insert(crate::c13::eoa(5), b.world[&crate::c13::eoa(1)].clone());
        b.txs.last_mut().unwrap().to.get_or_insert(crate::c13::eoa(1));
        let mut pay = b.txs[0].clone();
        pay.nonce += 1;
        pay.to = Some(crate::c13::eoa(1));
        pay.value = 5.into();
        pay.data.clear();
        b.txs.push(pay);
        let e = b.expect(false);
        let vm0 = start(&b, &e);
        let from = vm0.save();
        let mut jobs = vec![(0usize, 0usize, U256::zero())];
        for sname in ["AccountsLinkedList", "StorageLinkedList", "TrieData"] {
            let s = seg(sname);
            let mut cells: Vec<U256> = (0..4000).map(|i| vm0.get(0, s, i)).collect();
            while cells.last().is_some_and(|x| x.is_zero()) {
                cells.pop();
            }
            let unit = match sname {
                "AccountsLinkedList" => 4,
                "StorageLinkedList" => 5,
                _ => 4,
            };
            for (i, c) in cells.iter().enumerate() {
                let mut v: Vec<U256> = vec![0.into(), 1.into(), U256::MAX];
                for d in [1, unit as u64, 2 * unit as u64] {
                    v.push(c.overflowing_add(d.into()).0);
                    v.push(c.overflowing_sub(d.into()).0);
                }
                // Other cells of the column; for pointers, all of them.
                let few = if th || (sname == "AccountsLinkedList" && i % unit == 1) { 40 } else { 3 };
                v.extend(cells.iter().skip(i % unit).step_by(unit).take(few));
                v.retain(|x| x != c);
                v.sort();
                v.dedup();
                jobs.extend(v.into_iter().map(|x| (s, i, x)));
            }
            // Beyond what there is.
            for i in cells.len()..cells.len() + 2 * unit {
                for x in [1u64.into(), U256::MAX, cells.get(unit - 1).copied().unwrap_or_default()] {
                    jobs.push((s, i, x));
                }
            }
        }
        let ends: Vec<[usize; 3]> = jobs
            .par_iter()
            .map(|(s, i, x)| {
                let mut c = [0; 3];
                if ck.stopped() {
                    return c;
                }
                ck.eval("preset memory");
                ck.state(&(name, s, i, x));
                let r = vc::catch(std::panic::AssertUnwindSafe(|| {
                    with_vm(|vm| {
                        vm.load(&from);
                        let honest = *s == 0;
                        if !honest {
                            vm.set(0, *s, *i, *x);
                        }
                        let c0 = vm.clock();
                        let (stop, lied) = to_end(vm, &[label("halt")], 3_000_000);
                        ck.transition((vm.clock() - c0) as u64);
                        batch_end(vm, &stop, lied)
                    })
                }));
                match r {
                    Ok(End::Same) => c[0] = 1,
                    Ok(End::Differs(w)) => {
                        c[2] = 1;
                        ck.violate(&format!("preset memory: segment {s}"), format!("{name}: cell {i} of segment {s} given {x:#x}: {w}"));
                    }
                    _ => c[1] = 1,
                }
                c
            })
            .collect();
        let t = ends.iter().fold([0; 3], |a, c| [a[0] + c[0], a[1] + c[1], a[2] + c[2]]);
        if ends.first() != Some(&[1, 0, 0]) {
            ck.violate("preset memory: honest", format!("{name}: refused"));
        }
        ck.note(&format!("preset memory: {name}"), json!({"same": t[0], "refused": t[1], "different": t[2]}));
    }
}

// ------------------------------------------------------- jump destinations

fn valid_destinations(code: &[u8]) -> BTreeSet<usize> {
    let mut v = BTreeSet::new();
    let mut i = 0;
    while i < code.len() {
        match code[i] {
            0x5b => {
                v.insert(i);
            }
            0x60..=0x7f => i += code[i] as usize - 0x5f,
            _ => {}
        }
        i += 1;
    }
    v
}
/// Codes of jump destinations with pushes here and there.
fn jump_codes(th: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], vec![0x5b], vec![0x60], vec![0x60, 0x5b], vec![0x60, 0x5b, 0x5b]];
    let len = 70;
    let places: Vec<usize> = if th { (0..40).collect() } else { vec![0, 1, 2, 5, 30, 31, 32, 33] };
    for &i in &places {
        for k in if th { (0x60..0x80).collect::<Vec<u8>>() } else { vec![0x60, 0x61, 0x70, 0x7e, 0x7f] } {
            let mut c = vec![0x5b; len];
            c[i] = k;
            v.push(c.clone());
            // A push in the data of a push.
            c[i + 1] = 0x7f;
            v.push(c);
        }
    }
    // Other instructions, and a code that ends within a push.
    v.push((0..len).map(|i| if i % 3 == 0 { 0x5b } else { 0x5f }).collect());
    v.push((0..len).map(|i| if i == 60 { 0x7f } else { 0x5b }).collect());
    v.push((0..len).map(|i| if i % 2 == 0 { 0x60 } else { 0x5b }).collect());
    v.push((0..len).map(|i| [0x80, 0x5b, 0x5e, 0x61][i % 4]).collect());
    v
}
fn jumps(ck: &Check, th: bool) {
    let codes = jump_codes(th);
    let marks: Vec<[usize; 3]> = codes
        .par_iter()
        .map(|code| {
            let mut n = [0; 3];
            let valid = valid_destinations(code);
            with_vm(|vm| {
                let (sc, sb) = (seg("Code"), seg("JumpdestBits"));
                let c1 = U256::one() << 64;
                let len = code.len();
                vm.set_context(0);
                vm.set_cells(1, sc, &code.iter().map(|b| U256::from(*b)).chain([U256::zero(); 33]).collect::<Vec<_>>());
                let mut proofs: Vec<U256> = (0..len as u64 + 3).map(U256::from).collect();
                proofs.extend([U256::MAX, U256::MAX - 31, U256::MAX - 32, U256::one() << 32, U256::one() << 64, c1 + 1, U256::MAX - c1 + 1]);
                let bits = |vm: &Vm| -> BTreeSet<usize> { (0..len + 40).filter(|i| !vm.get(1, sb, *i).is_zero()).collect() };
                for a in 0..len as u64 + 3 {
                    for p in &proofs {
                        if ck.stopped() {
                            return;
                        }
                        ck.state(&(code, a, p));
                        ck.eval("jump destinations shown");
                        vm.clear(1, sb);
                        vm.set_context(0);
                        let c0 = vm.clock();
                        let r = advised(vm, "jumpdest_analysis", &[c1, len.into()], &[U256::from(a + 1), *p, U256::zero()]);
                        if r.is_some() {
                            let b = bits(vm);
                            n[0] += b.contains(&(a as usize)) as usize;
                            if !b.is_subset(&valid) {
                                ck.violate("jumpdest_analysis", format!("code {}: address {a} with the proof {p:#x} marks {:?}, which are no jump destinations", crate::prog::hex(code), b.difference(&valid).collect::<Vec<_>>()));
                            }
                        }
                        ck.eval("jump destinations refused");
                        vm.clear(1, sb);
                        vm.set_context(1);
                        let r = advised(vm, "verify_non_jumpdest", &[a.into()], &[*p]);
                        vm.set_context(0);
                        ck.transition((vm.clock() - c0) as u64);
                        if r.is_some() {
                            let b = bits(vm);
                            n[1] += 1;
                            if !b.is_subset(&valid) {
                                ck.violate("verify_non_jumpdest: marks", format!("code {}: address {a} with the proof {p:#x} marks {b:?}", crate::prog::hex(code)));
                            }
                            if valid.contains(&(a as usize)) && !b.contains(&(a as usize)) {
                                n[2] += 1;
                                // The proof's prefix ends beyond the address.
                                let late = !p.is_zero() && *p <= a.into() && *p + 32u8 > a.into();
                                ck.violate(if late { "verify_non_jumpdest: prefix ends after the address" } else { "verify_non_jumpdest" }, format!("code {}: the jump destination {a} with the proof {p:#x} is taken for none", crate::prog::hex(code)));
                            }
                        }
                    }
                }
            });
            n
        })
        .collect();
    let t = marks.iter().fold([0; 3], |a, c| [a[0] + c[0], a[1] + c[1], a[2] + c[2]]);
    ck.note("jump destinations: shown, refused, wrongly", json!(t));
}

pub fn run() -> ! {
    let ck = Check::new("C25", "model_check");
    let th = ck.thorough;
    let only = std::env::var("VERIF_ONLY").ok();
    let on = |n: &str| only.as_ref().is_none_or(|o| o == n);
    let timed = |n: &str, f: &mut dyn FnMut()| {
        if on(n) {
            let t = ck.elapsed();
            f();
            eprintln!("C25 {n}: {:.1} s", (ck.elapsed() - t).as_secs_f64());
        }
    };
    timed("lists", &mut || list_family(&ck, th));
    timed("bits", &mut || bits_family(&ck));
    timed("hidden", &mut || hidden(&ck));
    timed("preset", &mut || preset(&ck, th));
    timed("jumps", &mut || jumps(&ck, th));
    timed("executions", &mut || executions(&ck, th));
    ck.finish(
        "one state per question and situation; transitions are machine steps",
        json!({
            "lists": if th { "all lists made by 3 insertions and removals, every operation, every key, every predecessor" } else { "all lists made by 2 insertions and removals, every operation, every key, every predecessor" },
            "executions": "every question of each batch, its answer replaced by boundary values, by neighbours and by answers given elsewhere in the same place",
            "preset": "every preset cell of the lists and the trie data of batches replaced by boundary values, neighbours and other cells of its column",
            "hidden": "every account and slot not shown, one at a time",
            "jumps": "every address and every proof for codes of jump destinations and pushes",
        }),
        &[
            "one lie at a time",
            "a prover cannot make the kernel write or hash beyond 2^32 cells or past the memory tables",
            "no collisions of Keccak are known",
        ],
    )
}
