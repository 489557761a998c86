//! C14: cutting an execution into segments never changes it. Executions of
//! every kind are cut at every possible instruction (by lengthening them one
//! instruction at a time) and compared step by step with the uncut machine.
use std::collections::BTreeMap;

use evm_arithmetization::generation::NUM_EXTRA_CYCLES_AFTER;
use evm_arithmetization::SegmentDataIterator;
use evm_arithmetization::verif_hooks::tables::{self as tb, SegmentView, Starks, Table};
use evm_arithmetization::verif_hooks::vm::{self, Regs, Vm};
use vc::rayon::prelude::*;
use vc::{json, Check, U256};

use crate::asm::*;
use crate::batch::*;
use crate::c13;
use crate::common::*;
use crate::ctl;
use crate::refevm::*;


struct Subject {
    name: &'static str,
    batch: Batch,
}

/// The regs that count: the top of an empty stack is no value.
fn shown(r: Regs) -> Regs {
    Regs { stack_top: if r.stack_len == 0 { U256::zero() } else { r.stack_top }, ..r }
}

/// Whether the memory of a segment is that of the machine, but for what only
/// the end and the start of segments use.
fn same_memory(vm: &Vm, v: &SegmentView) -> Result<(), String> {
    let stack = seg("Stack");
    let regs = seg("RegistersStates");
    let r = vm.regs();
    let stale = vm.stale_contexts();
    let meta = seg("ContextMetadata");
    let size = vm::context_metadata().into_iter().find(|n| n.0 == "StackSize").expect("no StackSize").1;
    let pre: BTreeMap<usize, &Vec<Option<U256>>> = v.preinitialized.iter().map(|(s, c)| (*s, c)).collect();
        let n_ctx = vm.contexts().max(v.memory.len());
    let n_seg = vm::segments().len();
    for c in 0..n_ctx {
        if stale.contains(&c) {
            continue;
        }
        for s in 0..n_seg {
            if s == regs || (c, s) == (0, seg("Code")) {
                continue;
            }
            let mine = vm.cells_ref(c, s);
            let theirs: &[Option<U256>] = v.memory.get(c).map_or(&[], |m| &m[s]);
            if mine == theirs {
                continue;
            }
            let from = |i: usize| theirs.get(i).copied().flatten().unwrap_or_default();
            let live = match () {
                _ if s != stack => usize::MAX,
                _ if c == r.context => r.stack_len.saturating_sub(1),
                _ => vm.get(c, meta, size).as_usize(),
            };
            for i in 0..mine.len().max(theirs.len()).min(live) {
                let a = mine.get(i).copied().flatten();
                let b = from(i);
                if a.unwrap_or_default() == b {
                    continue;
                }
                // A cell untouched so far may still be known only as initial.
                if a.is_none() && c == 0 && pre.get(&s).and_then(|p| p.get(i).copied().flatten()) == Some(b) {
                    continue;
                }
                return Err(format!("cell {i} of segment {} of context {c} is {b:#x}, in the uncut run {:#x}", vm::segments()[s].0, a.unwrap_or_default()));
            }
        }
    }
    // The top of the stack, which the next segment verifies.
    if r.stack_len > 0 {
        let top = v.memory.get(r.context).and_then(|m| m[stack].get(r.stack_len - 1).copied().flatten()).unwrap_or_default();
        if top != r.stack_top {
            return Err(format!("the top of the stack is kept as {top:#x}, it was {:#x}", r.stack_top));
        }
    }
    Ok(())
}

fn used_rows(t: &Table) -> usize {
    t[0].len()
}

struct Cols {
    pc: usize,
    kernel: usize,
    stack_len: usize,
    context: usize,
    gas: usize,
}
fn cols() -> Cols {
    let n = ctl::parse(&tb::cpu_columns());
    let g = |k: &str| n.get(k).num() as usize;
    Cols { pc: g("program_counter"), kernel: g("is_kernel_mode"), stack_len: g("stack_len"), context: g("context"), gas: g("gas") }
}

/// Cuts the batch with the given segment length, `replay` giving the number
/// of segments (from the first) whose traces are made as well.
/// With `from`, it begins so many instructions after the first of the user's,
/// and ends with the segment after the last of them.
fn cut(s: &Subject, log: Option<usize>, from: Option<usize>, replay: Option<&Starks>, ck: &Check, c: &Cols) -> Result<usize, String> {
    let e = s.batch.expect(false);
    let inputs = s.batch.inputs(&e);
    let mut vm = machine(&inputs);
    let limit = log.map(|l| (1usize << l) - NUM_EXTRA_CYCLES_AFTER);
    let mut it = SegmentDataIterator::<F>::new(&inputs, log);
    if let Some(k) = from {
        while vm.regs().is_kernel {
            vm.step()?;
        }
        for _ in 0..k {
            vm.step()?;
        }
        it = vm.segments(&inputs, log);
    }
    let done = label("process_message_txn_after_call");
    let mut over = false;
    let mut n = 0;
    let mut handed: Option<Table> = None;
    let mut prev_after: Option<Regs> = None;
    let mut pending = it.next();
    while let Some(d) = pending.take() {
        let (trimmed, mut data) = d.map_err(|e| format!("segment {n}: {}", e.to_string().chars().take(300).collect::<String>()))?;
        let v = tb::segment_view(&data);
        let at = |m: String| format!("segment {n} (from {}): {m}", vm::offset_name(v.before.pc));
        if v.index != n {
            return Err(at(format!("numbered {}", v.index)));
        }
        if over && from.is_some() {
            return Ok(n);
        }
        if shown(vm.regs()) != shown(v.before) {
            return Err(at(format!("begins with {:?}, the uncut run is at {:?}", v.before, vm.regs())));
        }
        if let Some(p) = prev_after {
            if p != v.before {
                return Err(at(format!("begins with {:?}, its predecessor ended with {p:?}", v.before)));
            }
            same_memory(&vm, &v).map_err(at)?;
        }
        // Follow the uncut run to where this segment ends.
        let mut path: Vec<Regs> = vec![];
        let bound = limit.unwrap_or(100_000_000);
        pending = it.next();
        let next = match &pending {
            Some(Ok((_, d))) => Some(tb::segment_view(d)),
            Some(Err(e)) => return Err(format!("segment {}: {}", n + 1, e.to_string().chars().take(300).collect::<String>())),
            None => None,
        };
        let halt = label("halt");
        loop {
            path.push(shown(vm.regs()));
            if path.len() > bound {
                return Err(at(format!("ends with {:?}, where the uncut run does not get within {bound} instructions", v.after)));
            }
            vm.step().map_err(|e| at(format!("the uncut run fails: {e}")))?;
            if shown(vm.regs()) == shown(v.after) {
                match &next {
                    None => break,
                    Some(x) if same_memory(&vm, x).is_ok() => break,
                    // Perhaps the state comes again.
                    Some(x) => {
                        if path.len() + 70 > bound {
                            return Err(at(format!("ends where the uncut run is, but {}", same_memory(&vm, x).unwrap_err())));
                        }
                    }
                }
            }
            let r = vm.regs();
            over |= r.is_kernel && r.pc == done;
            if r.is_kernel && r.pc == halt {
                return Err(at(format!("ends with {:?}, never reached by the uncut run", v.after)));
            }
        }
        let r = vm.regs();
        over |= r.is_kernel && r.pc == done;
        let ended = r.is_kernel && r.pc == halt;
        if ended != next.is_none() {
            return Err(at(format!("the uncut run has ended: {ended}, but is this the last segment: {}", next.is_none())));
        }
        ck.transition(path.len() as u64);
        if let Some(starks) = replay {
            let (tables, used, pv) = starks.segment(&trimmed, &mut data).map_err(|e| at(format!("cannot be replayed: {e}")))?;
            ck.trace();
            let reg = |r: &evm_arithmetization::proof::RegistersData| Regs {
                pc: r.program_counter.as_usize(),
                is_kernel: !r.is_kernel.is_zero(),
                stack_len: r.stack_len.as_usize(),
                stack_top: r.stack_top,
                context: r.context.as_usize(),
                gas_used: r.gas_used.as_u64(),
            };
            if (reg(&pv.registers_before), reg(&pv.registers_after)) != (v.before, v.after) {
                return Err(at(format!("replaying, the registers are {:?} and {:?}", pv.registers_before, pv.registers_after)));
            }
            let cpu = &tables[2];
            let len = used_rows(cpu);
            if log.is_some_and(|l| len > 1 << l) {
                return Err(at(format!("replaying takes {len} rows")));
            }
            let get = |i: usize| (ctl::u(cpu[c.pc][i]), ctl::u(cpu[c.kernel][i]), ctl::u(cpu[c.stack_len][i]), ctl::u(cpu[c.context][i]), ctl::u(cpu[c.gas][i]));
            let end = if ended {
                (0..len).find(|i| get(*i).0 == halt as u64 && get(*i).1 == 1).ok_or(at("replaying does not halt".into()))?
            } else {
                limit.unwrap()
            };
            if end < path.len() || end >= len {
                return Err(at(format!("replaying reaches its end after {end} rows, the uncut run takes {} instructions", path.len())));
            }
            for (k, w) in path.iter().chain([&shown(v.after)]).enumerate() {
                let g = get(end - path.len() + k);
                let w = (w.pc as u64, w.is_kernel as u64, w.stack_len as u64, w.context as u64, w.gas_used);
                if g != w {
                    return Err(at(format!("replaying, instruction {k} has (offset, mode, stack length, context, gas) {g:?}, the uncut run {w:?}")));
                }
            }
            if let Some(h) = &handed {
                if *h != tables[7] {
                    let i = (0..used_rows(h).max(used_rows(&tables[7]))).find(|i| {
                        let get = |t: &Table| (*i < used_rows(t)).then(|| ctl::row(t, *i));
                        get(h) != get(&tables[7])
                    });
                    return Err(at(format!("its memory before is not the memory its predecessor hands over: row {i:?}, of {} and {} rows", used_rows(h), used_rows(&tables[7]))));
                }
            }
            if !ended && !used[8] {
                return Err(at("hands no memory over".into()));
            }
            handed = Some(tables[8].clone());
        }
        prev_after = Some(v.after);
        n += 1;
    }
    let r = vm.regs();
    if !(r.is_kernel && r.pc == label("halt")) {
        return Err(format!("the segments end before the execution, at {}", vm::offset_name(r.pc)));
    }
    Ok(n)
}

/// Cuts the execution at each of the given instructions, twice in a row.
fn each(s: &Subject, log: usize, lo: usize, hi: usize, ck: &Check) -> Result<usize, String> {
    let e = s.batch.expect(false);
    let inputs = s.batch.inputs(&e);
    let halt = label("halt");
    let ended = |r: Regs| r.is_kernel && r.pc == halt;
    let mut here = machine(&inputs);
    for _ in 0..lo {
        here.step()?;
    }
    // Where the first and the second segment from here end.
    let mut ahead = [here.fork(), here.fork()];
    let mut at = [lo, lo];
    let mut n = 0;
    for p in lo..hi {
        let begin = here.regs();
        let show = |m: String| format!("a segment begun at instruction {p} (at {}): {m}", vm::offset_name(begin.pc));
        let mut it = here.segments(&inputs, Some(log));
        let mut views = vec![];
        for _ in 0..3 {
            match it.next() {
                None => break,
                Some(Ok((_, d))) => views.push(tb::segment_view(&d)),
                Some(Err(e)) => return Err(show(format!("the {} segment fails: {}", ["", "next", "one after the next"][views.len()], e.to_string().chars().take(300).collect::<String>()))),
            }
        }
        for i in 0..2 {
            let Some(v) = views.get(i) else { break };
            loop {
                let r = ahead[i].regs();
                if at[i] > p && shown(r) == shown(v.after) {
                    match views.get(i + 1) {
                        None => break,
                        Some(x) if same_memory(&ahead[i], x).is_ok() => break,
                        Some(x) if at[i] - p > 2 << log => return Err(show(format!("ends where the uncut run is, but {}", same_memory(&ahead[i], x).unwrap_err()))),
                        _ => {}
                    }
                }
                if ended(r) || at[i] - p > 2 << log {
                    return Err(show(format!("the {} ends with {:?}, never reached by the uncut run", ["first", "second"][i], v.after)));
                }
                ahead[i].step().map_err(&show)?;
                at[i] += 1;
            }
            if ended(ahead[i].regs()) != (views.len() == i + 1) {
                return Err(show(format!("the uncut run ends: {}, but the segments are {}", ended(ahead[i].regs()), views.len())));
            }
            n += 1;
        }
        ck.transition(at[1].saturating_sub(p) as u64);
        here.step()?;
    }
    Ok(n)
}

fn shift(code: &Code, k: usize) -> Vec<u8> {
    let mut v = vec![JUMPDEST; k];
    v.extend(&code.0);
    v
}
/// Bodies with what is delicate about ending a segment.
fn bodies() -> Vec<(&'static str, Code, Vec<(u64, u64)>)> {
    let call = |op: u8, to: Addr, value: u64| {
        let c = Code::new().p(64).p(0).p(32).p(0);
        let c = if op == 0xf1 || op == 0xf2 { c.p(value) } else { c };
        c.p(to).p(60_000).o(op).p(9).o(SSTORE)
    };
    let mut v = vec![];
    // Storage, logs, hashing, arithmetic, transient storage.
    v.push((
        "plain",
        Code::new().sstore(1, 7).sstore(2, 0).mem(0, &[5; 40]).p(40).p(0).o(KECCAK256).p(3).o(SSTORE).p(1).p(33).p(2).o(0xa1)
            .tstore(4, 5).p(4).o(TLOAD).p(U256::MAX).os(&[ADD, 0x80, 0x02]).p(77).os(&[0x0a]).p(6).o(SSTORE).p(300).p(9).os(&[0x0a, POP]),
        vec![(2, 6)],
    ));
    // The stack filled and emptied.
    v.push(("full stack", (0..1024).fold(Code::new(), |c, _| c.o(0x5f)).os(&vec![POP; 1024]), vec![]));
    v.push(("stack overflow", (0..1025).fold(Code::new(), |c, _| c.o(0x5f)), vec![]));
    // Frames of every kind and end.
    v.push((
        "frames",
        call(0xf1, c13::contract(1), 3).c(&call(0xf4, c13::contract(2), 0)).c(&call(0xfa, c13::contract(3), 0)).c(&call(0xf2, c13::contract(6), 0)).c(&call(0xf1, c13::contract(4), 0)),
        vec![],
    ));
    let init = Code::new().sstore(1, 2).ret(&[0x5b, 0x5f]);
    v.push((
        "creation",
        Code::new().mem(0, &init.0).p(init.0.len()).p(0).p(1).o(0xf0).p(1).o(SSTORE).p(5).p(init.0.len()).p(0).p(0).o(0xf5).os(&[0x80]).p(2).o(SSTORE)
            .p(0).p(0).p(0).p(0).p(0).os(&[0x85, GAS, 0xf1]).p(3).o(SSTORE),
        vec![],
    ));
    // Jumps, with data that looks like destinations.
    v.push(("jumps", {
        let mut c = Code::new();
        for _ in 0..3 {
            let here = c.0.len();
            c = c.os(&[0x58]).p(9).o(ADD).os(&[0x80]).os(&[0x60, JUMPDEST, POP]);
            let _ = here;
            c = c.os(&[POP]);
        }
        c.os(&[0x58]).p(6).os(&[ADD, 0x56, 0x60, JUMPDEST, JUMPDEST]).p(1).os(&[0x58]).p(7).os(&[ADD, 0x57, INVALID, 0x60, JUMPDEST]).sstore(1, 1)
    }, vec![]));
    // Precompiles that need many hints.
    let modexp: Vec<u8> = [vec![0u8; 31], vec![33], vec![0; 31], vec![2], vec![0; 31], vec![33], vec![7; 33], vec![1, 3], vec![9; 33]].concat();
    v.push((
        "modexp",
        Code::new().mem(0, &modexp).p(33).p(0).p(modexp.len()).p(0).p(0).p(5).p(300_000).o(0xf1).p(1).o(SSTORE),
        vec![],
    ));
    v.push((
        "hashes",
        Code::new().mem(0, &[3; 70]).p(32).p(100).p(70).p(0).p(0).p(2).p(60_000).o(0xf1).p(1).o(SSTORE).p(70).p(200).p(70).p(0).p(4).p(60_000).o(0xfa).p(2).o(SSTORE),
        vec![],
    ));
    v.push(("destruction", Code::new().sstore(1, 1).p(c13::eoa(9)).o(SELFDESTRUCT), vec![]));
    v.push(("revert", Code::new().sstore(1, 1).mem(0, &[1; 33]).p(33).p(0).o(REVERT), vec![]));
    v.push(("invalid", Code::new().sstore(1, 1).o(INVALID), vec![]));
    v.push(("underflow", Code::new().sstore(1, 1).o(ADD), vec![]));
    v.push(("out of gas", Code::new().sstore(1, 1).os(&[JUMPDEST, 0x58, 0x60, 0x01, 0x90, 0x03, 0x56]), vec![]));
    v
}
fn subject(name: &'static str, code: &Code, storage: &[(u64, u64)], k: usize) -> Subject {
    let mut world = c13::world();
    let me = c13::contract(9);
    world.insert(
        me,
        Acct { nonce: 1, balance: 90.into(), code: shift(code, k), storage: storage.iter().map(|(k, v)| ((*k).into(), (*v).into())).collect() },
    );
    // Fewer accounts make shorter runs; what is needed stays.
    world.retain(|a, _| *a != address_of(2) && *a != address_of(3) && *a != c13::contract(5) && *a != c13::contract(7) && *a != c13::contract(8));
    let gas = if name == "out of gas" { 60_000 } else { 700_000 };
    let t = Tx { ty: 2, chain_id: Some(1), nonce: 0, tip: 2.into(), max_fee: 50.into(), gas, to: Some(me), key: 1, ..Tx::default() };
    // Not the first transaction, so no beacon root is set.
    let batch = Batch { world, block: base_block(), txs: vec![t], earlier: vec![(vec![0xc1, 1], receipt(0, true, 21000, &[]))], gas_before: 21000, ..Batch::default() };
    Subject { name, batch }
}
/// Whole batches of other shapes.
fn shapes() -> Vec<Subject> {
    let w = c13::world();
    let t = |key: u64, to: Option<Addr>| {
        let nonce = [0u64, 127, 255][key as usize - 1];
        Tx { ty: 2, chain_id: Some(1), nonce, tip: 2.into(), max_fee: 50.into(), gas: 400_000, to, key, max_blob_fee: 1_000_000_000.into(), ..Tx::default() }
    };
    let b = |txs: Vec<Tx>| Batch { world: w.clone(), block: base_block(), txs, ..Batch::default() };
    let mut v = vec![Subject { name: "no transactions", batch: b(vec![]) }];
    let mut x = b(vec![]);
    x.withdrawals = (0..3).map(|i| (c13::eoa(i), U256::from(i * 77))).collect();
    v.push(Subject { name: "withdrawals", batch: x });
    let mut blob = t(2, Some(c13::contract(1)));
    blob.ty = 3;
    blob.blobs = vec![(U256::one() << 248) + 5];
    blob.access = vec![(c13::contract(1), vec![1.into(), 2.into()]), (c13::eoa(9), vec![])];
    let mut create = t(3, None);
    create.data = Code::new().sstore(1, 2).ret(&[0x5b]).0;
    let mut x = b(vec![t(1, Some(c13::contract(8))), blob, create]);
    x.withdrawals = vec![(c13::eoa(1), 9.into())];
    v.push(Subject { name: "three transactions", batch: x });
    v
}

pub fn run() -> ! {
    let ck = Check::new("C14", "model_check");
    let th = ck.thorough;
    let only = std::env::var("VERIF_ONLY").ok();
    let c = cols();
    let starks = Starks::default();
    let bodies = bodies();
    // (subject, segment length, where to begin, whether the traces are made)
    let mut jobs: Vec<(Subject, Option<usize>, Option<usize>, bool)> = vec![];
    // With 2^8 rows a segment has room for about 110 instructions; so many
    // starts put a cut before every instruction.
    let period = 130;
    for (name, code, storage) in &bodies {
        for k in 0..period {
            jobs.push((subject(name, code, storage, 0), Some(8), Some(k), false));
        }
        if th {
            for k in 0..2 * period {
                jobs.push((subject(name, code, storage, 0), Some(9), Some(k), false));
            }
        }
        for log in [9, 10, 12, 15] {
            for k in 0..ck.pick(1, 20) {
                jobs.push((subject(name, code, storage, k * 7), Some(log), None, false));
            }
        }
        jobs.push((subject(name, code, storage, 0), Some(20), None, false));
        jobs.push((subject(name, code, storage, 0), None, None, false));
        for log in [12, 14, 16] {
            if th || (log, *name) == (14, "frames") || (log, *name) == (12, "plain") {
                jobs.push((subject(name, code, storage, 5), Some(log), None, true));
            }
        }
    }
    for log in [8, 9, 11, 13, 16, 20] {
        for s in shapes() {
            jobs.push((s, Some(log), None, false));
        }
    }
    for s in shapes() {
        jobs.push((s, None, None, false));
    }
    for s in shapes() {
        jobs.push((s, Some(16), None, true));
    }
    // The longest first.
    jobs.sort_by_key(|(_, l, k, r)| (!r, k.is_some(), l.unwrap_or(0)));
    if let Some(o) = only {
        jobs.retain(|j| j.0.name == o);
    }
    let t = std::sync::Mutex::new(BTreeMap::<String, (usize, usize, f64)>::new());
    jobs.par_iter().with_max_len(1).for_each(|(s, log, from, replay)| {
        if ck.stopped() {
            return;
        }
        ck.eval(if *replay { "replayed" } else { "cut" });
        ck.state(&(s.name, log, from, s.batch.world.get(&c13::contract(9)).map(|a| a.code.clone())));
        let key = format!("{} 2^{log:?}", s.name);
        let t0 = std::time::Instant::now();
        match vc::catch(|| cut(s, *log, *from, replay.then_some(&starks), &ck, &c)) {
            Ok(Ok(n)) => {
                ck.evals("segments", n as u64);
                ck.sample(s.name, || json!({"segment_log": log, "segments": n}));
                let mut t = t.lock().unwrap();
                let e = t.entry(format!("{} {}", if *replay { "replay" } else if from.is_some() { "middle" } else { "cut" }, log.unwrap_or(99))).or_default();
                e.0 += 1;
                e.1 += n;
                e.2 += t0.elapsed().as_secs_f64();
            }
            Ok(Err(e)) => ck.violate(&key, format!("{} in segments of 2^{log:?} from {from:?}: {e}; {}", s.name, s.batch.describe())),
            Err(e) => ck.violate(&key, format!("{} in segments of 2^{log:?} from {from:?}: panic: {e}; {}", s.name, s.batch.describe())),
        }
    });
    // A cut at every instruction of a batch, kernel's and user's.
    let mut jobs = vec![];
    for s in shapes() {
        let total = {
            let e = s.batch.expect(false);
            let mut m = machine(&s.batch.inputs(&e));
            let halt = label("halt");
            let mut n = 0;
            while !(m.regs().is_kernel && m.regs().pc == halt) {
                m.step().expect("the uncut run fails");
                n += 1;
            }
            n
        };
        eprintln!("C14 {}: {total} instructions", s.name);
        let s = std::sync::Arc::new(s);
        let step = 300;
        for lo in (0..total).step_by(step) {
            // Quickly, only the end, where the memory is given up, and a
            // part of the rest.
            if th || lo / step % 20 == 0 && s.name != "three transactions" || lo + 2 * step >= total {
                jobs.push((s.clone(), lo, (lo + step).min(total)));
            }
        }
    }
    let t1 = std::time::Instant::now();
    jobs.par_iter().with_max_len(1).for_each(|(s, lo, hi)| {
        if ck.stopped() {
            return;
        }
        ck.evals("each instruction", (hi - lo) as u64);
        match vc::catch(|| each(s, 8, *lo, *hi, &ck)) {
            Ok(Ok(n)) => {
                ck.evals("segments", n as u64);
                for i in *lo..*hi {
                    ck.state(&(s.name, "each", i));
                }
            }
            Ok(Err(e)) => ck.violate(&format!("{} each", s.name), format!("{}, cut everywhere: {e}; {}", s.name, s.batch.describe())),
            Err(e) => ck.violate(&format!("{} each", s.name), format!("{}, cut everywhere from {lo}: panic: {e}; {}", s.name, s.batch.describe())),
        }
    });
    eprintln!("C14 each: {:.1} s", t1.elapsed().as_secs_f64());
    for (k, (a, b, s)) in t.into_inner().unwrap() {
        eprintln!("C14 {k}: {a} runs, {b} segments, {s:.1} s");
    }
    ck.finish(
        "one state per execution and segment length; transitions are machine steps followed uncut",
        json!({"segment_log": "8..20 and unbounded", "first_cuts": "each of the first 130 user instructions, then every 2^8 rows; in whole batches each of the last 300 instructions and 1 in 20 stretches of 300 (thorough: every instruction)"}),
        &["the uncut run of the same machine is the reference; that it follows the EVM is C11 to C13"],
    )
}
