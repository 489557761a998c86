//! C10: every arithmetic instruction on every combination of operands of a
//! set of words chosen at the boundaries, against big-integer arithmetic.
use evm_arithmetization::verif_hooks::vm::{self, Vm};
use vc::rayon::prelude::*;
use vc::{json, Check, U256};

use crate::alu;
use crate::common::*;

const CTX: usize = 1;
const SENTINELS: usize = 3;

fn sentinels(n: usize) -> Vec<U256> {
    (0..n).map(|i| (U256::from(0x5e47u64 + i as u64) << 200) + i).collect()
}

struct Machine {
    vm: Vm,
    /// Offset of a byte of the kernel equal to each opcode.
    at: Vec<Option<usize>>,
    nseg: usize,
}
impl Machine {
    fn new() -> Self {
        let mut vm = Vm::new(0, vec![]);
        vm.set_context(CTX);
        // one instruction per address, in the order of the opcodes
        let code: Vec<U256> = (0u64..256).map(U256::from).collect();
        vm.set_cells(CTX, seg("Code"), &code);
        set_ctx_meta(&mut vm, CTX, "CodeSize", 256.into());
        set_ctx_meta(&mut vm, CTX, "GasLimit", U256::from(1u64 << 50));
        let k = vm::kernel_code();
        let at = (0..=255u8).map(|o| k.iter().position(|b| *b == o)).collect();
        Machine { vm, at, nseg: names().seg.len() }
    }
    /// All memory but the stack and the code.
    fn memory(&self) -> Vec<Vec<U256>> {
        let (st, code) = (seg("Stack"), seg("Code"));
        (0..2)
            .flat_map(|c| (0..self.nseg).filter(move |s| *s != st && *s != code).map(move |s| (c, s)))
            .map(|(c, s)| {
                // a cell never set reads as zero
                let mut v: Vec<U256> = self.vm.cells(c, s).into_iter().map(|x| x.unwrap_or_default()).collect();
                while v.last() == Some(&U256::zero()) {
                    v.pop();
                }
                v
            })
            .collect()
    }
}
thread_local! { static M: std::cell::RefCell<Option<Machine>> = const { std::cell::RefCell::new(None) }; }

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    User,
    Kernel,
}

/// One instruction on `args` (top first) over `below` other stack items.
fn one(ck: &Check, name: &str, op: u8, args: &[U256], mode: Mode, below: usize) {
    let desc = |what: String| format!("{name}({}) in {} mode over {below} items: {what}", words(args), if mode == Mode::User { "user" } else { "kernel" });
    let key = |w: &str| format!("{name}:{w}:{}", words(args));
    M.with(|m| {
        let mut m = m.borrow_mut();
        let m = m.get_or_insert_with(Machine::new);
        let mut st = sentinels(below);
        st.extend(args.iter().rev());
        m.vm.set_context(CTX);
        m.vm.set_stack(&st);
        m.vm.set_gas_used(0);
        m.vm.set_kernel(mode == Mode::Kernel);
        let start = match mode {
            Mode::User => op as usize,
            Mode::Kernel => match m.at[op as usize] {
                Some(p) => p,
                None => return,
            },
        };
        m.vm.set_pc(start);
        let before = m.memory();
        let want = alu::eval(op, args);
        let mut steps = 0u64;
        let done = loop {
            if let Err(e) = m.vm.step() {
                break Err(format!("the machine failed: {e}"));
            }
            steps += 1;
            let r = m.vm.regs();
            if r.is_kernel == (mode == Mode::Kernel) && r.context == CTX && r.pc == start + 1 {
                break Ok(());
            }
            if steps > 100_000 {
                break Err(format!("still running after {steps} steps, at {}", vm::offset_name(r.pc)));
            }
            if mode == Mode::Kernel {
                break Err(format!("went to {:#x}", r.pc));
            }
            if !r.is_kernel {
                break Err(format!("went on at user code offset {}", r.pc));
            }
        };
        ck.transition(steps);
        if let Err(e) = done {
            ck.violate(&key("end"), desc(e));
            *m = Machine::new();
            return;
        }
        let got = m.vm.stack();
        let mut expect = sentinels(below);
        expect.push(want);
        if got != expect {
            let g = got.last().copied().unwrap_or_default();
            let d = if got.len() == expect.len() && got[..below] == expect[..below] {
                format!("gave {g:#x}, expected {want:#x}")
            } else {
                format!("left {} items [{}], expected {} with {want:#x} on top", got.len(), words(&got[got.len().saturating_sub(5)..]), expect.len())
            };
            ck.violate(&key("result"), desc(d));
        }
        let after = m.memory();
        if after != before {
            let i = (0..after.len()).find(|i| after[*i] != before[*i]).unwrap();
            let j = (0..).find(|j| after[i].get(*j) != before[i].get(*j)).unwrap();
            ck.violate(&key("memory"), desc(format!("memory changed: context {}, segment number {} among those compared, cell {j}: {:?} became {:?}", i / (m.nseg - 2), i % (m.nseg - 2), before[i].get(j), after[i].get(j))));
            *m = Machine::new();
        }
        ck.state(&(op, mode == Mode::User, below, args.to_vec()));
    });
    ck.eval(name);
}

pub fn run() -> ! {
    let ck = Check::new("C10", "model_check");
    let w = alu::boundary();
    let p = |i: u32| U256::one() << i;
    let big: Vec<U256> = ck.pick(
        w.clone(),
        {
            let mut v = w.clone();
            for i in 0..256 {
                v.extend([p(i), p(i) - 1, p(i).overflowing_neg().0]);
            }
            v.sort();
            v.dedup();
            v
        },
    );
    let few: Vec<U256> = {
        let k: Vec<usize> = (0..w.len()).step_by(ck.pick(3, 2)).collect();
        let mut v: Vec<U256> = k.into_iter().map(|i| w[i]).collect();
        v.extend([U256::zero(), U256::one(), U256::MAX, p(128), p(255)]);
        v.sort();
        v.dedup();
        v
    };
    // patterns every shift and index is applied to
    let pats: Vec<U256> = {
        let h = |s: &str| U256::from_str_radix(s, 16).unwrap();
        let mut v = vec![
            U256::one(), U256::MAX, p(255), p(255) - 1, p(255) + 1,
            h(&"80".repeat(32)), h(&"7f".repeat(32)), h(&"0123456789abcdef".repeat(4)), h(&"fedcba9876543210".repeat(4)),
            h("8182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9fa0"),
            h("0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20"),
        ];
        if ck.thorough {
            v = v.into_iter().chain(w.iter().copied()).collect();
        }
        v
    };
    let huge: Vec<U256> = w.iter().copied().filter(|x| *x > U256::from(257)).collect();
    let mut jobs: Vec<(&str, u8, Vec<U256>, usize)> = vec![];
    for &(name, op, n) in alu::OPS.iter().chain(alu::KERNEL_OPS) {
        match n {
            1 => jobs.extend(big.iter().map(|a| (name, op, vec![*a], SENTINELS))),
            2 => {
                // EXP takes thousands of steps per case
                let set = if op == 0x0a { &w } else { &big };
                jobs.extend(set.iter().flat_map(|a| set.iter().map(move |b| (name, op, vec![*a, *b], SENTINELS))))
            }
            _ => {
                for a in &few {
                    for b in &few {
                        jobs.extend(few.iter().map(|c| (name, op, vec![*a, *b, *c], SENTINELS)));
                    }
                }
            }
        }
        if matches!(op, 0x0b | 0x1a | 0x1b | 0x1c | 0x1d) {
            for i in (0..=257u64).map(U256::from).chain(huge.iter().copied()) {
                jobs.extend(pats.iter().map(|x| (name, op, vec![i, *x], SENTINELS)));
            }
        }
        if op == 0x0b {
            // every sign position, set and clear, under every index
            for i in 0..=32u64 {
                for k in 0..32u32 {
                    for s in [p(8 * k + 7), U256::MAX - p(8 * k + 7), p(8 * k + 7) | p(8 * k), p(8 * k)] {
                        jobs.push((name, op, vec![i.into(), s], SENTINELS));
                    }
                }
            }
        }
        if op == 0x0a {
            for b in [0u64, 1, 2, 3, 255, 256] {
                for e in 0..ck.pick(70u64, 300) {
                    jobs.push((name, op, vec![b.into(), e.into()], SENTINELS));
                }
            }
        }
        // on a stack of every critical depth
        for d in [0usize, 1, 2, 1023 - n, 1024 - n] {
            for k in 0..4 {
                jobs.push((name, op, (0..n).map(|j| w[(5 + k * 11 + j * 7) % w.len()]).collect(), d));
            }
        }
    }
    // expensive ones spread out
    let kernel_only = |op: u8| (0x0c..=0x0f).contains(&op);
    // what the kernel does itself when it meets the instruction
    let native = |op: u8| !matches!(op, 0x05 | 0x07 | 0x0a | 0x0b | 0x12 | 0x13 | 0x1d);
    jobs.par_iter().with_min_len(64).for_each(|(name, op, args, below)| {
        if ck.stopped() {
            return;
        }
        if !kernel_only(*op) {
            one(&ck, name, *op, args, Mode::User, *below);
        }
        if native(*op) {
            one(&ck, name, *op, args, Mode::Kernel, *below);
        }
    });
    ck.sample("instructions", || json!(alu::OPS.iter().map(|o| o.0).collect::<Vec<_>>()));
    let bounds = json!({
        "binary": format!("all pairs of {} words (EXP: {})", big.len(), w.len()),
        "ternary": format!("all triples of {} words", few.len()),
        "shifts and byte indices": format!("all of 0..=257 and {} larger words, on {} patterns", huge.len(), pats.len()),
        "stack depth below the operands": "0, 1, 2, 3 and up to the limit of 1024",
        "modes": "user and kernel",
    });
    ck.finish(
        "a case is one instruction executed by the real machine on one combination of operands, in one mode, over one stack depth; the whole stack and all other memory are compared",
        bounds,
        &["The machine is the interpreter, which shares the instruction semantics with trace generation (C17 ties the two).", "Gas is not compared here (C11)."],
    )
}
