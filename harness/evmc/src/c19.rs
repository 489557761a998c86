//! C19: the assembler, its optimiser and its stack directive against an
//! independent reading of the source.
use std::collections::{BTreeMap, BTreeSet, HashSet};

use evm_arithmetization::verif_hooks::vm::{self, Assembled};
use vc::rayon::prelude::*;
use vc::{json, Check, U256};

use crate::alu;

/// Where the sequences start, away from every constant used.
const BASE: usize = 5000;
const DEEP: usize = 24;

// ---------------------------------------------------------------- machine

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Op {
    Push(U256),
    PushL(u8),
    /// An instruction without immediate.
    I(&'static str),
    /// Declares a label, local or global.
    L(u8, bool),
}
use Op::*;

fn opcode(m: &str) -> u8 {
    if let Some(n) = m.strip_prefix("DUP") {
        return 0x7f + n.parse::<u8>().unwrap();
    }
    if let Some(n) = m.strip_prefix("SWAP") {
        return 0x8f + n.parse::<u8>().unwrap();
    }
    match m {
        "STOP" => 0,
        "POP" => 0x50,
        "JUMP" => 0x56,
        "JUMPI" => 0x57,
        "JUMPDEST" => 0x5b,
        "MLOAD_GENERAL" => 0xfb,
        "MSTORE_GENERAL" => 0xfc,
        "GET_CONTEXT" => 0xf6,
        "EXIT_KERNEL" => 0xf9,
        "PANIC" => 0xa5,
        "PROVER_INPUT" => 0xee,
        _ => alu::OPS.iter().chain(alu::KERNEL_OPS).find(|o| o.0 == m).unwrap_or_else(|| panic!("{m}")).1,
    }
}

#[derive(Debug, PartialEq, Eq, Clone)]
enum End {
    Fell,
    Jumped(U256),
    Loops,
    Bad(String),
}
#[derive(Debug, PartialEq, Eq, Clone)]
struct Outcome {
    end: End,
    stack: Vec<U256>,
    /// What was stored, in order.
    stores: Vec<(U256, U256)>,
}
enum Next {
    Go,
    Jump(U256),
}
fn load(a: U256, stores: &[(U256, U256)]) -> U256 {
    stores.iter().rev().find(|s| s.0 == a).map(|s| s.1).unwrap_or(!a ^ U256::from(0x77))
}
fn step(op: u8, st: &mut Vec<U256>, stores: &mut Vec<(U256, U256)>) -> Result<Next, String> {
    let mut pop = || st.pop().ok_or_else(|| "underflow".to_string());
    match op {
        0x50 => {
            pop()?;
        }
        0x56 => return Ok(Next::Jump(pop()?)),
        0x57 => {
            let d = pop()?;
            if !pop()?.is_zero() {
                return Ok(Next::Jump(d));
            }
        }
        0x5b => {}
        0xfb => {
            let a = pop()?;
            let v = load(a, stores);
            st.push(v);
        }
        0xfc => {
            // value on top, then the address
            let v = pop()?;
            let a = pop()?;
            stores.push((a, v));
        }
        0x80..=0x8f => {
            let n = (op - 0x7f) as usize;
            if st.len() < n {
                return Err("underflow".into());
            }
            st.push(st[st.len() - n]);
        }
        0x90..=0x9f => {
            let n = (op - 0x8f) as usize;
            let l = st.len();
            if l < n + 1 {
                return Err("underflow".into());
            }
            st.swap(l - 1, l - 1 - n);
        }
        _ => {
            let o = alu::OPS.iter().chain(alu::KERNEL_OPS).find(|o| o.1 == op).ok_or(format!("opcode {op:#x}"))?;
            let mut a = vec![];
            for _ in 0..o.2 {
                a.push(pop()?);
            }
            st.push(alu::eval(op, &a));
        }
    }
    Ok(Next::Go)
}
const STEPS: usize = 1000;

/// Runs the source; `addr` gives the labels their values.
fn run_source(p: &[Op], addr: &BTreeMap<u8, usize>, init: &[U256]) -> Outcome {
    let mut o = Outcome { end: End::Fell, stack: init.to_vec(), stores: vec![] };
    let mut pc = 0;
    // The labels that items of the stack came from: labels may share an address.
    let mut tags: Vec<Option<u8>> = vec![None; init.len()];
    for _ in 0..STEPS {
        let Some(i) = p.get(pc) else {
            return o;
        };
        pc += 1;
        match i {
            Push(x) => {
                o.stack.push(*x);
                tags.push(None);
            }
            PushL(l) => {
                o.stack.push(addr[l].into());
                tags.push(Some(*l));
            }
            L(..) => {}
            I(m) => match step(opcode(m), &mut o.stack, &mut o.stores) {
                Ok(Next::Go) => {
                    let new = o.stack.len();
                    match opcode(m) {
                        d @ 0x80..=0x8f => tags.push(tags[tags.len() - (d - 0x7f) as usize]),
                        w @ 0x90..=0x9f => tags.swap(new - 1, new - 1 - (w - 0x8f) as usize),
                        0x50 | 0x57 | 0x5b | 0xfc => tags.truncate(new),
                        _ => {
                            tags.truncate(new - 1);
                            tags.push(None);
                        }
                    }
                }
                Ok(Next::Jump(d)) => {
                    let tag = tags.last().copied().flatten();
                    tags.truncate(o.stack.len());
                    match p.iter().position(|q| matches!(q, L(l, _) if tag.map_or(U256::from(addr[l]) == d, |t| t == *l))) {
                        Some(q) => pc = q,
                        None => {
                            o.end = End::Jumped(d);
                            return o;
                        }
                    }
                }
                Err(e) => {
                    o.end = End::Bad(e);
                    return o;
                }
            },
        }
    }
    Outcome { end: End::Loops, stack: vec![], stores: vec![] }
}
fn run_code(code: &[u8], from: usize, to: usize, addr: &BTreeMap<u8, usize>, init: &[U256]) -> Outcome {
    let mut o = Outcome { end: End::Fell, stack: init.to_vec(), stores: vec![] };
    let mut pc = from;
    for _ in 0..STEPS {
        if pc == to {
            return o;
        }
        if pc < from || pc > to {
            o.end = End::Bad(format!("left at {pc}"));
            return o;
        }
        let op = code[pc];
        pc += 1;
        if (0x5f..0x80).contains(&op) {
            let n = (op - 0x5f) as usize;
            o.stack.push(U256::from_big_endian(&code[pc..pc + n]));
            pc += n;
            continue;
        }
        match step(op, &mut o.stack, &mut o.stores) {
            Ok(Next::Go) => {}
            Ok(Next::Jump(d)) => {
                if addr.values().any(|a| U256::from(*a) == d) {
                    pc = d.as_usize();
                } else {
                    o.end = End::Jumped(d);
                    return o;
                }
            }
            Err(e) => {
                o.end = End::Bad(e);
                return o;
            }
        }
    }
    Outcome { end: End::Loops, stack: vec![], stores: vec![] }
}

/// Stacks to start from, the top last.
fn valuations() -> Vec<Vec<U256>> {
    let mut l = vc::Lcg(3);
    vec![
        (0..DEEP).map(|i| (U256::from(0xd00 + i) << 128) + U256::from(3 + i)).collect(),
        (0..DEEP).map(|i| [U256::zero(), U256::one(), U256::MAX][i % 3]).collect(),
        (0..DEEP).map(|i| if i % 2 == 0 { U256::one() << (255 - i) } else { l.u256() }).collect(),
    ]
}

fn lit(x: &U256, i: usize) -> String {
    // both notations, by turns
    if i % 2 == 0 {
        format!("{x}")
    } else {
        format!("0x{x:x}")
    }
}
fn text(p: &[Op], id: usize) -> String {
    let mut s = String::new();
    for (i, o) in p.iter().enumerate() {
        match o {
            Push(x) => s += &format!("PUSH {}\n", lit(x, i)),
            PushL(l) => s += &format!("PUSH l{id}_{l}\n"),
            I(m) => {
                s += m;
                s.push('\n');
            }
            L(l, true) => s += &format!("global l{id}_{l}:\n"),
            L(l, false) => s += &format!("l{id}_{l}: global g{id}_{l}:\n"),
        }
    }
    s
}
fn show(p: &[Op]) -> String {
    text(p, 0).trim().replace('\n', "; ")
}
fn prefix() -> String {
    format!("%rep {BASE}\nSTOP\n%endrep\n")
}
fn source(ps: &[&[Op]]) -> String {
    let mut s = prefix();
    for (i, p) in ps.iter().enumerate() {
        s += &format!("global c{i}:\n");
        s += &text(p, i);
    }
    s += &format!("global c{}:\nSTOP\n", ps.len());
    s
}
fn assemble(src: &str, optimize: bool) -> Result<Assembled, String> {
    vc::catch(|| vm::assemble_sources(&[src.to_string()], &[], &[], optimize))
}
fn compare(c: &Check, family: &str, a: &Assembled, p: &[Op], id: usize, optimize: bool, vals: &[Vec<U256>]) {
    let addr: BTreeMap<u8, usize> = p
        .iter()
        .filter_map(|o| match o {
            L(l, g) => Some((*l, a.labels[&format!("{}{id}_{l}", if *g { "l" } else { "g" })])),
            _ => None,
        })
        .collect();
    let (from, to) = (a.labels[&format!("c{id}")], a.labels[&format!("c{}", id + 1)]);
    for v in vals {
        let want = run_source(p, &addr, v);
        let got = run_code(&a.code, from, to, &addr, v);
        if want != got {
            // The listed finding, and nothing but it: the code does what the
            // source would do with De Morgan's law applied across a `DUP1`.
            if let Some((law, q)) = de_morgan_across_dup1(p) {
                if optimize && vals.iter().all(|v| run_source(&q, &addr, v) == run_code(&a.code, from, to, &addr, v)) {
                    c.violate(&format!("optimiser: NOT; DUP1; NOT; {law}"), show(p));
                    return;
                }
            }
            c.violate(
                &format!("{family} {}", show(p)),
                format!(
                    "`{}` assembles ({}) to {} which does something else:\nsource {:?} {:?} top {:x?}\ncode   {:?} {:?} top {:x?}",
                    show(p),
                    if optimize { "optimised" } else { "as it is" },
                    hx(&a.code[from..to]),
                    want.end,
                    want.stores,
                    want.stack.iter().rev().take(6).collect::<Vec<_>>(),
                    got.end,
                    got.stores,
                    got.stack.iter().rev().take(6).collect::<Vec<_>>(),
                ),
            );
            return;
        }
    }
    c.transition(p.len() as u64 * vals.len() as u64);
}
/// `p` with every `x NOT DUP1 NOT AND|OR` as the optimiser rewrites it.
fn de_morgan_across_dup1(p: &[Op]) -> Option<(&'static str, Vec<Op>)> {
    let mut q = p.to_vec();
    let mut law = None;
    for i in 0..p.len().saturating_sub(4) {
        let is = |j: usize, m: &str| matches!(&p[i + j], I(x) if *x == m);
        let pushed = match &p[i] {
            Push(_) | PushL(_) => true,
            I(m) => m.starts_with("DUP"),
            _ => false,
        };
        if pushed && is(1, "NOT") && is(2, "DUP1") && is(3, "NOT") && (is(4, "AND") || is(4, "OR")) {
            law = Some(if is(4, "AND") { "AND" } else { "OR" });
            let at = q.len() - (p.len() - i);
            q.splice(at + 1..at + 5, [I("DUP1"), I(if is(4, "AND") { "OR" } else { "AND" }), I("NOT")]);
        }
    }
    law.map(|l| (l, q))
}
fn check_batch(c: &Check, family: &str, ps: &[Vec<Op>], optimize: bool, vals: &[Vec<U256>]) {
    if c.stopped() {
        return;
    }
    let refs: Vec<&[Op]> = ps.iter().map(|p| &p[..]).collect();
    match assemble(&source(&refs), optimize) {
        Ok(a) => {
            for (i, p) in ps.iter().enumerate() {
                compare(c, family, &a, p, i, optimize, vals);
            }
        }
        Err(_) => {
            for p in ps {
                match assemble(&source(&[p]), optimize) {
                    Ok(a) => compare(c, family, &a, p, 0, optimize, vals),
                    Err(e) => c.violate(
                        &format!("{family} {}", show(p)),
                        format!("`{}` is not assembled: {e}", show(p)),
                    ),
                }
            }
        }
    }
    c.evals(family, ps.len() as u64);
    for p in ps {
        c.state(&(p, optimize));
    }
}

/// Calls `f` on all sequences of `len` symbols, in batches.
fn sequences(c: &Check, family: &str, alphabet: &[Op], len: usize, optimize: bool, keep: impl Fn(&[Op]) -> bool + Sync) {
    let n = alphabet.len();
    let total = n.pow(len as u32);
    const B: usize = 96;
    let vals = valuations();
    (0..total.div_ceil(B)).into_par_iter().for_each(|b| {
        let ps: Vec<Vec<Op>> = (b * B..((b + 1) * B).min(total))
            .filter_map(|mut k| {
                let mut p = Vec::with_capacity(len);
                for _ in 0..len {
                    p.push(alphabet[k % n].clone());
                    k /= n;
                }
                // every label used is declared once
                let mut seen = BTreeSet::new();
                for o in &p {
                    if let L(l, _) = o {
                        if !seen.insert(*l) {
                            return None;
                        }
                    }
                }
                let missing: BTreeSet<u8> = p
                    .iter()
                    .filter_map(|o| match o {
                        PushL(l) if !seen.contains(l) => Some(*l),
                        _ => None,
                    })
                    .collect();
                p.extend(missing.into_iter().map(|l| L(l, true)));
                keep(&p).then_some(p)
            })
            .collect();
        if !ps.is_empty() {
            check_batch(c, family, &ps, optimize, &vals);
        }
    });
    c.sample(family, || json!({"alphabet": alphabet.iter().map(|o| show(std::slice::from_ref(o))).collect::<Vec<_>>(), "length": len, "sequences": total}));
}

fn optimiser(c: &Check) {
    let p = |x: u64| Push(x.into());
    let max = Push(U256::MAX);
    // every instruction a rule names, and some that none does
    let mut wide = vec![p(0), p(1), p(2), max.clone(), p(0x100), Push(U256::one() << 255), PushL(0)];
    wide.extend(
        [
            "DUP1", "DUP2", "SWAP1", "SWAP2", "POP", "ADD", "MUL", "SUB", "DIV", "MOD", "EXP", "AND", "OR", "XOR",
            "NOT", "ISZERO", "EQ", "LT", "GT", "BYTE", "SHL", "SHR", "SGT", "MLOAD_GENERAL", "MSTORE_GENERAL",
        ]
        .map(I),
    );
    for len in 1..=c.pick(3, 4) {
        sequences(c, "sequences of all instructions", &wide, len, true, |_| true);
        if len <= 3 {
            sequences(c, "sequences as they are", &wide, len, false, |_| true);
        }
    }
    // the longer rules
    let mut logic = vec![p(0), max.clone(), PushL(0)];
    logic.extend(["DUP1", "DUP2", "SWAP1", "POP", "NOT", "AND", "OR"].map(I));
    for len in 4..=c.pick(5, 6) {
        sequences(c, "sequences of logic", &logic, len, true, |_| true);
    }
    // several rules in a row
    let mut mix = vec![p(0), p(1)];
    mix.extend(["DUP1", "SWAP1", "POP", "NOT", "ADD", "SUB"].map(I));
    for len in 4..=c.pick(5, 7) {
        sequences(c, "sequences of rules", &mix, len, true, |_| true);
    }
    // jumps and labels of both kinds
    let mut jumps = vec![PushL(0), PushL(1), L(0, false), L(1, true), p(0), p(1)];
    jumps.extend(["JUMP", "JUMPI", "POP", "SWAP1", "MSTORE_GENERAL"].map(I));
    let has_label = |p: &[Op]| p.iter().any(|o| matches!(o, L(..) | I("JUMP") | I("JUMPI")));
    for len in 1..=c.pick(5, 6) {
        sequences(c, "jumps", &jumps, len, true, has_label);
    }
    // constant folding on all pairs of boundary words
    let words = alu::boundary();
    let vals = vec![valuations().remove(0)];
    let ops: Vec<(&str, usize)> = alu::OPS.iter().chain(alu::KERNEL_OPS).map(|o| (o.0, o.2)).collect();
    ops.par_iter().for_each(|(m, n)| {
        let mut all = vec![];
        for x in &words {
            if *n == 1 {
                all.push(vec![Push(*x), I(m)]);
                all.push(vec![Push(*x), I(m), I("ISZERO")]);
                continue;
            }
            // the other operand comes from the stack
            all.push(vec![Push(*x), I(m)]);
            all.push(vec![Push(*x), I("SWAP1"), I(m)]);
            for y in &words {
                let mut s = vec![];
                if *n == 3 {
                    s.push(Push(U256::from(12)));
                }
                s.extend([Push(*y), Push(*x), I(m)]);
                all.push(s);
            }
        }
        for b in all.chunks(256) {
            check_batch(c, "constant folding", b, true, &vals);
        }
    });
}

// -------------------------------------------------------- stack directive

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Rep {
    Name(usize),
    Lit(U256),
    Const,
    Label,
}
const CONST_VALUE: u64 = 0xc0de;
const NAMES: [&str; 20] =
    ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t"];
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Layout {
    /// Sizes of the blocks named, the first on top.
    from: Vec<usize>,
    to: Vec<Rep>,
}
impl Layout {
    fn text(&self) -> String {
        let f: Vec<String> = self
            .from
            .iter()
            .enumerate()
            .map(|(i, n)| if *n == 1 { NAMES[i].to_string() } else { format!("{}: {n}", NAMES[i]) })
            .collect();
        let t: Vec<String> = self
            .to
            .iter()
            .map(|r| match r {
                Rep::Name(i) => NAMES[*i].to_string(),
                Rep::Lit(x) => lit(x, 0),
                Rep::Const => "@SOME_CONST".into(),
                Rep::Label => "somewhere".into(),
            })
            .collect();
        format!("%stack ({}) -> ({})", f.join(", "), t.join(", "))
    }
    fn apply(&self, init: &[U256], label: usize) -> Vec<U256> {
        let total: usize = self.from.iter().sum();
        let (rest, top) = init.split_at(init.len() - total);
        // top first
        let top: Vec<U256> = top.iter().rev().copied().collect();
        let mut blocks = vec![];
        let mut at = 0;
        for n in &self.from {
            blocks.push(&top[at..at + n]);
            at += n;
        }
        let mut new: Vec<U256> = vec![];
        for r in &self.to {
            match r {
                Rep::Name(i) => new.extend(blocks[*i]),
                Rep::Lit(x) => new.push(*x),
                Rep::Const => new.push(CONST_VALUE.into()),
                Rep::Label => new.push(label.into()),
            }
        }
        let mut s = rest.to_vec();
        s.extend(new.into_iter().rev());
        s
    }
}
fn check_layouts(c: &Check, family: &str, ls: &[Layout]) {
    if c.stopped() {
        return;
    }
    let build = |ls: &[Layout], optimize| {
        let mut s = format!("%rep {BASE}\nSTOP\n%endrep\nglobal somewhere:\n");
        for (i, l) in ls.iter().enumerate() {
            s += &format!("global c{i}:\n{}\n", l.text());
        }
        s += &format!("global c{}:\nSTOP\n", ls.len());
        vc::catch(|| vm::assemble_sources(&[s], &[], &[("SOME_CONST".into(), CONST_VALUE.into())], optimize))
    };
    let init: Vec<U256> = (0..40u64).map(|i| (U256::from(0xabc0 + i) << 64) + i).collect();
    let one = |a: &Assembled, l: &Layout, i: usize, optimize: bool| {
        let (from, to) = (a.labels[&format!("c{i}")], a.labels[&format!("c{}", i + 1)]);
        let label = a.labels["somewhere"];
        let mut st = init.clone();
        let mut pc = from;
        let mut bad = None;
        while pc < to {
            let op = a.code[pc];
            pc += 1;
            if (0x5f..0x80).contains(&op) {
                let n = (op - 0x5f) as usize;
                st.push(U256::from_big_endian(&a.code[pc..pc + n]));
                pc += n;
            } else if op == 0x50 || (0x80..0xa0).contains(&op) {
                if step(op, &mut st, &mut vec![]).is_err() {
                    bad = Some(format!("opcode {op:#x} reaches below the stack"));
                    break;
                }
                c.transition(1);
            } else {
                bad = Some(format!("opcode {op:#x} in a rearrangement"));
                break;
            }
        }
        let want = l.apply(&init, label);
        if bad.is_some() || st != want {
            c.violate(
                &format!("{family} {}", l.text()),
                format!(
                    "`{}` assembles ({}) to {}: {:?}\nwant top {:x?}\ngot  top {:x?}",
                    l.text(),
                    if optimize { "optimised" } else { "as it is" },
                    hx(&a.code[from..to]),
                    bad,
                    want.iter().rev().take(8).collect::<Vec<_>>(),
                    st.iter().rev().take(8).collect::<Vec<_>>()
                ),
            );
        }
        c.state(&(family, l));
    };
    for optimize in [false, true] {
        match build(ls, optimize) {
            Ok(a) => ls.iter().enumerate().for_each(|(i, l)| one(&a, l, i, optimize)),
            Err(_) => {
                for l in ls {
                    match build(std::slice::from_ref(l), optimize) {
                        Ok(a) => one(&a, l, 0, optimize),
                        Err(e) => c.violate(&format!("{family} {}", l.text()), format!("`{}`: {e}", l.text())),
                    }
                }
            }
        }
    }
    c.evals(family, ls.len() as u64);
    c.sample(family, || json!(ls[ls.len() / 2].text()));
}
fn words_over<T: Clone>(alphabet: &[T], len: usize) -> Vec<Vec<T>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v
            .into_iter()
            .flat_map(|w: Vec<T>| {
                alphabet.iter().map(move |x| {
                    let mut w = w.clone();
                    w.push(x.clone());
                    w
                })
            })
            .collect();
    }
    v
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}
fn layouts(c: &Check) {
    let big = U256::from(0x123456789abcu64);
    // names, literals, a constant and a label
    let mut all = vec![];
    for n in 0..=4 {
        let mut al: Vec<Rep> = (0..n).map(Rep::Name).collect();
        al.extend([Rep::Lit(5.into()), Rep::Lit(big), Rep::Const, Rep::Label]);
        for len in 0..=c.pick(if n < 4 { 4 } else { 3 }, 4) {
            all.extend(words_over(&al, len).into_iter().map(|to| Layout { from: vec![1; n], to }));
        }
    }
    // names only, dropped and repeated at will
    for n in 1..=4 {
        let al: Vec<Rep> = (0..n).map(Rep::Name).collect();
        for len in 4..=c.pick(5, 7) {
            if n == 4 && len > c.pick(4, 6) {
                continue;
            }
            all.extend(words_over(&al, len).into_iter().map(|to| Layout { from: vec![1; n], to }));
        }
    }
    let run = |family: &str, mut all: Vec<Layout>| {
        all.sort();
        all.dedup();
        all.par_chunks(32).for_each(|l| check_layouts(c, family, l));
    };
    run("small layouts", all);
    // every permutation, with or without an item dropped or added
    let mut all = vec![];
    for n in 5..=c.pick(6, 7) {
        for p in permutations(n) {
            let to: Vec<Rep> = p.iter().map(|i| Rep::Name(*i)).collect();
            all.push(Layout { from: vec![1; n], to: to.clone() });
            if n == 5 {
                all.push(Layout { from: vec![1; n], to: to[1..].to_vec() });
                let mut t = to.clone();
                t.insert(2, Rep::Lit(7.into()));
                all.push(Layout { from: vec![1; n], to: t });
            }
        }
    }
    run("permutations", all);
    // long ones
    let mut all = vec![];
    for n in 7..=17 {
        for r in 0..n {
            let rot: Vec<usize> = (0..n).map(|i| (i + r) % n).collect();
            all.push(rot.clone());
            all.push(rot.iter().rev().copied().collect());
            let mut t: Vec<usize> = (0..n).collect();
            t.swap(0, r);
            all.push(t);
            let mut t: Vec<usize> = (0..n).collect();
            t.swap(n - 1, r);
            all.push(t);
        }
    }
    run(
        "long permutations",
        all.into_iter()
            .map(|p| Layout { from: vec![1; p.len()], to: p.iter().map(|i| Rep::Name(*i)).collect() })
            .collect(),
    );
    // blocks
    let mut all = vec![];
    for sizes in words_over(&[1usize, 2, 3], 2).into_iter().chain(words_over(&[1, 2], 3)).chain([vec![2], vec![4], vec![5, 1], vec![1, 6], vec![4, 4]]) {
        let n = sizes.len();
        let mut al: Vec<Rep> = (0..n).map(Rep::Name).collect();
        al.push(Rep::Lit(5.into()));
        for len in 0..=3 {
            for to in words_over(&al, len) {
                // at most 12 items in all, repetitions of large blocks being costly
                let out: usize = to
                    .iter()
                    .map(|r| match r {
                        Rep::Name(i) => sizes[*i],
                        _ => 1,
                    })
                    .sum();
                if out <= c.pick(8, 9) {
                    all.push(Layout { from: sizes.clone(), to });
                }
            }
        }
    }
    run("blocks", all);
}

/// All directives of the kernel's own sources.
fn kernel_layouts(c: &Check) {
    fn walk(d: &std::path::Path, out: &mut Vec<String>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().is_some_and(|x| x == "asm") {
                out.push(std::fs::read_to_string(p).unwrap_or_default());
            }
        }
    }
    let mut files = vec![];
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    walk(&std::path::Path::new(&repo).join("evm_arithmetization/src/cpu/kernel/asm"), &mut files);
    let mut all: HashSet<Layout> = HashSet::new();
    let mut skipped = 0;
    for f in files {
        let f: String = f.lines().map(|l| l.split("//").next().unwrap_or("")).collect::<Vec<_>>().join("\n");
        for piece in f.split("%stack").skip(1) {
            let Some(l) = parse_layout(piece) else {
                skipped += 1;
                continue;
            };
            all.insert(l);
        }
    }
    c.note("stack directives found in the kernel's sources", json!(all.len()));
    c.note("stack directives not understood", json!(skipped));
    let mut all: Vec<Layout> = all.into_iter().collect();
    all.sort();
    all.par_chunks(8).for_each(|l| check_layouts(c, "layouts of the kernel", l));
}
fn parse_layout(s: &str) -> Option<Layout> {
    let s = s.trim_start().strip_prefix('(')?;
    let (a, s) = s.split_once(')')?;
    let s = s.trim_start().strip_prefix("->")?.trim_start().strip_prefix('(')?;
    let (b, _) = s.split_once(')')?;
    let items = |x: &str| x.split(',').map(|t| t.trim().to_string()).filter(|t| !t.is_empty()).collect::<Vec<_>>();
    let mut names = vec![];
    let mut from = vec![];
    for t in items(a) {
        let (n, k) = match t.split_once(':') {
            Some((n, k)) => (n.trim().to_string(), k.trim().parse().ok()?),
            None => (t, 1),
        };
        names.push(n);
        from.push(k);
    }
    if names.len() > NAMES.len() || from.iter().sum::<usize>() > 17 {
        return None;
    }
    let mut others: Vec<String> = vec![];
    let to = items(b)
        .into_iter()
        .map(|t| {
            if let Some(i) = names.iter().position(|n| *n == t) {
                return Rep::Name(i);
            }
            if let Some(h) = t.strip_prefix("0x") {
                return Rep::Lit(U256::from_str_radix(h, 16).unwrap());
            }
            if t.chars().all(|c| c.is_ascii_digit()) {
                return Rep::Lit(U256::from_dec_str(&t).unwrap());
            }
            // any other constant, variable or label: a literal of its own
            let i = others.iter().position(|o| *o == t).unwrap_or_else(|| {
                others.push(t.clone());
                others.len() - 1
            });
            match (t.starts_with('@'), i) {
                (true, 0) => Rep::Const,
                (false, 0) => Rep::Label,
                _ => Rep::Lit(U256::from(0x10_0000 + 7 * i)),
            }
        })
        .collect();
    Some(Layout { from, to })
}

// ----------------------------------------------- references to what is named

#[derive(Clone, Debug)]
enum It {
    Lit(U256),
    Const(&'static str),
    Label(&'static str),
    Var(usize),
    MLabel(&'static str),
    Op(&'static str),
    Local(&'static str),
    Global(&'static str),
    MDecl(&'static str),
    Bytes(&'static str, Vec<u8>),
    Table(Vec<&'static str>),
    /// `%stack () -> (...)`.
    Stack(Vec<It>),
    Call(&'static str, Vec<It>),
    Rept(usize, Vec<It>),
    Cfg(&'static str, Vec<&'static str>, Vec<It>),
    Macro(&'static str, usize, Vec<It>),
    Prover,
}
const PARAMS: [&str; 2] = ["x", "y"];
const CONSTS: [(&str, u64); 2] = [("ONE_BYTE", 0xab), ("TWO_BYTES", 0xabcd)];

fn arg_text(a: &It) -> String {
    match a {
        It::Lit(x) => format!("0x{x:X}"),
        It::Const(n) => format!("@{n}"),
        It::Label(n) => n.to_string(),
        It::Var(i) => format!("${}", PARAMS[*i]),
        It::MLabel(n) => format!("%%{n}"),
        _ => panic!("{a:?}"),
    }
}
fn it_text(i: &It, out: &mut String) {
    let s = match i {
        It::Lit(_) | It::Const(_) | It::Label(_) | It::Var(_) | It::MLabel(_) => format!("PUSH {}", arg_text(i)),
        It::Op(m) => m.to_string(),
        It::Local(n) => format!("{n}:"),
        It::Global(n) => format!("global {n}:"),
        It::MDecl(n) => format!("%%{n}:"),
        It::Bytes(s, _) => format!("BYTES {s}"),
        It::Table(l) => format!("JUMPTABLE {}", l.join(", ")),
        It::Stack(l) => format!("%stack () -> ({})", l.iter().map(arg_text).collect::<Vec<_>>().join(", ")),
        It::Call(n, a) if a.is_empty() => format!("%{n}"),
        It::Call(n, a) => format!("%{n}({})", a.iter().map(arg_text).collect::<Vec<_>>().join(", ")),
        It::Prover => "PROVER_INPUT(some::thing)".into(),
        It::Rept(n, b) => {
            *out += &format!("%rep {n}\n");
            b.iter().for_each(|i| it_text(i, out));
            *out += "%endrep\n";
            return;
        }
        It::Cfg(kind, feats, b) => {
            let l = format!("feature = {}", feats.join(","));
            *out += &if kind.is_empty() { format!("#[cfg({l})]\n{{\n") } else { format!("#[cfg({kind}({l}))]\n{{\n") };
            b.iter().for_each(|i| it_text(i, out));
            *out += "}\n";
            return;
        }
        It::Macro(n, p, b) => {
            *out += &if *p == 0 { format!("%macro {n}\n") } else { format!("%macro {n}({})\n", PARAMS[..*p].join(", ")) };
            b.iter().for_each(|i| it_text(i, out));
            *out += "%endmacro\n";
            return;
        }
    };
    *out += &s;
    out.push('\n');
}

/// After expansion.
#[derive(Clone, Debug)]
enum Flat {
    Raw(Vec<u8>),
    Ref(String),
    PushRef(String),
    Decl(String),
    Prover,
}
fn push_bytes(x: U256) -> Vec<u8> {
    let mut b = [0; 32];
    x.to_big_endian(&mut b);
    let z = b.iter().take_while(|x| **x == 0).count();
    let mut r = vec![0x5f + (32 - z) as u8];
    r.extend(&b[z..]);
    r
}
struct Expander<'a> {
    macros: BTreeMap<(&'static str, usize), &'a [It]>,
    feats: &'a [&'static str],
    instances: usize,
    file: usize,
    globals: BTreeSet<&'static str>,
    locals: Vec<BTreeSet<&'static str>>,
}
fn active(kind: &str, list: &[&str], feats: &[&str]) -> bool {
    match kind {
        "not" => !list.iter().any(|f| feats.contains(f)),
        "all" => list.iter().all(|f| feats.contains(f)),
        _ => list.iter().any(|f| feats.contains(f)),
    }
}
/// A value an argument or a macro's own label stands for.
#[derive(Clone, Debug)]
enum Val {
    Num(U256),
    /// The label's identity.
    At(String),
}
impl<'a> Expander<'a> {
    fn collect(&mut self, body: &'a [It], file: usize) {
        for i in body {
            match i {
                It::Macro(n, p, b) => {
                    self.macros.insert((n, *p), b);
                }
                It::Cfg(k, l, b) if active(k, l, self.feats) => self.collect(b, file),
                It::Local(n) => {
                    self.locals[file].insert(n);
                }
                It::Global(n) => {
                    self.globals.insert(n);
                }
                // a label declared in a macro belongs to the file calling it
                It::Call(n, a) => {
                    if let Some(b) = self.macros.get(&(*n, a.len())).copied() {
                        self.collect(b, file);
                    }
                }
                _ => {}
            }
        }
    }
    fn label(&self, n: &'static str) -> Val {
        if self.locals[self.file].contains(n) {
            Val::At(format!("{}/{n}", self.file))
        } else {
            assert!(self.globals.contains(n), "undeclared label in a generated program: {n}");
            Val::At(format!("/{n}"))
        }
    }
    fn val(&self, i: &It, args: &[Val], inst: usize) -> Val {
        match i {
            It::Lit(x) => Val::Num(*x),
            It::Const(n) => Val::Num(CONSTS.iter().find(|c| c.0 == *n).unwrap().1.into()),
            It::Label(n) => self.label(n),
            It::Var(k) => args[*k].clone(),
            It::MLabel(n) => Val::At(format!("macro {inst} {n}")),
            _ => panic!("{i:?}"),
        }
    }
    fn expand(&mut self, body: &'a [It], args: &[Val], inst: usize, out: &mut Vec<Flat>) {
        let push = |v: Val, out: &mut Vec<Flat>| match v {
            Val::Num(x) => out.push(Flat::Raw(push_bytes(x))),
            Val::At(l) => out.push(Flat::PushRef(l)),
        };
        for i in body {
            match i {
                It::Lit(_) | It::Const(_) | It::Label(_) | It::Var(_) | It::MLabel(_) => push(self.val(i, args, inst), out),
                It::Op(m) => out.push(Flat::Raw(vec![opcode(m)])),
                It::Local(n) => out.push(Flat::Decl(format!("{}/{n}", self.file))),
                It::Global(n) => out.push(Flat::Decl(format!("/{n}"))),
                It::MDecl(n) => out.push(Flat::Decl(format!("macro {inst} {n}"))),
                It::Bytes(_, b) => out.push(Flat::Raw(b.clone())),
                It::Table(l) => {
                    for n in l {
                        let Val::At(x) = self.label(n) else { unreachable!() };
                        out.push(Flat::Ref(x));
                    }
                }
                It::Stack(l) => {
                    for r in l.iter().rev() {
                        push(self.val(r, args, inst), out);
                    }
                }
                It::Call(n, a) => {
                    let vals: Vec<Val> = a.iter().map(|x| self.val(x, args, inst)).collect();
                    let b = self.macros[&(*n, a.len())];
                    self.instances += 1;
                    let id = self.instances;
                    self.expand(b, &vals, id, out);
                }
                It::Rept(n, b) => (0..*n).for_each(|_| self.expand(b, args, inst, out)),
                It::Cfg(k, l, b) => {
                    if active(k, l, self.feats) {
                        self.expand(b, args, inst, out)
                    }
                }
                It::Macro(..) => {}
                It::Prover => out.push(Flat::Prover),
            }
        }
    }
}
/// The code, the global labels and the places of the prover's inputs.
fn reference(files: &[Vec<It>], feats: &[&'static str]) -> (Vec<u8>, BTreeMap<String, usize>, Vec<usize>) {
    let mut e = Expander {
        macros: BTreeMap::new(),
        feats,
        instances: 0,
        file: 0,
        globals: BTreeSet::new(),
        locals: vec![BTreeSet::new(); files.len()],
    };
    for _ in 0..2 {
        for (i, f) in files.iter().enumerate() {
            e.collect(f, i);
        }
    }
    let mut flat = vec![];
    for (i, f) in files.iter().enumerate() {
        e.file = i;
        e.expand(f, &[], 0, &mut flat);
    }
    let mut at = BTreeMap::new();
    let mut off = 0;
    let mut inputs = vec![];
    for f in &flat {
        match f {
            Flat::Raw(b) => off += b.len(),
            Flat::Ref(_) => off += 3,
            Flat::PushRef(_) => off += 4,
            Flat::Decl(n) => {
                at.insert(n.clone(), off);
            }
            Flat::Prover => {
                inputs.push(off);
                off += 1;
            }
        }
    }
    let mut code = vec![];
    for f in &flat {
        match f {
            Flat::Raw(b) => code.extend(b),
            Flat::Ref(n) => code.extend(&(at[n] as u32).to_be_bytes()[1..]),
            Flat::PushRef(n) => {
                code.push(0x62);
                code.extend(&(at[n] as u32).to_be_bytes()[1..]);
            }
            Flat::Decl(_) => {}
            Flat::Prover => code.push(opcode("PROVER_INPUT")),
        }
    }
    let globals = at.into_iter().filter_map(|(n, o)| n.strip_prefix('/').map(|n| (n.to_string(), o))).collect();
    (code, globals, inputs)
}
fn check_files(c: &Check, family: &str, files: &[Vec<It>], feats: &[&'static str]) {
    if c.stopped() {
        return;
    }
    let src: Vec<String> = files
        .iter()
        .map(|f| {
            let mut s = String::new();
            f.iter().for_each(|i| it_text(i, &mut s));
            s
        })
        .collect();
    let consts: Vec<(String, U256)> = CONSTS.iter().map(|(n, v)| (n.to_string(), (*v).into())).collect();
    let (code, labels, inputs) = reference(files, feats);
    c.eval(family);
    c.state(&src);
    c.transition(code.len() as u64);
    c.sample(family, || json!(src));
    match vc::catch(|| vm::assemble_sources(&src, feats, &consts, false)) {
        Err(e) => c.violate(&format!("{family} {src:?}"), format!("not assembled: {e}\n{}", src.join("\n---\n"))),
        Ok(a) => {
            if a.code != code || a.labels != labels || a.prover_inputs != inputs {
                c.violate(
                    &format!("{family} {src:?}"),
                    format!(
                        "{}\nfeatures {feats:?}\nwant {} {labels:?} {inputs:?}\ngot  {} {:?} {:?}",
                        src.join("\n---\n"),
                        short(&code),
                        short(&a.code),
                        a.labels,
                        a.prover_inputs
                    ),
                );
            }
        }
    }
}
fn hx(c: &[u8]) -> String {
    c.iter().map(|b| format!("{b:02x}")).collect()
}
fn short(c: &[u8]) -> String {
    let z = c.iter().take_while(|x| **x == 0).count();
    if z > 16 {
        format!("({z} zeros) {}", hx(&c[z..]))
    } else {
        hx(c)
    }
}

fn references(c: &Check) {
    let n = |x: u64| It::Lit(x.into());
    // what a macro of one parameter may contain
    let menu: Vec<It> = vec![
        It::Var(0),
        It::MLabel("in"),
        It::MDecl("in"),
        It::Label("out"),
        It::Label("all"),
        It::Const("TWO_BYTES"),
        It::Op("SWAP1"),
        It::Stack(vec![It::Var(0), It::MLabel("in"), It::Const("TWO_BYTES")]),
        It::Call("inner", vec![It::Var(0)]),
        It::Call("inner", vec![It::MLabel("in")]),
        It::Call("pair", vec![n(9), It::Var(0)]),
        It::Rept(2, vec![It::Op("POP"), It::Call("inner", vec![It::Label("out")])]),
        It::Cfg("", vec!["f1"], vec![It::Op("ADD"), It::Call("inner", vec![n(3)])]),
    ];
    let inner = It::Macro("inner", 1, vec![It::MDecl("in"), It::Var(0), It::MLabel("in"), It::MLabel("end"), It::MDecl("end")]);
    let pair = It::Macro("pair", 2, vec![It::Var(1), It::MDecl("x"), It::Var(0), It::MLabel("x"), It::Call("inner", vec![It::MLabel("x")])]);
    // the same name with another number of parameters is another macro
    let inner0 = It::Macro("inner", 0, vec![It::Op("JUMPDEST")]);
    let mut bodies: Vec<Vec<It>> = vec![];
    let depth = c.pick(2, 3);
    for len in 0..=depth {
        for w in words_over(&(0..menu.len()).collect::<Vec<_>>(), len) {
            let mut b: Vec<It> = w.iter().map(|i| menu[*i].clone()).collect();
            let decls = w.iter().filter(|i| **i == 2).count();
            if decls > 1 {
                continue;
            }
            if decls == 0 {
                b.push(It::MDecl("in"));
            }
            bodies.push(b);
        }
    }
    let args = [n(0), n(0xffff), It::Label("out"), It::Label("all"), It::Const("ONE_BYTE")];
    let calls: Vec<Vec<It>> = args
        .iter()
        .flat_map(|a| {
            let call = It::Call("m", vec![a.clone()]);
            vec![
                vec![call.clone()],
                vec![call.clone(), It::Op("POP"), call.clone()],
                vec![It::Rept(2, vec![call.clone(), It::Op("POP")])],
                vec![It::Call("outer", vec![a.clone()])],
                vec![It::Cfg("any", vec!["f1", "f2"], vec![call.clone()]), It::Call("inner", vec![])],
            ]
        })
        .collect();
    bodies.par_iter().for_each(|b| {
        for (k, call) in calls.iter().enumerate() {
            let m = It::Macro("m", 1, b.clone());
            let outer = It::Macro("outer", 1, vec![It::MLabel("in"), It::Call("m", vec![It::Var(0)]), It::MDecl("in"), It::Call("m", vec![It::MLabel("in")])]);
            let mut f0 = vec![It::Op("STOP"), It::Label("out"), It::Local("out"), It::Op("STOP")];
            let mut f1 = vec![It::Label("out"), It::Op("STOP"), It::Global("all")];
            let defs = [m, inner.clone(), pair.clone(), inner0.clone(), outer];
            // definitions before and after their use, in this file or the other
            match k % 3 {
                0 => {
                    f0.splice(0..0, defs);
                    f1.extend(call.clone());
                }
                1 => {
                    f1.extend(call.clone());
                    f1.extend(defs);
                }
                _ => {
                    f1.splice(0..0, call.clone());
                    f0.splice(2..2, defs);
                }
            }
            f1.push(It::Local("out"));
            f1.push(It::Op("POP"));
            let feats: &[&'static str] = [&["f1"][..], &["f2"], &[]][(k + b.len()) % 3];
            check_files(c, "macros", &[f0, f1], feats);
        }
    });

    // feature blocks, alone and nested, whatever is active
    let kinds = ["", "any", "all", "not"];
    let lists: [Vec<&'static str>; 4] = [vec!["f1"], vec!["f2"], vec!["f1", "f2"], vec!["f2", "f3"]];
    let sets: Vec<Vec<&'static str>> =
        (0..8u8).map(|m| ["f1", "f2", "f3"].into_iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1).collect()).collect();
    for k in kinds {
        for l in &lists {
            for k2 in kinds {
                for l2 in &lists {
                    for s in &sets {
                        let f = vec![
                            It::Call("m", vec![]),
                            It::Cfg(k, l.clone(), vec![It::Op("ADD"), It::Cfg(k2, l2.clone(), vec![It::Label("here"), It::Op("MUL")]), It::Label("here")]),
                            It::Cfg(k2, l2.clone(), vec![It::Macro("m", 0, vec![It::Op("SUB"), It::MLabel("e"), It::MDecl("e")])]),
                            It::Cfg(if k2 == "not" { if l2.len() > 1 { "any" } else { "" } } else { "never" }, l2.clone(), vec![It::Macro("m", 0, vec![It::Op("DIV")])]),
                            It::Global("here"),
                            It::Op("STOP"),
                        ];
                        // exactly one definition of `m` must be active
                        let on = active(k2, l2, s);
                        let f = if k2 == "not" {
                            f
                        } else {
                            let other = if on { vec![] } else { vec![It::Macro("m", 0, vec![It::Op("DIV")])] };
                            let mut g = f;
                            g.remove(3);
                            g.extend(other);
                            g
                        };
                        check_files(c, "feature blocks", &[f], s);
                    }
                }
            }
        }
    }
    // sizes of pushes, in every notation
    let mut all = vec![];
    for i in 0..=32u32 {
        let e = if i == 32 { U256::MAX } else { (U256::one() << (8 * i)) - 1 };
        all.extend([e, e.saturating_add(1.into()), e.saturating_sub(1.into()), e >> 1, (e >> 1).saturating_add(1.into())]);
    }
    all.extend(alu::boundary());
    all.sort();
    all.dedup();
    for x in &all {
        let forms = [
            format!("PUSH {x}"),
            format!("PUSH 0x{x:x}"),
            format!("push 0X{x:X}"),
            format!("Push 0x{:0>w$} // and\n", format!("{x:x}"), w = 64.min(format!("{x:x}").len() + 3)),
            format!("/* * 1 / */PUSH\u{20}00{x} /* x */"),
            format!("%stack () -> ({x})"),
            format!("%stack(/* */)->(0x{x:x})"),
            format!("%p({x})"),
            format!("%p ( 0x{x:x} )").replace("%p ", "%p"),
            format!("%s(0x{x:X})"),
        ];
        for (k, f) in forms.iter().enumerate() {
            let src = format!("%macro p(v)\nPUSH $v\n%endmacro\n%macro s(v)\n%stack () -> ($v)\n%endmacro\nglobal a:\n{f}\nglobal b:\nPUSH b\n");
            let want = {
                let mut w = push_bytes(*x);
                let l = w.len() as u8;
                w.extend([0x62, 0, 0, l]);
                w
            };
            c.eval("sizes of pushes");
            match vc::catch(|| vm::assemble_sources(&[src.clone()], &[], &[], false)) {
                Ok(a) if a.code == want && a.labels["b"] == want.len() - 4 => {}
                Ok(a) => c.violate(&format!("push {k} {x:x}"), format!("{f:?} gives {} {:?}", short(&a.code), a.labels)),
                Err(e) => c.violate(&format!("push {k} {x:x}"), format!("{f:?}: {e}")),
            }
        }
        c.state(&(x, "push"));
    }
    // constants of every size
    for x in &all {
        for f in ["PUSH @K", "%stack () -> (@K)", "%p(@K)", "%s(@K)"] {
            let src = format!("{f}\n%macro p(v)\nPUSH $v\n%endmacro\n%macro s(v)\n%stack () -> ($v)\n%endmacro\n");
            c.eval("constants");
            match vc::catch(|| vm::assemble_sources(&[src], &[], &[("K".into(), *x), ("KK".into(), 1.into())], false)) {
                Ok(a) if a.code == push_bytes(*x) => {}
                Ok(a) => c.violate(&format!("const {f} {x:x}"), format!("{f:?} with {x:#x} gives {}", short(&a.code))),
                Err(e) => c.violate(&format!("const {f} {x:x}"), format!("{f:?}: {e}")),
            }
        }
    }
    // data, tables, prover inputs and repetitions around labels, at offsets of all sizes
    let items: Vec<It> = vec![
        It::Bytes("0x00, 255, 0xFf, @ONE_BYTE", vec![0, 255, 255, 0xab]),
        It::Table(vec!["here", "there", "all"]),
        It::Prover,
        It::Rept(3, vec![It::Label("there"), It::Rept(2, vec![It::Op("POP")])]),
        It::Rept(0, vec![It::Op("ADD")]),
        It::Label("all"),
        It::Label("there"),
        It::Call("mm", vec![It::Label("there")]),
        It::Lit(U256::MAX),
    ];
    for pad in [0usize, 1, 250, 255, 256, 65530, 65535, 65536, 70000] {
        let f = |w: Vec<usize>| {
            let f0 = vec![
                It::Rept(pad, vec![It::Op("STOP")]),
                It::Label("there"),
                It::Label("here"),
                It::Local("there"),
                It::Op("ADD"),
                It::Global("here"),
            ];
            let mut f1: Vec<It> = w.iter().map(|i| items[*i].clone()).collect();
            f1.insert(0, It::Local("there"));
            f1.push(It::Global("all"));
            f1.push(It::Label("there"));
            let f2 = vec![It::Global("there"), It::Macro("mm", 1, vec![It::Var(0), It::Label("here"), It::Prover]), It::Label("there"), It::Label("all")];
            check_files(c, "data and offsets", &[f0, f1, f2], &[]);
        };
        let idx: Vec<usize> = (0..items.len()).collect();
        let len = if pad > 1000 { 1 } else { c.pick(2, 3) };
        words_over(&idx, len).into_par_iter().for_each(f);
    }
}

pub fn run() -> ! {
    let c = Check::new("C19", "model_check");
    let only = std::env::var("VERIF_ONLY").unwrap_or_default();
    let want = |f: &str| only.is_empty() || only.contains(f);
    let timed = |n: &str, f: &dyn Fn(&Check)| {
        if want(n) {
            let t = c.elapsed();
            f(&c);
            eprintln!("{n}: {:.1} s", (c.elapsed() - t).as_secs_f64());
        }
    };
    timed("optimiser", &optimiser);
    timed("layouts", &layouts);
    timed("kernel", &kernel_layouts);
    timed("references", &references);
    let thorough = c.thorough;
    let pick = |q: &'static str, t: &'static str| if thorough { t } else { q };
    c.finish(
        "every source program of the families, assembled by the code under test, is executed (or laid out) byte by byte and compared with an independent execution (or layout) of the source",
        json!({
            "instruction sequences": pick("length up to 3 over 32 instructions, 5 over 10 of logic and 8 of arithmetic, 5 over 11 with jumps", "length up to 4 over 32 instructions, 6 over 10 of logic, 7 over 8 of arithmetic, 6 over 11 with jumps"),
            "constant folding": "every instruction on all pairs of about 60 boundary words",
            "stacks": "three valuations of a stack of 24 words",
            "stack directives": "up to 4 names and 4 replacements over names, literals, constant, label; up to 7 replacements over names; all permutations of up to 7; rotations and reversals to 17; blocks",
            "macros": pick("bodies of up to 2 items of 13", "bodies of up to 3 items of 13"),
        }),
        &["stacks deep enough for every instruction: an optimisation may remove a stack underflow"],
    )
}
