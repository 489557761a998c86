//! C16: the co-processor tables. Every row an honest prover makes is
//! accepted and says what it should; a row altered so that what it says is
//! false is refused.
use std::collections::HashSet;

use evm_arithmetization::verif_hooks::tables::{self as tb, ArithOp, Starks};
use plonky2::field::types::Field;
use vc::big::{from_big, to_big};
use vc::rayon::prelude::*;
use vc::{json, BigInt, BigUint, Check, U256};

use crate::alu;
use crate::c16b;
use crate::ctl::{self, f, row, u, Lookups, F};

pub struct Tables {
    pub starks: Starks,
    pub lk: Lookups,
}

/// Sixteen-bit limbs of a word.
fn limbs(x: U256) -> Vec<F> {
    (0..16).map(|i| f(((x >> (16 * i)).low_u64()) & 0xffff)).collect()
}
/// Thirty-two-bit limbs of a word.
pub fn limbs32(x: U256) -> Vec<F> {
    (0..8).map(|k| f((x >> (32 * k)).low_u64() & 0xffff_ffff)).collect()
}
/// A word from 32-bit limbs, if they are.
pub fn word(l: &[F]) -> Option<U256> {
    let mut r = U256::zero();
    for (i, x) in l.iter().enumerate() {
        let x = u(*x);
        if x >= 1 << 32 {
            return None;
        }
        r = r | (U256::from(x) << (32 * i));
    }
    Some(r)
}

/// What the processor asks of the arithmetic table: the tuples beyond opcode
/// and data that go with an arithmetic instruction.
struct Asked {
    arith: Vec<Vec<F>>,
}
const DATA: usize = 33;

fn asked(t: &Tables, looking: &[ctl::Side]) -> Asked {
    let _ = t;
    let cols = ctl::parse(&tb::cpu_columns());
    let op = cols.get("op");
    let width = 400;
    let mut arith = vec![];
    for flag in ["binary_op", "fp254_op", "ternary_op", "shift"] {
        let mut r = vec![F::ZERO; width];
        r[op.get(flag).num() as usize] = F::ONE;
        for s in looking {
            if s.filter.eval(&r, &r) != F::ZERO {
                let x = s.tuple(&r, &r)[DATA..].to_vec();
                if !arith.contains(&x) {
                    arith.push(x);
                }
            }
        }
    }
    Asked { arith }
}

/// Whether what a row of the arithmetic table says is true.
fn arith_true(a: &Asked, tuple: &[F]) -> Result<(), String> {
    let w: Vec<Option<U256>> = (0..4).map(|i| word(&tuple[1 + 8 * i..9 + 8 * i])).collect();
    if w.iter().any(|x| x.is_none()) {
        return Err("limbs beyond 32 bits".into());
    }
    let w: Vec<U256> = w.into_iter().map(|x| x.unwrap()).collect();
    if !a.arith.contains(&tuple[DATA..].to_vec()) {
        return Ok(());
    }
    let op = u(tuple[0]);
    let (name, want) = match op {
        0x01..=0x04 | 0x06 | 0x08 | 0x09 | 0x0c..=0x11 | 0x1a => {
            (op, alu::eval(op as u8, &w[..3]))
        }
        // the shifted one is the second input and the power of two the third
        0x1b => (op, from_big(&(to_big(w[1]) * to_big(w[2])))),
        0x1c => (op, if w[2].is_zero() { U256::zero() } else { w[1] / w[2] }),
        _ => return Ok(()),
    };
    if w[3] == want {
        Ok(())
    } else {
        Err(format!("opcode {name:#x} on ({:#x}, {:#x}, {:#x}) gives {:#x}, where {want:#x} is right", w[0], w[1], w[2], w[3]))
    }
}

struct Arith<'a> {
    t: &'a Tables,
    asked: Asked,
    looked: ctl::Side,
    /// Columns that only take values of the range table.
    ranged: HashSet<usize>,
    reg: [std::ops::Range<usize>; 4],
    zero: Vec<F>,
    range: usize,
}
impl Arith<'_> {
    /// The rows `r`, standing between `prev` and `next`, pass.
    fn accepts(&self, r: &[Vec<F>], prev: &[F], next: &[F]) -> bool {
        for x in r {
            for c in &self.ranged {
                if u(x[*c]) >= self.range as u64 {
                    return false;
                }
            }
        }
        let s = &self.t.starks;
        for i in 0..r.len() {
            let n = if i + 1 < r.len() { &r[i + 1][..] } else { next };
            if !s.holds(0, &r[i], n, false, false) {
                return false;
            }
        }
        s.holds(0, prev, &r[0], false, false)
    }
    /// Refused, or everything said is true.
    fn sound(&self, r: &[Vec<F>], prev: &[F], next: &[F]) -> Result<bool, String> {
        // cheap part first: what do the rows say
        let mut lie = None;
        for i in 0..r.len() {
            let n = if i + 1 < r.len() { &r[i + 1][..] } else { next };
            let fl = self.looked.filter.eval(&r[i], n);
            if fl == F::ZERO {
                continue;
            }
            if fl != F::ONE {
                lie = Some(format!("the row counts {} times", u(fl)));
                continue;
            }
            if let Err(e) = arith_true(&self.asked, &self.looked.tuple(&r[i], n)) {
                lie = Some(e);
            }
        }
        let Some(lie) = lie else { return Ok(false) };
        if self.accepts(r, prev, next) {
            Err(lie)
        } else {
            Ok(true)
        }
    }
}

fn name(o: &ArithOp) -> &'static str {
    match o {
        ArithOp::Binary(i, ..) => tb::BINARY[*i],
        ArithOp::Ternary(i, ..) => tb::TERNARY[*i],
        ArithOp::RangeCheck(..) => "RangeCheck",
    }
}
/// The instruction and its stack operands.
fn instr(o: &ArithOp) -> Option<(u8, Vec<U256>)> {
    const B: [u8; 13] = [1, 2, 3, 4, 6, 0x10, 0x11, 0xc, 0xd, 0xe, 0x1a, 0x1b, 0x1c];
    match *o {
        ArithOp::Binary(i, a, b) => Some((B[i], vec![a, b])),
        ArithOp::Ternary(i, a, b, c) => Some(([8, 9, 0xf][i], vec![a, b, c])),
        _ => None,
    }
}

fn cases(words: &[U256], few: &[U256]) -> Vec<ArithOp> {
    let mut v = vec![];
    for i in 0..13 {
        let shift = i >= 10;
        for a in words {
            for b in words {
                v.push(ArithOp::Binary(i, *a, *b));
            }
        }
        if shift {
            for k in 0..=257u64 {
                for b in [U256::MAX, U256::from_str_radix(&"0123456789abcdef".repeat(4), 16).unwrap()] {
                    v.push(ArithOp::Binary(i, k.into(), b));
                }
            }
        }
    }
    for i in 0..3 {
        for a in few {
            for b in few {
                for c in few {
                    v.push(ArithOp::Ternary(i, *a, *b, *c));
                }
            }
        }
    }
    for a in few {
        v.push(ArithOp::RangeCheck(*a, !*a, *a, 0x20.into(), *a));
    }
    v
}

/// Rows of a table that belong to each operation.
struct Made {
    op: ArithOp,
    rows: Vec<Vec<F>>,
}

fn make(ck: &Check, a: &Arith, ops: &[ArithOp]) -> Vec<Made> {
    let t = a.t.starks.arithmetic(ops);
    let n = t[0].len();
    // the processor's order of operands and the result are what is looked up
    let mut i = 0;
    let mut out = vec![];
    let flags = |r: &[F]| a.looked.filter.eval(r, r) != F::ZERO;
    for op in ops {
        let mut rows = vec![row(&t, i)];
        if !flags(&rows[0]) {
            ck.violate(&format!("arith:row:{op:x?}"), format!("no row says {op:x?}"));
            return out;
        }
        i += 1;
        let two = row(&t, i);
        // a second row says nothing itself; padding is all zero
        if !flags(&two) && (two[..a.ranged.len()].iter().any(|x| *x != F::ZERO) || two.iter().enumerate().any(|(c, x)| a.ranged.contains(&c) && *x != F::ZERO)) {
            rows.push(two);
            i += 1;
        }
        let tuple = a.looked.tuple(&rows[0], &rows[0]);
        if let Some((opc, args)) = instr(op) {
            let mut want = vec![f(opc as u64)];
            let word32 = |x: U256| (0..8).map(|k| f((x >> (32 * k)).low_u64() & 0xffff_ffff)).collect::<Vec<_>>();
            for x in &args {
                want.extend(word32(*x));
            }
            let res = alu::eval(opc, &args);
            let ok = tuple[..want.len()] == want[..] && tuple[25..33] == word32(res)[..];
            if !ok || op.result() != res {
                ck.violate(&format!("arith:says:{op:x?}"), format!("{op:x?}: result {:#x}, expected {res:#x}; the row says {:?}", op.result(), tuple.iter().map(|x| u(*x)).collect::<Vec<_>>()));
            }
        }
        if let Err(e) = arith_true(&a.asked, &tuple) {
            ck.violate(&format!("arith:honest:{op:x?}"), format!("the row made for {op:x?} says that {e}"));
        }
        ck.state(&("arith", format!("{op:?}")));
        ck.eval("arithmetic rows made");
        out.push(Made { op: op.clone(), rows });
    }
    // all constraints of the whole table
    (0..n).into_par_iter().with_min_len(1024).for_each(|i| {
        if ck.stopped() {
            return;
        }
        let (lv, nv) = (row(&t, i), row(&t, (i + 1) % n));
        let ok = a.t.starks.holds(0, &lv, &nv, i == 0, i + 1 == n) && a.t.lk.inner[0].iter().all(|l| l.ok(&lv, &nv, &|x| x < a.range as u64));
        ck.transition(1);
        if !ok {
            let o = out.iter().find(|m| m.rows.contains(&lv));
            ck.violate(&format!("arith:refused:{:x?}", o.map(|o| &o.op)), format!("row {i}, made for {:x?}, is refused", o.map(|o| &o.op)));
        }
    });
    out
}

/// The polynomial identity behind the modular operations, solved for the
/// cells a prover may choose freely.
struct Modular {
    input: Vec<i64>,
    num: BigInt,
    m: U256,
    quo_at: std::ops::Range<usize>,
    rem_at: std::ops::Range<usize>,
    div: bool,
    sub: bool,
}
fn big_limbs(x: U256) -> Vec<i64> {
    limbs(x).into_iter().map(|v| u(v) as i64).collect()
}
fn modular(a: &Arith, m: &Made) -> Option<Modular> {
    let out = a.reg[3].clone();
    let aux = out.end..out.end + 16;
    let dbl = out.end..out.end + 32;
    let pad = |mut v: Vec<i64>| {
        v.resize(32, 0);
        v
    };
    let (op, args) = instr(&m.op)?;
    let bi = |x: U256| BigInt::from(to_big(x));
    let zip = |g: &dyn Fn(i64, i64) -> i64| big_limbs(args[0]).iter().zip(&big_limbs(args[1])).map(|(x, y)| g(*x, *y)).collect::<Vec<_>>();
    Some(match op {
        4 => Modular { input: pad(big_limbs(args[0])), num: bi(args[0]), m: args[1], quo_at: out, rem_at: aux, div: true, sub: false },
        6 => Modular { input: pad(big_limbs(args[0])), num: bi(args[0]), m: args[1], quo_at: aux, rem_at: out, div: false, sub: false },
        0x1c => {
            let d = if args[0] < 256.into() { U256::one() << args[0].as_u32() } else { U256::zero() };
            Modular { input: pad(big_limbs(args[1])), num: bi(args[1]), m: d, quo_at: out, rem_at: aux, div: true, sub: false }
        }
        8 | 9 | 0xf | 0xc | 0xd | 0xe => {
            let md = if matches!(op, 0xc..=0xe) { from_big(&alu::bn_base()) } else { args[2] };
            let (input, num) = match op {
                8 | 0xc => (zip(&|x, y| x + y), bi(args[0]) + bi(args[1])),
                0xf | 0xe => (zip(&|x, y| x - y), bi(args[0]) - bi(args[1])),
                _ => {
                    let (x, y) = (big_limbs(args[0]), big_limbs(args[1]));
                    let mut p = vec![0i64; 32];
                    for i in 0..16 {
                        for j in 0..16 {
                            p[i + j] += x[i] * y[j];
                        }
                    }
                    (p, bi(args[0]) * bi(args[1]))
                }
            };
            Modular { input: pad(input), num, m: md, quo_at: dbl, rem_at: out, div: false, sub: matches!(op, 0xf | 0xe) }
        }
        _ => return None,
    })
}
fn to_limbs(x: &BigUint, n: usize) -> Option<Vec<i64>> {
    let mut v = vec![];
    let mut b = x.to_bytes_le();
    b.resize(b.len().max(2 * n), 0);
    if b[2 * n..].iter().any(|x| *x != 0) {
        return None;
    }
    for i in 0..n {
        v.push(b[2 * i] as i64 + 256 * b[2 * i + 1] as i64);
    }
    Some(v)
}
impl Modular {
    /// Rows claiming quotient `q` and remainder `r`, the flag cells for a zero
    /// modulus being as given; `red` is what stands for remainder < modulus.
    fn rows(&self, a: &Arith, m: &Made, q: &BigInt, r: &BigUint, zero: bool, dzero: bool, red: U256, clobber_low: bool) -> Option<Vec<Vec<F>>> {
        let st = a.reg[0].start;
        let neg = vc::big::is_neg(q);
        let ql = to_limbs(&q.magnitude().clone(), 32)?;
        let rl = to_limbs(r, 16)?;
        let mut ml = big_limbs(self.m);
        ml[0] += zero as i64;
        let sgn = if neg { -1 } else { 1 };
        if neg && !self.sub {
            return None;
        }
        // s(x) (x - 2^16) = input - r - q m
        let mut c: Vec<i128> = self.input.iter().map(|x| *x as i128).collect();
        for i in 0..16 {
            c[i] -= rl[i] as i128;
        }
        for i in 0..32 {
            for j in 0..16 {
                if i + j < 32 {
                    c[i + j] -= (sgn * ql[i]) as i128 * ml[j] as i128;
                } else if ql[i] * ml[j] != 0 {
                    return None;
                }
            }
        }
        // c = (x - b) s: c_0 = -b s_0, c_i = s_{i-1} - b s_i
        let b = 1i128 << 16;
        let mut s = vec![0i128; 32];
        let mut prev = 0i128;
        for i in 0..32 {
            let t = prev - c[i];
            if t % b != 0 {
                return None;
            }
            s[i] = t / b;
            prev = s[i];
        }
        if s[31] != 0 {
            return None;
        }
        let mut lv = m.rows[0].clone();
        let mut nv = m.rows[1].clone();
        let nq = self.quo_at.len();
        let mut qc: Vec<i64> = ql[..nq].to_vec();
        if ql[nq..].iter().any(|x| *x != 0) {
            return None;
        }
        if self.sub {
            if ql[16..].iter().any(|x| *x != 0) {
                return None;
            }
            for i in 0..16 {
                qc[i] = sgn * ql[i] + if neg { 65535 } else { 0 };
            }
            qc[16] = neg as i64;
        }
        let _ = clobber_low;
        for (i, x) in self.quo_at.clone().zip(&qc) {
            lv[i] = f(*x as u64);
        }
        for (i, x) in self.rem_at.clone().zip(&rl) {
            lv[i] = f(*x as u64);
        }
        for (i, x) in (st..st + 16).zip(limbs(red)) {
            nv[i] = x;
        }
        nv[st + 16] = f(zero as u64);
        for i in 0..31 {
            let x = s[i] + (1 << 20);
            if !(0..1i128 << 32).contains(&x) {
                return None;
            }
            nv[st + 17 + i] = f((x & 0xffff) as u64);
            nv[st + 48 + i] = f((x >> 16) as u64);
        }
        nv[st + 79] = f(dzero as u64);
        Some(vec![lv, nv])
    }
    fn attack(&self, ck: &Check, a: &Arith, m: &Made) -> bool {
        let mb = BigInt::from(to_big(self.m));
        let z = mb == BigInt::from(0);
        let two256 = BigInt::from(1) << 256;
        let mut honest = false;
        for zero in [false, true] {
            let me = if zero { &mb + 1 } else { mb.clone() };
            let base: BigInt = if me == BigInt::from(0) { BigInt::from(0) } else { (&self.num / &me).clone() };
            let mut qs: Vec<BigInt> = vec![];
            for k in [0i64, 1, 2, 3, 255, 65535, 65536, 1 << 40] {
                for b in [base.clone(), BigInt::from(0), BigInt::from(1) << 256] {
                    qs.push(&b + k);
                    qs.push(&b - k);
                }
            }
            qs.sort();
            qs.dedup();
            for q in qs {
                let r = &self.num - &q * &me;
                if vc::big::is_neg(&r) || r >= two256 {
                    continue;
                }
                let r = r.to_biguint().unwrap();
                let rb = BigInt::from(r.clone());
                for dzero in [false, true] {
                    let mut reds: Vec<U256> = [&rb - &mb, &rb - &me, &rb - &me + 1, rb.clone()].iter().map(vc::big::from_signed).collect();
                    reds.sort();
                    reds.dedup();
                    for red in reds {
                        let Some(rows) = self.rows(a, m, &q, &r, zero, dzero, red, false) else { continue };
                        honest |= rows == m.rows;
                        ck.transition(1);
                        if let Err(e) = a.sound(&rows, &a.zero, &a.zero) {
                            ck.violate(
                                &format!("arith:modular:{}:{}", name(&m.op), if z { "zero modulus" } else { "modulus" }),
                                format!("rows claiming a quotient {q:x} and a remainder {r:x} for {:x?} pass: {e}", m.op),
                            );
                        }
                    }
                }
            }
        }
        honest
    }
}

/// Every alteration of one, or two, cells of the rows of one operation.
fn tamper(ck: &Check, a: &Arith, m: &Made, pairs: bool) {
    let width = a.zero.len();
    let free: Vec<(usize, usize)> = (0..m.rows.len()).flat_map(|r| (0..width - 2).map(move |c| (r, c))).collect();
    let say = |what: String, e: String| {
        ck.violate(&format!("arith:tamper:{}", name(&m.op)), format!("the rows for {:x?}, {what}, pass: {e}", m.op));
    };
    let mut n = 0u64;
    let old = |c: (usize, usize)| m.rows[c.0][c.1];
    for c in &free {
        let o = u(old(*c));
        let mut vals: Vec<F> = vec![];
        for d in [1u64, 2, 3, 255, 256, 257, 32767, 32768, 65535, 65536, 1 << 20, 1 << 32] {
            vals.push(old(*c) + f(d));
            vals.push(old(*c) - f(d));
        }
        vals.extend([F::ZERO, F::ONE, f(65535), f(o ^ 0xffff), F::TWO.inverse(), F::NEG_ONE]);
        for v in vals {
            let mut r = m.rows.clone();
            r[c.0][c.1] = v;
            n += 1;
            if let Err(e) = a.sound(&r, &a.zero, &a.zero) {
                say(format!("with cell {c:?} changed from {o} to {}", u(v)), e);
            }
        }
    }
    let nd = ck.pick(4, 12);
    if pairs {
        // alterations that may make up for each other
        let ds: [(i64, i64); 12] = [(1, -1), (1, 1), (-1, -1), (-1, 1), (256, -1), (-256, 1), (1, -256), (-1, 256), (255, 1), (-255, -1), (1, 255), (-1, -255)];
        let add = |x: F, d: i64| if d < 0 { x - f((-d) as u64) } else { x + f(d as u64) };
        for (i, c) in free.iter().enumerate() {
            for e in &free[i + 1..] {
                for (p, q) in ds.iter().copied().take(nd) {
                    let (x, y) = (add(old(*c), p), add(old(*e), q));
                    let bad = |k: &(usize, usize), v: F| a.ranged.contains(&k.1) && u(v) >= a.range as u64;
                    n += 1;
                    if bad(c, x) || bad(e, y) {
                        continue;
                    }
                    let mut r = m.rows.clone();
                    r[c.0][c.1] = x;
                    r[e.0][e.1] = y;
                    if let Err(er) = a.sound(&r, &a.zero, &a.zero) {
                        say(format!("with cells {c:?} and {e:?} changed by {p} and {q}"), er);
                    }
                }
            }
        }
    }
    // another operation's flag in place of this one's
    let flags = 0..a.reg[0].start;
    for g in flags.clone() {
        for code in [0u64, 1, 2, 3, 4, 6, 8, 9, 0xc, 0xd, 0xe, 0xf, 0x10, 0x11, 0x1a, 0x1b, 0x1c] {
            for keep in [true, false] {
                for out in [None, Some(U256::from(12345)), Some(U256::MAX)] {
                    if !pairs && !ck.thorough && out == Some(U256::MAX) {
                        continue;
                    }
                    let mut r = m.rows.clone();
                    if !keep {
                        for x in flags.clone() {
                            r[0][x] = F::ZERO;
                        }
                    }
                    r[0][g] = F::ONE;
                    r[0][flags.end - 1] = f(code);
                    if let Some(w) = out {
                        for (k, x) in a.reg[3].clone().zip(limbs(w)) {
                            r[0][k] = x;
                        }
                    }
                    n += 1;
                    if let Err(e) = a.sound(&r, &a.zero, &a.zero) {
                        ck.violate(&format!("arith:flags:{g}:{code:#x}"), format!("the row for {:x?} with flag {g} set{}, opcode cell {code:#x} and result {out:x?} passes: {e}", m.op, if keep { "" } else { " alone" }));
                    }
                }
            }
        }
    }
    ck.transition(n);
    ck.evals("altered rows", n);
}

/// Rows made of parts of rows of the same operation on other operands.
fn splice(ck: &Check, a: &Arith, x: &Made, y: &Made) {
    let hidden: Vec<usize> = (a.reg[3].end..a.zero.len() - 2).collect();
    let parts: Vec<Vec<usize>> = a.reg.iter().map(|r| r.clone().collect()).chain([hidden]).collect();
    let two = x.rows.len().min(y.rows.len()) > 1;
    let mut n = 0;
    for mask in 1..1u32 << (parts.len() + two as usize) {
        let mut r = x.rows.clone();
        for (k, p) in parts.iter().enumerate() {
            if mask >> k & 1 == 1 {
                for c in p {
                    r[0][*c] = y.rows[0][*c];
                }
            }
        }
        if two && mask >> parts.len() & 1 == 1 {
            r[1] = y.rows[1].clone();
        }
        n += 1;
        if let Err(e) = a.sound(&r, &a.zero, &a.zero) {
            ck.violate(&format!("arith:splice:{}", name(&x.op)), format!("the rows for {:x?} with parts {mask:#b} taken from those for {:x?} pass: {e}", x.op, y.op));
        }
    }
    ck.transition(n);
    ck.evals("spliced rows", n);
}

pub fn arithmetic(ck: &Check, t: &Tables) {
    let s = &t.lk.ctls[0];
    let ranged: HashSet<usize> = t.lk.inner[0].iter().flat_map(|l| l.columns.iter().filter(|c| c.lin.len() == 1 && c.next.is_empty() && c.lin[0].1 == F::ONE).map(|c| c.lin[0].0)).collect();
    let probe = t.starks.arithmetic(&[ArithOp::Binary(0, U256::one(), U256::one())]);
    let n = probe[0].len();
    let set: HashSet<u64> = t.lk.inner[0].iter().flat_map(|l| l.values(&probe)).collect();
    let range = set.len();
    if set.iter().any(|x| *x >= range as u64) || range != 1 << 16 {
        ck.violate("arith:range", format!("the range table has {range} values, greatest {:?}", set.iter().max()));
    }
    let mut a = Arith { t, asked: asked(t, &s.looking), looked: s.looked.clone(), ranged, reg: tb::arithmetic_registers(), zero: vec![], range };
    // a padding row in the middle of the table stands for the neighbours; its
    // counter is made still so that it may stand on either side
    a.zero = row(&probe, n - 1);
    a.zero[a.reg[0].start + 96] = f(range as u64 - 1);
    // the counter of the range table
    let k = a.reg[0].start + 96;
    for (what, i, v) in [("starts at 1", 0usize, 1u64), ("skips a value", 100, 101), ("repeats backwards", 100, 99), ("ends early", n - 1, range as u64 - 2)] {
        let mut p = probe.clone();
        if what == "ends early" || what == "starts at 1" {
            p[k][i] = f(v);
        } else {
            for j in i..n {
                p[k][j] = p[k][j] + f(v) - f(100);
            }
        }
        let ok = (0..n).all(|j| t.starks.holds(0, &row(&p, j), &row(&p, (j + 1) % n), j == 0, j + 1 == n));
        ck.eval("range tables");
        // ending above 2^16 - 1 or not reaching it is only caught at the end
        if ok {
            ck.violate(&format!("arith:counter:{what}"), format!("a range table that {what} passes"));
        }
    }
    let w = alu::boundary();
    let words: Vec<U256> = if ck.thorough { w.clone() } else { w.iter().copied().step_by(2).chain([U256::MAX, U256::one() << 128]).collect() };
    let few: Vec<U256> = w.iter().copied().step_by(ck.pick(6, 3)).chain([U256::zero(), U256::one(), U256::MAX]).collect();
    let all = cases(&words, &few);
    let mut made: Vec<Made> = vec![];
    for ch in all.chunks(32000) {
        made.extend(make(ck, &a, ch));
    }
    // normalise the counters of the rows, so that they may stand anywhere
    for m in &mut made {
        for r in &mut m.rows {
            r[k] = f(range as u64 - 1);
            r[k + 1] = F::ZERO;
        }
    }
    let solved: Vec<bool> = made
        .par_iter()
        .map(|m| {
            if ck.stopped() {
                return true;
            }
            match modular(&a, m) {
                Some(x) if m.rows.len() == 2 => {
                    ck.eval("modular operations attacked");
                    x.attack(ck, &a, m)
                }
                _ => true,
            }
        })
        .collect();
    let lost = solved.iter().filter(|x| !**x).count();
    ck.note("modular rows whose free cells the attack could not reproduce", json!(lost));
    if lost > made.len() / 10 {
        ck.note("attack on modular operations", json!("the layout of the rows is not the one this attack knows; it proves nothing here"));
    }
    // alterations: for each operation, operands chosen so that all shapes occur
    let pick: Vec<U256> = [U256::zero(), U256::one(), U256::from(3), U256::from(31), U256::from(0x10000), (U256::one() << 128) - 1, U256::one() << 128, U256::MAX, U256::from_str_radix(&"0123456789abcdef".repeat(4), 16).unwrap()].to_vec();
    let pick3: Vec<U256> = vec![U256::zero(), U256::from(5), U256::from(0x1234567), U256::MAX];
    let chosen = cases(&pick, &pick3);
    let chosen: Vec<ArithOp> = chosen
        .into_iter()
        .filter(|o| match o {
            ArithOp::Binary(i, x, b) if *i >= 10 => pick.contains(x) || (*b == U256::MAX && (x.as_u64() < 33 || x.as_u64() % 16 == 15)),
            _ => true,
        })
        .collect();
    let mut cm = make(ck, &a, &chosen);
    for m in &mut cm {
        for r in &mut m.rows {
            r[k] = f(range as u64 - 1);
            r[k + 1] = F::ZERO;
        }
    }
    let every = ck.pick(41, 1);
    cm.par_iter().enumerate().for_each(|(i, m)| {
        if !ck.stopped() {
            tamper(ck, &a, m, i % every == 0);
        }
    });
    let groups: Vec<Vec<&Made>> = tb::BINARY.iter().chain(&tb::TERNARY).map(|n| cm.iter().filter(|m| name(&m.op) == *n).collect()).collect();
    groups.par_iter().for_each(|g| {
        let step = ck.pick(5, 1);
        for x in g.iter().step_by(step) {
            for y in g.iter().step_by(step) {
                if !ck.stopped() {
                    splice(ck, &a, x, y);
                }
            }
        }
    });
}

pub fn run() -> ! {
    let ck = Check::new("C16", "model_check");
    let starks = Starks::default();
    let lk = ctl::lookups(&starks);
    let t = Tables { starks, lk };
    let only = std::env::var("C16_ONLY").unwrap_or_default();
    let part = |name: &str, g: &dyn Fn(&Check, &Tables)| {
        if only.is_empty() || only == name {
            let st = ck.elapsed();
            g(&ck, &t);
            ck.note(&format!("seconds for {name}"), json!((ck.elapsed() - st).as_secs_f64()));
        }
    };
    part("logic", &c16b::logic);
    part("packing", &c16b::packing);
    part("keccak", &c16b::keccak);
    part("sponge", &c16b::sponge);
    part("arithmetic", &arithmetic);
    let bounds = json!({
            "operands": ck.pick("every ordered pair of about half of the boundary words, triples of a sixth; shift amounts 0..=257", "every ordered pair of the boundary words, triples of a third; shift amounts 0..=257"),
            "alterations": "every single cell of every row of the chosen operations by each of some twenty values; pairs of cells that may make up for each other; rows spliced from rows of other operations; flags exchanged; for modular operations and divisions, every choice of quotient around the true one, zero and 2^256 with all dependent cells solved for; for the hash tables, rows built by an own generator in which one flag, address, length, state word, padding byte or round state deviates and everything depending on it follows",
            "logic": "all single-bit operand pairs at all 256 positions for the three operations, ordered pairs of patterned words",
            "byte packing": "reads and writes of 0 to 32 bytes",
            "sponge": ck.pick("lengths 0..=300; altered: 14 lengths of one to three blocks", "lengths 0..=700; altered: lengths 0..=280"),
        });
    ck.finish(
        "a case is a row (or pair of rows) of a table, made by the real generator or altered, evaluated by the real constraints and range lookups",
        bounds,
        &[
            "a range or cross-table lookup passes exactly if the looked-up tuples are in the table they look into (soundness of the log-derivative argument)",
            "rows are judged alone and between true or padding rows; alterations of many cells other than the solved-for ones are not enumerated",
            "two permutations made at the same time stamp are not exchanged",
        ],
    )
}
