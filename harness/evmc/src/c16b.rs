//! C16, continued: logic, byte packing, sponge and permutation.
use std::collections::{HashMap, HashSet};

use evm_arithmetization::verif_hooks::tables::{self as tb, PackOp, SpongeOp, Table};
use plonky2::field::types::Field;
use vc::rayon::prelude::*;
use vc::{json, Check, U256};

use crate::c16::{limbs32, word, Tables};
use crate::ctl::{f, row, u, Column, Side, F};

const LOGIC: usize = 5;
const PACK: usize = 1;
const SPONGE: usize = 4;
const KECCAK: usize = 3;
/// Positions of the lookups.
const CTL_PACK: usize = 1;
const CTL_SPONGE: usize = 2;
const CTL_KIN: usize = 3;
const CTL_KOUT: usize = 4;
const CTL_LOGIC: usize = 5;
const CTL_MEM: usize = 6;

fn single(c: &Column) -> Option<usize> {
    (c.lin.len() == 1 && c.next.is_empty() && c.lin[0].1 == F::ONE && c.constant == F::ZERO).then(|| c.lin[0].0)
}

/// A table with what surrounds it: the rows are judged between `prev` and
/// `next`, and lookups into the table itself against the values 0..range.
struct Ctx<'a> {
    t: &'a Tables,
    table: usize,
    range: u64,
}
impl Ctx<'_> {
    fn inner(&self, lv: &[F], nv: &[F]) -> bool {
        self.t.lk.inner[self.table].iter().all(|l| l.ok(lv, nv, &|x| x < self.range))
    }
    /// All rows of a run pass; `ends` says whether the first row is the
    /// table's first and the last its last.
    fn run(&self, rows: &[Vec<F>], ends: (bool, bool)) -> bool {
        let n = rows.len();
        (0..n).all(|i| self.inner(&rows[i], &rows[(i + 1) % n]))
            && (0..n).all(|i| {
                let (fi, la) = (ends.0 && i == 0, i + 1 == n);
                if la && !ends.1 {
                    return true;
                }
                self.t.starks.holds(self.table, &rows[i], &rows[(i + 1) % n], fi, la)
            })
    }
    fn whole(&self, ck: &Check, what: &str, t: &Table) {
        let n = t[0].len();
        let set: HashSet<u64> = self.t.lk.inner[self.table].iter().flat_map(|l| l.values(t)).collect();
        if self.range != 0 && (set.len() as u64 != self.range || set.iter().any(|x| *x >= self.range)) {
            ck.violate(&format!("{what}:range"), format!("the range table of {what} has {} values", set.len()));
        }
        (0..n).into_par_iter().for_each(|i| {
            let (lv, nv) = (row(t, i), row(t, (i + 1) % n));
            ck.transition(1);
            if !(self.t.starks.holds(self.table, &lv, &nv, i == 0, i + 1 == n) && self.inner(&lv, &nv)) {
                ck.violate(&format!("{what}:refused"), format!("row {i} of the table made for {what} is refused"));
            }
        });
    }
}

fn deltas(o: F) -> Vec<F> {
    let mut v = vec![F::ZERO, F::ONE, F::TWO, F::NEG_ONE, F::TWO.inverse(), f(255), f(256), f(u(o) ^ 1)];
    for d in [1u64, 2, 255, 256, 65536, 1 << 32] {
        v.push(o + f(d));
        v.push(o - f(d));
    }
    v.retain(|x| *x != o);
    v.sort_by_key(|x| u(*x));
    v.dedup();
    v
}

fn logic_true(tuple: &[F]) -> Result<(), String> {
    let op = u(tuple[0]);
    if !(0x16..=0x18).contains(&op) {
        return Ok(());
    }
    let w: Option<Vec<U256>> = (0..3).map(|i| word(&tuple[1 + 8 * i..9 + 8 * i])).collect();
    let Some(w) = w else { return Err("words beyond 256 bits".into()) };
    let want = match op {
        0x16 => w[0] & w[1],
        0x17 => w[0] | w[1],
        _ => w[0] ^ w[1],
    };
    if want == w[2] {
        Ok(())
    } else {
        Err(format!("opcode {op:#x} on ({:#x}, {:#x}) gives {:#x}", w[0], w[1], w[2]))
    }
}

/// Words whose every bit pair takes all four values, and the boundary ones.
fn logic_words() -> Vec<U256> {
    let s = |x: &str| U256::from_str_radix(&x.repeat(64 / x.len()), 16).unwrap();
    vec![U256::zero(), U256::one(), U256::MAX, s("a"), s("5"), s("0123456789abcdef"), s("ffffffff00000000"), s("00000001"), s("80000000"), s("c3a5"), U256::one() << 255]
}

pub fn logic(ck: &Check, t: &Tables) {
    let c = Ctx { t, table: LOGIC, range: 0 };
    let looked = &t.lk.ctls[CTL_LOGIC].looked;
    let mut ops = vec![];
    for o in 0..3 {
        for a in logic_words() {
            for b in logic_words() {
                ops.push((o, a, b));
            }
        }
        for k in 0..256 {
            let bit = U256::one() << k;
            ops.extend([(o, bit, bit), (o, bit, U256::zero()), (o, U256::zero(), bit), (o, !bit, U256::MAX)]);
        }
    }
    let table = t.starks.logic(&ops);
    c.whole(ck, "logic", &table);
    for (i, (o, a, b)) in ops.iter().enumerate() {
        let r = row(&table, i);
        let fl = looked.filter.eval(&r, &r);
        let res = [*a & *b, *a | *b, *a ^ *b][*o];
        let want: Vec<F> = [vec![f(0x16 + *o as u64)], limbs32(*a), limbs32(*b), limbs32(res)].concat();
        ck.eval("logic rows made");
        ck.state(&("logic", o, a.to_string(), b.to_string()));
        if fl != F::ONE || looked.tuple(&r, &r) != want || tb::logic_result(*o, *a, *b) != res {
            ck.violate(&format!("logic:says:{o}"), format!("the row for operation {o} on ({a:#x}, {b:#x}) says {:?} {} times", looked.tuple(&r, &r), u(fl)));
        }
    }
    let judge = |r: &[F], what: &dyn Fn() -> String| {
        let fl = looked.filter.eval(r, r);
        if fl == F::ZERO {
            return;
        }
        let lie = if fl != F::ONE { Err(format!("it counts {} times", u(fl))) } else { logic_true(&looked.tuple(r, r)) };
        if let Err(e) = lie {
            if t.starks.holds(LOGIC, r, r, false, false) || t.starks.holds(LOGIC, r, r, true, true) {
                ck.violate(&format!("logic:tamper:{}", what().split(':').next().unwrap()), format!("{}, passes: {e}", what()));
            }
        }
    };
    let ws = logic_words();
    let base: Vec<usize> = (0..ops.len()).filter(|i| ws[2..6].contains(&ops[*i].1) && ws[3..6].contains(&ops[*i].2)).collect();
    base.par_iter().for_each(|i| {
        let r0 = row(&table, *i);
        let n = r0.len();
        let mut cnt = 0;
        for c1 in 0..n {
            for v in deltas(r0[c1]) {
                let mut r = r0.clone();
                r[c1] = v;
                cnt += 1;
                judge(&r, &|| format!("cell {c1}: the row for {:x?} with cell {c1} set to {}", ops[*i], u(v)));
            }
        }
        // two cells near each other: bits of one limb, neighbouring flags, limbs
        for c1 in 0..n {
            for c2 in c1 + 1..(c1 + ck.pick(3, 33)).min(n) {
                for (p, q) in [(F::TWO, F::NEG_ONE), (F::NEG_ONE, F::TWO.inverse()), (F::ONE, F::ONE), (F::NEG_ONE, F::NEG_ONE), (F::ONE, F::NEG_ONE), (F::NEG_ONE, F::ONE), (-F::TWO, F::ONE)] {
                    let mut r = r0.clone();
                    r[c1] += p;
                    r[c2] += q;
                    cnt += 1;
                    judge(&r, &|| format!("cells {c1} {c2}: the row for {:x?} with cells {c1} and {c2} changed by {} and {}", ops[*i], u(p), u(q)));
                }
            }
        }
        // bits beyond 0 and 1 with the result following them
        let (sum, and) = [(F::ZERO, F::ONE), (F::ONE, F::NEG_ONE), (F::ONE, -F::TWO)][ops[*i].0];
        for c1 in 3..n - 8 {
            for v in deltas(r0[c1]) {
                let mut r = r0.clone();
                r[c1] = v;
                let k = (c1 - 3) % 256;
                let other = if c1 < 259 { c1 + 256 } else { c1 - 256 };
                let d = v - r0[c1];
                r[n - 8 + k / 32] += (sum * d + and * d * r0[other]) * f(1 << (k % 32));
                cnt += 1;
                judge(&r, &|| format!("bit {c1}: the row for {:x?} with bit cell {c1} set to {} and the result following", ops[*i], u(v)));
            }
        }
        // every setting of the three flags, with the results each would give
        for m in 0..27u64 {
            for res in 0..3 {
                let mut r = r0.clone();
                for k in 0..3 {
                    r[k] = [F::ZERO, F::ONE, F::NEG_ONE][(m / 3u64.pow(k as u32) % 3) as usize];
                }
                let w = [ops[*i].1 & ops[*i].2, ops[*i].1 | ops[*i].2, ops[*i].1 ^ ops[*i].2][res];
                for (k, x) in limbs32(w).into_iter().enumerate() {
                    r[n - 8 + k] = x;
                }
                cnt += 1;
                judge(&r, &|| format!("flags {m}: the row for {:x?} with flags {m} and result {res}", ops[*i]));
            }
        }
        ck.transition(cnt);
        ck.evals("altered rows", cnt);
    });
}

/// Memory used when judging: every address holds some byte.
fn mem(ctx: F, seg: F, virt: F) -> u64 {
    let mut h = u(ctx).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ u(seg).wrapping_mul(0xc2b2_ae3d_27d4_eb4f) ^ u(virt).wrapping_mul(0x1656_67b1_9e37_79f9);
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    h ^= h >> 32;
    h & 0xff
}
/// The memory tuples a row looks up; an error if one cannot be true.
fn memory_tuples(sides: &[&Side], r: &[F]) -> Result<Vec<Vec<F>>, ()> {
    let mut v = vec![];
    for s in sides {
        let fl = s.filter.eval(r, r);
        if fl == F::ZERO {
            continue;
        }
        if fl != F::ONE {
            return Err(());
        }
        v.push(s.tuple(r, r));
    }
    Ok(v)
}

pub fn packing(ck: &Check, t: &Tables) {
    let c = Ctx { t, table: PACK, range: 256 };
    let looked = &t.lk.ctls[CTL_PACK].looked;
    let sides: Vec<&Side> = t.lk.ctls[CTL_MEM].looking.iter().filter(|s| s.table == PACK).collect();
    let mut ops = vec![];
    for read in [true, false] {
        for len in 0..=32usize {
            for (k, virt) in [0usize, 1, 7, 0xffff_ff00].into_iter().enumerate() {
                let (ctx, seg) = ([0, 1, 3, 2][k], [0, 1, 12, 5][k]);
                let bytes: Vec<u8> = (0..len)
                    .map(|i| match k {
                        1 => 0,
                        2 => 255,
                        _ => mem(f(ctx as u64), f(seg as u64), f((virt + i) as u64)) as u8,
                    })
                    .collect();
                ops.push(PackOp { is_read: read, address: (ctx, seg, virt), timestamp: 1000 + ops.len(), bytes });
            }
        }
    }
    let table = t.starks.byte_packing(&ops);
    c.whole(ck, "byte packing", &table);
    let made: Vec<&PackOp> = ops.iter().filter(|o| !o.bytes.is_empty()).collect();
    let n = table[0].len();
    for i in 0..n {
        let r = row(&table, i);
        let fl = looked.filter.eval(&r, &r);
        let Some(o) = made.get(i) else {
            if fl != F::ZERO || sides.iter().any(|s| s.filter.eval(&r, &r) != F::ZERO) {
                ck.violate("packing:padding", format!("row {i} after the last operation speaks"));
            }
            continue;
        };
        let mut value = U256::zero();
        for b in &o.bytes {
            value = (value << 8) | U256::from(*b);
        }
        let want: Vec<F> = [vec![F::from_bool(o.is_read)], [o.address.0, o.address.1, o.address.2, o.bytes.len(), o.timestamp].map(|x| f(x as u64)).to_vec(), limbs32(value)].concat();
        let mut m = memory_tuples(&sides, &r).unwrap_or_default();
        let key = |v: &Vec<F>| v.iter().map(|x| u(*x)).collect::<Vec<_>>();
        m.sort_by_key(key);
        let mut wm: Vec<Vec<F>> = o
            .bytes
            .iter()
            .enumerate()
            .map(|(k, b)| {
                let mut v = vec![F::from_bool(o.is_read), f(o.address.0 as u64), f(o.address.1 as u64), f((o.address.2 + k) as u64), f(*b as u64)];
                v.extend([F::ZERO; 7]);
                v.push(f(o.timestamp as u64));
                v
            })
            .collect();
        wm.sort_by_key(key);
        ck.eval("packing rows made");
        ck.state(&("pack", format!("{o:?}")));
        if fl != F::ONE || looked.tuple(&r, &r) != want || m != wm {
            ck.violate("packing:says", format!("the row for {o:?} says {:?} and looks up {m:?}", looked.tuple(&r, &r)));
        }
    }
    // whatever passes says of the bytes it looks up what is so
    let judge = |r: &[F], what: &dyn Fn() -> String| {
        let fl = looked.filter.eval(r, r);
        let m = memory_tuples(&sides, r);
        let lie = (|| {
            if fl == F::ZERO {
                return match &m {
                    Ok(v) if v.is_empty() => Ok(()),
                    // touches memory without being asked for by anyone
                    _ => Err("it touches memory though nothing looks it up".to_string()),
                };
            }
            if fl != F::ONE {
                return Err(format!("it counts {} times", u(fl)));
            }
            let x = looked.tuple(r, r);
            let Some(value) = word(&x[6..14]) else { return Err("a value beyond 256 bits".into()) };
            let len = u(x[4]);
            if len > 32 {
                return Err(format!("length {len}"));
            }
            let mut want: Vec<Vec<F>> = (0..len)
                .map(|k| {
                    let mut v = vec![x[0], x[1], x[2], x[3] + f(k), f(value.byte((len - 1 - k) as usize) as u64)];
                    v.extend([F::ZERO; 7]);
                    v.push(x[5]);
                    v
                })
                .collect();
            if len < 32 && value >> (8 * len) != U256::zero() {
                return Err(format!("value {value:#x} of {len} bytes"));
            }
            let Ok(mut m) = m.clone() else { return Err("it looks up bytes other than once".into()) };
            let key = |v: &Vec<F>| v.iter().map(|x| u(*x)).collect::<Vec<_>>();
            m.sort_by_key(key);
            want.sort_by_key(key);
            if m == want {
                Ok(())
            } else {
                Err("the bytes it looks up are not those of its value".into())
            }
        })();
        if let Err(e) = lie {
            let z = vec![F::ZERO; r.len()];
            if c.inner(r, r) && (t.starks.holds(PACK, r, r, false, false) || t.starks.holds(PACK, r, &z, true, false) || t.starks.holds(PACK, r, &z, false, true)) {
                ck.violate(&format!("packing:tamper:{}", what().split(':').next().unwrap()), format!("{}, passes: {e}", what()));
            }
        }
    };
    let top = n.min(made.len() + 1);
    let counter = single(&t.lk.inner[PACK][0].table).unwrap();
    (0..top).into_par_iter().for_each(|i| {
        let mut r0 = row(&table, i);
        r0[counter] = F::ZERO;
        let w = r0.len();
        let mut cnt = 0;
        for a in 0..w {
            if a == counter {
                continue;
            }
            for v in deltas(r0[a]) {
                let mut r = r0.clone();
                r[a] = v;
                cnt += 1;
                judge(&r, &|| format!("cell {a}: row {i} with cell {a} set to {}", u(v)));
            }
            for b in a + 1..w {
                if b == counter || (!ck.thorough && i % 8 != 3) {
                    continue;
                }
                for (p, q) in [(F::ONE, F::NEG_ONE), (F::NEG_ONE, F::ONE), (F::ONE, F::ONE), (f(256), F::NEG_ONE), (-f(256), F::ONE), (F::NEG_ONE, f(256)), (F::ONE, -f(256))] {
                    let mut r = r0.clone();
                    r[a] += p;
                    r[b] += q;
                    cnt += 1;
                    judge(&r, &|| format!("cells {a} {b}: row {i} with cells {a} and {b} changed by {} and {}", u(p), u(q)));
                }
            }
        }
        ck.transition(cnt);
        ck.evals("altered rows", cnt);
    });
    counter_walks(ck, t, PACK, &table, "byte packing");
}

/// Wrong walks of a range counter.
fn counter_walks(ck: &Check, t: &Tables, table: usize, honest: &Table, what: &str) {
    let Some(k) = single(&t.lk.inner[table][0].table) else { return };
    let n = honest[0].len();
    let mut bad = vec![];
    let col: Vec<u64> = honest[k].iter().map(|x| u(*x)).collect();
    for i in [0, 1, n / 2, n - 1] {
        for d in [1i64, -1, 2, 256] {
            let shift = |from: usize| col.iter().enumerate().map(|(j, x)| if j >= from { f((*x as i64 + d).rem_euclid(0xffff_ffff_0000_0001u64 as i64 as i64 | i64::MAX) as u64) } else { f(*x) }).collect::<Vec<_>>();
            if d > 0 {
                bad.push((format!("shifted by {d} from row {i} on"), shift(i)));
            }
            let mut one: Vec<F> = col.iter().map(|x| f(*x)).collect();
            one[i] = if d < 0 { one[i] - f((-d) as u64) } else { one[i] + f(d as u64) };
            bad.push((format!("changed by {d} at row {i}"), one));
        }
    }
    for (how, c) in bad {
        let mut p = honest.clone();
        p[k] = c;
        let set: HashSet<u64> = p[k].iter().map(|x| u(*x)).collect();
        let honest_set: HashSet<u64> = col.iter().copied().collect();
        if set.is_subset(&honest_set) {
            continue;
        }
        ck.eval("range tables");
        if (0..n).all(|j| t.starks.holds(table, &row(&p, j), &row(&p, (j + 1) % n), j == 0, j + 1 == n)) {
            ck.violate(&format!("{what}:counter"), format!("a range counter of {what} {how} passes"));
        }
    }
}

// ---------------------------------------------------------------- keccak-f

const ROT: [[u32; 5]; 5] = [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]];
fn rc() -> Vec<u64> {
    // by the linear feedback register of the standard
    let mut l = 1u8;
    let mut bit = || {
        let r = l & 1 == 1;
        let hi = l & 0x80 != 0;
        l <<= 1;
        if hi {
            l ^= 0x71;
        }
        r
    };
    (0..24)
        .map(|_| {
            let mut x = 0u64;
            for j in 0..7 {
                if bit() {
                    x ^= 1 << ((1u32 << j) - 1);
                }
            }
            x
        })
        .collect()
}
/// Intermediate values of a round, `a[x][y]`.
struct Round {
    c: [u64; 5],
    c1: [u64; 5],
    a1: [[u64; 5]; 5],
    a2: [[u64; 5]; 5],
    out: [[u64; 5]; 5],
}
fn round(a: &[[u64; 5]; 5], rc: u64) -> Round {
    let mut c = [0; 5];
    for x in 0..5 {
        c[x] = (0..5).fold(0, |s, y| s ^ a[x][y]);
    }
    let mut c1 = [0; 5];
    let mut a1 = [[0; 5]; 5];
    for x in 0..5 {
        let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
        c1[x] = c[x] ^ d;
        for y in 0..5 {
            a1[x][y] = a[x][y] ^ d;
        }
    }
    let mut b = [[0u64; 5]; 5];
    for x in 0..5 {
        for y in 0..5 {
            b[y][(2 * x + 3 * y) % 5] = a1[x][y].rotate_left(ROT[x][y]);
        }
    }
    let mut a2 = [[0; 5]; 5];
    for x in 0..5 {
        for y in 0..5 {
            a2[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
        }
    }
    let mut out = a2;
    out[0][0] ^= rc;
    Round { c, c1, a1, a2, out }
}
fn to_state(s: &[u64; 25]) -> [[u64; 5]; 5] {
    let mut a = [[0; 5]; 5];
    for i in 0..25 {
        a[i % 5][i / 5] = s[i];
    }
    a
}
pub fn permute(s: &[u64; 25]) -> [u64; 25] {
    let mut a = to_state(s);
    for r in rc() {
        a = round(&a, r).out;
    }
    let mut o = [0; 25];
    for i in 0..25 {
        o[i] = a[i % 5][i / 5];
    }
    o
}
fn as_lanes(l: &[F]) -> Option<[u64; 25]> {
    let mut s = [0u64; 25];
    for i in 0..50 {
        let x = u(l[i]);
        if x >= 1 << 32 {
            return None;
        }
        s[i / 2] |= x << (32 * (i % 2));
    }
    Some(s)
}

/// Where the permutation table keeps what, found from honest rows.
struct KLayout {
    step: Vec<usize>,
    ts: usize,
    a: Vec<usize>,
    out: Vec<usize>,
    c: Vec<usize>,
    c1: Vec<usize>,
    a1: Vec<usize>,
    a2: Vec<usize>,
    bits: Vec<usize>,
}
fn layout(t: &Tables, table: &Table, inputs: &[[u64; 25]]) -> Result<KLayout, String> {
    let sgl = |s: &Side| -> Option<Vec<usize>> { s.columns.iter().map(single).collect() };
    let ins = sgl(&t.lk.ctls[CTL_KIN].looked).ok_or("inputs are not single columns")?;
    let outs = sgl(&t.lk.ctls[CTL_KOUT].looked).ok_or("outputs are not single columns")?;
    let n = inputs.len() * 24;
    let mut at: HashMap<Vec<u64>, usize> = HashMap::new();
    for (i, col) in table.iter().enumerate() {
        at.insert(col[..n].iter().map(|x| u(*x)).collect(), i);
    }
    let rcs = rc();
    let rounds: Vec<Round> = inputs
        .iter()
        .flat_map(|s| {
            let mut a = to_state(s);
            rcs.iter()
                .map(|k| {
                    let r = round(&a, *k);
                    a = r.out;
                    r
                })
                .collect::<Vec<_>>()
        })
        .collect();
    let find = |what: &str, g: &dyn Fn(usize, &Round) -> u64| -> Result<usize, String> {
        let sig: Vec<u64> = rounds.iter().enumerate().map(|(i, r)| g(i, r)).collect();
        at.get(&sig).copied().ok_or_else(|| format!("no column holds {what}"))
    };
    let bits = |v: u64, z: usize| v >> z & 1;
    let mut l = KLayout { step: vec![], ts: ins[50], a: ins[..50].to_vec(), out: outs[..50].to_vec(), c: vec![], c1: vec![], a1: vec![], a2: vec![], bits: vec![] };
    for s in 0..24 {
        l.step.push(find("a round flag", &|i, _| (i % 24 == s) as u64)?);
    }
    for x in 0..5 {
        for z in 0..64 {
            l.c.push(find("C", &|_, r| bits(r.c[x], z))?);
            l.c1.push(find("C'", &|_, r| bits(r.c1[x], z))?);
        }
        for y in 0..5 {
            for z in 0..64 {
                l.a1.push(find("A'", &|_, r| bits(r.a1[x][y], z))?);
            }
            l.a2.push(find("A''", &|_, r| r.a2[x][y] & 0xffff_ffff)?);
            l.a2.push(find("A''", &|_, r| r.a2[x][y] >> 32)?);
        }
    }
    for z in 0..64 {
        l.bits.push(find("bits of A''[0,0]", &|_, r| bits(r.a2[0][0], z))?);
    }
    Ok(l)
}
impl KLayout {
    /// The row of round `r` on field-valued cells, computed as the table's
    /// polynomials do, so that only what is not constrained differs.
    fn finish(&self, row: &mut [F], r: usize, bits_from: Option<&[F]>) {
        let rcv = rc()[r];
        let xor = |a: F, b: F| a + b - F::TWO * a * b;
        let b = |x: usize, y: usize, z: usize| {
            let (p, q) = ((x + 3 * y) % 5, x);
            row[self.a1[(p * 5 + q) * 64 + (z + 64 - ROT[p][q] as usize) % 64]]
        };
        let mut a2 = vec![];
        for x in 0..5 {
            for y in 0..5 {
                for h in 0..2 {
                    let mut s = F::ZERO;
                    for z in (32 * h..32 * h + 32).rev() {
                        let n = (F::ONE - b((x + 1) % 5, y, z)) * b((x + 2) % 5, y, z);
                        s = s + s + xor(b(x, y, z), n);
                    }
                    a2.push(s);
                }
            }
        }
        for (i, v) in a2.iter().enumerate() {
            row[self.a2[i]] = *v;
        }
        match bits_from {
            Some(v) => {
                for z in 0..64 {
                    row[self.bits[z]] = v[z];
                }
            }
            None => {
                for z in 0..64 {
                    row[self.bits[z]] = f(u(a2[z / 32]) >> (z % 32) & 1);
                }
                // whatever does not fit goes into the lowest bit
                for h in 0..2 {
                    let s: F = (0..32).map(|z| row[self.bits[32 * h + z]] * f(1 << z)).sum();
                    row[self.bits[32 * h]] += a2[h] - s;
                }
            }
        }
        for h in 0..2 {
            let mut s = F::ZERO;
            for z in (32 * h..32 * h + 32).rev() {
                s = s + s + xor(row[self.bits[z]], f(rcv >> z & 1));
            }
            row[self.out[h]] = s;
        }
    }
}

fn kinputs(n: usize) -> Vec<[u64; 25]> {
    let mut v = vec![[0u64; 25], [u64::MAX; 25]];
    let mut x = 0x0123_4567_89ab_cdefu64;
    while v.len() < n {
        let mut s = [0; 25];
        for e in &mut s {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            *e = x;
        }
        v.push(s);
    }
    v
}

pub fn keccak(ck: &Check, t: &Tables) {
    let c = Ctx { t, table: KECCAK, range: 0 };
    let (cin, cout) = (&t.lk.ctls[CTL_KIN].looked, &t.lk.ctls[CTL_KOUT].looked);
    let mut inputs = kinputs(ck.pick(8, 40));
    for k in [0usize, 1, 31, 32, 63, 64, 800, 1599] {
        let mut s = [0u64; 25];
        s[k / 64] = 1 << (k % 64);
        inputs.push(s);
    }
    let table = t.starks.keccak(&inputs.iter().enumerate().map(|(i, s)| (*s, 77 + i)).collect::<Vec<_>>());
    c.whole(ck, "permutations", &table);
    let n = table[0].len();
    let says = |s: &Side, r: &[F]| (s.filter.eval(r, r) != F::ZERO).then(|| s.tuple(r, r));
    for i in 0..n {
        let r = row(&table, i);
        let (a, b) = (says(cin, &r), says(cout, &r));
        let Some(s) = inputs.get(i / 24) else {
            if a.is_some() || b.is_some() {
                ck.violate("keccak:padding", format!("row {i} after the last permutation speaks"));
            }
            continue;
        };
        let lanes = |s: &[u64; 25]| s.iter().flat_map(|x| [f(x & 0xffff_ffff), f(x >> 32)]).chain([f(77 + i as u64 / 24)]).collect::<Vec<_>>();
        let wa = (i % 24 == 0).then(|| lanes(s));
        let wb = (i % 24 == 23).then(|| lanes(&permute(s)));
        ck.eval("permutation rows made");
        if a != wa || b != wb {
            ck.violate("keccak:says", format!("row {i} of the permutation of {s:x?} says {a:?} and {b:?}"));
        }
        ck.state(&("keccak", s, i % 24));
    }
    // one permutation's rows alone; they stand between copies of themselves
    let perm = |p: usize| -> Vec<Vec<F>> { (0..24).map(|i| row(&table, 24 * p + i)).collect() };
    // judged only at the rows touched
    let judge = |rows: &[Vec<F>], touched: &[usize], what: &dyn Fn() -> String| {
        let m = rows.len();
        // what is said: every input row starts, every output row ends a permutation
        let mut ins = vec![];
        let mut outs = vec![];
        for r in rows {
            for (s, v) in [(cin, &mut ins), (cout, &mut outs)] {
                let fl = s.filter.eval(r, r);
                if fl != F::ZERO {
                    v.push((fl, s.tuple(r, r)));
                }
            }
        }
        let fine = ins.len() == outs.len()
            && ins.iter().all(|(fl, i)| {
                *fl == F::ONE
                    && as_lanes(&i[..50]).is_none_or(|s| {
                        let o = permute(&s);
                        let want: Vec<F> = o.iter().flat_map(|x| [f(x & 0xffff_ffff), f(x >> 32)]).chain([i[50]]).collect();
                        outs.contains(&(F::ONE, want))
                    })
            })
            && ins.iter().any(|(_, i)| as_lanes(&i[..50]).is_some());
        if fine {
            return;
        }
        let mut at: Vec<usize> = touched.iter().flat_map(|i| [*i, (*i + m - 1) % m]).collect();
        at.sort();
        at.dedup();
        // the last row's successor is the first of another permutation
        if at.iter().all(|i| t.starks.holds(KECCAK, &rows[*i], &rows[(*i + 1) % m], false, false)) {
            ck.violate(&format!("keccak:tamper:{}", what().split(':').next().unwrap()), format!("{}, passes", what()));
        }
    };
    let base = perm(3);
    let w = base[0].len();
    // single cells: in every row, with a few values; all values in three rows
    (0..24usize).into_par_iter().for_each(|i| {
        let full = ck.thorough || [0, 11, 23].contains(&i);
        let mut cnt = 0;
        for k in 0..w {
            if !full && k % 16 != i % 16 {
                continue;
            }
            let o = base[i][k];
            let vals = if full && ck.thorough { deltas(o) } else { vec![o + F::ONE, o - F::ONE, f(u(o) ^ 1)] };
            for v in vals {
                let mut rows = base.clone();
                rows[i][k] = v;
                cnt += 1;
                // what is said changes only if the cell is looked at; an altered
                // inner cell that passes makes no false statement
                judge(&rows, &[i], &|| format!("cell: round {i} of a permutation with cell {k} set to {}", u(v)));
            }
        }
        ck.transition(cnt);
        ck.evals("altered rows", cnt);
    });
    // two permutations joined after any round
    for r in 1..24 {
        for (p, q) in [(2, 3), (3, 2), (0, 1), (8, 9)] {
            let (x, y) = (perm(p), perm(q));
            let mut rows: Vec<Vec<F>> = x[..r].iter().chain(&y[r..]).cloned().collect();
            for same in [true, false] {
                if same {
                    let ts = single(&cin.columns[50]).unwrap();
                    let v = rows[0][ts];
                    rows.iter_mut().for_each(|l| l[ts] = v);
                }
                ck.transition(1);
                judge(&rows, &[r], &|| format!("joined: permutations joined after round {r}"));
            }
        }
        // rounds left out or repeated
        let x = perm(4);
        let mut skip = x.clone();
        skip.remove(r);
        judge(&skip, &[r % 23, (r + 22) % 23], &|| format!("skipped: round {r} left out"));
        let mut rep = x.clone();
        rep.insert(r, x[r].clone());
        judge(&rep, &[r, r + 1], &|| format!("repeated: round {r} twice"));
        ck.transition(2);
    }
    match layout(t, &table, &inputs) {
        Err(e) => ck.note("permutation table", json!(format!("the layout is not the known one ({e}); deviating rounds were not built"))),
        Ok(l) => {
            let base = perm(3);
            let mut self_check = base[5].clone();
            l.finish(&mut self_check, 5, None);
            if self_check != base[5] {
                ck.note("permutation table", json!("the polynomials are not the known ones; deviating rounds were not built"));
                return;
            }
            // the outputs of the last round changed in one limb
            let last = &base[23];
            let try_last = |r: Vec<F>, what: &dyn Fn() -> String| {
                let mut rows = base.clone();
                rows[23] = r;
                ck.transition(1);
                ck.eval("altered rows");
                judge(&rows, &[23], what);
            };
            for i in 0..50 {
                for d in [F::ONE, F::NEG_ONE, f(1 << 31)] {
                    let mut r = last.clone();
                    r[l.out[i]] += d;
                    try_last(r.clone(), &|| format!("output: output limb {i} changed"));
                    r[l.a2[i]] = last[l.a2[i]] + d;
                    try_last(r, &|| format!("output: output limb {i} and its A'' changed"));
                }
            }
            // bits of A''[0,0] of which two make up for each other
            for z in 0..63 {
                if z == 31 {
                    continue;
                }
                for s in [F::ONE, F::NEG_ONE, f(7)] {
                    let mut r = last.clone();
                    let mut bits: Vec<F> = l.bits.iter().map(|k| r[*k]).collect();
                    bits[z] += s + s;
                    bits[z + 1] -= s;
                    l.finish(&mut r, 23, Some(&bits));
                    try_last(r, &|| format!("bits: bits {z} and {} of A''[0,0] not bits", z + 1));
                }
            }
            // bits of A' of which four make up for each other
            for x in 0..5 {
                for y in 0..5 {
                    for z in (0..63).step_by(ck.pick(3, 1)) {
                        if z == 31 {
                            continue;
                        }
                        for s in [F::ONE, f(5), F::TWO.inverse()] {
                            let mut r = last.clone();
                            let y2 = (y + 1) % 5;
                            let at = |y: usize, z: usize| l.a1[(x * 5 + y) * 64 + z];
                            // a limb of A sees 1 - a where C and C' differ
                            let sg = |z: usize| if last[l.c[x * 64 + z]] == last[l.c1[x * 64 + z]] { F::ONE } else { F::NEG_ONE };
                            for (yy, g) in [(y, s), (y2, -s)] {
                                r[at(yy, z)] += g * F::TWO * sg(z);
                                r[at(yy, z + 1)] -= g * sg(z + 1);
                            }
                            l.finish(&mut r, 23, None);
                            try_last(r, &|| format!("bits: A'[{x},{y}] at {z} not bits"));
                        }
                    }
                }
            }
            // C and C' inverted together with A': sums that differ by two
            for x in 0..5 {
                for z in (0..64).step_by(ck.pick(5, 1)) {
                    for v in [F::TWO, F::NEG_ONE, F::TWO.inverse()] {
                        let mut r = last.clone();
                        r[l.c[x * 64 + z]] = v;
                        let xor = |a: F, b: F| a + b - F::TWO * a * b;
                        for (x1, z1) in [(x, z), ((x + 1) % 5, z), ((x + 4) % 5, (z + 1) % 64)] {
                            let g = |x: usize, z: usize| r[l.c[x * 64 + z]];
                            r[l.c1[x1 * 64 + z1]] = xor(xor(g(x1, z1), g((x1 + 4) % 5, z1)), g((x1 + 1) % 5, (z1 + 63) % 64));
                        }
                        try_last(r, &|| format!("bits: C[{x}] at {z} not a bit"));
                    }
                }
            }
            // a deviation in the state handed from one round to the next, the
            // rounds after it being computed properly
            let rcs = rc();
            let mut states = vec![to_state(&inputs[3])];
            for k in &rcs {
                let s = round(states.last().unwrap(), *k).out;
                states.push(s);
            }
            let jobs: Vec<(usize, usize)> = (1..24).flat_map(|r| (0..50).map(move |i| (r, i))).filter(|(r, i)| ck.thorough || (r + i) % 3 == 0).collect();
            jobs.par_iter().for_each(|(r, i)| {
                let mut s = states[*r];
                s[(i / 2) % 5][(i / 2) / 5] ^= 1 << ((i % 2) * 32 + (7 * r + i) % 32);
                let mut rows = base.clone();
                for k in *r..24 {
                    let q = round(&s, rcs[k]);
                    let row = &mut rows[k];
                    for x in 0..5 {
                        for y in 0..5 {
                            for h in 0..2 {
                                let p = 2 * (5 * y + x) + h;
                                row[l.a[p]] = f(s[x][y] >> (32 * h) & 0xffff_ffff);
                                row[l.a2[(x * 5 + y) * 2 + h]] = f(q.a2[x][y] >> (32 * h) & 0xffff_ffff);
                            }
                            for z in 0..64 {
                                row[l.a1[(x * 5 + y) * 64 + z]] = f(q.a1[x][y] >> z & 1);
                            }
                        }
                        for z in 0..64 {
                            row[l.c[x * 64 + z]] = f(q.c[x] >> z & 1);
                            row[l.c1[x * 64 + z]] = f(q.c1[x] >> z & 1);
                        }
                    }
                    l.finish(row, k, None);
                    s = q.out;
                }
                // the rows after the deviation are true rows
                for k in *r..23 {
                    if !t.starks.holds(KECCAK, &rows[k], &rows[k + 1], false, false) {
                        ck.violate("keccak:refused", format!("a true row of round {k} is refused"));
                        return;
                    }
                }
                ck.transition(1);
                ck.eval("deviating permutations");
                judge(&rows, &[*r], &|| format!("state: limb {i} changed between rounds {} and {r}", r - 1));
            });
            // a deviation inside one round: the output of the round no longer
            // follows from its input, though the next round takes it up
            for i in 0..50 {
                let mut s = states[23];
                s[(i / 2) % 5][(i / 2) / 5] ^= 1 << ((i % 2) * 32 + i % 32);
                let q = round(&s, rcs[23]);
                let mut r = last.clone();
                for x in 0..5 {
                    for y in 0..5 {
                        for z in 0..64 {
                            r[l.a1[(x * 5 + y) * 64 + z]] = f(q.a1[x][y] >> z & 1);
                        }
                    }
                }
                for keep in 0..4 {
                    let mut r = r.clone();
                    for x in 0..5 {
                        for z in 0..64 {
                            if keep & 1 == 0 {
                                r[l.c[x * 64 + z]] = f(q.c[x] >> z & 1);
                            }
                            if keep & 2 == 0 {
                                r[l.c1[x * 64 + z]] = f(q.c1[x] >> z & 1);
                            }
                        }
                    }
                    l.finish(&mut r, 23, None);
                    try_last(r, &|| format!("inner: the last round computed on another state (limb {i}, {keep})"));
                }
            }
        }
    }
}

// ----------------------------------------------------------------- sponge

struct SLayout {
    full: usize,
    addr: [usize; 3],
    ts: usize,
    absorbed: usize,
    pad: Vec<usize>,
    rate: Vec<usize>,
    cap: Vec<usize>,
    block: Vec<usize>,
    xored: Vec<usize>,
    digest: Vec<usize>,
    rest: Vec<usize>,
}
/// Where the sponge keeps what, found from its lookups.
fn slayout(t: &Tables) -> Option<SLayout> {
    let lk = &t.lk.ctls[CTL_SPONGE].looked;
    let addr = [single(&lk.columns[0])?, single(&lk.columns[1])?, single(&lk.columns[2])?];
    let ts = single(&lk.columns[4])?;
    let len = &lk.columns[3];
    let absorbed = len.lin.iter().find(|x| x.1 == F::ONE)?.0;
    let pad: Vec<usize> = len.lin.iter().filter(|x| x.1 == F::NEG_ONE).map(|x| x.0).collect();
    let mems: Vec<&Side> = t.lk.ctls[CTL_MEM].looking.iter().filter(|s| s.table == SPONGE).collect();
    let block: Vec<usize> = mems.iter().map(|s| single(&s.columns[4])).collect::<Option<_>>()?;
    let kin = t.lk.ctls[CTL_KIN].looking.iter().find(|s| s.table == SPONGE)?;
    let k: Vec<usize> = kin.columns.iter().map(single).collect::<Option<_>>()?;
    let logic: Vec<&Side> = t.lk.ctls[CTL_LOGIC].looking.iter().filter(|s| s.table == SPONGE).collect();
    let mut rate = vec![];
    for s in &logic {
        rate.extend(s.columns[1..9].iter().filter_map(single));
    }
    let kout = t.lk.ctls[CTL_KOUT].looking.iter().find(|s| s.table == SPONGE)?;
    let digest: Vec<usize> = kout.columns[..8].iter().flat_map(|c| c.lin.iter().map(|x| x.0)).collect();
    let rest: Vec<usize> = kout.columns[8..50].iter().map(single).collect::<Option<_>>()?;
    // the flag of a full block is what makes a row look into the permutation
    // table besides the last padding flag
    let w = t.starks.keccak_sponge(&[])[0].len();
    let _ = w;
    let full = (0..1000).find(|i| {
        let mut r = vec![F::ZERO; 1000];
        r[*i] = F::ONE;
        !pad.contains(i) && kin.filter.eval(&r, &r) == F::ONE
    })?;
    (rate.len() == 34 && digest.len() == 32 && block.len() == 136 && pad.len() == 136).then(|| SLayout { full, addr, ts, absorbed, pad, rate, cap: k[34..50].to_vec(), block, xored: k[..34].to_vec(), digest, rest })
}
/// What one row is to be made of.
#[derive(Clone)]
struct Block {
    full: u64,
    addr: [u64; 3],
    ts: u64,
    absorbed: u64,
    pad: Vec<u64>,
    state: [u64; 25],
    bytes: Vec<u64>,
}
impl SLayout {
    fn row(&self, w: usize, b: &Block) -> (Vec<F>, [u64; 25]) {
        let mut r = vec![F::ZERO; w];
        r[self.full] = f(b.full);
        for i in 0..3 {
            r[self.addr[i]] = f(b.addr[i]);
        }
        r[self.ts] = f(b.ts);
        r[self.absorbed] = f(b.absorbed);
        for i in 0..136 {
            r[self.pad[i]] = f(b.pad[i]);
            r[self.block[i]] = f(b.bytes[i]);
        }
        let limb = |s: &[u64; 25], i: usize| f(s[i / 2] >> (32 * (i % 2)) & 0xffff_ffff);
        for i in 0..34 {
            r[self.rate[i]] = limb(&b.state, i);
        }
        for i in 0..16 {
            r[self.cap[i]] = limb(&b.state, 34 + i);
        }
        let mut s = b.state;
        for i in 0..136 {
            s[i / 8] ^= (b.bytes[i] & 0xff) << (8 * (i % 8));
        }
        for i in 0..34 {
            r[self.xored[i]] = limb(&s, i);
        }
        let o = permute(&s);
        for i in 0..32 {
            r[self.digest[i]] = f(o[i / 8] >> (8 * (i % 8)) & 0xff);
        }
        for i in 0..42 {
            r[self.rest[i]] = limb(&o, 8 + i);
        }
        (r, o)
    }
}
fn blocks(addr: [u64; 3], ts: u64, len: u64) -> Vec<Block> {
    let mut v = vec![];
    for k in 0..=len / 136 {
        let left = (len - 136 * k).min(136) as usize;
        let mut bytes: Vec<u64> = (0..left as u64).map(|i| mem(f(addr[0]), f(addr[1]), f(addr[2] + 136 * k + i))).collect();
        bytes.resize(136, 0);
        let mut pad = vec![0; 136];
        if left < 136 {
            bytes[left] |= 1;
            bytes[135] |= 0x80;
            for x in &mut pad[left..] {
                *x = 1;
            }
        }
        v.push(Block { full: (left == 136) as u64, addr, ts, absorbed: 136 * k, pad, state: [0; 25], bytes });
    }
    v
}

struct Sponge<'a> {
    c: Ctx<'a>,
    mems: Vec<&'a Side>,
    kin: &'a Side,
    kout: &'a Side,
    logic: Vec<&'a Side>,
    looked: &'a Side,
}
impl Sponge<'_> {
    /// What a row looks up in other tables is so.
    fn supported(&self, r: &[F], content: &dyn Fn(F, F, F) -> u64) -> bool {
        let Ok(m) = memory_tuples(&self.mems, r) else { return false };
        let mem_ok = m.iter().all(|x| x[0] == F::ONE && u(x[4]) == content(x[1], x[2], x[3]) && x[5..12].iter().all(|y| *y == F::ZERO));
        let on = |s: &Side| u(s.filter.eval(r, r));
        let logic_ok = self.logic.iter().all(|s| match on(s) {
            0 => true,
            1 => logic_true(&s.tuple(r, r)).is_ok(),
            _ => false,
        });
        let perm_ok = match (on(self.kin), on(self.kout)) {
            (0, 0) => true,
            (1, 1) => {
                let (i, o) = (self.kin.tuple(r, r), self.kout.tuple(r, r));
                i[50] == o[50] && as_lanes(&i).is_some_and(|s| as_lanes(&o) == Some(permute(&s)))
            }
            _ => false,
        };
        mem_ok && logic_ok && perm_ok
    }
    fn lies(&self, r: &[F], content: &dyn Fn(F, F, F) -> u64) -> Option<String> {
        let fl = self.looked.filter.eval(r, r);
        if fl == F::ZERO {
            return None;
        }
        if fl != F::ONE {
            return Some(format!("it counts {} times", u(fl)));
        }
        let x = self.looked.tuple(r, r);
        let len = u(x[3]);
        if len > 100_000 {
            return Some(format!("length {len}"));
        }
        let msg: Vec<u8> = (0..len).map(|i| content(x[0], x[1], x[2] + f(i)) as u8).collect();
        let want = U256::from_big_endian(vc::keccak(&msg).as_bytes());
        match word(&x[5..13]) {
            Some(d) if d == want => None,
            d => Some(format!("the digest of the {len} bytes at {:?} is said to be {:#x?} and is {want:#x}", [u(x[0]), u(x[1]), u(x[2])], d)),
        }
    }
    fn judge(&self, ck: &Check, rows: &[Vec<F>], ends: (bool, bool), what: &dyn Fn() -> String) {
        self.judge_on(ck, rows, ends, &mem, what)
    }
    fn judge_on(&self, ck: &Check, rows: &[Vec<F>], ends: (bool, bool), content: &dyn Fn(F, F, F) -> u64, what: &dyn Fn() -> String) {
        ck.transition(1);
        ck.eval("altered rows");
        let Some(e) = rows.iter().find_map(|r| self.lies(r, content)) else { return };
        if rows.iter().all(|r| self.supported(r, content)) && self.c.run(rows, ends) {
            ck.violate(&format!("sponge:{}", what().split(':').next().unwrap()), format!("{}, passes: {e}", what()));
        }
    }
}

pub fn sponge(ck: &Check, t: &Tables) {
    let sp = Sponge {
        c: Ctx { t, table: SPONGE, range: 256 },
        mems: t.lk.ctls[CTL_MEM].looking.iter().filter(|s| s.table == SPONGE).collect(),
        kin: t.lk.ctls[CTL_KIN].looking.iter().find(|s| s.table == SPONGE).unwrap(),
        kout: t.lk.ctls[CTL_KOUT].looking.iter().find(|s| s.table == SPONGE).unwrap(),
        logic: t.lk.ctls[CTL_LOGIC].looking.iter().filter(|s| s.table == SPONGE).collect(),
        looked: &t.lk.ctls[CTL_SPONGE].looked,
    };
    let lens: Vec<u64> = (0..=ck.pick(300, 700)).collect();
    let at = |len: u64| [len % 4, 1 + len % 5, [0, 7, 1000][len as usize % 3]];
    let ops: Vec<SpongeOp> = lens
        .iter()
        .map(|l| {
            let a = at(*l);
            SpongeOp {
                address: (a[0] as usize, a[1] as usize, a[2] as usize),
                timestamp: 5000 + *l as usize,
                input: (0..*l).map(|i| mem(f(a[0]), f(a[1]), f(a[2] + i)) as u8).collect(),
            }
        })
        .collect();
    let table = t.starks.keccak_sponge(&ops);
    sp.c.whole(ck, "sponge", &table);
    let n = table[0].len();
    let mut i = 0;
    for o in &ops {
        for k in 0..=o.input.len() / 136 {
            let r = row(&table, i);
            i += 1;
            let last = k == o.input.len() / 136;
            let said = sp.looked.filter.eval(&r, &r);
            let ok = if last {
                let d = U256::from_big_endian(vc::keccak(&o.input).as_bytes());
                let want: Vec<F> = [[o.address.0, o.address.1, o.address.2, o.input.len(), o.timestamp].map(|x| f(x as u64)).to_vec(), limbs32(d)].concat();
                said == F::ONE && sp.looked.tuple(&r, &r) == want
            } else {
                said == F::ZERO
            };
            let m = memory_tuples(&sp.mems, &r);
            let left = (o.input.len() - 136 * k).min(136);
            let seen = m.as_ref().is_ok_and(|m| m.len() == left && m.iter().all(|x| x[12] == f(o.timestamp as u64) && x[1] == f(o.address.0 as u64) && x[2] == f(o.address.1 as u64)));
            ck.eval("sponge rows made");
            ck.state(&("sponge", o.input.len(), k));
            if !ok || !seen || !sp.supported(&r, &mem) {
                ck.violate("sponge:says", format!("block {k} of the digest of {} bytes says something else, or looks up what is not so", o.input.len()));
            }
        }
    }
    for j in i..n {
        let r = row(&table, j);
        if sp.looked.filter.eval(&r, &r) != F::ZERO || !memory_tuples(&sp.mems, &r).is_ok_and(|m| m.is_empty()) || u(sp.kin.filter.eval(&r, &r)) != 0 {
            ck.violate("sponge:padding", format!("row {j} after the last operation speaks"));
        }
    }
    counter_walks(ck, t, SPONGE, &table, "the sponge");
    let counter = single(&t.lk.inner[SPONGE][0].table).unwrap();
    let w = table.len();
    let Some(l) = slayout(t) else {
        ck.note("sponge table", json!("the layout is not the known one; deviating rows were not built"));
        return;
    };
    let build = |bs: &[Block], chain: bool| -> Vec<Vec<F>> {
        let mut s: Option<[u64; 25]> = None;
        bs.iter()
            .map(|b| {
                let mut b = b.clone();
                if chain {
                    if let Some(x) = s {
                        if b.state == [0; 25] {
                            b.state = x;
                        }
                    }
                }
                let (mut r, o) = l.row(w, &b);
                r[counter] = F::ZERO;
                s = (b.full != 0).then_some(o);
                r
            })
            .collect()
    };
    // the builder agrees with the real generator
    {
        let bs = blocks(at(300), 5300, 300);
        let mine = build(&bs, true);
        let st = (0..300u64).map(|x| x as usize / 136 + 1).sum::<usize>();
        for (k, m) in mine.iter().enumerate() {
            let mut r = row(&table, st + k);
            let fr = m.clone();
            r[counter] = F::ZERO;
            for c in &l.pad {
                let _ = c;
            }
            // frequencies are free
            let diff = (0..w).filter(|c| r[*c] != fr[*c]).count();
            if diff > 1 {
                ck.note("sponge table", json!("the rows built here are not those of the generator; deviating rows prove nothing"));
            }
        }
    }
    // lengths that make every shape of the last block, in up to three blocks
    let shapes: Vec<u64> = if ck.thorough { (0..=280).collect() } else { vec![0, 1, 2, 3, 67, 134, 135, 136, 137, 200, 270, 271, 272, 273] };
    let zero = vec![F::ZERO; w];
    shapes.par_iter().for_each(|len| {
        let a = [1, 2, 40];
        let honest = blocks(a, 900, *len);
        let before = build(&blocks([1, 2, 3], 800, 5), true);
        let with = |rows: Vec<Vec<F>>| -> Vec<Vec<F>> { before.iter().cloned().chain(rows).chain([zero.clone()]).collect() };
        // the same, ending the table or starting it
        let all = |rows: Vec<Vec<F>>, what: &dyn Fn() -> String| {
            sp.judge(ck, &with(rows.clone()), (false, false), what);
            let full: Vec<Vec<F>> = rows.iter().cloned().chain([zero.clone()]).collect();
            sp.judge(ck, &full, (true, false), what);
            // the last row of the table: range counter at its end
            let mut r = before.clone();
            r.extend(rows);
            for x in &mut r {
                x[counter] = f(255);
            }
            sp.judge(ck, &r, (false, true), what);
        };
        {
            let rows = with(build(&honest, true));
            let mut end = build(&honest, true);
            for x in &mut end {
                x[counter] = f(255);
            }
            let ok = sp.c.run(&rows, (false, false)) && rows.iter().all(|r| sp.supported(r, &mem) && sp.lies(r, &mem).is_none()) && sp.c.t.starks.holds(SPONGE, end.last().unwrap(), &rows[0], false, true);
            if !ok {
                ck.violate("sponge:true rows", format!("true rows for {len} bytes are refused"));
            }
        }
        let nb = honest.len();
        for b in 0..nb {
            // flags and fields of one block deviate, all else following
            let mut dev: Vec<(String, Block)> = vec![];
            let h = &honest[b];
            let mut add = |w: &str, g: &dyn Fn(&mut Block)| {
                let mut x = h.clone();
                g(&mut x);
                dev.push((w.into(), x));
            };
            for v in [0, 1, 2] {
                add("full", &|x| x.full = v);
            }
            for i in 0..3 {
                for v in [0, 1, h.addr[i] + 1, h.addr[i] + 136] {
                    add("address", &|x| x.addr[i] = v);
                    // and with the bytes that are really there
                    add("address", &|x| {
                        x.addr[i] = v;
                        for k in 0..136 {
                            if x.pad[k] == 0 {
                                x.bytes[k] = mem(f(x.addr[0]), f(x.addr[1]), f(x.addr[2] + x.absorbed + k as u64));
                            }
                        }
                    });
                }
            }
            add("timestamp", &|x| x.ts += 1);
            for v in [0, 1, 136, 272, h.absorbed + 1] {
                add("absorbed", &|x| x.absorbed = v);
                add("absorbed", &|x| {
                    x.absorbed = v;
                    for k in 0..136 {
                        if x.pad[k] == 0 {
                            x.bytes[k] = mem(f(x.addr[0]), f(x.addr[1]), f(x.addr[2] + v + k as u64));
                        }
                    }
                });
            }
            for lane in 0..25 {
                add("state", &|x| x.state[lane] ^= 1 << (lane * 2));
                add("state", &|x| x.state[lane] ^= 1 << (lane + 32));
            }
            for k in 0..136 {
                for v in [0u64, 1, 0x80, 0x81, 2, 0xff] {
                    if h.bytes[k] != v && (k < 4 || k > 131 || k % 17 == 3 || (k as u64) / 2 == (*len % 136) / 2 || ck.thorough) {
                        add("byte", &|x| x.bytes[k] = v);
                    }
                }
                for v in [0u64, 1, 2] {
                    if h.pad[k] != v {
                        add("padding flag", &|x| x.pad[k] = v);
                    }
                }
                // another first padding byte, with and without the bytes following
                if ck.thorough || k % 5 == 0 || k > 132 {
                    add("padding start", &|x| (0..136).for_each(|j| x.pad[j] = (j >= k) as u64));
                    add("padding start", &|x| {
                        (0..136).for_each(|j| {
                            x.pad[j] = (j >= k) as u64;
                            if j < k {
                                x.bytes[j] = mem(f(x.addr[0]), f(x.addr[1]), f(x.addr[2] + x.absorbed + j as u64));
                            }
                        })
                    });
                }
            }
            for (what, x) in &dev {
                let mut bs = honest.clone();
                bs[b] = x.clone();
                all(build(&bs, true), &|| format!("{what}: block {b} of {nb} for {len} bytes deviates in its {what}"));
                if what == "address" || what == "timestamp" || what == "absorbed" {
                    // later blocks following
                    for y in &mut bs[b + 1..] {
                        y.addr = x.addr;
                        y.ts = x.ts;
                        y.absorbed = x.absorbed + (y.absorbed - h.absorbed);
                        for k in 0..136 {
                            if y.pad[k] == 0 {
                                y.bytes[k] = mem(f(y.addr[0]), f(y.addr[1]), f(y.addr[2] + y.absorbed + k as u64));
                            }
                        }
                    }
                    all(build(&bs, true), &|| format!("{what}: blocks from {b} on for {len} bytes deviate in their {what}"));
                }
            }
            // single cells
            let rows = build(&honest, true);
            for k in 0..w {
                if k == counter {
                    continue;
                }
                let o = rows[b][k];
                for v in [o + F::ONE, o - F::ONE, o + f(256), F::ZERO, F::ONE] {
                    let mut r = rows.clone();
                    r[b][k] = v;
                    all(r, &|| format!("cell: block {b} of {nb} for {len} bytes with cell {k} set to {}", u(v)));
                }
            }
            // bytes of the digest that make up for each other
            for k in 0..32 {
                if k % 4 == 3 {
                    continue;
                }
                for s in [F::ONE, F::NEG_ONE, f(12345)] {
                    let mut r = rows.clone();
                    r[b][l.digest[k]] += f(256) * s;
                    r[b][l.digest[k + 1]] -= s;
                    all(r, &|| format!("digest: bytes {k} and {} of the digest after block {b} of {len} bytes make up for each other", k + 1));
                }
            }
            // block missing, repeated, or a dummy in between
            let mut r = rows.clone();
            r.insert(b, zero.clone());
            all(r, &|| format!("dummy: a dummy before block {b} of {len} bytes"));
            if nb > 1 {
                let mut bs = honest.clone();
                bs.remove(b);
                all(build(&bs, true), &|| format!("missing: block {b} of {len} bytes left out"));
                all(build(&bs, false), &|| format!("missing: block {b} of {len} bytes left out, states not chained"));
            }
            all(build(&honest, false), &|| format!("unchained: {len} bytes"));
        }
    });
}
