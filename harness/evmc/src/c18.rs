//! C18: a read always returns the last value written.
//!
//! `adversary`: the memory table as an automaton. A state is a row together
//! with what a monitor remembers of the accesses so far; the steps are those
//! the real constraints allow. Every state which any table of any length can
//! reach, over a small alphabet of addresses, values and times, is visited.
use std::collections::{BTreeMap, HashMap, HashSet};

use evm_arithmetization::SegmentDataIterator;
use evm_arithmetization::verif_hooks::tables::{self as tb, MemOp, Starks, Table};
use plonky2::field::types::Field;
use vc::rayon::prelude::*;
use vc::{json, Check, U256};

use crate::batch::*;
use crate::asm::*;
use crate::c13;
use crate::ctl::{self, f, row, u, F};
use crate::refevm::*;

const MEMORY: usize = 6;
const BEFORE: usize = 7;
const AFTER: usize = 8;
const CTL_MEMORY: usize = 6;
const CTL_BEFORE: usize = 7;
const CTL_AFTER: usize = 8;
const CTL_PRUNE: usize = 9;
type Address = (usize, usize, usize);
/// Segments whose first read may find anything.
fn preset(a: &Address) -> bool {
    [0, 12, 34, 35].contains(&a.1)
}

/// Positions of the columns.
#[derive(Clone, Debug)]
struct Cols {
    n: usize,
    at: BTreeMap<String, usize>,
    limbs: usize,
}
impl Cols {
    fn new(width: usize) -> Self {
        let mut at = BTreeMap::new();
        let mut limbs = 0;
        match ctl::parse(&tb::memory_columns()) {
            ctl::Node::Struct(v) => {
                for (k, x) in v {
                    match x {
                        ctl::Node::Seq(l) => limbs = l[0].num() as usize,
                        x => {
                            at.insert(k, x.num() as usize);
                        }
                    }
                }
            }
            _ => panic!("columns of the memory table"),
        }
        Cols { n: width, at, limbs }
    }
    /// A column that an edit may do without.
    fn opt(&self, k: &str) -> Option<usize> {
        self.at.get(k).copied()
    }
    fn c(&self, k: &str) -> usize {
        self.opt(k).unwrap_or_else(|| panic!("no column {k}"))
    }
}

/// What is chosen freely in a row.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Row {
    addr: u8,
    real: bool,
    read: bool,
    val: u8,
    ts: u8,
    /// The three flags of change.
    change: u8,
    stale: bool,
    maybe: bool,
    after: bool,
    touched: bool,
}

struct Auto<'a> {
    s: &'a Starks,
    c: &'a Cols,
    addrs: Vec<Address>,
    values: [U256; 2],
    /// Contexts that were pruned.
    stale: Vec<usize>,
    rows: Vec<Row>,
    cells: Vec<Vec<F>>,
}
fn limb(v: U256, i: usize) -> F {
    f((v >> (32 * i)).low_u32() as u64)
}
/// The height of the tables: gaps below it can be bridged.
const HEIGHT: u64 = 64;

impl<'a> Auto<'a> {
    fn new(s: &'a Starks, c: &'a Cols, addrs: &[Address], values: [U256; 2], stale: &[usize], times: u8) -> Self {
        let mut a = Auto { s, c, addrs: addrs.to_vec(), values, stale: stale.to_vec(), rows: vec![], cells: vec![] };
        let bits = |x: u32, i: u32| x >> i & 1 == 1;
        for addr in 0..addrs.len() as u8 {
            for ts in 0..times {
                for m in 0..8u32 {
                    let (real, read, val) = (bits(m, 0), bits(m, 1), (m >> 2) as u8);
                    if ts == 0 && !(real && !read) {
                        // every row of time 0 is one of the memory before
                        continue;
                    }
                    for change in 0..8u8 {
                        for g in 0..16u32 {
                            let r = Row { addr, real, read, val, ts, change, stale: bits(g, 0), maybe: bits(g, 1), after: bits(g, 2), touched: bits(g, 3) };
                            if r.touched && c.opt("is_touched").is_none() {
                                continue;
                            }
                            if r.stale && !stale.contains(&addrs[addr as usize].0) {
                                continue;
                            }
                            let v = a.cells_of(&r);
                            if s.memory_holds_alone(&v) {
                                a.rows.push(r);
                                a.cells.push(v);
                            }
                        }
                    }
                }
            }
        }
        a
    }
    fn cells_of(&self, r: &Row) -> Vec<F> {
        let c = self.c;
        let mut v = vec![F::ZERO; c.n];
        let a = self.addrs[r.addr as usize];
        v[c.c("filter")] = F::from_bool(r.real);
        v[c.c("timestamp")] = f(r.ts as u64);
        v[c.c("timestamp_inv")] = f(r.ts as u64).try_inverse().unwrap_or_default();
        v[c.c("is_read")] = F::from_bool(r.read);
        v[c.c("addr_context")] = f(a.0 as u64);
        v[c.c("addr_segment")] = f(a.1 as u64);
        v[c.c("addr_virtual")] = f(a.2 as u64);
        for i in 0..8 {
            v[c.limbs + i] = limb(self.values[r.val as usize], i);
        }
        for (i, k) in ["context_first_change", "segment_first_change", "virtual_first_change"].iter().enumerate() {
            v[c.c(k)] = F::from_bool(r.change >> i & 1 == 1);
        }
        v[c.c("is_stale")] = F::from_bool(r.stale);
        v[c.c("maybe_in_mem_after")] = F::from_bool(r.maybe);
        v[c.c("mem_after_filter")] = F::from_bool(r.after);
        if let Some(k) = c.opt("is_touched") {
            v[k] = F::from_bool(r.touched);
        }
        v
    }
    /// Fills in what follows from the next row; None if a lookup of the table
    /// into itself fails.
    fn complete(&self, lv: &mut [F], nv: &[F]) -> bool {
        let c = self.c;
        let [ctx, seg, virt, ts] = ["addr_context", "addr_segment", "addr_virtual", "timestamp"].map(|k| c.c(k));
        let ch = ["context_first_change", "segment_first_change", "virtual_first_change"].map(|k| lv[c.c(k)]);
        let same = F::ONE - ch[0] - ch[1] - ch[2];
        let rc = ch[0] * (nv[ctx] - lv[ctx] - F::ONE) + ch[1] * (nv[seg] - lv[seg] - F::ONE) + ch[2] * (nv[virt] - lv[virt] - F::ONE) + same * (nv[ts] - lv[ts]);
        if u(rc) >= HEIGHT || (ch[0] + ch[1] != F::ZERO && u(nv[virt]) >= HEIGHT) {
            return false;
        }
        lv[c.c("range_check")] = rc;
        let aux = (nv[seg] - f(34)) * (nv[seg] - f(35));
        let pre = nv[seg] * (nv[seg] - f(12)) * aux;
        lv[c.c("preinitialized_segments_aux")] = aux;
        lv[c.c("preinitialized_segments")] = pre;
        if let Some(k) = c.opt("preinitialized_segments_inv") {
            lv[k] = pre.try_inverse().unwrap_or_default();
        }
        lv[c.c("initialize_aux")] = pre * (F::ONE - same) * nv[c.c("is_read")];
        true
    }
    fn step(&self, i: usize, j: usize, first: bool) -> bool {
        let mut lv = self.cells[i].clone();
        let mut nv = self.cells[j].clone();
        nv[self.c.c("counter")] = F::ONE;
        if !first {
            lv[self.c.c("counter")] = f(7);
            nv[self.c.c("counter")] = f(8);
        }
        self.complete(&mut lv, &nv) && self.s.holds(MEMORY, &lv, &nv, first, false)
    }
    /// What the cells of the last row which follow from a next row hold is
    /// free: zero, or any of what would follow from a next row.
    fn last(&self, i: usize, root: usize) -> bool {
        let nv = &self.cells[root];
        let lv = self.cells[i].clone();
        if self.s.holds(MEMORY, &lv, nv, false, true) {
            return true;
        }
        (0..self.cells.len()).step_by(17).any(|j| {
            let mut lv = lv.clone();
            self.complete(&mut lv, &self.cells[j]) && self.s.holds(MEMORY, &lv, nv, false, true)
        })
    }
}

/// What the monitor knows of one address: the last access of the log to it
/// (value and time), and what was handed on.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
struct Seen {
    last: Option<(u8, u8)>,
    out: Option<u8>,
}
type Mon = [Seen; 3];

fn adversary(ck: &Check, s: &Starks, c: &Cols, addrs: &[Address], values: [U256; 2], stale: &[usize], times: u8, tag: &str) {
    // The kernel's first byte is the table's first row.
    let mut all = vec![(0, 0, 0)];
    all.extend_from_slice(addrs);
    let a = Auto::new(s, c, &all, values, stale, times);
    let what = || format!("addresses {addrs:?}, pruned contexts {stale:?}, values {values:x?}");
    let roots: Vec<usize> = (0..a.rows.len()).filter(|i| { let r = &a.rows[*i]; r.addr == 0 && r.ts == 0 && r.val == 1 }).collect();
    let n = a.rows.len();
    let mut next: HashMap<usize, Vec<usize>> = HashMap::new();
    // Rows reachable from the first, whatever the monitor says.
    let mut todo: Vec<usize> = vec![];
    for &r in &roots {
        let l: Vec<usize> = (0..n).into_par_iter().filter(|j| a.rows[*j].addr != 0 && a.step(r, *j, true)).collect();
        for j in &l {
            if !todo.contains(j) {
                todo.push(*j);
            }
        }
    }
    let starts = todo.clone();
    while !todo.is_empty() {
        let l: Vec<(usize, Vec<usize>)> = todo.par_iter().map(|&i| (i, (0..n).filter(|j| a.rows[*j].addr != 0 && a.step(i, *j, false)).collect())).collect();
        ck.transition(l.iter().map(|x| x.1.len() as u64).sum());
        let mut more = vec![];
        for (i, v) in l {
            next.insert(i, v);
        }
        for v in next.values() {
            for j in v {
                if !next.contains_key(j) {
                    more.push(*j);
                }
            }
        }
        more.sort_unstable();
        more.dedup();
        todo = more;
    }
    let ends: HashSet<usize> = next.keys().copied().collect::<Vec<_>>().into_par_iter().filter(|i| a.last(*i, roots[0])).collect();
    // Rows from which an end can be reached.
    let mut good = ends.clone();
    loop {
        let k = good.len();
        for (i, v) in &next {
            if v.iter().any(|j| good.contains(j)) {
                good.insert(*i);
            }
        }
        if good.len() == k {
            break;
        }
    }
    if good.is_empty() {
        return ck.violate(&format!("none:{tag}"), format!("no table at all is accepted: {}", what()));
    }
    // The product with the monitor.
    let enter = |m: &Mon, r: &Row| -> Result<Option<Mon>, String> {
        let mut m = *m;
        let k = r.addr as usize - 1;
        let ad = &a.addrs[r.addr as usize];
        if r.real {
            match m[k].last {
                Some((_, t)) if t == r.ts => return Ok(None), // not a log
                Some((_, t)) if t > r.ts => return Err(format!("{ad:?} is accessed at {} after {t}", r.ts)),
                Some((v, t)) if r.read && v != r.val => return Err(format!("{ad:?} holds value {v} since {t}, read as value {} at {}", r.val, r.ts)),
                None if r.read && r.val != 0 && !preset(ad) => return Err(format!("{ad:?} was never written, read as value {} at {}", r.val, r.ts)),
                _ => {}
            }
            m[k].last = Some((r.val, r.ts));
        }
        if r.after && !stale.contains(&ad.0) {
            if m[k].out.is_some() {
                return Err(format!("{ad:?} is handed on twice"));
            }
            m[k].out = Some(r.val);
        }
        Ok(Some(m))
    };
    let closed = |m: &Mon| -> Option<String> {
        for (k, x) in m.iter().enumerate().take(addrs.len()) {
            let ad = &addrs[k];
            if stale.contains(&ad.0) {
                continue;
            }
            let zero_is_nothing = !preset(ad);
            let bad = match (x.last, x.out) {
                (Some((v, _)), Some(o)) => v != o,
                (Some((v, _)), None) => !(zero_is_nothing && v == 0),
                (None, Some(o)) => !(zero_is_nothing && o == 0),
                (None, None) => false,
            };
            if bad {
                return Some(format!("{ad:?}: the last access (value, time) is {:?}, what is handed on is {:?}", x.last, x.out));
            }
        }
        None
    };
    let mut from: HashMap<(usize, Mon), Option<(usize, Mon)>> = HashMap::new();
    let mut todo = vec![];
    let mut told = HashSet::new();
    let path = |from: &HashMap<(usize, Mon), Option<(usize, Mon)>>, mut at: (usize, Mon), then: Option<usize>| {
        let mut rows = vec![at.0];
        while let Some(Some(p)) = from.get(&at) {
            at = *p;
            rows.push(at.0);
        }
        rows.reverse();
        rows.extend(then);
        rows.iter().map(|i| format!("  {:?}", a.rows[*i])).collect::<Vec<_>>().join("\n")
    };
    for &i in starts.iter().filter(|i| good.contains(i)) {
        match enter(&Mon::default(), &a.rows[i]) {
            Ok(Some(m)) => {
                if from.insert((i, m), None).is_none() {
                    todo.push((i, m));
                }
            }
            Ok(None) => {}
            Err(e) => ck.violate(&format!("{tag}:{}", kind(&e)), format!("{e}\n{}\nrow {:?}", what(), a.rows[i])),
        }
    }
    let mut n = 0u64;
    while let Some(st) = todo.pop() {
        n += 1;
        if ends.contains(&st.0) {
            if let Some(e) = closed(&st.1) {
                if told.insert(kind(&e)) {
                    ck.violate(&format!("{tag}:{}", kind(&e)), format!("{e}\n{}\n{}", what(), path(&from, st, None)));
                }
                continue;
            }
        }
        for &j in next[&st.0].iter().filter(|j| good.contains(j)) {
            match enter(&st.1, &a.rows[j]) {
                Ok(Some(m)) => {
                    if !from.contains_key(&(j, m)) {
                        from.insert((j, m), Some(st));
                        todo.push((j, m));
                    }
                }
                Ok(None) => {}
                Err(e) => {
                    if told.insert(kind(&e)) {
                        ck.violate(&format!("{tag}:{}", kind(&e)), format!("{e}\n{}\n{}", what(), path(&from, st, Some(j))));
                    }
                }
            }
        }
    }
    for k in 0..n {
        ck.state(&(tag, addrs, stale, values, k));
    }
    ck.evals("states of the table as an automaton", n);
    ck.sample("states of the table as an automaton", || json!({"addresses": format!("{addrs:?}"), "pruned": stale, "rows": a.rows.len(), "reachable rows": next.len(), "states": n}));
}
/// What of a message does not name values.
fn kind(e: &str) -> String {
    e.chars().filter(|c| !c.is_ascii_digit()).collect()
}

/// The truth about a log.
fn finals(before: &[(Address, U256)], ops: &[MemOp]) -> BTreeMap<Address, U256> {
    let mut m: BTreeMap<Address, U256> = before.iter().copied().collect();
    let mut o: Vec<&MemOp> = ops.iter().collect();
    o.sort_by_key(|x| x.timestamp);
    for x in o {
        m.insert(x.address, x.value);
    }
    m
}
/// As the next segment may rely on it.
fn content(m: impl IntoIterator<Item = (Address, U256)>) -> Vec<(Address, U256)> {
    m.into_iter().filter(|(a, v)| preset(a) || !v.is_zero()).collect()
}

struct Gen<'a> {
    s: &'a Starks,
    c: &'a Cols,
    lk: &'a ctl::Lookups,
}
type Count = BTreeMap<Vec<u64>, i64>;
impl Gen<'_> {
    fn side(&self, ctl: usize, looking: bool, table: usize, t: &Table, count: &mut Count, sign: i64) -> Result<(), String> {
        let l = &self.lk.ctls[ctl];
        let sides: Vec<&ctl::Side> = if looking { l.looking.iter().filter(|s| s.table == table).collect() } else { vec![&l.looked] };
        let n = t[0].len();
        for s in sides {
            for i in 0..n {
                let (lv, nv) = (row(t, i), row(t, (i + 1) % n));
                let k = s.filter.eval(&lv, &nv);
                if k != F::ZERO {
                    if k != F::ONE {
                        return Err(format!("row {i} of table {table} has the filter {k}"));
                    }
                    *count.entry(s.tuple(&lv, &nv).into_iter().map(u).collect()).or_default() += sign;
                }
            }
        }
        Ok(())
    }
    /// All that the verifier checks of a memory table, the processor's side
    /// being given.
    fn accepts(&self, t: &Table, before: &Table, after: &Table, ops: &[MemOp], stale: &[usize]) -> Result<(), String> {
        let n = t[0].len();
        for i in 0..n {
            let (lv, nv) = (row(t, i), row(t, (i + 1) % n));
            if !self.s.holds(MEMORY, &lv, &nv, i == 0, i + 1 == n) {
                return Err(format!("row {i} of {n} does not satisfy the constraints"));
            }
        }
        for l in &self.lk.inner[MEMORY] {
            let mut values: BTreeMap<u64, F> = BTreeMap::new();
            for i in 0..n {
                let (lv, nv) = (row(t, i), row(t, (i + 1) % n));
                *values.entry(u(l.table.eval(&lv, &nv))).or_default() += l.frequencies.eval(&lv, &nv);
                for (c, fl) in l.columns.iter().zip(&l.filters) {
                    *values.entry(u(c.eval(&lv, &nv))).or_default() -= fl.eval(&lv, &nv);
                }
            }
            if let Some((v, k)) = values.iter().find(|x| *x.1 != F::ZERO) {
                return Err(format!("a lookup of the table into itself does not balance: {v} by {k}"));
            }
        }
        for (tab, x) in [(BEFORE, before), (AFTER, after)] {
            let n = x[0].len();
            if !n.is_power_of_two() {
                return Err(format!("table {tab} has {n} rows"));
            }
            for i in 0..n {
                if !self.s.holds(tab, &row(x, i), &row(x, (i + 1) % n), i == 0, i + 1 == n) {
                    return Err(format!("row {i} of table {tab} does not satisfy the constraints"));
                }
            }
        }
        let mut m = Count::new();
        self.side(CTL_MEMORY, true, BEFORE, before, &mut m, 1)?;
        self.side(CTL_MEMORY, false, MEMORY, t, &mut m, -1)?;
        for o in ops {
            let mut k = vec![o.is_read as u64, o.address.0 as u64, o.address.1 as u64, o.address.2 as u64];
            k.extend((0..8).map(|i| u(limb(o.value, i))));
            k.push(o.timestamp as u64);
            *m.entry(k).or_default() += 1;
        }
        let mut b = Count::new();
        self.side(CTL_BEFORE, true, MEMORY, t, &mut b, 1)?;
        self.side(CTL_BEFORE, false, BEFORE, before, &mut b, -1)?;
        let mut a = Count::new();
        self.side(CTL_AFTER, true, MEMORY, t, &mut a, 1)?;
        self.side(CTL_AFTER, false, AFTER, after, &mut a, -1)?;
        let mut p = Count::new();
        self.side(CTL_PRUNE, true, MEMORY, t, &mut p, 1)?;
        for s in stale {
            *p.entry(vec![*s as u64]).or_default() -= 1;
        }
        for (n, m) in [("memory", m), ("memory before", b), ("memory after", a), ("pruned contexts", p)] {
            if let Some((k, d)) = m.iter().find(|x| *x.1 != 0) {
                return Err(format!("the lookup of the {n} does not balance: {k:?} by {d}"));
            }
        }
        Ok(())
    }
    /// The content of a continuation table.
    fn read(&self, t: &Table) -> Vec<(Address, U256)> {
        let l = &self.lk.ctls[CTL_AFTER].looked;
        let n = t[0].len();
        let mut v: Vec<(Address, U256)> = (0..n)
            .filter_map(|i| {
                let (lv, nv) = (row(t, i), row(t, (i + 1) % n));
                (l.filter.eval(&lv, &nv) == F::ONE).then(|| {
                    let x: Vec<u64> = l.tuple(&lv, &nv).into_iter().map(u).collect();
                    let val = (0..8).fold(U256::zero(), |s, i| s | U256::from(x[3 + i]) << (32 * i));
                    ((x[0] as usize, x[1] as usize, x[2] as usize), val)
                })
            })
            .collect();
        v.sort_unstable();
        v
    }
    /// The table of a log, and whether it is accepted and hands on the truth.
    fn log(&self, before: &[(Address, U256)], ops: &[MemOp], stale: &[usize]) -> Result<(Table, Table, Table), String> {
        let (t, fin, _) = vc::catch(|| self.s.memory(ops, before, stale)).map_err(|e| format!("panic: {e}"))?;
        let b = self.s.mem_before(before);
        let a = self.s.mem_after(fin);
        self.accepts(&t, &b, &a, ops, stale)?;
        let want: Vec<_> = content(finals(before, ops)).into_iter().filter(|x| !stale.contains(&x.0 .0)).collect();
        let got = self.read(&a);
        let got_n = content(got.clone());
        if got_n.windows(2).any(|w| w[0].0 == w[1].0) || got_n.len() != got.len() && got.windows(2).any(|w| w[0].0 == w[1].0) {
            return Err("an address is handed on twice".into());
        }
        if got_n != want {
            let d = want.iter().find(|x| !got_n.contains(x)).map(|x| format!("lacks {x:x?}")).or(got_n.iter().find(|x| !want.contains(x)).map(|x| format!("has {x:x?}")));
            return Err(format!("the memory handed on {}", d.unwrap_or_default()));
        }
        Ok((t, b, a))
    }
}

fn op(address: Address, is_read: bool, value: U256, timestamp: usize) -> MemOp {
    MemOp { filter: true, timestamp, address, is_read, value }
}
/// Enough of the kernel's code that segments and contexts lie within a table's
/// height of each other, as they do in every execution.
fn kernel() -> Vec<(Address, U256)> {
    (0..50).map(|i| ((0, 0, i), U256::from(0x5b + i))).collect()
}
fn pad(v: usize) -> U256 {
    match v {
        0 => U256::zero(),
        1 => U256::one(),
        2 => U256::MAX,
        _ => U256::one() << 255,
    }
}

/// All logs of a bounded length that a memory can have.
fn logs(ck: &Check, g: &Gen, addrs: &[Address], len: usize, nb: usize) {
    let na = addrs.len();
    let befores: Vec<Vec<(Address, U256)>> = (0..(nb + 1).pow(na as u32)).map(|mut x| { let mut v = kernel(); for a in addrs { if x % (nb + 1) != 0 { v.push((*a, pad(x % (nb + 1) - 1))); } x /= nb + 1; } v }).collect();
    let stales: [&[usize]; 2] = [&[], &[1]];
    let times: [fn(usize) -> usize; 3] = [|i| i + 1, |i| 1 + i * 37, |i| (1 << (4 * i.min(2))) + i];
    befores.par_iter().for_each(|before| {
        // a word of choices: address and (read, write 0, write 1, write max)
        for w in 0..(na * 4).pow(len as u32) {
            if ck.stopped() {
                return;
            }
            let mut x = w;
            let mut m: BTreeMap<Address, U256> = before.iter().copied().collect();
            let mut list = vec![];
            for _ in 0..len {
                let (a, k) = (addrs[x % na], x / na % 4);
                x /= na * 4;
                let v = if k == 0 { m.get(&a).copied().unwrap_or(if preset(&a) { U256::from(5) } else { U256::zero() }) } else { pad(k - 1) };
                m.insert(a, v);
                list.push((a, k == 0, v));
            }
            // a context no longer used, or of every time
            let ti = times[w % 3];
            let ops: Vec<MemOp> = list.iter().enumerate().map(|(i, (a, r, v))| op(*a, *r, *v, ti(i))).collect();
            let st = stales[w % 2];
            ck.eval("logs of a memory");
            ck.transition(ops.len() as u64);
            if let Err(e) = g.log(before, &ops, st) {
                ck.violate(&format!("log:{}", kind(&e)), format!("{e}\nbefore {before:x?}\nlog {ops:x?}\npruned {st:?}"));
                return;
            }
        }
    });
    ck.trace();
}

/// Gaps of every size in every part of an address, and in time.
fn gaps(ck: &Check, g: &Gen) {
    let mut cases: Vec<(Vec<(Address, U256)>, Vec<MemOp>, Vec<usize>)> = vec![];
    let sizes = [1usize, 2, 3, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 125, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 4095, 4096, 4097];
    for &s in &sizes {
        for seg in [1usize, 2, 12, 34, 38] {
            for start in [0usize, 1, 5] {
                for n in [2usize, 4, 9] {
                    let mut ops = vec![];
                    for i in 0..n {
                        // written, and read after a pause
                        ops.push(op((0, seg, start + i * s), false, U256::from(i + 7), 1 + i));
                    }
                    for i in 0..n {
                        ops.push(op((0, seg, start + i * s), true, U256::from(i + 7), 100 + i));
                    }
                    cases.push((kernel(), ops, vec![]));
                }
            }
        }
        // pauses at one address
        for v in [0usize, 9] {
            for n in [1usize, 3, 6] {
                let ops: Vec<MemOp> = (0..=n).map(|i| op((0, 2, v), i > 0, U256::MAX, 1 + i * s)).collect();
                cases.push((kernel(), ops, vec![]));
            }
        }
        // the first address of a part far out
        for seg in [0usize, 1, 12, 35] {
            let s = s + 50;
            cases.push((kernel(), vec![op((0, seg, s), false, 3.into(), 9), op((0, seg, s), true, 3.into(), 10)], vec![]));
            cases.push(([kernel(), vec![((0, seg, s), 8.into())]].concat(), vec![op((0, seg, s), true, 8.into(), 10)], vec![]));
            cases.push((kernel(), vec![op((1, seg, s), false, 3.into(), 9), op((2, seg, s + 3), false, 4.into(), 10)], vec![1]));
        }
    }
    // contexts
    for n in 1..12usize {
        for which in 0..4usize {
            let mut ops = vec![];
            for c in 0..n {
                for k in 0..3 {
                    ops.push(op((c, [1, 2, 6][k], c * 3), false, U256::from(c * 10 + k + 1), 1 + c * 10 + k));
                    ops.push(op((c, [1, 2, 6][k], c * 3), true, U256::from(c * 10 + k + 1), 500 + c * 10 + k));
                }
            }
            let stale: Vec<usize> = (1..n).filter(|c| match which { 0 => false, 1 => true, 2 => c % 2 == 0, _ => c % 3 == 1 }).collect();
            cases.push((kernel(), ops, stale));
        }
    }
    cases.par_iter().for_each(|(b, o, s)| {
        ck.eval("gaps");
        ck.transition(o.len() as u64);
        if let Err(e) = g.log(b, o, s) {
            ck.violate(&format!("gap:{}", kind(&e)), format!("{e}\nlog {o:x?}\npruned {s:?}"));
        }
    });
    ck.sample("gaps", || json!({"sizes": sizes, "cases": cases.len()}));
}

/// Every cell of a table altered, and every access of its log.
fn alterations(ck: &Check, g: &Gen) {
    let big = U256::from_dec_str("1234567890123456789012345678901234567890123456789012345678901234567890").unwrap();
    let mut ops = vec![];
    for (i, a) in [(0, 1, 0), (0, 1, 1), (0, 2, 7), (0, 12, 3), (1, 0, 2), (1, 1, 0), (2, 34, 5), (2, 2, 2)].into_iter().enumerate() {
        ops.push(op(a, false, big << i, 1 + i));
        ops.push(op(a, true, big << i, 20 + i));
        ops.push(op(a, i % 2 == 0, if i % 2 == 0 { big << i } else { U256::MAX - i }, 40 + i));
        ops.push(op(a, true, if i % 2 == 0 { big << i } else { U256::MAX - i }, 60 + i));
    }
    let before = kernel().into_iter().chain([((0, 2, 8), big), ((0, 12, 9), U256::zero()), ((2, 2, 3), U256::one())]).collect::<Vec<_>>();
    let stale = [1usize];
    let (t, b, a) = match g.log(&before, &ops, &stale) {
        Ok(x) => x,
        Err(e) => return ck.violate("alterations", e),
    };
    let n = t[0].len();
    let c = g.c;
    // columns whose content is not the prover's to choose
    let free = ["frequencies", "stale_context_frequencies"].map(|k| c.c(k));
    let stated: Vec<usize> = ["filter", "timestamp", "is_read", "addr_context", "addr_segment", "addr_virtual"].iter().map(|k| c.c(k)).chain(c.limbs..c.limbs + 8).collect();
    (0..n).into_par_iter().for_each(|i| {
        let real = t[c.c("filter")][i] == F::ONE;
        for k in 0..t.len() {
            if free.contains(&k) || (!real && !stated[..1].contains(&k)) {
                continue;
            }
            if !(stated.contains(&k) || ["timestamp_inv", "mem_after_filter", "is_pruned", "stale_contexts"].iter().any(|x| c.opt(x) == Some(k))) {
                continue;
            }
            for v in [F::ZERO, F::ONE, F::TWO, t[k][i] + F::ONE, t[k][i] - F::ONE, F::NEG_ONE] {
                if v == t[k][i] {
                    continue;
                }
                let mut x = t.clone();
                x[k][i] = v;
                ck.eval("cells altered");
                // timestamp_inv of time 0 is free
                if Some(k) == c.opt("timestamp_inv") && t[c.c("timestamp")][i] == F::ZERO {
                    continue;
                }
                if g.accepts(&x, &b, &a, &ops, &stale).is_ok() {
                    ck.violate("cell", format!("row {i} of {n}, column {k} (of {:?}) altered from {} to {v}", c.at.iter().find(|y| *y.1 == k), t[k][i]));
                }
            }
        }
    });
    // One access altered in the log and in the table alike, all that follows
    // from it recomputed: every wrong read must be refused.
    (0..ops.len()).into_par_iter().for_each(|i| {
        for bit in 0..256 {
            let mut o = ops.clone();
            o[i].value = o[i].value ^ (U256::one() << bit);
            if !o[i].is_read && ops.iter().all(|x| x.address != o[i].address || x.timestamp <= o[i].timestamp || !x.is_read) {
                continue;
            }
            if !o[i].is_read && ops.iter().filter(|x| x.address == o[i].address && x.timestamp > o[i].timestamp).min_by_key(|x| x.timestamp).map_or(true, |x| !x.is_read) {
                continue;
            }
            ck.eval("accesses altered");
            let Ok((t, fin, _)) = vc::catch(|| g.s.memory(&o, &before, &stale)) else { continue };
            let a = g.s.mem_after(fin);
            if g.accepts(&t, &b, &a, &o, &stale).is_ok() {
                ck.violate("access", format!("access {i} altered in bit {bit}: {o:x?}"));
            }
        }
    });
    // A context declared dead although the processor did not prune it.
    for i in 0..n {
        for ctx in [0usize, 2] {
            for p in [F::ZERO, F::TWO, F::NEG_ONE] {
                let mut r = row(&t, i);
                r[c.c("stale_contexts")] = f(ctx as u64 + 1);
                r[c.c("is_pruned")] = p;
                ck.eval("contexts declared dead");
                if g.s.memory_holds_alone(&r) {
                    ck.violate("stale", format!("row {i} may declare context {ctx} dead with a pruning flag of {p}, so that its memory is not handed on"));
                }
            }
        }
    }
    // What is handed on, altered.
    let na = a[0].len();
    for i in 0..na {
        for k in 0..a.len() {
            let filter = a[0][i];
            if k > 0 && filter == F::ZERO {
                continue;
            }
            let mut x = a.clone();
            x[k][i] = if k == 0 { F::ONE - filter } else { x[k][i] + F::ONE };
            ck.eval("handed on altered");
            if g.accepts(&t, &b, &x, &ops, &stale).is_ok() {
                ck.violate("after", format!("row {i} of the memory after, column {k}"));
            }
        }
    }
    for i in 0..b[0].len() {
        for k in 0..b.len() {
            if k > 0 && b[0][i] == F::ZERO {
                continue;
            }
            let mut x = b.clone();
            x[k][i] = if k == 0 { F::ONE - x[k][i] } else { x[k][i] + F::ONE };
            ck.eval("memory before altered");
            if g.accepts(&t, &x, &a, &ops, &stale).is_ok() {
                ck.violate("before", format!("row {i} of the memory before, column {k}"));
            }
        }
    }
}

/// Segments of whole executions: each hands on the truth, and the next starts
/// from it.
fn executions(ck: &Check, g: &Gen, log: usize, max: usize) {
    let mut world = c13::world();
    world.insert(c13::contract(9), Acct { nonce: 1, balance: 90.into(), code: Code::new().sstore(1, 7).p(299).o(0x40).p(2).o(SSTORE).0, ..Acct::default() });
    let t = Tx { ty: 2, chain_id: Some(1), nonce: 0, tip: 2.into(), max_fee: 50.into(), gas: 100_000, to: Some(c13::contract(9)), key: 1, ..Tx::default() };
    let batch = Batch { world, block: base_block(), txs: vec![t], ..Batch::default() };
    let e = batch.expect(false);
    let inputs = batch.inputs(&e);
    let mut last: Option<Vec<(Address, U256)>> = None;
    for (n, d) in SegmentDataIterator::<F>::new(&inputs, Some(log)).enumerate() {
        if n == max {
            break;
        }
        let r = vc::catch(|| -> Result<(), String> {
            let (trimmed, mut data) = d.map_err(|e| e.to_string())?;
            let (tables, _, _) = g.s.segment(&trimmed, &mut data)?;
            let t = &tables[MEMORY];
            let before = g.read(&tables[BEFORE]);
            let after = g.read(&tables[AFTER]);
            if let Some(l) = &last {
                if *l != before {
                    return Err(format!("starts from other memory than was handed on: {:x?}", l.iter().find(|x| !before.contains(x)).or(before.iter().find(|x| !l.contains(x)))));
                }
            }
            let h = t[0].len();
            let bad = (0..h).into_par_iter().find_any(|&i| !g.s.holds(MEMORY, &row(t, i), &row(t, (i + 1) % h), i == 0, i + 1 == h));
            ck.transition(h as u64);
            if let Some(i) = bad {
                return Err(format!("row {i} does not satisfy the constraints"));
            }
            // the log as the table states it
            let c = g.c;
            let mut ops = vec![];
            let mut stale = vec![];
            for i in 0..h {
                if t[c.c("filter")][i] == F::ONE {
                    let a = (u(t[c.c("addr_context")][i]) as usize, u(t[c.c("addr_segment")][i]) as usize, u(t[c.c("addr_virtual")][i]) as usize);
                    let v = (0..8).fold(U256::zero(), |s, j| s | U256::from(u(t[c.limbs + j][i])) << (32 * j));
                    ops.push(op(a, t[c.c("is_read")][i] == F::ONE, v, u(t[c.c("timestamp")][i]) as usize));
                }
                if t[c.c("is_pruned")][i] == F::ONE {
                    stale.push(u(t[c.c("stale_contexts")][i]) as usize - 1);
                }
            }
            let mut m: BTreeMap<Address, U256> = BTreeMap::new();
            ops.sort_by_key(|o| o.timestamp);
            for o in &ops {
                match m.get(&o.address) {
                    Some(v) if o.is_read && *v != o.value => return Err(format!("{o:x?} reads what was not written last")),
                    None if o.is_read && !o.value.is_zero() && !preset(&o.address) => return Err(format!("{o:x?} reads what was never written")),
                    _ => {}
                }
                m.insert(o.address, o.value);
            }
            let want: Vec<_> = content(m).into_iter().filter(|x| !stale.contains(&x.0 .0)).collect();
            if want != after {
                return Err(format!("hands on other memory than its accesses leave: {:x?}", want.iter().find(|x| !after.contains(x)).or(after.iter().find(|x| !want.contains(x)))));
            }
            last = Some(after);
            Ok(())
        });
        ck.eval("segments");
        ck.trace();
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return ck.violate(&format!("segment:{}", kind(&e)), format!("segment {n} of 2^{log}: {e}")),
            Err(e) => return ck.violate("segment:panic", format!("segment {n} of 2^{log}: panic: {e}")),
        }
    }
}

pub fn run() -> ! {
    let ck = Check::new("C18", "model_check");
    let th = ck.thorough;
    let only = std::env::var("VERIF_ONLY").ok();
    let on = |n: &str| only.as_deref().map_or(true, |o| o.split(',').any(|x| x == n));
    let s = Starks::default();
    let (t, _, _) = s.memory(&[op((0, 0, 0), false, 1.into(), 1)], &[], &[]);
    let c = Cols::new(t.len());
    let lk = ctl::lookups(&s);
    let g = Gen { s: &s, c: &c, lk: &lk };
    if on("adversary") {
        let pool: Vec<Address> = vec![(0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 12, 0), (0, 34, 0), (0, 35, 2), (1, 0, 0), (1, 1, 0), (2, 2, 0)];
        let one = U256::one();
        // pairs and triples of addresses, in the table's order
        let mut sets: Vec<Vec<Address>> = vec![];
        for i in 0..pool.len() {
            for j in i + 1..pool.len() {
                sets.push(vec![pool[i], pool[j]]);
                if th {
                    sets.extend((j + 1..pool.len()).map(|k| vec![pool[i], pool[j], pool[k]]));
                }
            }
        }
        for (k, x) in sets.iter().enumerate() {
            for stale in [&[][..], &[1], &[0, 1, 2]] {
                if !stale.is_empty() && x.iter().all(|a| a.0 == 0) {
                    continue;
                }
                // one limb after the other
                let v = [U256::zero(), one << (32 * (k % 8))];
                adversary(&ck, &s, &c, x, v, stale, 3, &format!("{x:?} {stale:?}"));
            }
        }
        for x in [[(0, 1, 0), (0, 1, 1), (0, 12, 0)], [(0, 0, 1), (0, 1, 1), (1, 1, 0)]] {
            adversary(&ck, &s, &c, &x, [U256::zero(), one], &[], 3, &format!("{x:?}"));
        }
        adversary(&ck, &s, &c, &[(0, 1, 0)], [U256::zero(), one], &[], 6, "six times");
        eprintln!("adversary {:.1}s", ck.elapsed().as_secs_f64());
    }
    if on("logs") {
        logs(&ck, &g, &[(0, 1, 0), (0, 1, 1), (0, 12, 0), (1, 1, 0)], 2, 2);
        logs(&ck, &g, &[(0, 2, 3), (1, 0, 0)], ck.pick(3, 4), 2);
        logs(&ck, &g, &[(0, 2, 3), (0, 35, 1), (1, 1, 4)], ck.pick(3, 4), 1);
        eprintln!("logs {:.1}s", ck.elapsed().as_secs_f64());
    }
    if on("gaps") {
        gaps(&ck, &g);
        eprintln!("gaps {:.1}s", ck.elapsed().as_secs_f64());
    }
    if on("alterations") {
        alterations(&ck, &g);
        eprintln!("alterations {:.1}s", ck.elapsed().as_secs_f64());
    }
    if on("executions") {
        executions(&ck, &g, ck.pick(12, 11), ck.pick(6, 1000));
        if th {
            executions(&ck, &g, 16, 1000);
        }
        eprintln!("executions {:.1}s", ck.elapsed().as_secs_f64());
    }
    ck.finish(
        "states of the automaton whose steps are those the memory table's own constraints allow, with a monitor of the accesses and of what is handed on; and every log of a bounded length through the generator",
        json!({
            "automaton": if th { "all pairs and triples of 9 addresses (4 segments preset, 3 contexts), 2 values, 3 times, dummies anywhere, any length" } else { "all pairs of 9 addresses (4 segments preset, 3 contexts) and two triples, 2 values, 3 times, dummies anywhere, any length" },
            "logs": if th { "all of 2 over 4 addresses, of 4 over 2 and 3" } else { "all of 2 over 4 addresses, of 3 over 2 and 3" },
            "gaps": "1 to 4097 in virtual addresses and time",
        }),
        &["the processor's accesses have distinct times from 1 on at each address", "the first byte of the kernel is not zero and is in every memory before"],
    )
}
