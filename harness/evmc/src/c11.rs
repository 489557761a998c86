//! C11: contract code executes as the EVM specification says.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use vc::rayon::prelude::*;
use vc::{Check, U256};

use crate::asm::*;
use crate::batch::*;
use crate::prog::*;
use crate::refevm::*;

const GAS_LIMIT: u64 = 400_000;
const KEY: u64 = 7;

fn me() -> Addr {
    addr20(0xcc, 1)
}
/// The other accounts of the state.
fn other(i: u64) -> Addr {
    addr20(0xa0 + i as u8, i)
}
/// What programs find around them.
fn base() -> Batch {
    let mut b = Batch { world: base_world(), block: base_block(), ..Batch::default() };
    b.block.excess_blob_gas = 10_000_000;
    let w = &mut b.world;
    let con = |code: Code, bal: u64| Acct { nonce: 1, balance: bal.into(), code: code.0, ..Acct::default() };
    w.insert(address_of(KEY), Acct { balance: U256::exp10(20), nonce: 5, ..Acct::default() });
    w.insert(me(), Acct { nonce: 3, balance: 1000.into(), code: vec![0xfe], storage: [(5.into(), 77.into()), (6.into(), 1.into()), (7.into(), U256::MAX)].into() });
    // 1: no code.
    w.insert(other(1), Acct { balance: 500.into(), ..Acct::default() });
    // 2: returns its input.
    w.insert(other(2), con(Code::new().os(&[CALLDATASIZE]).p(0).p(0).o(CALLDATACOPY).o(CALLDATASIZE).p(0).o(RETURN), 0));
    // 3: reverts with 40 bytes.
    w.insert(other(3), con(Code::new().o(CALLER).p(8).o(MSTORE).p(40).p(0).o(REVERT), 7));
    // 4: absent.  5: fails.
    w.insert(other(5), con(Code::new().o(INVALID), 0));
    // 6: writes the slot and value given, logs, and returns what was there.
    w.insert(
        other(6),
        Acct {
            storage: [(5.into(), 1.into()), (6.into(), 2.into())].into(),
            ..con(
                Code::new()
                    .p(0).o(CALLDATALOAD).o(SLOAD).p(0).o(MSTORE)
                    .p(32).o(CALLDATALOAD).p(0).o(CALLDATALOAD).o(SSTORE)
                    .p(32).o(CALLDATALOAD).p(1).o(TSTORE)
                    .p(9).p(32).p(0).o(0xa1)
                    .p(32).p(0).o(RETURN),
                9,
            )
        },
    );
    // 7: tells its surroundings.
    w.insert(
        other(7),
        con(
            Code::new().o(ADDRESS).p(0).o(MSTORE).o(CALLER).p(32).o(MSTORE).o(CALLVALUE).p(64).o(MSTORE).o(GAS).p(96).o(MSTORE)
                .o(0x47).p(128).o(MSTORE).o(CALLDATASIZE).p(160).o(MSTORE).p(5).o(SLOAD).p(192).o(MSTORE).p(224).p(0).o(RETURN),
            3,
        ),
    );
    // 8: calls 6 with its input, and destroys itself when that fails.
    w.insert(
        other(8),
        con(Code::new().p(64).p(0).p(0).o(CALLDATACOPY).p(32).p(0).p(64).p(0).p(0).p(other(6)).o(GAS).o(0xf1).p(0).o(MSTORE).p(32).p(0).o(RETURN), 11),
    );
    b.txs.push(Tx {
        ty: 3,
        chain_id: Some(1),
        nonce: 5,
        tip: 3.into(),
        max_fee: 20.into(),
        gas: GAS_LIMIT + 100_000,
        to: Some(me()),
        value: 3.into(),
        data: (1..=75).collect(),
        access: vec![(me(), vec![5.into(), 9.into()]), (other(2), vec![])],
        max_blob_fee: 1000.into(),
        blobs: vec![(U256::one() << 248) + 7, (U256::one() << 248) + U256::from(u64::MAX)],
        key: KEY,
    });
    b
}

struct Ctx {
    ck: Check,
    ops: Vec<AtomicU64>,
    ends: [AtomicU64; 3],
    times: std::sync::Mutex<std::collections::BTreeMap<&'static str, f64>>,
}
struct Job {
    family: &'static str,
    code: Vec<u8>,
    gas: u64,
    finish: bool,
}
fn job(family: &'static str, code: Code) -> Job {
    Job { family, code: code.0, gas: 100_000, finish: false }
}
fn with_prog<T>(f: impl FnOnce(&mut Prog) -> T) -> T {
    thread_local! { static P: std::cell::RefCell<Option<Prog>> = const { std::cell::RefCell::new(None) }; }
    P.with(|p| f(p.borrow_mut().get_or_insert_with(|| Prog::new(base()))))
}
impl Ctx {
    fn go(&self, j: &Job) -> Option<Outcome> {
        if self.ck.stopped() {
            return None;
        }
        let t0 = std::time::Instant::now();
        let o = match vc::catch(|| with_prog(|p| p.run(&self.ck, &j.code, j.gas, j.finish, j.family))) {
            Ok(o) => o?,
            Err(e) => {
                self.ck.violate(j.family, format!("{}: code {} with {} gas: panic: {e}", j.family, hex(&j.code), j.gas));
                return None;
            }
        };
        self.ck.eval(j.family);
        if std::env::var("VERIF_TIMES").is_ok() {
            *self.times.lock().unwrap().entry(j.family).or_insert(0.0) += t0.elapsed().as_secs_f64();
        }
        for (i, n) in o.ops.iter().enumerate() {
            if *n > 0 {
                self.ops[i].fetch_add(*n, Relaxed);
            }
        }
        let e = match o.output {
            End::Ok(_) => 0,
            End::Revert(_) => 1,
            End::Fault => 2,
        };
        self.ends[e].fetch_add(1, Relaxed);
        self.ck.sample(j.family, || vc::json!({"code": hex(&j.code), "gas": j.gas, "gas_used": o.gas, "end": e}));
        Some(o)
    }
    fn all(&self, jobs: Vec<Job>) {
        jobs.par_iter().with_min_len(8).for_each(|j| {
            self.go(j);
        });
    }
}

/// Shows what the instruction left behind: memory and its size, the data
/// returned, the gas left and every item of the stack.
fn expose(c: Code, items: usize) -> Code {
    c.os(&[MSIZE, 0x80]).p(0).os(&[KECCAK256, RETURNDATASIZE, 0x80]).p(0).p(0).o(RETURNDATACOPY).o(MSIZE).p(0).os(&[KECCAK256, GAS]).os(&vec![POP; items + 5]).o(STOP)
}
/// Memory of 75 bytes with content.
fn fill(c: Code) -> Code {
    c.p(75).p(0).p(0).o(CALLDATACOPY)
}
/// 40 bytes of returned data.
fn returned(c: Code) -> Code {
    c.p(0).p(0).p(40).p(3).p(0).p(other(2)).o(GAS).o(0xf1).o(POP)
}
fn word(i: u32) -> U256 {
    U256::one() << i
}
fn boundary() -> Vec<U256> {
    let mut v: Vec<U256> = [0u64, 1, 2, 5, 31, 32, 33, 64, 74, 75, 76, 255, 256, 4096].iter().map(|x| (*x).into()).collect();
    v.extend([word(32) - 1, word(32), word(64) - 1, word(64), word(128), word(160), word(255), U256::MAX]);
    v
}
fn addresses() -> Vec<U256> {
    let mut v: Vec<U256> = (1..=8).map(|i| a2u(other(i))).collect();
    v.extend([a2u(address_of(KEY)), a2u(addr20(0xcb, 1)), a2u(beacon_addr())]);
    v.extend((0..=11u64).map(U256::from));
    v.push(a2u(other(2)) + word(160));
    v.push(a2u(other(1)) + word(255));
    v
}

/// Every instruction at every critical depth of the stack.
fn depths(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let deep: &[usize] = if thorough { &[1007, 1008, 1019, 1020, 1021, 1022, 1023, 1024] } else { &[1021, 1022, 1023, 1024] };
    for op in 0..=255u8 {
        for d in 0..=18usize {
            let mut c = Code::new();
            for i in 0..d {
                c = c.p(if (0xf0..=0xff).contains(&op) { 40 - i } else { 2 * (d - i) });
            }
            v.push(job("depth", expose(fill(Code::new()).c(&c).o(op), d)));
        }
        for d in deep {
            v.push(job("deep", Code::new().os(&vec![0x5f; *d]).o(op).os(&[POP, POP, GAS]).os(&[0x5f; 4])));
        }
    }
    v
}
/// Instructions that take their operands from the stack only, or also touch
/// memory: all combinations of boundary operands.
fn operands(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let w = boundary();
    for op in (0x15..=0x19).chain([0x31, 0x35, 0x3b, 0x3f, 0x40, 0x49, 0x50, 0x51, 0x54, 0x56, 0x5c, 0xff]) {
        let mut xs = w.clone();
        if matches!(op, 0x31 | 0x3b | 0x3f | 0xff) {
            xs.extend(addresses());
        }
        if op == 0x40 {
            xs.extend([42u64, 43, 44, 45, 298, 299, 300, 301].map(U256::from));
        }
        for x in xs {
            v.push(job("one operand", expose(fill(Code::new()).p(x).o(op), 1)));
        }
    }
    let two: Vec<u8> = (1..=7).chain([0x0a, 0x0b]).chain(0x10..=0x14).chain(0x16..=0x18).chain(0x1a..=0x1d).chain([0x20, 0x52, 0x53, 0x55, 0x57, 0x5d, 0xa0, 0xf3, 0xfd]).collect();
    for op in two {
        for x in &w {
            for y in &w {
                v.push(job("two operands", expose(fill(Code::new()).p(*y).p(*x).o(op), 2)));
            }
        }
    }
    let mut s: Vec<U256> = [0u64, 1, 31, 32, 40, 41, 75].iter().map(|x| (*x).into()).collect();
    s.extend([word(32) - 1, word(64), U256::MAX]);
    if thorough {
        s.extend([33u64, 64, 76, 4096].map(U256::from));
        s.extend([word(32), word(64) - 1, word(128), word(255)]);
    }
    for op in [0x08u8, 0x09, 0x37, 0x39, 0x3e, 0x5e, 0xa1, 0xf0] {
        for x in &s {
            for y in &s {
                for z in &s {
                    let mut c = fill(Code::new());
                    if op == 0x3e {
                        c = returned(c);
                    }
                    v.push(job("three operands", expose(c.p(*z).p(*y).p(*x).o(op), 3)));
                }
            }
        }
    }
    for a in addresses().iter().step_by(if thorough { 1 } else { 3 }) {
        for x in &s {
            for y in &s {
                for z in s.iter().step_by(if thorough { 1 } else { 2 }) {
                    v.push(job("EXTCODECOPY", expose(fill(Code::new()).p(*z).p(*y).p(*x).p(*a).o(0x3c), 4)));
                }
            }
        }
    }
    for x in &s {
        for y in &s {
            for z in [U256::zero(), 5.into(), U256::MAX] {
                for t in [U256::zero(), U256::MAX] {
                    v.push(job("CREATE2", expose(fill(Code::new()).p(t).p(*y).p(*x).p(z).o(0xf5), 4)));
                }
            }
            for (op, n) in [(0xa2u8, 2), (0xa3, 3), (0xa4, 4)] {
                let c = (0..n).fold(fill(Code::new()), |c, i| c.p(U256::MAX - i));
                v.push(job("LOG", expose(c.p(*y).p(*x).o(op), 4)));
            }
        }
    }
    v
}
/// Calls of every kind to every kind of account.
fn calls(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let n = |x: &[u64]| -> Vec<U256> { x.iter().map(|x| (*x).into()).collect() };
    let mut shapes: Vec<Vec<U256>> = vec![n(&[0, 0, 0, 0]), n(&[0, 64, 0, 32]), n(&[3, 33, 70, 10]), n(&[0, 75, 96, 300]), n(&[100_000_000, 0, 200_000_000, 0])];
    shapes.push(vec![U256::MAX, 0.into(), U256::MAX, 0.into()]);
    shapes.push(vec![0.into(), word(32), 0.into(), 0.into()]);
    shapes.push(vec![0.into(), 0.into(), word(64), 1.into()]);
    let gas: Vec<U256> = vec![0.into(), 700.into(), 30_000.into(), word(64), U256::MAX];
    let values: Vec<U256> = vec![0.into(), 1.into(), 1003.into(), 1004.into(), U256::MAX];
    for op in [0xf1u8, 0xf2, 0xf4, 0xfa] {
        for (i, a) in addresses().iter().enumerate() {
            for (j, g) in gas.iter().enumerate() {
                for (k, val) in values.iter().enumerate() {
                    if k > 0 && (op == 0xf4 || op == 0xfa) {
                        continue;
                    }
                    for (l, s) in shapes.iter().enumerate() {
                        // Everything with the accounts that have code, and a
                        // sample of the rest spread over all pairs.
                        if !thorough && (i + 2 * j + 3 * k + l) % if i < 8 { 3 } else { 9 } != 0 {
                            continue;
                        }
                        let mut c = fill(Code::new());
                        c = c.p(s[3]).p(s[2]).p(s[1]).p(s[0]);
                        if op == 0xf1 || op == 0xf2 {
                            c = c.p(*val);
                        }
                        v.push(job("call", expose(c.p(*a).p(*g).o(op).os(&[0x31; 0]), 7)));
                    }
                }
            }
        }
    }
    v
}
/// Every jump target in every short code, with pushes in front of it.
fn jumps(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let atoms: [u8; 6] = [0x5b, 0x60, 0x61, 0x00, 0x63, 0x7f];
    let len = if thorough { 5 } else { 4 };
    for n in 0..6usize.pow(len) {
        let mut m = n;
        let tail: Vec<u8> = (0..len)
            .map(|_| {
                let a = atoms[m % 6];
                m /= 6;
                a
            })
            .collect();
        for t in 3..=3 + len as u64 {
            v.push(job("jump", Code::new().p(t).o(0x56).os(&tail)));
        }
    }
    // Push data of every size, with a JUMPDEST at every place after it.
    for k in 0x5f..=0x80u8 {
        for pad in 28..=36usize {
            for at in 0..=pad {
                if !thorough && (at + pad) % 3 != 0 && pad != 33 {
                    continue;
                }
                let mut tail = vec![0x01u8; pad];
                tail[0] = k;
                if at > 0 {
                    tail[at - 1] = 0x5b;
                }
                if at == 1 {
                    tail[0] = 0x5b;
                }
                for t in [at + 2, 3, 3 + k as usize - 0x5f] {
                    v.push(job("jump over data", Code::new().p(t).o(0x56).os(&tail)));
                }
            }
        }
    }
    // Targets and conditions that are not small.
    let mut ts = boundary();
    ts.extend([4u64, 6, 7, 8, 100].map(U256::from));
    for t in &ts {
        for c in boundary() {
            v.push(job("conditional jump", Code::new().p(c).p(*t).o(0x57).os(&[GAS, JUMPDEST, GAS, 0x60, JUMPDEST, JUMPDEST]).os(&[JUMPDEST; 60])));
            v.push(job("jump far", Code::new().p(*t).o(0x56).os(&[GAS, JUMPDEST, GAS, 0x60, JUMPDEST, JUMPDEST]).os(&[JUMPDEST; 60])));
        }
    }
    // A jump to every place of a longer code with a repeating layout.
    for (period, op) in [(1usize, 0x5b), (2, 0x60), (3, 0x61), (33, 0x7f), (34, 0x7f), (17, 0x6f)] {
        let mut body = vec![];
        while body.len() < 130 {
            let mut b = vec![0x5bu8; period];
            b[0] = op;
            body.extend(b);
        }
        for t in 0..140usize {
            v.push(job("jump in layout", Code::new().p(t).o(0x56).os(&body)));
        }
    }
    v
}
/// All short programs over an alphabet, starting with some items on the stack.
fn programs(thorough: bool) -> Vec<Job> {
    let mut atoms: Vec<Vec<u8>> = [
        0x5fu8, 0x80, 0x81, 0x82, 0x90, 0x91, 0x50, 0x01, 0x03, 0x04, 0x16, 0x1b, 0x15, 0x51, 0x52, 0x53, 0x54, 0x55, 0x5c, 0x5d, 0x56, 0x57, 0x5b, 0x59, 0x5a, 0x58, 0x20, 0x35, 0xf3, 0xfd, 0xa0, 0x5e, 0x36, 0x38,
    ]
    .iter()
    .map(|x| vec![*x])
    .collect();
    atoms.push(vec![0x60, 1]);
    atoms.push(vec![0x60, 0x20]);
    let mut v = vec![];
    let len = 3;
    if !thorough {
        for x in [0x81u8, 0x82, 0x04, 0x16, 0x1b, 0x15, 0x58, 0x38, 0x53] {
            atoms.retain(|a| a[0] != x);
        }
    }
    let k = atoms.len();
    for n in 0..k.pow(len) {
        let mut m = n;
        let mut c = Code::new().p(3).p(5).p(32).p(1);
        for _ in 0..len {
            c = c.os(&atoms[m % k]);
            m /= k;
        }
        v.push(job("program", c.os(&[MSIZE, 0x5f, KECCAK256])));
    }
    if thorough {
        let few = [0x5fu8, 0x80, 0x90, 0x50, 0x01, 0x51, 0x52, 0x53, 0x54, 0x55, 0x5c, 0x5d, 0x56, 0x57, 0x5b, 0x5a, 0x20, 0xf3, 0x60];
        let k = few.len();
        for n in 0..k.pow(4) {
            let mut m = n;
            let mut c = Code::new().p(5).p(32).p(9);
            for _ in 0..4 {
                c = if few[m % k] == 0x60 { c.os(&[0x60, 32]) } else { c.o(few[m % k]) };
                m /= k;
            }
            v.push(job("program", c.os(&[MSIZE, 0x5f, KECCAK256])));
        }
    }
    v
}
/// All sequences of writes to one slot, and their effect on gas and refunds.
fn storage(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let vals = [0u64, 1, 77];
    let len = if thorough { 4 } else { 3 };
    // Slot 5 (77 before, warm), 6 (1 before, cold), 9 (0 before, warm), 10.
    for slot in [5u64, 6, 9, 10] {
        for n in 1..=len {
            for i in 0..3usize.pow(n) {
                let mut m = i;
                let mut c = Code::new();
                for _ in 0..n {
                    c = c.sstore(slot, vals[m % 3]).o(GAS).o(POP);
                    m /= 3;
                }
                for load in [false, true] {
                    let c = if load { Code::new().p(slot).o(SLOAD).c(&c).p(slot).o(SLOAD) } else { c.clone() };
                    v.push(Job { finish: true, ..job("writes to a slot", c) });
                }
            }
        }
    }
    // Two slots.
    for a in [5u64, 9, 10] {
        for b in [6u64, 10] {
            for x in vals {
                for y in vals {
                    for z in vals {
                        v.push(Job { finish: true, ..job("writes to slots", Code::new().sstore(a, x).sstore(b, y).sstore(a, z).p(b).o(SLOAD)) });
                    }
                }
            }
        }
    }
    // The stipend rule: every gas left around 2300.
    for g in 2290..2312u64 {
        for (slot, val) in [(5u64, 77u64), (9, 0), (5, 1)] {
            let c = Code::new().p(val).p(slot).o(SSTORE);
            v.push(Job { gas: g + 6, ..job("stipend", c) });
        }
    }
    // Persistent and transient storage at many keys.
    let w = boundary();
    for (i, x) in w.iter().enumerate() {
        for y in &w[..i] {
            let c = Code::new().sstore(*x, *y).sstore(*y, *x).p(*x).os(&[SLOAD, POP]).p(*y).os(&[SLOAD, POP]).tstore(*x, *y).tstore(*y, *x).p(*x).os(&[TLOAD, POP]).p(*y).os(&[TLOAD, POP]).p(x.overflowing_add(1.into()).0).o(TLOAD).sstore(*x, 0);
            v.push(Job { finish: thorough || (i + y.low_u32() as usize) % 4 == 0, ..job("storage keys", c) });
        }
    }
    v
}
/// Effects seen only at the end: logs, what happens to destroyed and created
/// contracts, the data returned.
fn effects(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let mut fin = |f, c: Code| v.push(Job { finish: true, ..job(f, c) });
    for n in 0..=4u8 {
        for (off, len) in [(0u64, 0u64), (0, 1), (5, 31), (0, 32), (7, 33), (0, 75), (60, 40), (1000, 0), (0, 300)] {
            let c = (0..n).fold(fill(Code::new()), |c, i| c.p(if i % 2 == 0 { U256::MAX - i } else { U256::from(i) }));
            let c = c.p(len).p(off).o(0xa0 + n);
            fin("logs", c.clone());
            if thorough || n < 2 {
                let d = c.clone().c(&c);
                fin("logs", d);
            }
        }
    }
    for a in addresses() {
        fin("self-destruct", Code::new().p(a).o(0xff));
    }
    for (off, len) in [(0u64, 0u64), (0, 32), (100, 7)] {
        for op in [0xf3u8, 0xfd] {
            fin("return", fill(Code::new()).sstore(9, 4).tstore(1, 1).p(len).p(off).o(op));
        }
    }
    let inits = [
        Code::new(),
        Code::new().ret(&[0]),
        Code::new().ret(&[0xfe, 1, 2]),
        Code::new().ret(&[0xef, 1]),
        Code::new().ret(&[]),
        Code::new().sstore(1, 2).o(STOP),
        Code::new().sstore(1, 2).p(0).p(0).o(REVERT),
        Code::new().o(INVALID),
        Code::new().p(24576).p(0).o(RETURN),
        Code::new().p(24577).p(0).o(RETURN),
        Code::new().o(CALLER).o(0xff),
        Code::new().p(other(4)).o(0xff),
        Code::new().o(CALLVALUE).p(0).o(MSTORE).o(ADDRESS).p(32).o(MSTORE).p(64).p(0).o(RETURN),
    ];
    for i in &inits {
        for val in [0u64, 5, 1003, 1004] {
            let n = i.0.len();
            let c = Code::new().mem(0, &i.0);
            fin("creation", c.clone().p(n).p(0).p(val).o(0xf0));
            fin("creation", c.clone().p(9).p(n).p(0).p(val).o(0xf5));
            fin("creation", c.clone().p(9).p(n).p(0).p(val).o(0xf5).p(9).p(n).p(0).p(val).o(0xf5));
        }
    }
    for (op, a) in [0xf1u8, 0xf2, 0xf4, 0xfa].iter().flat_map(|o| (1..=8).map(|i| (*o, i))) {
        for val in [0u64, 5, 2000] {
            let mut c = Code::new().p(6).p(0).o(MSTORE).p(99).p(32).o(MSTORE).p(32).p(64).p(64).p(0);
            if op == 0xf1 || op == 0xf2 {
                c = c.p(val);
            }
            fin("calls with effects", c.p(other(a)).o(GAS).o(op).p(7).o(SSTORE).p(6).os(&[SLOAD, RETURNDATASIZE]).p(1).o(TLOAD));
        }
    }
    v
}
/// The first inputs of every precompiled contract, of every length.
fn precompiles(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let lens: Vec<usize> = if thorough { (0..=224).collect() } else { (0..=64).step_by(8).chain([31, 33, 63, 65, 55, 56, 96, 119, 120, 127, 128, 129, 160, 192, 213]).collect() };
    for a in [1u64, 2, 3, 4, 5, 6, 7, 9, 10] {
        for l in &lens {
            for (pat, mul) in [(0u8, 0u8), (1, 0), (0, 1), (0xff, 0)] {
                let data: Vec<u8> = (0..*l).map(|i| (i as u8).wrapping_mul(mul) ^ pat).collect();
                // The exponentiation with huge sizes is out of gas anyway.
                let c = Code::new().mem(0, &data).p(64).p(300).p(*l).p(0).p(0).p(a).o(GAS).o(0xf1);
                v.push(job("precompiled contract", expose(c, 1)));
            }
        }
        for g in [0u64, 14, 15, 18, 59, 60, 72, 119, 120, 149, 150, 199, 200, 599, 600, 2999, 3000, 5999, 6000] {
            let c = Code::new().p(64).p(0).p(33).p(0).p(0).p(a).p(g).o(0xf1);
            v.push(job("precompiled contract", expose(c, 1)));
        }
    }
    // The points of the curve.
    let p = U256::from_dec_str("21888242871839275222246405745257275088696311157297823662689037894645226208583").unwrap();
    let pts: Vec<(U256, U256)> = vec![
        (0.into(), 0.into()),
        (1.into(), 2.into()),
        (1.into(), p - 2),
        (1.into(), 1.into()),
        (p, 0.into()),
        (0.into(), p),
        (1.into(), p + 2),
        (p + 1, 2.into()),
        (U256::from_dec_str("1368015179489954701390400359078579693043519447331113978918064868415326638035").unwrap(), U256::from_dec_str("9918110051302171585080402603319702774565515993150576347155970296011118125764").unwrap()),
    ];
    let n = U256::from_dec_str("21888242871839275222246405745257275088548364400416034343698204186575808495617").unwrap();
    for x in &pts {
        for y in &pts {
            let c = Code::new().p(x.0).p(0).o(MSTORE).p(x.1).p(32).o(MSTORE).p(y.0).p(64).o(MSTORE).p(y.1).p(96).o(MSTORE);
            v.push(job("curve addition", expose(c.p(64).p(128).p(128).p(0).p(0).p(6).o(GAS).o(0xf1), 1)));
        }
        for k in [0.into(), 1.into(), 2.into(), 3.into(), n - 1, n, n + 1, p, U256::MAX] {
            let c = Code::new().p(x.0).p(0).o(MSTORE).p(x.1).p(32).o(MSTORE).p(k).p(64).o(MSTORE);
            v.push(job("curve multiplication", expose(c.p(64).p(128).p(96).p(0).p(0).p(7).o(GAS).o(0xf1), 1)));
        }
    }
    // Modular exponentiation.
    let sizes = [0usize, 1, 2, 31, 32, 33];
    for bl in sizes {
        for el in sizes {
            for ml in sizes {
                for pat in [0u8, 1, 3, 0xff] {
                    let mut d = vec![0u8; 96];
                    d[31] = bl as u8;
                    d[63] = el as u8;
                    d[95] = ml as u8;
                    d.extend(vec![pat; bl + el]);
                    d.extend((0..ml).map(|i| if i + 1 == ml { pat.wrapping_add(4) } else { pat }));
                    if !thorough && (el > 2 && (pat != 1 || bl != ml) || pat == 3 && bl + ml > 40) {
                        continue;
                    }
                    let c = Code::new().mem(0, &d).p(40).p(300).p(d.len()).p(0).p(0).p(5).o(GAS).o(0xf1);
                    v.push(job("modular exponentiation", expose(c, 1)));
                }
            }
        }
    }
    // Recovery: true signatures and every alteration of their shape.
    let h = vc::keccak(b"message");
    let t = Tx { chain_id: Some(1), key: 12345, ..Tx::default() };
    let hash = t.signing_hash();
    let (odd, r, s) = t.sign();
    let nn = U256::from_dec_str("115792089237316195423570985008687907852837564279074904382605163141518161494337").unwrap();
    for hash in [h2u(hash), h2u(h), 0.into(), U256::MAX] {
        for vv in [U256::from(27 + odd as u64), U256::from(28 - odd as u64), 0.into(), 26.into(), 29.into(), word(64) + 27, word(255) + 27] {
            for rr in [r, 0.into(), nn, 1.into(), nn - 1, r + 1] {
                for ss in [s, nn - s, 0.into(), nn, U256::MAX] {
                    if !thorough && rr != r && ss != s && ss != nn - s {
                        continue;
                    }
                    let c = Code::new().p(hash).p(0).o(MSTORE).p(vv).p(32).o(MSTORE).p(rr).p(64).o(MSTORE).p(ss).p(96).o(MSTORE);
                    v.push(job("recovery", expose(c.p(32).p(128).p(128).p(0).p(0).p(1).o(GAS).o(0xf1), 1)));
                }
            }
        }
    }
    // The compression function: rounds and the final flag.
    for rounds in [0u64, 1, 2, 10, 12, 13] {
        for last in [0u8, 1, 2, 255] {
            for len in [212usize, 213, 214] {
                let mut d: Vec<u8> = (0..213u32).map(|i| (i * 7 + 1) as u8).collect();
                d[..4].copy_from_slice(&(rounds as u32).to_be_bytes());
                d[212] = last;
                d.resize(len, 0);
                let c = Code::new().mem(0, &d).p(64).p(300).p(len).p(0).p(0).p(9).o(GAS).o(0xf1);
                v.push(job("compression", expose(c, 1)));
            }
        }
    }
    v
}
/// Creation code longer than deployed code may be, and jumps in it.
fn long_creations(cx: &Ctx) {
    let mut bs = vec![];
    for len in [24575usize, 24576, 24577, 24578, 30000, 49151, 49152] {
        for t in [24575usize, 24576, 24577, 24578, 32767, 32768, 40000, 49150, 49151, 49152] {
            for (op, at) in [(0x56u8, 0usize), (0x56, 1), (0x57, 0)] {
                if !cx.ck.thorough && (len + t) % 7 != 0 && t != len - 1 {
                    continue;
                }
                let mut c = Code::new();
                if op == 0x57 {
                    c = c.p(1);
                }
                let mut code = c.p(t).o(op).0;
                code.resize(len, STOP);
                if t < len {
                    code[t] = JUMPDEST;
                    // As data of a push.
                    code[t - 1] = if at == 1 { 0x60 } else { 0 };
                }
                for tx in [true, false] {
                    let mut b = base();
                    b.block.excess_blob_gas = 0;
                    let t = &mut b.txs[0];
                    t.ty = 2;
                    t.blobs.clear();
                    t.gas = 2_000_000;
                    if tx {
                        t.to = None;
                        t.data = code.clone();
                    } else {
                        t.data = code.clone();
                        b.world.get_mut(&me()).unwrap().code = Code::new().p(code.len()).p(0).p(0).o(CALLDATACOPY).p(code.len()).p(0).p(1).os(&[0xf0, GAS]).0;
                    }
                    bs.push(b);
                }
            }
        }
    }
    bs.par_iter().for_each(|b| {
        if !cx.ck.stopped() {
            cx.ck.eval("long creation code");
            b.check(&cx.ck, "long creation code");
        }
    });
}
/// Programs run with every gas limit at which something changes.
fn limits(cx: &Ctx) {
    let send = |op: u8, a: Addr, val: u64, gas: Option<u64>| {
        let mut c = Code::new().p(7).p(0).o(MSTORE).p(64).p(64).p(64).p(0);
        if op == 0xf1 || op == 0xf2 {
            c = c.p(val);
        }
        let c = c.p(a);
        let c = match gas {
            Some(g) => c.p(g),
            None => c.o(GAS),
        };
        c.o(op).os(&[GAS, RETURNDATASIZE])
    };
    let mut ps = vec![
        fill(Code::new()).p(40).p(0).o(KECCAK256).p(1000).o(0x51),
        Code::new().p(300).p(2).o(0x0a).p(U256::MAX).p(3).o(0x0a),
        Code::new().sstore(5, 0).sstore(6, 0).sstore(10, 1).sstore(10, 0),
        Code::new().p(6).os(&[SLOAD, POP]).p(10).os(&[SLOAD]).p(5).o(SLOAD),
        Code::new().p(other(1)).o(0x31).p(other(1)).o(0x3b).p(other(6)).o(0x3f),
        Code::new().p(70).p(0).p(0).p(other(6)).o(0x3c).p(33).p(1).p(64).o(0x5e),
        fill(Code::new()).p(1).p(2).p(33).p(1).o(0xa2).p(0).p(0).o(0xa0),
        Code::new().tstore(1, 2).p(1).o(TLOAD),
        Code::new().p(other(4)).o(0xff),
        Code::new().p(other(1)).o(0xff),
        send(0xf1, other(2), 0, None),
        send(0xf1, other(2), 1, None),
        send(0xf1, other(4), 1, Some(0)),
        send(0xf1, other(4), 0, Some(0)),
        send(0xf1, other(6), 1, Some(5000)),
        send(0xf1, other(6), 0, None),
        send(0xf1, other(8), 0, None),
        send(0xf1, other(3), 0, Some(1000)),
        send(0xf1, other(5), 2, Some(1000)),
        send(0xf2, other(6), 1, None),
        send(0xf4, other(6), 0, None),
        send(0xf4, other(7), 0, Some(3000)),
        send(0xfa, other(7), 0, None),
        send(0xfa, other(6), 0, Some(30000)),
        send(0xf1, u2a(2.into()), 0, None),
        send(0xf1, u2a(3.into()), 0, None),
        send(0xf1, u2a(4.into()), 3, None),
        send(0xf1, u2a(5.into()), 0, None),
    ];
    for init in [Code::new().ret(&[1, 2]), Code::new().sstore(1, 1).ret(&[]), Code::new().o(INVALID), Code::new().p(5).p(0).o(REVERT)] {
        let c = Code::new().mem(0, &init.0).p(init.0.len()).p(0).p(1);
        ps.push(c.clone().os(&[0xf0, GAS]));
        ps.push(Code::new().p(3).c(&c).os(&[0xf5, GAS]));
    }
    let jobs: Vec<Job> = ps
        .par_iter()
        .flat_map_iter(|c| {
            let mut o = vec![];
            if let Some(r) = cx.go(&job("gas limits", c.clone())) {
                let mut at: Vec<u64> = r.trace.iter().flatten().flat_map(|x| (0..4u64).map(|d| (x.gas + d).saturating_sub(2))).collect();
                // The gas of inner frames starts at other places: all values in a window.
                let step = cx.ck.pick(17, 1);
                let total = r.gas.min(60_000);
                at.extend((0..total + 3000).step_by(step));
                at.extend((total..total + 40).step_by(1));
                at.sort();
                at.dedup();
                let keep = cx.ck.pick(160, 100_000);
                let n = at.len().div_ceil(keep);
                o.extend(at.into_iter().step_by(n).map(|g| Job { family: "gas limits", code: c.0.clone(), gas: g, finish: false }));
            }
            o
        })
        .collect();
    cx.all(jobs);
}

pub fn run() -> ! {
    let cx = Ctx { ck: Check::new("C11", "model_check"), ops: (0..256).map(|_| AtomicU64::new(0)).collect(), ends: Default::default(), times: Default::default() };
    let th = cx.ck.thorough;
    let only = std::env::var("VERIF_ONLY").ok();
    for (n, f) in [
        ("depths", depths as fn(bool) -> Vec<Job>),
        ("operands", operands),
        ("calls", calls),
        ("jumps", if std::env::var("SKIPJ").is_ok() { |_| vec![] } else { jumps }),
        ("programs", programs),
        ("storage", storage),
        ("effects", effects),
        ("precompiles", precompiles),
    ] {
        if only.as_ref().is_some_and(|o| o != n) {
            continue;
        }
        let jobs = f(th);
        let k = jobs.len();
        let t = cx.ck.elapsed();
        cx.all(jobs);
        eprintln!("C11 {n}: {k} programs, {:.1} s", (cx.ck.elapsed() - t).as_secs_f64());
    }
    for (n, f) in [("long creations", long_creations as fn(&Ctx)), ("limits", limits)] {
        if only.as_ref().is_some_and(|o| o != n) {
            continue;
        }
        let t = cx.ck.elapsed();
        f(&cx);
        eprintln!("C11 {n}: {:.1} s", (cx.ck.elapsed() - t).as_secs_f64());
    }
    for (f, t) in cx.times.lock().unwrap().iter() {
        eprintln!("{f}: {t:.1} s");
    }
    let never: Vec<String> = (0..256usize).filter(|i| cx.ops[*i].load(Relaxed) == 0).map(|i| format!("{i:02x}")).collect();
    cx.ck.note("opcodes_never_reached_in_the_reference", vc::json!(never));
    cx.ck.note("ends", vc::json!({"normal": cx.ends[0].load(Relaxed), "revert": cx.ends[1].load(Relaxed), "exceptional": cx.ends[2].load(Relaxed)}));
    let b = vc::json!({"stack_depths": "0..18 and around 1024 for all 256 opcodes", "program_length": if th {4} else {3}, "gas_limit": 100_000});
    cx.ck.finish(
        "one state per (program, gas limit); transitions are machine steps",
        b,
        &["the reference EVM of the harness states the specification (Cancun)", "call depth 1024 cannot be reached with 32-bit gas", "pairing precompile: empty input only; no point-evaluation precompile"],
    )
}
