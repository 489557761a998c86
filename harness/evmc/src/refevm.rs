//! An independent reference for contract execution and transaction
//! processing as of the Cancun upgrade. Written from the specification; uses
//! none of the code under test. States are small, so a frame is undone by
//! putting back a copy.
use std::collections::{BTreeMap, BTreeSet};

use vc::rlp;
use vc::{keccak, BigUint, H160, H256, U256};

use crate::alu;

pub type Addr = H160;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Acct {
    pub nonce: u64,
    pub balance: U256,
    pub code: Vec<u8>,
    pub storage: BTreeMap<U256, U256>,
}
impl Acct {
    pub fn is_empty(&self) -> bool {
        self.nonce == 0 && self.balance.is_zero() && self.code.is_empty()
    }
}
pub type World = BTreeMap<Addr, Acct>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Log {
    pub addr: Addr,
    pub topics: Vec<U256>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub coinbase: Addr,
    pub timestamp: U256,
    pub number: U256,
    pub random: U256,
    pub gas_limit: U256,
    pub chain_id: U256,
    pub base_fee: U256,
    pub excess_blob_gas: u64,
    pub beacon_root: H256,
    /// Hash of block `number - 256 + i`.
    pub prev_hashes: Vec<H256>,
}

/// All that a frame's failure undoes.
#[derive(Clone, Default)]
pub struct St {
    pub world: World,
    pub transient: BTreeMap<(Addr, U256), U256>,
    pub warm: BTreeSet<Addr>,
    pub warm_slots: BTreeSet<(Addr, U256)>,
    pub logs: Vec<Log>,
    pub refund: i64,
    pub destroyed: BTreeSet<Addr>,
    pub created: BTreeSet<Addr>,
    pub touched: BTreeSet<Addr>,
}

/// What the machine should look like before an instruction of user code.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Row {
    pub pc: usize,
    pub gas: u64,
    pub len: usize,
    pub top: U256,
    pub depth: usize,
}

/// Departures from the protocol that the checks make on both sides.
#[derive(Clone, Default)]
pub struct Tweak {
    /// Code run for an address instead of that in the state.
    pub code: BTreeMap<Addr, Vec<u8>>,
    /// Gas taken before execution instead of the intrinsic gas.
    pub intrinsic: Option<u64>,
}

pub struct Evm<'a> {
    pub st: St,
    pub block: &'a Block,
    pub origin: Addr,
    pub gas_price: U256,
    pub blobs: Vec<U256>,
    /// Storage at the start of the transaction.
    pub orig: World,
    pub trace: Option<Vec<Row>>,
    pub tweak: Tweak,
    pub steps: u64,
    pub max_steps: u64,
    /// How often each instruction was executed.
    pub ops: [u64; 256],
    /// Every code deposited.
    pub codes: Vec<Vec<u8>>,
    /// What was looked at, even if undone.
    pub seen: BTreeSet<Addr>,
    pub seen_slots: BTreeSet<(Addr, U256)>,
    pub seen_codes: std::cell::RefCell<BTreeSet<Addr>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Ok(Vec<u8>),
    Revert(Vec<u8>),
    Fault,
}

#[derive(Clone)]
pub struct Msg {
    pub caller: Addr,
    pub this: Addr,
    pub code: Vec<u8>,
    pub value: U256,
    pub data: Vec<u8>,
    pub gas: u64,
    pub is_static: bool,
    pub depth: usize,
}

pub fn a2u(a: Addr) -> U256 {
    U256::from_big_endian(a.as_bytes())
}
pub fn u2a(x: U256) -> Addr {
    let mut b = [0u8; 32];
    x.to_big_endian(&mut b);
    Addr::from_slice(&b[12..])
}
pub fn h2u(h: H256) -> U256 {
    U256::from_big_endian(h.as_bytes())
}
pub fn be(x: U256) -> [u8; 32] {
    let mut b = [0u8; 32];
    x.to_big_endian(&mut b);
    b
}
pub fn create_address(a: Addr, nonce: u64) -> Addr {
    let p = rlp::list(&[rlp::bytes(a.as_bytes()), rlp::uint(nonce)]);
    Addr::from_slice(&keccak(&p).as_bytes()[12..])
}
pub fn create2_address(a: Addr, salt: U256, init: &[u8]) -> Addr {
    let mut p = vec![0xff];
    p.extend(a.as_bytes());
    p.extend(be(salt));
    p.extend(keccak(init).as_bytes());
    Addr::from_slice(&keccak(&p).as_bytes()[12..])
}
pub fn is_precompile(a: Addr) -> bool {
    let x = a2u(a);
    x >= U256::one() && x <= U256::from(10)
}
pub fn blob_base_fee(excess: u64) -> U256 {
    // fake_exponential(1, excess, 3338477)
    let (d, n) = (BigUint::from(3338477u64), BigUint::from(excess));
    let mut i = BigUint::from(1u8);
    let mut out = BigUint::default();
    let mut acc = d.clone();
    while acc > BigUint::default() {
        out += &acc;
        acc = acc * &n / (&d * &i);
        i += 1u8;
    }
    vc::big::from_big(&(out / d))
}
fn jumpdests(code: &[u8]) -> Vec<bool> {
    let mut v = vec![false; code.len()];
    let mut i = 0;
    while i < code.len() {
        match code[i] {
            0x5b => v[i] = true,
            o @ 0x60..=0x7f => i += (o - 0x5f) as usize,
            _ => {}
        }
        i += 1;
    }
    v
}
fn words(n: u64) -> u64 {
    n.div_ceil(32)
}
fn mem_cost(w: u64) -> u64 {
    3 * w + w * w / 512
}

struct Frame {
    stack: Vec<U256>,
    mem: Vec<u8>,
    gas: u64,
    limit: u64,
    ret: Vec<u8>,
}
struct Fault;
enum Next {
    Go,
    Jump,
    Stop(End),
}
type R<T> = Result<T, Fault>;

impl Frame {
    fn pop(&mut self) -> R<U256> {
        self.stack.pop().ok_or(Fault)
    }
    fn push(&mut self, x: U256) -> R<()> {
        if self.stack.len() >= 1024 {
            return Err(Fault);
        }
        self.stack.push(x);
        Ok(())
    }
    fn charge(&mut self, g: u64) -> R<()> {
        if self.gas < g {
            return Err(Fault);
        }
        self.gas -= g;
        Ok(())
    }
    /// Charges for memory up to off + size and gives the range.
    fn expand(&mut self, off: U256, size: U256) -> R<(usize, usize)> {
        if size.is_zero() {
            return Ok((0, 0));
        }
        let lim = U256::from(1u64 << 34);
        if off > lim || size > lim {
            return Err(Fault);
        }
        let (o, s) = (off.as_u64(), size.as_u64());
        let (have, want) = (self.mem.len() as u64 / 32, words(o + s));
        if want > have {
            self.charge(mem_cost(want) - mem_cost(have))?;
            self.mem.resize(want as usize * 32, 0);
        }
        Ok((o as usize, s as usize))
    }
}
/// `size` bytes of `src` from `off`, zeros beyond its end.
fn padded(src: &[u8], off: U256, size: usize) -> Vec<u8> {
    let mut v = vec![0; size];
    if off < U256::from(src.len()) {
        let o = off.as_usize();
        let n = size.min(src.len() - o);
        v[..n].copy_from_slice(&src[o..o + n]);
    }
    v
}

impl<'a> Evm<'a> {
    pub fn new(st: St, block: &'a Block, origin: Addr, gas_price: U256) -> Self {
        let orig = st.world.clone();
        Evm { st, block, origin, gas_price, blobs: vec![], orig, trace: None, tweak: Tweak::default(), steps: 0, max_steps: 1 << 22, ops: [0; 256], codes: vec![], seen: Default::default(), seen_slots: Default::default(), seen_codes: Default::default() }
    }
    fn acct(&mut self, a: Addr) -> &mut Acct {
        self.st.world.entry(a).or_default()
    }
    fn dead(&self, a: Addr) -> bool {
        self.st.world.get(&a).map_or(true, |x| x.is_empty())
    }
    fn balance(&self, a: Addr) -> U256 {
        self.st.world.get(&a).map_or(U256::zero(), |x| x.balance)
    }
    fn code(&self, a: Addr) -> Vec<u8> {
        self.seen_codes.borrow_mut().insert(a);
        self.st.world.get(&a).map_or(vec![], |x| x.code.clone())
    }
    fn storage(&self, a: Addr, k: U256) -> U256 {
        self.st.world.get(&a).and_then(|x| x.storage.get(&k)).copied().unwrap_or_default()
    }
    fn touch(&mut self, a: Addr) {
        self.st.touched.insert(a);
    }
    pub fn add_balance(&mut self, a: Addr, v: U256) {
        self.touch(a);
        if v.is_zero() {
            return;
        }
        let b = self.acct(a);
        b.balance += v;
    }
    fn transfer(&mut self, from: Addr, to: Addr, v: U256) -> bool {
        if self.balance(from) < v {
            return false;
        }
        if !v.is_zero() {
            self.acct(from).balance -= v;
        }
        self.touch(from);
        self.add_balance(to, v);
        true
    }
    /// Cost of naming an account, which makes it warm.
    fn access(&mut self, a: Addr) -> u64 {
        self.seen.insert(a);
        if self.st.warm.insert(a) {
            2600
        } else {
            100
        }
    }

    /// Runs the code of a message. Gives the end and the gas left; the caller
    /// undoes the effects of a failure.
    fn run_inner(&mut self, m: &Msg) -> (End, u64) {
        let mut f = Frame { stack: vec![], mem: vec![], gas: m.gas, limit: m.gas, ret: vec![] };
        if m.code.is_empty() {
            return (End::Ok(vec![]), m.gas);
        }
        let jd = jumpdests(&m.code);
        let mut pc = 0usize;
        loop {
            if let Some(t) = &mut self.trace {
                t.push(Row { pc, gas: f.limit - f.gas, len: f.stack.len(), top: f.stack.last().copied().unwrap_or_default(), depth: m.depth });
            }
            self.steps += 1;
            assert!(self.steps < self.max_steps, "the reference runs for too long");
            let op = m.code.get(pc).copied().unwrap_or(0);
            self.ops[op as usize] += 1;
            match self.step(m, &mut f, op, &mut pc, &jd) {
                Err(Fault) => return (End::Fault, 0),
                Ok(Next::Go) => pc += 1,
                Ok(Next::Jump) => {}
                Ok(Next::Stop(e)) => return (e, f.gas),
            }
        }
    }

    fn step(&mut self, m: &Msg, f: &mut Frame, op: u8, pc: &mut usize, jd: &[bool]) -> R<Next> {
        let one = |b: bool| if b { U256::one() } else { U256::zero() };
        match op {
            0x00 => return Ok(Next::Stop(End::Ok(vec![]))),
            0x01..=0x0b | 0x10..=0x1d => {
                let n = match op {
                    0x08 | 0x09 => 3,
                    0x15 | 0x19 => 1,
                    _ => 2,
                };
                let g = match op {
                    0x02 | 0x04..=0x07 | 0x0b => 5,
                    0x08 | 0x09 => 8,
                    0x0a => 10,
                    _ => 3,
                };
                let mut a = vec![];
                for _ in 0..n {
                    a.push(f.pop()?);
                }
                f.charge(g)?;
                if op == 0x0a {
                    f.charge(50 * (a[1].bits() as u64).div_ceil(8))?;
                }
                f.push(alu::eval(op, &a))?;
            }
            0x20 => {
                let (o, s) = (f.pop()?, f.pop()?);
                f.charge(30)?;
                f.charge_words(6, s)?;
                let (o, s) = f.expand(o, s)?;
                let h = keccak(&f.mem[o..o + s]);
                f.push(h2u(h))?;
            }
            0x30 => {
                f.charge(2)?;
                f.push(a2u(m.this))?
            }
            0x31 => {
                let a = u2a(f.pop()?);
                f.charge(self.access(a))?;
                f.push(self.balance(a))?
            }
            0x32 => {
                f.charge(2)?;
                f.push(a2u(self.origin))?
            }
            0x33 => {
                f.charge(2)?;
                f.push(a2u(m.caller))?
            }
            0x34 => {
                f.charge(2)?;
                f.push(m.value)?
            }
            0x35 => {
                let o = f.pop()?;
                f.charge(3)?;
                f.push(U256::from_big_endian(&padded(&m.data, o, 32)))?
            }
            0x36 => {
                f.charge(2)?;
                f.push(m.data.len().into())?
            }
            0x38 => {
                f.charge(2)?;
                f.push(m.code.len().into())?
            }
            0x37 | 0x39 | 0x3e => {
                let (d, o, s) = (f.pop()?, f.pop()?, f.pop()?);
                f.charge(3)?;
                f.charge_words(3, s)?;
                if op == 0x3e && o.checked_add(s).map_or(true, |e| e > U256::from(f.ret.len())) {
                    return Err(Fault);
                }
                let (d, s) = f.expand(d, s)?;
                let src = match op {
                    0x37 => padded(&m.data, o, s),
                    0x39 => padded(&m.code, o, s),
                    _ => padded(&f.ret, o, s),
                };
                f.mem[d..d + s].copy_from_slice(&src);
            }
            0x3a => {
                f.charge(2)?;
                f.push(self.gas_price)?
            }
            0x3b => {
                let a = u2a(f.pop()?);
                f.charge(self.access(a))?;
                f.push(self.code(a).len().into())?
            }
            0x3c => {
                let a = u2a(f.pop()?);
                let (d, o, s) = (f.pop()?, f.pop()?, f.pop()?);
                f.charge_words(3, s)?;
                let g = self.access(a);
                f.charge(g)?;
                let (d, s) = f.expand(d, s)?;
                let src = padded(&self.code(a), o, s);
                f.mem[d..d + s].copy_from_slice(&src);
            }
            0x3d => {
                f.charge(2)?;
                f.push(f.ret.len().into())?
            }
            0x3f => {
                let a = u2a(f.pop()?);
                f.charge(self.access(a))?;
                let h = if self.dead(a) { U256::zero() } else { h2u(keccak(&self.code(a))) };
                f.push(h)?
            }
            0x40 => {
                let n = f.pop()?;
                f.charge(20)?;
                let cur = self.block.number;
                let r = if n < cur && cur - n <= U256::from(256) {
                    let i = 256 - (cur - n).as_usize();
                    h2u(self.block.prev_hashes[i])
                } else {
                    U256::zero()
                };
                f.push(r)?
            }
            0x41 => {
                f.charge(2)?;
                f.push(a2u(self.block.coinbase))?
            }
            0x42 => {
                f.charge(2)?;
                f.push(self.block.timestamp)?
            }
            0x43 => {
                f.charge(2)?;
                f.push(self.block.number)?
            }
            0x44 => {
                f.charge(2)?;
                f.push(self.block.random)?
            }
            0x45 => {
                f.charge(2)?;
                f.push(self.block.gas_limit)?
            }
            0x46 => {
                f.charge(2)?;
                f.push(self.block.chain_id)?
            }
            0x47 => {
                f.charge(5)?;
                f.push(self.balance(m.this))?
            }
            0x48 => {
                f.charge(2)?;
                f.push(self.block.base_fee)?
            }
            0x49 => {
                let i = f.pop()?;
                f.charge(3)?;
                f.push(if i < U256::from(self.blobs.len()) { self.blobs[i.as_usize()] } else { U256::zero() })?
            }
            0x4a => {
                f.charge(2)?;
                f.push(blob_base_fee(self.block.excess_blob_gas))?
            }
            0x50 => {
                f.charge(2)?;
                f.pop()?;
            }
            0x51 => {
                let o = f.pop()?;
                f.charge(3)?;
                let (o, s) = f.expand(o, 32.into())?;
                f.push(U256::from_big_endian(&f.mem[o..o + s]))?
            }
            0x52 => {
                let (o, v) = (f.pop()?, f.pop()?);
                f.charge(3)?;
                let (o, s) = f.expand(o, 32.into())?;
                f.mem[o..o + s].copy_from_slice(&be(v));
            }
            0x53 => {
                let (o, v) = (f.pop()?, f.pop()?);
                f.charge(3)?;
                let (o, _) = f.expand(o, 1.into())?;
                f.mem[o] = v.byte(0);
            }
            0x54 => {
                let k = f.pop()?;
                self.seen_slots.insert((m.this, k));
                f.charge(if self.st.warm_slots.insert((m.this, k)) { 2100 } else { 100 })?;
                f.push(self.storage(m.this, k))?
            }
            0x55 => {
                let (k, v) = (f.pop()?, f.pop()?);
                if m.is_static || f.gas <= 2300 {
                    return Err(Fault);
                }
                self.seen_slots.insert((m.this, k));
                let mut g = if self.st.warm_slots.insert((m.this, k)) { 2100 } else { 0 };
                let cur = self.storage(m.this, k);
                let org = self.orig.get(&m.this).and_then(|x| x.storage.get(&k)).copied().unwrap_or_default();
                // an account made in this transaction had no storage before it
                let org = if self.st.created.contains(&m.this) { U256::zero() } else { org };
                g += if cur == v {
                    100
                } else if cur == org {
                    if org.is_zero() {
                        20000
                    } else {
                        2900
                    }
                } else {
                    100
                };
                f.charge(g)?;
                if cur != v {
                    if cur == org {
                        if !org.is_zero() && v.is_zero() {
                            self.st.refund += 4800;
                        }
                    } else {
                        if !org.is_zero() {
                            if cur.is_zero() {
                                self.st.refund -= 4800;
                            } else if v.is_zero() {
                                self.st.refund += 4800;
                            }
                        }
                        if org == v {
                            self.st.refund += if org.is_zero() { 19900 } else { 2800 };
                        }
                    }
                }
                let s = &mut self.acct(m.this).storage;
                if v.is_zero() {
                    s.remove(&k);
                } else {
                    s.insert(k, v);
                }
            }
            0x56 | 0x57 => {
                let d = f.pop()?;
                let c = if op == 0x57 { f.pop()? } else { U256::one() };
                f.charge(if op == 0x57 { 10 } else { 8 })?;
                if !c.is_zero() {
                    if d >= U256::from(jd.len()) || !jd[d.as_usize()] {
                        return Err(Fault);
                    }
                    *pc = d.as_usize();
                    return Ok(Next::Jump);
                }
            }
            0x58 => {
                f.charge(2)?;
                f.push((*pc).into())?
            }
            0x59 => {
                f.charge(2)?;
                f.push(f.mem.len().into())?
            }
            0x5a => {
                f.charge(2)?;
                f.push(f.gas.into())?
            }
            0x5b => f.charge(1)?,
            0x5c => {
                let k = f.pop()?;
                f.charge(100)?;
                f.push(self.st.transient.get(&(m.this, k)).copied().unwrap_or_default())?
            }
            0x5d => {
                let (k, v) = (f.pop()?, f.pop()?);
                if m.is_static {
                    return Err(Fault);
                }
                f.charge(100)?;
                self.st.transient.insert((m.this, k), v);
            }
            0x5e => {
                let (d, s, n) = (f.pop()?, f.pop()?, f.pop()?);
                f.charge(3)?;
                f.charge_words(3, n)?;
                f.expand(d.max(s), n)?;
                if !n.is_zero() {
                    let (d, s, n) = (d.as_usize(), s.as_usize(), n.as_usize());
                    f.mem.copy_within(s..s + n, d);
                }
            }
            0x5f..=0x7f => {
                let n = (op - 0x5f) as usize;
                f.charge(if n == 0 { 2 } else { 3 })?;
                let mut v = [0u8; 32];
                for i in 0..n {
                    v[32 - n + i] = m.code.get(*pc + 1 + i).copied().unwrap_or(0);
                }
                f.push(U256::from_big_endian(&v))?;
                *pc += n;
            }
            0x80..=0x8f => {
                let n = (op - 0x7f) as usize;
                f.charge(3)?;
                if f.stack.len() < n {
                    return Err(Fault);
                }
                f.push(f.stack[f.stack.len() - n])?
            }
            0x90..=0x9f => {
                let n = (op - 0x8f) as usize;
                f.charge(3)?;
                let l = f.stack.len();
                if l < n + 1 {
                    return Err(Fault);
                }
                f.stack.swap(l - 1, l - 1 - n);
            }
            0xa0..=0xa4 => {
                let n = (op - 0xa0) as u64;
                let (o, s) = (f.pop()?, f.pop()?);
                let mut topics = vec![];
                for _ in 0..n {
                    topics.push(f.pop()?);
                }
                if m.is_static {
                    return Err(Fault);
                }
                f.charge(375 + 375 * n)?;
                f.charge_bytes(8, s)?;
                let (o, s) = f.expand(o, s)?;
                self.st.logs.push(Log { addr: m.this, topics, data: f.mem[o..o + s].to_vec() });
            }
            0xf0 | 0xf5 => {
                let (value, o, s) = (f.pop()?, f.pop()?, f.pop()?);
                let salt = if op == 0xf5 { f.pop()? } else { U256::zero() };
                if m.is_static {
                    return Err(Fault);
                }
                if s > U256::from(49152) {
                    return Err(Fault);
                }
                f.charge(32000)?;
                f.charge_words(if op == 0xf5 { 8 } else { 2 }, s)?;
                let (o, s) = f.expand(o, s)?;
                let init = f.mem[o..o + s].to_vec();
                f.ret = vec![];
                let r = self.create(m, f, value, init, if op == 0xf5 { Some(salt) } else { None });
                f.push(r)?;
            }
            0xf1 | 0xf2 | 0xf4 | 0xfa => {
                let gas = f.pop()?;
                let to = u2a(f.pop()?);
                let value = if op < 0xf4 { f.pop()? } else { U256::zero() };
                let (ao, asz, ro, rsz) = (f.pop()?, f.pop()?, f.pop()?, f.pop()?);
                if op == 0xf1 && m.is_static && !value.is_zero() {
                    return Err(Fault);
                }
                f.charge(self.access(to))?;
                let (ao, asz) = f.expand(ao, asz)?;
                let (ro, rsz) = f.expand(ro, rsz)?;
                if !value.is_zero() {
                    f.charge(9000)?;
                }
                if op == 0xf1 && !value.is_zero() && self.dead(to) {
                    f.charge(25000)?;
                }
                let cap = f.gas - f.gas / 64;
                let g = if gas > U256::from(cap) { cap } else { gas.as_u64() };
                f.charge(g)?;
                let sub = g + if value.is_zero() { 0 } else { 2300 };
                let data = f.mem[ao..ao + asz].to_vec();
                f.ret = vec![];
                if m.depth >= 1024 || ((op == 0xf1 || op == 0xf2) && self.balance(m.this) < value) {
                    f.gas += sub;
                    f.push(U256::zero())?;
                } else {
                    let msg = Msg {
                        caller: if op == 0xf4 { m.caller } else { m.this },
                        this: if op == 0xf1 || op == 0xfa { to } else { m.this },
                        code: self.tweak.code.get(&to).cloned().unwrap_or_else(|| self.code(to)),
                        value: if op == 0xf4 { m.value } else { value },
                        data,
                        gas: sub,
                        is_static: m.is_static || op == 0xfa,
                        depth: m.depth + 1,
                    };
                    let saved = self.st.clone();
                    if op == 0xf1 {
                        self.transfer(m.this, to, value);
                    } else if op == 0xfa {
                        self.touch(to);
                    }
                    let (e, left) = if is_precompile(to) {
                        match precompile(to, &msg.data, sub) {
                            Some((out, g)) => (End::Ok(out), g),
                            None => (End::Fault, 0),
                        }
                    } else {
                        self.run_inner(&msg)
                    };
                    f.gas += left;
                    let out = match &e {
                        End::Ok(o) | End::Revert(o) => o.clone(),
                        End::Fault => vec![],
                    };
                    if !matches!(e, End::Ok(_)) {
                        self.st = saved;
                    }
                    let n = rsz.min(out.len());
                    f.mem[ro..ro + n].copy_from_slice(&out[..n]);
                    f.ret = out;
                    f.push(one(matches!(e, End::Ok(_))))?;
                }
            }
            0xf3 | 0xfd => {
                let (o, s) = (f.pop()?, f.pop()?);
                let (o, s) = f.expand(o, s)?;
                let d = f.mem[o..o + s].to_vec();
                return Ok(Next::Stop(if op == 0xf3 { End::Ok(d) } else { End::Revert(d) }));
            }
            0xff => {
                let to = u2a(f.pop()?);
                if m.is_static {
                    return Err(Fault);
                }
                let mut g = 5000;
                self.seen.insert(to);
                if self.st.warm.insert(to) {
                    g += 2600;
                }
                let b = self.balance(m.this);
                if self.dead(to) && !b.is_zero() {
                    g += 25000;
                }
                f.charge(g)?;
                let new = self.st.created.contains(&m.this);
                if to != m.this || new {
                    if !b.is_zero() {
                        self.acct(m.this).balance = U256::zero();
                    }
                    if to != m.this {
                        self.add_balance(to, b);
                    }
                } else {
                    self.touch(to);
                }
                self.touch(m.this);
                if new {
                    self.st.destroyed.insert(m.this);
                }
                return Ok(Next::Stop(End::Ok(vec![])));
            }
            _ => return Err(Fault),
        }
        Ok(Next::Go)
    }

    fn create(&mut self, m: &Msg, f: &mut Frame, value: U256, init: Vec<u8>, salt: Option<U256>) -> U256 {
        let nonce = self.st.world.get(&m.this).map_or(0, |a| a.nonce);
        let g = f.gas - f.gas / 64;
        if m.depth >= 1024 || self.balance(m.this) < value || nonce == u64::MAX {
            return U256::zero();
        }
        f.gas -= g;
        self.acct(m.this).nonce += 1;
        let a = match salt {
            Some(s) => create2_address(m.this, s, &init),
            None => create_address(m.this, nonce),
        };
        self.seen.insert(a);
        self.st.warm.insert(a);
        let (e, left) = self.init(a, m.this, value, init, g, m.depth + 1);
        f.gas += left;
        match e {
            End::Ok(_) => a2u(a),
            End::Revert(o) => {
                f.ret = o;
                U256::zero()
            }
            End::Fault => U256::zero(),
        }
    }
    /// Creates a contract at `a`.
    pub fn init(&mut self, a: Addr, caller: Addr, value: U256, code: Vec<u8>, gas: u64, depth: usize) -> (End, u64) {
        if let Some(x) = self.st.world.get(&a) {
            if x.nonce != 0 || !x.code.is_empty() {
                return (End::Fault, 0);
            }
        }
        let saved = self.st.clone();
        self.acct(a).nonce = 1;
        self.acct(a).storage.clear();
        self.st.created.insert(a);
        self.touch(a);
        self.transfer(caller, a, value);
        let (e, mut left) = self.run_inner(&Msg { caller, this: a, code, value, data: vec![], gas, is_static: false, depth });
        let e = match e {
            End::Ok(c) => {
                let cost = 200 * c.len() as u64;
                if c.len() > 24576 || c.first() == Some(&0xef) || left < cost {
                    left = 0;
                    End::Fault
                } else {
                    left -= cost;
                    self.acct(a).code = c.clone();
                    self.codes.push(c.clone());
                    End::Ok(c)
                }
            }
            e => e,
        };
        if !matches!(e, End::Ok(_)) {
            self.st = saved;
        }
        (e, left)
    }
}
impl Frame {
    fn charge_words(&mut self, per: u64, size: U256) -> R<()> {
        if size > U256::from(1u64 << 40) {
            return Err(Fault);
        }
        self.charge(per * words(size.as_u64()))
    }
    fn charge_bytes(&mut self, per: u64, size: U256) -> R<()> {
        if size > U256::from(1u64 << 40) {
            return Err(Fault);
        }
        self.charge(per * size.as_u64())
    }
}

// ------------------------------------------------------------ precompiles

fn bu(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}
pub fn bn_p() -> BigUint {
    "21888242871839275222246405745257275088696311157297823662689037894645226208583".parse().unwrap()
}
pub type Pt = Option<(BigUint, BigUint)>;
pub fn ec_add(p: &BigUint, a: &Pt, b: &Pt) -> Pt {
    let (Some((x1, y1)), Some((x2, y2))) = (a, b) else { return a.clone().or(b.clone()) };
    let l = if x1 == x2 {
        if (y1 + y2) % p == BigUint::default() {
            return None;
        }
        (x1 * x1 * 3u8) * inv(&(y1 * 2u8), p) % p
    } else {
        (p + y2 - y1) * inv(&(p + x2 - x1), p) % p
    };
    let x3 = (&l * &l + p + p - x1 - x2) % p;
    let y3 = (l * (p + x1 - &x3) + p - y1) % p;
    Some((x3, y3))
}
fn inv(x: &BigUint, p: &BigUint) -> BigUint {
    (x % p).modpow(&(p - 2u8), p)
}
pub fn ec_mul(p: &BigUint, a: &Pt, k: &BigUint) -> Pt {
    let mut r = None;
    for i in (0..k.bits()).rev() {
        r = ec_add(p, &r, &r);
        if k.bit(i) {
            r = ec_add(p, &r, a);
        }
    }
    r
}
fn bn_point(d: &[u8]) -> Option<Pt> {
    let (x, y, p) = (bu(&d[..32]), bu(&d[32..64]), bn_p());
    if x >= p || y >= p {
        return None;
    }
    if x == BigUint::default() && y == BigUint::default() {
        return Some(None);
    }
    if (&y * &y) % &p != (&x * &x * &x + 3u8) % &p {
        return None;
    }
    Some(Some((x, y)))
}
fn pt_bytes(p: &Pt) -> Vec<u8> {
    let w = |x: &BigUint| {
        let b = x.to_bytes_be();
        [vec![0; 32 - b.len()], b].concat()
    };
    match p {
        None => vec![0; 64],
        Some((x, y)) => [w(x), w(y)].concat(),
    }
}
pub fn modexp_gas(bl: usize, el: usize, ml: usize, ehead: U256) -> u64 {
    let w = (bl.max(ml) as u128).div_ceil(8);
    let comp = w * w;
    let bits = if ehead.is_zero() { 0 } else { ehead.bits() as u128 - 1 };
    let iters = if el <= 32 { bits } else { 8 * (el as u128 - 32) + bits };
    u64::try_from((comp * iters.max(1) / 3).max(200)).unwrap_or(u64::MAX)
}
/// Output and gas left; None for failure.
pub fn precompile(a: Addr, d: &[u8], gas: u64) -> Option<(Vec<u8>, u64)> {
    let w = d.len().div_ceil(32) as u64;
    let n = a2u(a).as_u64();
    let cost = match n {
        1 => 3000,
        2 => 60 + 12 * w,
        3 => 600 + 120 * w,
        4 => 15 + 3 * w,
        5 => {
            let h = padded(d, U256::zero(), 96);
            let l: Vec<U256> = (0..3).map(|i| U256::from_big_endian(&h[32 * i..32 * i + 32])).collect();
            let small = |x: &U256| *x < U256::from(1u64 << 32);
            if !l.iter().all(small) {
                return None;
            }
            let (bl, el, ml) = (l[0].as_usize(), l[1].as_usize(), l[2].as_usize());
            let eh = U256::from_big_endian(&padded(d, U256::from(96 + bl), el.min(32)));
            modexp_gas(bl, el, ml, eh)
        }
        6 => 150,
        7 => 6000,
        8 => 45000 + 34000 * (d.len() as u64 / 192),
        9 => {
            if d.len() != 213 {
                return None;
            }
            u32::from_be_bytes(d[..4].try_into().unwrap()) as u64
        }
        _ => 50000,
    };
    if gas < cost {
        return None;
    }
    let out = match n {
        1 => {
            let i = padded(d, U256::zero(), 128);
            ecrecover(&i).map(|a| [vec![0; 12], a.as_bytes().to_vec()].concat()).unwrap_or_default()
        }
        2 => {
            use sha2::Digest;
            sha2::Sha256::digest(d).to_vec()
        }
        3 => {
            use ripemd::Digest;
            [vec![0; 12], ripemd::Ripemd160::digest(d).to_vec()].concat()
        }
        4 => d.to_vec(),
        5 => {
            let h = padded(d, U256::zero(), 96);
            let l: Vec<usize> = (0..3).map(|i| U256::from_big_endian(&h[32 * i..32 * i + 32]).as_usize()).collect();
            let b = bu(&padded(d, U256::from(96), l[0]));
            let e = bu(&padded(d, U256::from(96 + l[0]), l[1]));
            let m = bu(&padded(d, U256::from(96 + l[0] + l[1]), l[2]));
            let r = if m == BigUint::default() { m } else { b.modpow(&e, &m) };
            let r = if r == BigUint::default() { vec![] } else { r.to_bytes_be() };
            [vec![0; l[2] - r.len()], r].concat()
        }
        6 => {
            let i = padded(d, U256::zero(), 128);
            pt_bytes(&ec_add(&bn_p(), &bn_point(&i[..64])?, &bn_point(&i[64..])?))
        }
        7 => {
            let i = padded(d, U256::zero(), 96);
            pt_bytes(&ec_mul(&bn_p(), &bn_point(&i[..64])?, &bu(&i[64..])))
        }
        8 => {
            if d.len() % 192 != 0 {
                return None;
            }
            // only the empty product is known here
            assert!(d.is_empty(), "the reference has no pairing");
            be(U256::one()).to_vec()
        }
        9 => {
            if d[212] > 1 {
                return None;
            }
            let w = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
            let r = u32::from_be_bytes(d[..4].try_into().unwrap());
            let h = std::array::from_fn(|i| w(4 + 8 * i));
            let m = std::array::from_fn(|i| w(68 + 8 * i));
            crate::c23::blake2_f(r, h, m, [w(196), w(204)], d[212] == 1).iter().flat_map(|x| x.to_le_bytes()).collect()
        }
        _ => return None,
    };
    Some((out, gas - cost))
}
pub fn secp_n() -> BigUint {
    BigUint::parse_bytes(b"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16).unwrap()
}
pub fn secp_p() -> BigUint {
    BigUint::parse_bytes(b"fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16).unwrap()
}
pub fn secp_g() -> Pt {
    Some((
        BigUint::parse_bytes(b"79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16).unwrap(),
        BigUint::parse_bytes(b"483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16).unwrap(),
    ))
}
pub fn point_addr(q: &Pt) -> Addr {
    Addr::from_slice(&keccak(&pt_bytes(q)).as_bytes()[12..])
}
/// The input of the precompile: hash, v, r, s.
pub fn ecrecover(i: &[u8]) -> Option<Addr> {
    let (h, v, r, s) = (bu(&i[..32]), bu(&i[32..64]), bu(&i[64..96]), bu(&i[96..128]));
    let (n, p) = (secp_n(), secp_p());
    let z = BigUint::default();
    if (v != BigUint::from(27u8) && v != BigUint::from(28u8)) || r == z || s == z || r >= n || s >= n {
        return None;
    }
    let c = (&r * &r * &r + 7u8) % &p;
    let mut y = c.modpow(&((&p + 1u8) / 4u8), &p);
    if &y * &y % &p != c {
        return None;
    }
    if y.bit(0) != (v == BigUint::from(28u8)) {
        y = &p - y;
    }
    let ri = inv(&r, &n);
    let u1 = (&n - (h % &n)) * &ri % &n;
    let u2 = s * ri % &n;
    let q = ec_add(&p, &ec_mul(&p, &secp_g(), &u1), &ec_mul(&p, &Some((r, y)), &u2));
    q.as_ref()?;
    Some(point_addr(&q))
}

// ----------------------------------------------------------- transactions

#[derive(Clone, Debug, Default)]
pub struct Tx {
    pub ty: u8,
    /// For legacy transactions: None means the old form of v.
    pub chain_id: Option<u64>,
    pub nonce: u64,
    pub tip: U256,
    pub max_fee: U256,
    pub gas: u64,
    pub to: Option<Addr>,
    pub value: U256,
    pub data: Vec<u8>,
    pub access: Vec<(Addr, Vec<U256>)>,
    pub max_blob_fee: U256,
    pub blobs: Vec<U256>,
    /// Private key.
    pub key: u64,
}
/// A key's public point and address.
pub fn address_of(key: u64) -> Addr {
    use std::collections::HashMap;
    use std::sync::{Mutex, OnceLock};
    static C: OnceLock<Mutex<HashMap<u64, Addr>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(a) = c.lock().unwrap().get(&key) {
        return *a;
    }
    let a = point_addr(&ec_mul(&secp_p(), &secp_g(), &BigUint::from(key)));
    c.lock().unwrap().insert(key, a);
    a
}
impl Tx {
    pub fn sender(&self) -> Addr {
        address_of(self.key)
    }
    fn fields(&self) -> Vec<Vec<u8>> {
        let to = rlp::bytes(self.to.as_ref().map_or(&[][..], |a| a.as_bytes()));
        let mut v = vec![];
        if self.ty > 0 {
            v.push(rlp::uint(self.chain_id.unwrap()));
        }
        v.push(rlp::uint(self.nonce));
        if self.ty >= 2 {
            v.push(rlp::u256(self.tip));
        }
        v.push(rlp::u256(self.max_fee));
        v.push(rlp::uint(self.gas));
        v.push(to);
        v.push(rlp::u256(self.value));
        v.push(rlp::bytes(&self.data));
        if self.ty > 0 {
            let l: Vec<Vec<u8>> = self
                .access
                .iter()
                .map(|(a, k)| rlp::list(&[rlp::bytes(a.as_bytes()), rlp::list(&k.iter().map(|x| rlp::bytes(&be(*x))).collect::<Vec<_>>())]))
                .collect();
            v.push(rlp::list(&l));
        }
        if self.ty == 3 {
            v.push(rlp::u256(self.max_blob_fee));
            v.push(rlp::list(&self.blobs.iter().map(|x| rlp::bytes(&be(*x))).collect::<Vec<_>>()));
        }
        v
    }
    fn wrap(&self, f: Vec<Vec<u8>>) -> Vec<u8> {
        let mut out = if self.ty > 0 { vec![self.ty] } else { vec![] };
        out.extend(rlp::list(&f));
        out
    }
    pub fn signing_hash(&self) -> H256 {
        let mut f = self.fields();
        if self.ty == 0 {
            if let Some(c) = self.chain_id {
                f.extend([rlp::uint(c), rlp::uint(0), rlp::uint(0)]);
            }
        }
        keccak(&self.wrap(f))
    }
    /// y parity, r and s (s in the lower half).
    pub fn sign(&self) -> (bool, U256, U256) {
        self.sign_with(U256::from(0x1234567u64) + self.nonce)
    }
    pub fn sign_with(&self, k: U256) -> (bool, U256, U256) {
        let (n, p) = (secp_n(), secp_p());
        let k = vc::big::to_big(k);
        let (x, y) = ec_mul(&p, &secp_g(), &k).unwrap();
        assert!(x < n);
        let z = bu(self.signing_hash().as_bytes()) % &n;
        let mut s = inv(&k, &n) * (z + &x * self.key) % &n;
        let mut odd = y.bit(0);
        if &s * 2u8 > n {
            s = &n - s;
            odd = !odd;
        }
        (odd, vc::big::from_big(&x), vc::big::from_big(&s))
    }
    pub fn encode(&self) -> Vec<u8> {
        self.encode_with(self.sign())
    }
    pub fn encode_with(&self, (odd, r, s): (bool, U256, U256)) -> Vec<u8> {
        let mut f = self.fields();
        let v = match (self.ty, self.chain_id) {
            (0, None) => 27 + odd as u64,
            (0, Some(c)) => 35 + 2 * c + odd as u64,
            _ => odd as u64,
        };
        f.extend([rlp::uint(v), rlp::u256(r), rlp::u256(s)]);
        self.wrap(f)
    }
    pub fn intrinsic(&self) -> u64 {
        let z = self.data.iter().filter(|b| **b == 0).count() as u64;
        let nz = self.data.len() as u64 - z;
        21000
            + 4 * z
            + 16 * nz
            + if self.to.is_none() { 32000 + 2 * words(self.data.len() as u64) } else { 0 }
            + self.access.iter().map(|(_, k)| 2400 + 1900 * k.len() as u64).sum::<u64>()
    }
    pub fn price(&self, b: &Block) -> U256 {
        if self.ty < 2 {
            self.max_fee
        } else {
            self.max_fee.min(b.base_fee + self.tip)
        }
    }
    pub fn blob_gas(&self) -> u64 {
        131072 * self.blobs.len() as u64
    }
    /// Whether the protocol allows the transaction in this block and state.
    pub fn valid(&self, w: &World, b: &Block) -> bool {
        let d = Acct::default();
        let a = w.get(&self.sender()).unwrap_or(&d);
        let tip = if self.ty < 2 { self.max_fee } else { self.tip };
        let cost = |f: U256| U256::from(self.gas).full_mul(f);
        let Ok(c) = U256::try_from(cost(self.max_fee)) else { return false };
        let Some(c) = c.checked_add(self.value) else { return false };
        let Some(c) = c.checked_add(self.max_blob_fee * self.blob_gas()) else { return false };
        a.nonce == self.nonce
            && a.nonce != u64::MAX
            && a.code.is_empty()
            && a.balance >= c
            && self.max_fee >= b.base_fee
            && self.max_fee >= tip
            && self.gas >= self.intrinsic()
            && U256::from(self.gas) <= b.gas_limit
            && self.chain_id.map_or(true, |c| b.chain_id == U256::from(c))
            && (self.ty != 3 || (self.to.is_some() && !self.blobs.is_empty() && self.max_blob_fee >= blob_base_fee(b.excess_blob_gas)))
            && (self.to.is_some() || self.data.len() <= 49152)
    }
}
pub fn bloom(logs: &[Log]) -> [u8; 256] {
    let mut b = [0u8; 256];
    let mut add = |d: &[u8]| {
        let h = keccak(d);
        for i in 0..3 {
            let bit = (u16::from_be_bytes([h[2 * i], h[2 * i + 1]]) & 2047) as usize;
            b[255 - bit / 8] |= 1 << (bit % 8);
        }
    };
    for l in logs {
        add(l.addr.as_bytes());
        for t in &l.topics {
            add(&be(*t));
        }
    }
    b
}
pub fn receipt(ty: u8, status: bool, cum: u64, logs: &[Log]) -> Vec<u8> {
    let ls: Vec<Vec<u8>> = logs
        .iter()
        .map(|l| rlp::list(&[rlp::bytes(l.addr.as_bytes()), rlp::list(&l.topics.iter().map(|t| rlp::bytes(&be(*t))).collect::<Vec<_>>()), rlp::bytes(&l.data)]))
        .collect();
    let r = rlp::list(&[rlp::uint(status as u64), rlp::uint(cum), rlp::bytes(&bloom(logs)), rlp::list(&ls)]);
    if ty == 0 {
        r
    } else {
        [vec![ty], r].concat()
    }
}

pub struct Outcome {
    pub world: World,
    pub status: bool,
    pub gas: u64,
    pub logs: Vec<Log>,
    pub trace: Option<Vec<Row>>,
    pub ops: [u64; 256],
    pub output: End,
    /// Every code deposited, kept or not.
    pub codes: Vec<Vec<u8>>,
    /// Every account, slot and code named, and the accounts destroyed.
    pub seen: BTreeSet<Addr>,
    pub seen_slots: BTreeSet<(Addr, U256)>,
    pub seen_codes: BTreeSet<Addr>,
    pub destroyed: BTreeSet<Addr>,
}
/// Processes a valid transaction.
pub fn transact(world: &World, b: &Block, tx: &Tx, trace: bool, tweak: &Tweak) -> Outcome {
    let from = tx.sender();
    let price = tx.price(b);
    let mut st = St { world: world.clone(), ..St::default() };
    {
        let a = st.world.get_mut(&from).unwrap();
        a.balance -= price * tx.gas + blob_base_fee(b.excess_blob_gas) * tx.blob_gas();
        a.nonce += 1;
    }
    st.touched.insert(from);
    st.warm.insert(from);
    st.warm.insert(b.coinbase);
    (1..=10u64).for_each(|i| {
        st.warm.insert(u2a(i.into()));
    });
    for (a, ks) in &tx.access {
        st.warm.insert(*a);
        ks.iter().for_each(|k| {
            st.warm_slots.insert((*a, *k));
        });
    }
    let mut e = Evm::new(st, b, from, price);
    e.blobs = tx.blobs.clone();
    e.tweak = tweak.clone();
    if trace {
        e.trace = Some(vec![]);
    }
    let gas = tx.gas - tweak.intrinsic.unwrap_or(tx.intrinsic());
    let (end, left) = match tx.to {
        None => {
            let a = create_address(from, tx.nonce);
            e.st.warm.insert(a);
            e.seen.insert(a);
            e.init(a, from, tx.value, tx.data.clone(), gas, 0)
        }
        Some(to) => {
            e.st.warm.insert(to);
            e.seen.insert(to);
            let saved = e.st.clone();
            e.transfer(from, to, tx.value);
            let (r, l) = if is_precompile(to) {
                match precompile(to, &tx.data, gas) {
                    Some((o, g)) => (End::Ok(o), g),
                    None => (End::Fault, 0),
                }
            } else {
                let code = tweak.code.get(&to).cloned().unwrap_or_else(|| e.code(to));
                if code.is_empty() {
                    (End::Ok(vec![]), gas)
                } else {
                    e.run_inner(&Msg { caller: from, this: to, code, value: tx.value, data: tx.data.clone(), gas, is_static: false, depth: 0 })
                }
            };
            if !matches!(r, End::Ok(_)) {
                e.st = saved;
            }
            (r, l)
        }
    };
    let used = tx.gas - left;
    let refund = (e.st.refund.max(0) as u64).min(used / 5);
    let used = used - refund;
    let tip = price - b.base_fee;
    e.add_balance(b.coinbase, tip * used);
    e.add_balance(from, price * (tx.gas - used));
    let mut w = std::mem::take(&mut e.st.world);
    for a in &e.st.destroyed {
        w.remove(a);
    }
    for a in &e.st.touched {
        if w.get(a).is_some_and(|x| x.is_empty()) {
            w.remove(a);
        }
    }
    let status = matches!(end, End::Ok(_));
    Outcome {
        world: w,
        status,
        gas: used,
        logs: if status { e.st.logs.clone() } else { vec![] },
        trace: e.trace.take(),
        ops: e.ops,
        codes: std::mem::take(&mut e.codes),
        output: end,
        seen: [from, b.coinbase].into_iter().chain(e.seen).collect(),
        seen_slots: e.seen_slots,
        seen_codes: e.seen_codes.into_inner(),
        destroyed: e.st.destroyed,
    }
}

/// The state root of a world.
pub fn storage_root(s: &BTreeMap<U256, U256>) -> H256 {
    vc::refmpt::root(&s.iter().filter(|x| !x.1.is_zero()).map(|(k, v)| (vc::refmpt::nibbles_of(keccak(&be(*k)).as_bytes()), rlp::u256(*v))).collect())
}
pub fn account_rlp(a: &Acct) -> Vec<u8> {
    rlp::list(&[rlp::uint(a.nonce), rlp::u256(a.balance), rlp::bytes(storage_root(&a.storage).as_bytes()), rlp::bytes(keccak(&a.code).as_bytes())])
}
pub fn state_root(w: &World) -> H256 {
    vc::refmpt::root(&w.iter().map(|(k, v)| (vc::refmpt::nibbles_of(keccak(k.as_bytes()).as_bytes()), account_rlp(v))).collect())
}
/// The root of a trie keyed by encoded indices.
pub fn index_root(items: &[Vec<u8>]) -> H256 {
    vc::refmpt::root(&items.iter().enumerate().map(|(i, v)| (vc::refmpt::nibbles_of(&rlp::uint(i as u64)), v.clone())).collect())
}
