//! A small writer of user code.
use vc::U256;

use crate::refevm::{a2u, Addr};

#[derive(Clone, Default, Debug)]
pub struct Code(pub Vec<u8>);

pub trait Operand {
    fn word(self) -> U256;
}
impl Operand for U256 {
    fn word(self) -> U256 {
        self
    }
}
impl Operand for u64 {
    fn word(self) -> U256 {
        self.into()
    }
}
impl Operand for i32 {
    fn word(self) -> U256 {
        U256::from(self as u64)
    }
}
impl Operand for usize {
    fn word(self) -> U256 {
        self.into()
    }
}
impl Operand for Addr {
    fn word(self) -> U256 {
        a2u(self)
    }
}
impl Code {
    pub fn new() -> Self {
        Code(vec![])
    }
    /// Pushes a word with the shortest push.
    pub fn p(mut self, x: impl Operand) -> Self {
        let x = x.word();
        let n = (x.bits() + 7) / 8;
        self.0.push(0x5f + n as u8);
        self.0.extend((0..n).rev().map(|i| x.byte(i)));
        self
    }
    /// Pushes the operands of an instruction, `args[0]` on top.
    pub fn ps(mut self, args: &[U256]) -> Self {
        for a in args.iter().rev() {
            self = self.p(*a);
        }
        self
    }
    pub fn o(mut self, op: u8) -> Self {
        self.0.push(op);
        self
    }
    pub fn os(mut self, ops: &[u8]) -> Self {
        self.0.extend(ops);
        self
    }
    pub fn c(mut self, c: &Code) -> Self {
        self.0.extend(&c.0);
        self
    }
    /// SSTORE of constants.
    pub fn sstore(self, k: impl Operand, v: impl Operand) -> Self {
        self.p(v).p(k).o(SSTORE)
    }
    pub fn tstore(self, k: impl Operand, v: impl Operand) -> Self {
        self.p(v).p(k).o(TSTORE)
    }
    /// Puts bytes into memory from `at` on, and zeros up to the next word.
    pub fn mem(mut self, at: usize, b: &[u8]) -> Self {
        for (i, c) in b.chunks(32).enumerate() {
            let mut w = [0u8; 32];
            w[..c.len()].copy_from_slice(c);
            self = self.p(U256::from_big_endian(&w)).p(at + 32 * i).o(MSTORE);
        }
        self
    }
    /// Ends with these constant bytes, which must be few.
    pub fn ret(self, b: &[u8]) -> Self {
        self.mem(0, b).p(b.len()).p(0).o(RETURN)
    }
}
pub const STOP: u8 = 0;
pub const ADD: u8 = 1;
pub const KECCAK256: u8 = 0x20;
pub const ADDRESS: u8 = 0x30;
pub const CALLER: u8 = 0x33;
pub const CALLVALUE: u8 = 0x34;
pub const CALLDATALOAD: u8 = 0x35;
pub const CALLDATASIZE: u8 = 0x36;
pub const CALLDATACOPY: u8 = 0x37;
pub const RETURNDATASIZE: u8 = 0x3d;
pub const RETURNDATACOPY: u8 = 0x3e;
pub const POP: u8 = 0x50;
pub const MSTORE: u8 = 0x52;
pub const SLOAD: u8 = 0x54;
pub const SSTORE: u8 = 0x55;
pub const MSIZE: u8 = 0x59;
pub const GAS: u8 = 0x5a;
pub const JUMPDEST: u8 = 0x5b;
pub const TLOAD: u8 = 0x5c;
pub const TSTORE: u8 = 0x5d;
pub const RETURN: u8 = 0xf3;
pub const REVERT: u8 = 0xfd;
pub const INVALID: u8 = 0xfe;
pub const SELFDESTRUCT: u8 = 0xff;
