//! Reference semantics of the arithmetic and bitwise instructions, over big
//! integers.
use vc::big::*;
use vc::{BigInt, BigUint};
use vc::U256;

/// Name, opcode, number of operands.
pub const OPS: &[(&str, u8, usize)] = &[
    ("ADD", 0x01, 2),
    ("MUL", 0x02, 2),
    ("SUB", 0x03, 2),
    ("DIV", 0x04, 2),
    ("SDIV", 0x05, 2),
    ("MOD", 0x06, 2),
    ("SMOD", 0x07, 2),
    ("ADDMOD", 0x08, 3),
    ("MULMOD", 0x09, 3),
    ("EXP", 0x0a, 2),
    ("SIGNEXTEND", 0x0b, 2),
    ("LT", 0x10, 2),
    ("GT", 0x11, 2),
    ("SLT", 0x12, 2),
    ("SGT", 0x13, 2),
    ("EQ", 0x14, 2),
    ("ISZERO", 0x15, 1),
    ("AND", 0x16, 2),
    ("OR", 0x17, 2),
    ("XOR", 0x18, 2),
    ("NOT", 0x19, 1),
    ("BYTE", 0x1a, 2),
    ("SHL", 0x1b, 2),
    ("SHR", 0x1c, 2),
    ("SAR", 0x1d, 2),
];
/// The instructions only the kernel has.
pub const KERNEL_OPS: &[(&str, u8, usize)] =
    &[("ADDFP254", 0x0c, 2), ("MULFP254", 0x0d, 2), ("SUBFP254", 0x0e, 2), ("SUBMOD", 0x0f, 3)];

pub fn bn_base() -> BigUint {
    BigUint::parse_bytes(b"21888242871839275222246405745257275088696311157297823662689037894645226208583", 10).unwrap()
}
fn b(x: bool) -> U256 {
    U256::from(x as u64)
}
fn bytes(x: U256) -> [u8; 32] {
    let mut r = [0; 32];
    x.to_big_endian(&mut r);
    r
}
fn map2(x: U256, y: U256, f: impl Fn(u8, u8) -> u8) -> U256 {
    let (p, q) = (bytes(x), bytes(y));
    let r: Vec<u8> = p.iter().zip(&q).map(|(a, b)| f(*a, *b)).collect();
    U256::from_big_endian(&r)
}
fn small(x: U256) -> Option<u32> {
    (x < U256::from(1u64 << 20)).then(|| x.as_u32())
}

/// `a[0]` is the top of the stack.
pub fn eval(op: u8, a: &[U256]) -> U256 {
    let big = |i: usize| to_big(a[i]);
    let sig = |i: usize| to_signed(a[i]);
    let zero = BigUint::from(0u8);
    match op {
        0x01 => from_big(&(big(0) + big(1))),
        0x02 => from_big(&(big(0) * big(1))),
        0x03 => from_big(&(big(0) + modulus() - big(1))),
        0x04 => if big(1) == zero { U256::zero() } else { from_big(&(big(0) / big(1))) },
        // BigInt division truncates, the remainder takes the sign of the dividend
        0x05 => if big(1) == zero { U256::zero() } else { from_signed(&(sig(0) / sig(1))) },
        0x06 => if big(1) == zero { U256::zero() } else { from_big(&(big(0) % big(1))) },
        0x07 => if big(1) == zero { U256::zero() } else { from_signed(&(sig(0) % sig(1))) },
        0x08 => if big(2) == zero { U256::zero() } else { from_big(&((big(0) + big(1)) % big(2))) },
        0x09 => if big(2) == zero { U256::zero() } else { from_big(&((big(0) * big(1)) % big(2))) },
        0x0a => from_big(&big(0).modpow(&big(1), &modulus())),
        0x0b => match small(a[0]) {
            Some(i) if i < 31 => {
                let t = BigUint::from(1u8) << (8 * (i + 1));
                let low = big(1) % &t;
                if low < (&t >> 1) {
                    from_big(&low)
                } else {
                    from_signed(&(BigInt::from(low) - BigInt::from(t)))
                }
            }
            _ => a[1],
        },
        0x10 => b(big(0) < big(1)),
        0x11 => b(big(0) > big(1)),
        0x12 => b(sig(0) < sig(1)),
        0x13 => b(sig(0) > sig(1)),
        0x14 => b(bytes(a[0]) == bytes(a[1])),
        0x15 => b(big(0) == zero),
        0x16 => map2(a[0], a[1], |x, y| x & y),
        0x17 => map2(a[0], a[1], |x, y| x | y),
        0x18 => map2(a[0], a[1], |x, y| x ^ y),
        0x19 => map2(a[0], a[0], |x, _| !x),
        0x1a => match small(a[0]) {
            Some(i) if i < 32 => U256::from(bytes(a[1])[i as usize]),
            _ => U256::zero(),
        },
        0x1b => match small(a[0]) {
            Some(i) if i < 256 => from_big(&(big(1) << i)),
            _ => U256::zero(),
        },
        0x1c => match small(a[0]) {
            Some(i) if i < 256 => from_big(&(big(1) >> i)),
            _ => U256::zero(),
        },
        0x1d => {
            // floor division by a power of two
            let neg = is_neg(&sig(1));
            match small(a[0]) {
                Some(i) if i < 256 => {
                    let m = BigInt::from(1) << i;
                    let (q, r) = (&sig(1) / &m, &sig(1) % &m);
                    from_signed(&(if neg && r != BigInt::from(0) { q - 1 } else { q }))
                }
                _ => if neg { U256::MAX } else { U256::zero() },
            }
        }
        0x0c => from_big(&((big(0) + big(1)) % bn_base())),
        0x0d => from_big(&((big(0) * big(1)) % bn_base())),
        0x0e => from_big(&((big(0) + bn_base() - big(1) % bn_base()) % bn_base())),
        0x0f => {
            if big(2) == zero {
                U256::zero()
            } else {
                from_big(&((big(0) + big(2) - big(1) % big(2)) % big(2)))
            }
        }
        _ => panic!("no reference for opcode {op:#x}"),
    }
}

/// Words at and around every boundary that matters to some instruction.
pub fn boundary() -> Vec<U256> {
    let p = |i: u32| U256::one() << i;
    let mut v: Vec<U256> = [0u64, 1, 2, 3, 7, 8, 30, 31, 32, 33, 127, 128, 254, 255, 256, 257, 0xffff, 0x10000, 0x10001]
        .iter()
        .map(|x| (*x).into())
        .collect();
    for i in [32, 64, 128, 192, 240, 255] {
        v.push(p(i) - 1);
        v.push(p(i));
    }
    v.push(p(64) + 1);
    v.push(p(128) + 1);
    v.push(p(255) + 1);
    v.push(p(64) + 5);
    for d in [0u64, 1, 2, 127, 128, 255, 256] {
        v.push(U256::MAX - d);
    }
    let pat = |s: &str| U256::from_str_radix(&s.repeat(64 / s.len()), 16).unwrap();
    for s in ["a", "5", "0001", "ffff0000", "0000ffff", "8000", "7fff", "80", "7f", "0123456789abcdef"] {
        v.push(pat(s));
    }
    let n = from_big(&bn_base());
    v.extend([n - 1, n, n + 1]);
    let mut l = vc::Lcg(7);
    v.extend((0..2).map(|_| l.u256()));
    v
}
