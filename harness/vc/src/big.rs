//! 256-bit words as big integers: the reference for all word arithmetic.
use ethereum_types::U256;
use num_bigint::{BigInt, BigUint, Sign};

pub fn to_big(x: U256) -> BigUint {
    let mut b = [0u8; 32];
    x.to_little_endian(&mut b);
    BigUint::from_bytes_le(&b)
}
pub fn modulus() -> BigUint {
    BigUint::from(1u8) << 256
}
/// Reduces modulo 2^256.
pub fn from_big(x: &BigUint) -> U256 {
    let r = x % modulus();
    U256::from_little_endian(&pad(r.to_bytes_le()))
}
fn pad(mut v: Vec<u8>) -> Vec<u8> {
    v.resize(32, 0);
    v
}
pub fn to_signed(x: U256) -> BigInt {
    let b = BigInt::from(to_big(x));
    if x.bit(255) {
        b - BigInt::from(modulus())
    } else {
        b
    }
}
pub fn from_signed(x: &BigInt) -> U256 {
    let m = BigInt::from(modulus());
    let r = ((x % &m) + &m) % &m;
    from_big(&r.to_biguint().unwrap())
}
pub fn is_neg(x: &BigInt) -> bool {
    x.sign() == Sign::Minus
}
