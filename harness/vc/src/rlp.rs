//! An RLP encoder written from the yellow paper.
pub fn be_trim(mut x: &[u8]) -> &[u8] {
    while let [0, rest @ ..] = x {
        x = rest;
    }
    x
}
fn len_prefix(short: u8, n: usize) -> Vec<u8> {
    if n <= 55 {
        vec![short + n as u8]
    } else {
        let be = (n as u64).to_be_bytes();
        let t = be_trim(&be);
        let mut v = vec![short + 55 + t.len() as u8];
        v.extend_from_slice(t);
        v
    }
}
pub fn bytes(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut v = len_prefix(0x80, b.len());
    v.extend_from_slice(b);
    v
}
/// `items` are already encoded.
pub fn list(items: &[Vec<u8>]) -> Vec<u8> {
    let payload: Vec<u8> = items.concat();
    let mut v = len_prefix(0xc0, payload.len());
    v.extend(payload);
    v
}
pub fn u256(x: ethereum_types::U256) -> Vec<u8> {
    let mut b = [0u8; 32];
    x.to_big_endian(&mut b);
    bytes(be_trim(&b))
}
pub fn uint(x: u64) -> Vec<u8> {
    u256(x.into())
}
