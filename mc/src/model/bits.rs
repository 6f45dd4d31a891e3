//! Bit strings as vectors of 0/1 bytes.
use num_bigint::BigUint;
use tycho_types::cell::*;

pub type B = Vec<u8>;

pub fn uint(v: u128, n: usize) -> B {
    (0..n).rev().map(|i| if i < 128 { ((v >> i) & 1) as u8 } else { 0 }).collect()
}
pub fn big(v: &BigUint, n: usize) -> B { (0..n).rev().map(|i| v.bit(i as u64) as u8).collect() }
pub fn from_bytes(b: &[u8], n: usize) -> B { (0..n).map(|i| (b[i / 8] >> (7 - i % 8)) & 1).collect() }
pub fn to_u128(b: &[u8]) -> u128 { b.iter().fold(0u128, |a, &x| (a << 1) | x as u128) }
pub fn to_big(b: &[u8]) -> BigUint { b.iter().fold(BigUint::from(0u8), |a, &x| (a << 1) + x) }
/// Packs to bytes, zero padded.
pub fn pack(b: &[u8]) -> Vec<u8> {
    let mut r = vec![0u8; b.len().div_ceil(8)];
    for (i, &x) in b.iter().enumerate() { r[i / 8] |= x << (7 - i % 8) }
    r
}
/// Packs with the completion tag used by cells.
pub fn pack_tagged(b: &[u8]) -> Vec<u8> {
    let mut r = pack(b);
    if b.len() % 8 != 0 { r[b.len() / 8] |= 0x80 >> (b.len() % 8) }
    r
}
/// A de Bruijn-like deterministic non-periodic pattern bit.
pub fn pat(seed: u64, i: usize) -> u8 {
    let mut x = (i as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ seed.wrapping_mul(0xD1B54A32D192ED03);
    x ^= x >> 29; x = x.wrapping_mul(0xBF58476D1CE4E5B9); x ^= x >> 32;
    (x & 1) as u8
}
pub fn pattern(seed: u64, n: usize) -> B {
    match seed { 0 => vec![0; n], 1 => vec![1; n], s => (0..n).map(|i| pat(s, i)).collect() }
}
pub fn show(b: &[u8]) -> String { b.iter().map(|x| (b'0' + x) as char).collect() }

/// Bits of a cell's own data read directly from the packed representation.
pub fn cell_bits(c: &DynCell) -> B { from_bytes(c.data(), c.bit_len() as usize) }
/// Bits seen by a slice (through single-bit reads only).
pub fn slice_bits(s: &CellSlice<'_>) -> B { (0..s.size_bits()).map(|i| s.get_bit(i).unwrap() as u8).collect() }
pub fn builder_of(b: &[u8]) -> CellBuilder {
    let mut r = CellBuilder::new();
    r.store_raw(&pack(b), b.len() as u16).unwrap();
    r
}
pub fn cell_of(b: &[u8]) -> Cell { builder_of(b).build().unwrap() }
pub fn bits_from_num(len: usize, v: u64) -> B { uint(v as u128, len) }
