//! Independent reference decoder. Every register field is taken from an absolute bit
//! position of the specification layout and every enumerated value from the tables
//! here; no conversion of the library under test is used to build an expected value.
pub mod caps;
pub mod caps_express;
pub mod caps_ht;
pub mod classes;
pub mod cxl;
pub mod ecaps;
pub mod ecaps_rc;
pub mod ecaps_vc;
pub mod header;

/// single bit
#[inline]
pub fn b(v: u32, n: u32) -> bool {
    v >> n & 1 == 1
}
/// bit field `lo .. lo + w`
#[inline]
pub fn f(v: u32, lo: u32, w: u32) -> u32 {
    if w >= 32 {
        v >> lo
    } else {
        v >> lo & ((1 << w) - 1)
    }
}
#[inline]
pub fn f8(v: u32, lo: u32, w: u32) -> u8 {
    f(v, lo, w) as u8
}
#[inline]
pub fn f16(v: u32, lo: u32, w: u32) -> u16 {
    f(v, lo, w) as u16
}
/// little-endian readers at a byte offset (caller guarantees the length)
#[inline]
pub fn r8(d: &[u8], o: usize) -> u32 {
    d[o] as u32
}
#[inline]
pub fn r16(d: &[u8], o: usize) -> u32 {
    d[o] as u32 | (d[o + 1] as u32) << 8
}
#[inline]
pub fn r32(d: &[u8], o: usize) -> u32 {
    r16(d, o) | r16(d, o + 2) << 16
}
#[inline]
pub fn r64(d: &[u8], o: usize) -> u64 {
    r32(d, o) as u64 | (r32(d, o + 4) as u64) << 32
}
