//! Words the crate does not bring along: its storages take any type that has
//! the documented bit access (FixedStorageType is implemented for all of
//! them), so a caller's own packed byte array must work like a built-in word.
use crate::fam::Word;
use morton_index::number::{Bits, Endianness};
use std::cmp::Ordering;
use std::ops::Range;

/// An unsigned number of N bytes, least significant byte first.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Own<const N: usize>([u8; N]);

impl<const N: usize> Own<N> {
    fn num(&self) -> u128 {
        self.0.iter().rev().fold(0, |a, b| a << 8 | *b as u128)
    }
    fn from_num(v: u128) -> Self {
        let mut r = [0; N];
        for (i, b) in r.iter_mut().enumerate() {
            *b = (v >> (8 * i)) as u8;
        }
        Own(r)
    }
}
impl<const N: usize> Default for Own<N> {
    fn default() -> Self {
        Own([0; N])
    }
}
impl<const N: usize> PartialOrd for Own<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for Own<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.num().cmp(&o.num())
    }
}
fn mask(n: usize) -> u128 {
    if n >= 128 {
        !0
    } else {
        (1 << n) - 1
    }
}
impl<const N: usize> Bits for Own<N> {
    const BITS: usize = 8 * N;

    unsafe fn get_bits(&self, r: Range<usize>) -> Self {
        assert!(r.start <= r.end && r.end <= 8 * N, "bits {r:?} of {}", 8 * N);
        Own::from_num(if r.start >= 8 * N { 0 } else { self.num() >> r.start & mask(r.len()) })
    }
    unsafe fn get_bits_as_usize(&self, r: Range<usize>) -> usize {
        self.get_bits(r).num() as usize
    }
    unsafe fn set_bits(&mut self, r: Range<usize>, v: Self) {
        assert!(r.start <= r.end && r.end <= 8 * N, "bits {r:?} of {}", 8 * N);
        if r.start < 8 * N {
            let m = mask(r.len()) << r.start;
            *self = Own::from_num(self.num() & !m | v.num() << r.start & m);
        }
    }
    unsafe fn set_bits_from_usize(&mut self, r: Range<usize>, v: usize) {
        self.set_bits(r, Own::from_num(v as u128))
    }
    unsafe fn as_u8(self) -> u8 {
        self.num() as u8
    }
    unsafe fn as_u16(self) -> u16 {
        self.num() as u16
    }
    unsafe fn as_u32(self) -> u32 {
        self.num() as u32
    }
    unsafe fn as_u64(self) -> u64 {
        self.num() as u64
    }
    unsafe fn as_u128(self) -> u128 {
        self.num()
    }
    unsafe fn as_usize(self) -> usize {
        self.num() as usize
    }
    unsafe fn as_u8_slice(&self) -> &[u8] {
        &self.0
    }
    unsafe fn as_u8_slice_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
    unsafe fn from_u8(v: u8) -> Self {
        Own::from_num(v as u128)
    }
    unsafe fn from_u16(v: u16) -> Self {
        Own::from_num(v as u128)
    }
    unsafe fn from_u32(v: u32) -> Self {
        Own::from_num(v as u128)
    }
    unsafe fn from_u64(v: u64) -> Self {
        Own::from_num(v as u128)
    }
    unsafe fn from_u128(v: u128) -> Self {
        Own::from_num(v)
    }
    unsafe fn from_usize(v: usize) -> Self {
        Own::from_num(v as u128)
    }
    unsafe fn from_u8_slice(bytes: &[u8], e: Endianness) -> Self {
        let mut r = [0; N];
        for (i, b) in bytes.iter().take(N).enumerate() {
            r[if e == Endianness::BigEndian { N - 1 - i } else { i }] = *b;
        }
        Own(r)
    }
    fn size(&self) -> usize {
        N
    }
}
impl<const N: usize> Word for Own<N> {
    fn of(v: u128) -> Self {
        Own::from_num(v)
    }
    fn to(self) -> u128 {
        self.num()
    }
    const N: usize = 8 * N;
    const T: &'static str = match N {
        3 => "own24",
        5 => "own40",
        12 => "own96",
        _ => "own",
    };
}
