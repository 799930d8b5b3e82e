use core::fmt::{Debug, Display};
use core::hash::Hash;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use serde::de::DeserializeOwned;
use serde::Serialize;

use super::extension::Frobenius;
use super::ops::Square;

pub trait Sample: Sized {
    fn rand() -> Self;
    fn rand_vec(n: usize) -> Vec<Self> { (0..n).map(|_| Self::rand()).collect() }
    fn rand_array<const N: usize>() -> [Self; N] { core::array::from_fn(|_| Self::rand()) }
}

pub trait Field:
    'static + Copy + Eq + Hash + Neg<Output = Self> + Add<Self, Output = Self> + AddAssign<Self>
    + Sum + Sub<Self, Output = Self> + SubAssign<Self> + Mul<Self, Output = Self>
    + MulAssign<Self> + Square + Product + Div<Self, Output = Self> + DivAssign<Self> + Debug
    + Default + Display + Sample + Send + Sync + Serialize + DeserializeOwned {
    const ZERO: Self;
    const ONE: Self;
    const TWO: Self;
    const NEG_ONE: Self;
    const TWO_ADICITY: usize;
    const BITS: usize;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self;
    fn from_canonical_u64(n: u64) -> Self;
    fn from_noncanonical_u64(n: u64) -> Self;
    fn from_noncanonical_u128(n: u128) -> Self;
    fn from_noncanonical_i64(n: i64) -> Self;
    fn try_inverse(&self) -> Option<Self>;
    fn inverse(&self) -> Self { self.try_inverse().expect("Tried to invert zero") }
    fn is_zero(&self) -> bool { *self == Self::ZERO }
    fn is_nonzero(&self) -> bool { *self != Self::ZERO }
    fn is_one(&self) -> bool { *self == Self::ONE }
    fn double(&self) -> Self { *self + *self }
    fn cube(&self) -> Self { *self * *self * *self }
    fn from_canonical_u32(n: u32) -> Self { Self::from_canonical_u64(u64::from(n)) }
    fn from_canonical_u16(n: u16) -> Self { Self::from_canonical_u64(u64::from(n)) }
    fn from_canonical_u8(n: u8) -> Self { Self::from_canonical_u64(u64::from(n)) }
    fn from_canonical_usize(n: usize) -> Self { Self::from_canonical_u64(n as u64) }
    fn from_bool(b: bool) -> Self { Self::from_canonical_u64(u64::from(b)) }
    fn exp_u64(&self, mut e: u64) -> Self {
        let mut r = Self::ONE;
        let mut b = *self;
        while e > 0 {
            if e & 1 == 1 { r *= b; }
            b *= b;
            e >>= 1;
        }
        r
    }
    fn exp_power_of_2(&self, log: usize) -> Self { let mut r = *self; for _ in 0..log { r = r * r; } r }
    fn powers(&self) -> Powers<Self> { Powers { base: *self, current: Self::ONE } }
    fn batch_multiplicative_inverse(x: &[Self]) -> Vec<Self> { x.iter().map(Self::inverse).collect() }
    fn primitive_root_of_unity(_n_log: usize) -> Self { unimplemented!() }
    fn two_adic_subgroup(_n_log: usize) -> Vec<Self> { unimplemented!() }
    fn cyclic_subgroup_coset_known_order(_g: Self, _s: Self, _n: usize) -> Vec<Self> { unimplemented!() }
    fn coset_shift() -> Self { Self::MULTIPLICATIVE_GROUP_GENERATOR }
    fn multiply_accumulate(&self, x: Self, y: Self) -> Self { *self + x * y }
}

#[derive(Clone, Debug)]
pub struct Powers<F: Field> { base: F, current: F }
impl<F: Field> Iterator for Powers<F> {
    type Item = F;
    fn next(&mut self) -> Option<F> { let r = self.current; self.current *= self.base; Some(r) }
}

pub trait PrimeField: Field { }
pub trait Field64: Field {
    const ORDER: u64;
    const CHARACTERISTIC: u64;
    fn add_one(&self) -> Self { *self + Self::ONE }
    fn sub_one(&self) -> Self { *self - Self::ONE }
}
pub trait PrimeField64: PrimeField + Field64 {
    fn to_canonical_u64(&self) -> u64;
    fn to_noncanonical_u64(&self) -> u64;
    fn to_canonical(&self) -> Self { Self::from_canonical_u64(self.to_canonical_u64()) }
    fn to_canonical_i64(&self) -> i64 {
        let v = self.to_canonical_u64();
        if v > Self::ORDER / 2 { -((Self::ORDER - v) as i64) } else { v as i64 }
    }
}
#[allow(unused)]
pub trait FrobeniusOf<const D: usize>: Frobenius<D> {}
