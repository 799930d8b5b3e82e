use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use super::types::{Field, Field64, PrimeField, PrimeField64, Sample};

pub const P: u64 = 0xFFFF_FFFF_0000_0001;
/// Goldilocks field element, always held in canonical form.
#[derive(Copy, Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(transparent)]
pub struct GoldilocksField(pub u64);

impl fmt::Debug for GoldilocksField { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
impl fmt::Display for GoldilocksField { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl Sample for GoldilocksField { fn rand() -> Self { unimplemented!() } }
impl Add for GoldilocksField { type Output = Self; fn add(self, o: Self) -> Self { GoldilocksField(((self.0 as u128 + o.0 as u128) % P as u128) as u64) } }
impl Sub for GoldilocksField { type Output = Self; fn sub(self, o: Self) -> Self { GoldilocksField(((self.0 as u128 + P as u128 - o.0 as u128) % P as u128) as u64) } }
impl Mul for GoldilocksField { type Output = Self; fn mul(self, o: Self) -> Self { GoldilocksField(((self.0 as u128 * o.0 as u128) % P as u128) as u64) } }
impl Neg for GoldilocksField { type Output = Self; fn neg(self) -> Self { GoldilocksField((P - self.0) % P) } }
impl Div for GoldilocksField { type Output = Self; #[allow(clippy::suspicious_arithmetic_impl)] fn div(self, o: Self) -> Self { self * o.inverse() } }
impl AddAssign for GoldilocksField { fn add_assign(&mut self, o: Self) { *self = *self + o; } }
impl SubAssign for GoldilocksField { fn sub_assign(&mut self, o: Self) { *self = *self - o; } }
impl MulAssign for GoldilocksField { fn mul_assign(&mut self, o: Self) { *self = *self * o; } }
impl DivAssign for GoldilocksField { fn div_assign(&mut self, o: Self) { *self = *self / o; } }
impl Sum for GoldilocksField { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) } }
impl Product for GoldilocksField { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }
impl Field for GoldilocksField {
    const ZERO: Self = Self(0);
    const ONE: Self = Self(1);
    const TWO: Self = Self(2);
    const NEG_ONE: Self = Self(P - 1);
    const TWO_ADICITY: usize = 32;
    const BITS: usize = 64;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self = Self(14293326489335486720);
    fn from_canonical_u64(n: u64) -> Self { debug_assert!(n < P); Self(n) }
    fn from_noncanonical_u64(n: u64) -> Self { Self(n % P) }
    fn from_noncanonical_u128(n: u128) -> Self { Self((n % P as u128) as u64) }
    fn from_noncanonical_i64(n: i64) -> Self { Self((n as i128).rem_euclid(P as i128) as u64) }
    fn try_inverse(&self) -> Option<Self> { if self.0 == 0 { None } else { Some(self.exp_u64(P - 2)) } }
}
impl PrimeField for GoldilocksField {}
impl Field64 for GoldilocksField { const ORDER: u64 = P; const CHARACTERISTIC: u64 = P; }
impl PrimeField64 for GoldilocksField { fn to_canonical_u64(&self) -> u64 { self.0 } fn to_noncanonical_u64(&self) -> u64 { self.0 } }
