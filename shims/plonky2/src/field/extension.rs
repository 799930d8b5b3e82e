use super::goldilocks_field::{GoldilocksField, P};
use super::types::{Field, Sample};
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};

pub trait OEF<const D: usize>: FieldExtension<D> {
    const W: Self::BaseField;
    const DTH_ROOT: Self::BaseField;
}
pub trait Frobenius<const D: usize>: OEF<D> {
    fn frobenius(&self) -> Self { unimplemented!() }
    fn repeated_frobenius(&self, _n: usize) -> Self { unimplemented!() }
}
pub trait Extendable<const D: usize>: Field + Sized {
    type Extension: Field + OEF<D, BaseField = Self> + Frobenius<D> + From<Self>;
    const W: Self;
    const DTH_ROOT: Self;
}
impl<F: Field + OEF<1, BaseField = F>> Extendable<1> for F {
    type Extension = F;
    const W: Self = F::ZERO;
    const DTH_ROOT: Self = F::ZERO;
}
impl<F: Field> Frobenius<1> for F {}
pub trait FieldExtension<const D: usize>: Field {
    type BaseField: Field;
    fn to_basefield_array(&self) -> [Self::BaseField; D];
    fn from_basefield_array(arr: [Self::BaseField; D]) -> Self;
    fn from_basefield(x: Self::BaseField) -> Self;
    fn scalar_mul(&self, s: Self::BaseField) -> Self { *self * Self::from_basefield(s) }
    fn is_in_basefield(&self) -> bool { self.to_basefield_array()[1..].iter().all(|x| x.is_zero()) }
}
impl<F: Field> FieldExtension<1> for F {
    type BaseField = F;
    fn to_basefield_array(&self) -> [F; 1] { [*self] }
    fn from_basefield_array(arr: [F; 1]) -> Self { arr[0] }
    fn from_basefield(x: F) -> Self { x }
}
impl<F: Field> OEF<1> for F { const W: F = F::ZERO; const DTH_ROOT: F = F::ZERO; }
pub fn flatten<F: Field, const D: usize>(l: &[F::Extension]) -> Vec<F> where F: Extendable<D> { l.iter().flat_map(|x| x.to_basefield_array().to_vec()).collect() }

pub mod quadratic {
    use super::*;
    #[derive(Copy, Clone, Default, PartialEq, Eq, Hash, Debug)]
    pub struct QuadraticExtension<F>(pub [F; 2]);
    type G = GoldilocksField;
    type Q = QuadraticExtension<G>;
    const W7: G = GoldilocksField(7);
    impl fmt::Display for Q { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}+{}x", self.0[0], self.0[1]) } }
    impl Sample for Q { fn rand() -> Self { unimplemented!() } }
    impl From<G> for Q { fn from(x: G) -> Self { Self([x, G::ZERO]) } }
    impl Add for Q { type Output = Self; fn add(self, o: Self) -> Self { Self([self.0[0] + o.0[0], self.0[1] + o.0[1]]) } }
    impl Sub for Q { type Output = Self; fn sub(self, o: Self) -> Self { Self([self.0[0] - o.0[0], self.0[1] - o.0[1]]) } }
    impl Neg for Q { type Output = Self; fn neg(self) -> Self { Self([-self.0[0], -self.0[1]]) } }
    impl Mul for Q { type Output = Self; fn mul(self, o: Self) -> Self { let (a, b) = (self.0, o.0); Self([a[0] * b[0] + W7 * a[1] * b[1], a[0] * b[1] + a[1] * b[0]]) } }
    impl Div for Q { type Output = Self; #[allow(clippy::suspicious_arithmetic_impl)] fn div(self, o: Self) -> Self { self * o.inverse() } }
    impl AddAssign for Q { fn add_assign(&mut self, o: Self) { *self = *self + o; } }
    impl SubAssign for Q { fn sub_assign(&mut self, o: Self) { *self = *self - o; } }
    impl MulAssign for Q { fn mul_assign(&mut self, o: Self) { *self = *self * o; } }
    impl DivAssign for Q { fn div_assign(&mut self, o: Self) { *self = *self / o; } }
    impl Sum for Q { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) } }
    impl Product for Q { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }
    impl Field for Q {
        const ZERO: Self = Self([GoldilocksField(0), GoldilocksField(0)]);
        const ONE: Self = Self([GoldilocksField(1), GoldilocksField(0)]);
        const TWO: Self = Self([GoldilocksField(2), GoldilocksField(0)]);
        const NEG_ONE: Self = Self([GoldilocksField(P - 1), GoldilocksField(0)]);
        const TWO_ADICITY: usize = 33;
        const BITS: usize = 128;
        const MULTIPLICATIVE_GROUP_GENERATOR: Self = Self([GoldilocksField(0), GoldilocksField(11713931119993638672)]);
        fn from_canonical_u64(n: u64) -> Self { G::from_canonical_u64(n).into() }
        fn from_noncanonical_u64(n: u64) -> Self { G::from_noncanonical_u64(n).into() }
        fn from_noncanonical_u128(n: u128) -> Self { G::from_noncanonical_u128(n).into() }
        fn from_noncanonical_i64(n: i64) -> Self { G::from_noncanonical_i64(n).into() }
        fn try_inverse(&self) -> Option<Self> {
            let n = self.0[0] * self.0[0] - W7 * self.0[1] * self.0[1];
            n.try_inverse().map(|i| Self([self.0[0] * i, -self.0[1] * i]))
        }
    }
    impl FieldExtension<2> for Q {
        type BaseField = G;
        fn to_basefield_array(&self) -> [G; 2] { self.0 }
        fn from_basefield_array(arr: [G; 2]) -> Self { Self(arr) }
        fn from_basefield(x: G) -> Self { x.into() }
    }
    impl OEF<2> for Q { const W: G = W7; const DTH_ROOT: G = GoldilocksField(18446744069414584320); }
    impl Frobenius<2> for Q {}
    impl Extendable<2> for G { type Extension = Q; const W: G = W7; const DTH_ROOT: G = GoldilocksField(18446744069414584320); }
}
