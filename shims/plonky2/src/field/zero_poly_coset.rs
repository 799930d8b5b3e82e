use super::packed::PackedField; use super::types::Field; use core::marker::PhantomData;
pub struct ZeroPolyOnCoset<F: Field>(PhantomData<F>);
impl<F: Field> ZeroPolyOnCoset<F> { pub fn new(_: usize, _: usize) -> Self { Self(PhantomData) } pub fn eval_inverse_packed<P: PackedField<Scalar = F>>(&self, _i: usize) -> P { unimplemented!() } }
