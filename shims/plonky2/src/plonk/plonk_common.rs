use core::borrow::Borrow;
use crate::field::extension::Extendable; use crate::field::packed::PackedField; use crate::field::types::Field; use crate::hash::hash_types::RichField; use crate::iop::{ext_target::ExtensionTarget, target::Target}; use super::circuit_builder::CircuitBuilder;
pub fn reduce_with_powers<'a, P: PackedField, T: IntoIterator<Item = &'a P>>(terms: T, alpha: P::Scalar) -> P where T::IntoIter: DoubleEndedIterator {
    let mut sum = P::ZEROS;
    for t in terms.into_iter().rev() { sum = sum * alpha + *t; }
    sum
}
pub fn reduce_with_powers_circuit<F: RichField + Extendable<D>, const D: usize>(b: &mut CircuitBuilder<F, D>, terms: &[Target], alpha: Target) -> Target {
    let mut acc = b.zero();
    for t in terms.iter().rev() { acc = b.mul_add(acc, alpha, *t); }
    acc
}
pub fn reduce_with_powers_ext_circuit<F: RichField + Extendable<D>, const D: usize>(b: &mut CircuitBuilder<F, D>, terms: &[ExtensionTarget<D>], alpha: Target) -> ExtensionTarget<D> {
    let alpha = b.convert_to_ext(alpha);
    let mut acc = b.zero_extension();
    for t in terms.iter().rev() { acc = b.mul_add_extension(acc, alpha, *t); }
    acc
}
