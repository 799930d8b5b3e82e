use crate::field::extension::Extendable; use crate::hash::hash_types::RichField; use crate::iop::ext_target::ExtensionTarget; use crate::plonk::circuit_builder::CircuitBuilder;
#[derive(Debug, Clone)] pub struct ReducingFactorTarget<const D: usize> { base: ExtensionTarget<D> }
impl<const D: usize> ReducingFactorTarget<D> {
    pub fn new(base: ExtensionTarget<D>) -> Self { Self { base } }
    pub fn reduce<F: RichField + Extendable<D>>(&mut self, terms: &[ExtensionTarget<D>], b: &mut CircuitBuilder<F, D>) -> ExtensionTarget<D> {
        let mut acc = b.zero_extension();
        for t in terms.iter().rev() { acc = b.mul_add_extension(acc, self.base, *t); }
        acc
    }
}
