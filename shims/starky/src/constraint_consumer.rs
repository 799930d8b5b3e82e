use core::marker::PhantomData;
use plonky2::field::extension::Extendable;
use plonky2::field::packed::PackedField;
use plonky2::hash::hash_types::RichField;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::iop::target::Target;
use plonky2::plonk::circuit_builder::CircuitBuilder;
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Kind { Always, Transition, First, Last }
pub struct ConstraintConsumer<P: PackedField> {
    alphas: Vec<P::Scalar>, pub constraint_accs: Vec<P>, z_last: P, lagrange_basis_first: P, lagrange_basis_last: P,
    pub log: Vec<(Kind, P)>,
}
impl<P: PackedField> ConstraintConsumer<P> {
    pub fn new(alphas: Vec<P::Scalar>, z_last: P, lagrange_basis_first: P, lagrange_basis_last: P) -> Self {
        Self { constraint_accs: vec![P::ZEROS; alphas.len()], alphas, z_last, lagrange_basis_first, lagrange_basis_last, log: vec![] }
    }
    pub fn accumulators(self) -> Vec<P> { self.constraint_accs }
    pub fn new_debug_api(_first: bool, _last: bool) -> Self { unimplemented!() }
    pub fn debug_api_has_constraint_failed(&self) -> bool { unimplemented!() }
    fn put(&mut self, c: P) { for (a, acc) in self.alphas.iter().zip(&mut self.constraint_accs) { *acc = *acc * *a; *acc = *acc + c; } }
    pub fn constraint_transition(&mut self, c: P) { self.log.push((Kind::Transition, c)); self.put(c * self.z_last); }
    pub fn constraint(&mut self, c: P) { self.log.push((Kind::Always, c)); self.put(c); }
    pub fn constraint_first_row(&mut self, c: P) { self.log.push((Kind::First, c)); self.put(c * self.lagrange_basis_first); }
    pub fn constraint_last_row(&mut self, c: P) { self.log.push((Kind::Last, c)); self.put(c * self.lagrange_basis_last); }
}
pub struct RecursiveConstraintConsumer<F: RichField + Extendable<D>, const D: usize> {
    alphas: Vec<Target>, pub constraint_accs: Vec<ExtensionTarget<D>>, z_last: ExtensionTarget<D>, lagrange_basis_first: ExtensionTarget<D>, lagrange_basis_last: ExtensionTarget<D>,
    pub log: Vec<(Kind, ExtensionTarget<D>)>, ph: PhantomData<F>,
}
impl<F: RichField + Extendable<D>, const D: usize> RecursiveConstraintConsumer<F, D> {
    pub fn new(zero: ExtensionTarget<D>, alphas: Vec<Target>, z_last: ExtensionTarget<D>, lagrange_basis_first: ExtensionTarget<D>, lagrange_basis_last: ExtensionTarget<D>) -> Self {
        Self { constraint_accs: vec![zero; alphas.len()], alphas, z_last, lagrange_basis_first, lagrange_basis_last, log: vec![], ph: PhantomData }
    }
    pub fn accumulators(self) -> Vec<ExtensionTarget<D>> { self.constraint_accs }
    fn put(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) {
        for (a, acc) in self.alphas.iter().zip(&mut self.constraint_accs) { let s = b.scalar_mul_ext(*a, *acc); *acc = b.add_extension(s, c); }
    }
    pub fn constraint_transition(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) { self.log.push((Kind::Transition, c)); let c = b.mul_extension(c, self.z_last); self.put(b, c); }
    pub fn constraint(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) { self.log.push((Kind::Always, c)); self.put(b, c); }
    pub fn constraint_first_row(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) { self.log.push((Kind::First, c)); let c = b.mul_extension(c, self.lagrange_basis_first); self.put(b, c); }
    pub fn constraint_last_row(&mut self, b: &mut CircuitBuilder<F, D>, c: ExtensionTarget<D>) { self.log.push((Kind::Last, c)); let c = b.mul_extension(c, self.lagrange_basis_last); self.put(b, c); }
}
