use crate::field::extension::Extendable; use crate::field::packed::PackedField; use crate::field::polynomial::*; use crate::hash::hash_types::RichField; use crate::hash::merkle_tree::MerkleTree; use crate::iop::challenger::Challenger; use crate::plonk::config::GenericConfig; use crate::util::timing::TimingTree;
use super::structure::FriInstanceInfo; use super::proof::FriProof; use super::FriParams;
#[derive(Clone, Debug)]
pub struct PolynomialBatch<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> { pub polynomials: Vec<PolynomialCoeffs<F>>, pub merkle_tree: MerkleTree<F, C::Hasher> }
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> PolynomialBatch<F, C, D> {
    pub fn from_values(_: Vec<PolynomialValues<F>>, _: usize, _: bool, _: usize, _: &mut TimingTree, _: Option<&()>) -> Self { unimplemented!() }
    pub fn from_coeffs(_: Vec<PolynomialCoeffs<F>>, _: usize, _: bool, _: usize, _: &mut TimingTree, _: Option<&()>) -> Self { unimplemented!() }
    pub fn get_lde_values_packed<P: PackedField<Scalar = F>>(&self, _: usize, _: usize) -> Vec<P> { unimplemented!() }
    pub fn prove_openings(_: &FriInstanceInfo<F, D>, _: &[&Self], _: &mut Challenger<F, C::Hasher>, _: &FriParams, _: &mut TimingTree) -> FriProof<F, C::Hasher, D> { unimplemented!() }
}
