use std::collections::HashMap;
use crate::field::extension::Extendable; use crate::field::types::Field; use crate::hash::hash_types::*; use crate::hash::merkle_tree::MerkleCap; use crate::plonk::circuit_data::*; use crate::plonk::config::*; use crate::plonk::proof::*; use super::ext_target::ExtensionTarget; use super::target::*;
pub trait WitnessWrite<F: Field> {
    fn set_target(&mut self, t: Target, v: F);
    fn set_hash_target(&mut self, t: HashOutTarget, v: HashOut<F>) { for (a, b) in t.elements.iter().zip(v.elements) { self.set_target(*a, b); } }
    fn set_target_arr(&mut self, t: &[Target], v: &[F]) { for (a, b) in t.iter().zip(v) { self.set_target(*a, *b); } }
    fn set_bool_target(&mut self, t: BoolTarget, v: bool) { self.set_target(t.target, F::from_bool(v)); }
    fn set_cap_target<H: AlgebraicHasher<F>>(&mut self, t: &MerkleCapTarget, v: &MerkleCap<F, H>) where F: RichField { for (a, b) in t.0.iter().zip(&v.0) { self.set_hash_target(*a, *b); } }
    fn set_extension_target<const D: usize>(&mut self, _: ExtensionTarget<D>, _: F::Extension) where F: RichField + Extendable<D> { unimplemented!() }
    fn set_fri_openings<const D: usize>(&mut self, _: &crate::fri::structure::FriOpeningsTarget<D>, _: &crate::fri::structure::FriOpenings<F, D>) where F: RichField + Extendable<D> { unimplemented!() }
    fn set_extension_targets<const D: usize>(&mut self, _: &[ExtensionTarget<D>], _: &[F::Extension]) where F: RichField + Extendable<D> { unimplemented!() }
    fn set_proof_with_pis_target<C: GenericConfig<D, F = F>, const D: usize>(&mut self, _: &ProofWithPublicInputsTarget<D>, _: &ProofWithPublicInputs<F, C, D>) where F: RichField + Extendable<D>, C::Hasher: AlgebraicHasher<F> { unimplemented!() }
    fn set_verifier_data_target<C: GenericConfig<D, F = F>, const D: usize>(&mut self, _: &VerifierCircuitTarget, _: &VerifierOnlyCircuitData<C, D>) where F: RichField + Extendable<D>, C::Hasher: AlgebraicHasher<F> { unimplemented!() }
}
pub trait Witness<F: Field>: WitnessWrite<F> { fn try_get_target(&self, t: Target) -> Option<F>; }
#[derive(Clone, Debug, Default)] pub struct PartialWitness<F: Field> { pub map: HashMap<Target, F> }
impl<F: Field> PartialWitness<F> { pub fn new() -> Self { Self { map: HashMap::new() } } }
impl<F: Field> WitnessWrite<F> for PartialWitness<F> { fn set_target(&mut self, t: Target, v: F) { self.map.insert(t, v); } }
impl<F: Field> Witness<F> for PartialWitness<F> { fn try_get_target(&self, t: Target) -> Option<F> { self.map.get(&t).copied() } }
