use core::marker::PhantomData;
use crate::field::extension::Extendable; use crate::fri::{proof::*, structure::*, FriConfig}; use crate::hash::hash_types::*; use crate::hash::merkle_tree::MerkleCap; use crate::iop::{ext_target::ExtensionTarget, target::Target}; use crate::plonk::circuit_builder::CircuitBuilder; use crate::plonk::config::*; use crate::field::polynomial::PolynomialCoeffs;
/// The transcript is abstract: every challenge is an arbitrary fresh element.
#[derive(Clone)] pub struct Challenger<F: RichField, H: Hasher<F>> { ph: PhantomData<(F, H)> }
impl<F: RichField, H: Hasher<F>> Challenger<F, H> {
    pub fn new() -> Self { Self { ph: PhantomData } }
    pub fn observe_element(&mut self, _: F) {}
    pub fn observe_elements(&mut self, _: &[F]) {}
    pub fn observe_cap<OH: Hasher<F>>(&mut self, _: &MerkleCap<F, OH>) {}
    pub fn observe_openings<const D: usize>(&mut self, _: &FriOpenings<F, D>) where F: RichField + Extendable<D> {}
    pub fn get_challenge(&mut self) -> F { F::fresh("challenge") }
    pub fn get_n_challenges(&mut self, n: usize) -> Vec<F> { (0..n).map(|_| self.get_challenge()).collect() }
    pub fn get_extension_challenge<const D: usize>(&mut self) -> F::Extension where F: RichField + Extendable<D> { F::Extension::from(self.get_challenge()) }
    pub fn compact(&mut self) {}
    pub fn fri_challenges<C: GenericConfig<D, F = F>, const D: usize>(&mut self, _: &[MerkleCap<F, C::Hasher>], _: &PolynomialCoeffs<F::Extension>, p: F, _: usize, _: &FriConfig) -> FriChallenges<F, D> where F: RichField + Extendable<D> { FriChallenges { fri_alpha: F::Extension::from(p), fri_betas: vec![], fri_pow_response: p, fri_query_indices: vec![] } }
}
pub struct RecursiveChallenger<F: RichField + Extendable<D>, H: AlgebraicHasher<F>, const D: usize> { ph: PhantomData<(F, H)> }
impl<F: RichField + Extendable<D>, H: AlgebraicHasher<F>, const D: usize> RecursiveChallenger<F, H, D> {
    pub fn new(_: &mut CircuitBuilder<F, D>) -> Self { Self { ph: PhantomData } }
    pub fn from_state(_: H::AlgebraicPermutation) -> Self { Self { ph: PhantomData } }
    pub fn observe_element(&mut self, _: Target) {}
    pub fn observe_elements(&mut self, _: &[Target]) {}
    pub fn observe_cap(&mut self, _: &MerkleCapTarget) {}
    pub fn observe_openings(&mut self, _: &FriOpeningsTarget<D>) {}
    pub fn get_challenge(&mut self, b: &mut CircuitBuilder<F, D>) -> Target { b.val(F::fresh("challenge")) }
    pub fn get_n_challenges(&mut self, b: &mut CircuitBuilder<F, D>, n: usize) -> Vec<Target> { (0..n).map(|_| self.get_challenge(b)).collect() }
    pub fn get_extension_challenge(&mut self, b: &mut CircuitBuilder<F, D>) -> ExtensionTarget<D> { let t = self.get_challenge(b); b.convert_to_ext(t) }
    pub fn compact(&mut self, _: &mut CircuitBuilder<F, D>) -> H::AlgebraicPermutation { unimplemented!() }
    pub fn fri_challenges(&mut self, b: &mut CircuitBuilder<F, D>, _: &[MerkleCapTarget], _: &PolynomialCoeffsExtTarget<D>, p: Target, _: &FriConfig) -> FriChallengesTarget<D> { let a = b.convert_to_ext(p); FriChallengesTarget { fri_alpha: a, fri_betas: vec![], fri_pow_response: p, fri_query_indices: vec![] } }
}
