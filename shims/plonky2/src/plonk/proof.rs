use crate::field::extension::Extendable; use crate::hash::hash_types::RichField; use crate::iop::target::Target; use super::config::GenericConfig; use super::circuit_data::*;
#[derive(Clone, Debug)] pub struct Proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> { pub ph: core::marker::PhantomData<(F, C)> }
#[derive(Clone, Debug)] pub struct ProofWithPublicInputs<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> { pub proof: Proof<F, C, D>, pub public_inputs: Vec<F> }
#[derive(Clone, Debug, PartialEq, Eq, Default)] pub struct ProofTarget<const D: usize> { pub id: usize }
#[derive(Clone, Debug, PartialEq, Eq, Default)] pub struct ProofWithPublicInputsTarget<const D: usize> { pub proof: ProofTarget<D>, pub public_inputs: Vec<Target> }
