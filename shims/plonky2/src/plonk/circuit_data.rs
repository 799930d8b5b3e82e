use core::marker::PhantomData;
use crate::field::extension::Extendable; use crate::fri::{reduction_strategies::FriReductionStrategy, FriConfig, FriParams}; use crate::hash::hash_types::*; use crate::hash::merkle_tree::MerkleCap; use crate::iop::{target::Target, witness::PartialWitness}; use super::{config::*, proof::*};
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CircuitConfig { pub num_wires: usize, pub num_routed_wires: usize, pub num_constants: usize, pub use_base_arithmetic_gate: bool, pub security_bits: usize, pub num_challenges: usize, pub zero_knowledge: bool, pub max_quotient_degree_factor: usize, pub fri_config: FriConfig }
impl CircuitConfig {
    pub const fn standard_recursion_config() -> Self { Self { num_wires: 135, num_routed_wires: 80, num_constants: 2, use_base_arithmetic_gate: true, security_bits: 100, num_challenges: 2, zero_knowledge: false, max_quotient_degree_factor: 8, fri_config: FriConfig { rate_bits: 3, cap_height: 4, proof_of_work_bits: 16, reduction_strategy: FriReductionStrategy::ConstantArityBits(4, 5), num_query_rounds: 28 } } }
}
impl Default for CircuitConfig { fn default() -> Self { Self::standard_recursion_config() } }
#[derive(Clone, Debug)] pub struct CommonCircuitData<F: RichField + Extendable<D>, const D: usize> { pub config: CircuitConfig, pub fri_params: FriParams, pub num_public_inputs: usize, pub gates: Vec<crate::gates::gate::GateRef>, pub degree: usize, pub ph: PhantomData<F>, pub name: String }
impl<F: RichField + Extendable<D>, const D: usize> CommonCircuitData<F, D> { pub fn degree(&self) -> usize { self.degree } pub fn degree_bits(&self) -> usize { 12 } }
impl<F: RichField + Extendable<D>, const D: usize> PartialEq for CommonCircuitData<F, D> { fn eq(&self, o: &Self) -> bool { self.num_public_inputs == o.num_public_inputs } }
#[derive(Clone, Debug)] pub struct VerifierOnlyCircuitData<C: GenericConfig<D>, const D: usize> { pub constants_sigmas_cap: MerkleCap<C::F, C::Hasher>, pub circuit_digest: <C::Hasher as Hasher<C::F>>::Hash }
impl<C: GenericConfig<D>, const D: usize> PartialEq for VerifierOnlyCircuitData<C, D> { fn eq(&self, o: &Self) -> bool { self.constants_sigmas_cap == o.constants_sigmas_cap && self.circuit_digest == o.circuit_digest } }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct VerifierCircuitTarget { pub constants_sigmas_cap: MerkleCapTarget, pub circuit_digest: HashOutTarget }
#[derive(Clone, Debug)] pub struct ProverOnlyCircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> { pub public_inputs: Vec<Target>, pub ph: PhantomData<(F, C)> }
#[derive(Clone, Debug)] pub struct CircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> { pub prover_only: ProverOnlyCircuitData<F, C, D>, pub verifier_only: VerifierOnlyCircuitData<C, D>, pub common: CommonCircuitData<F, D> }
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> CircuitData<F, C, D> {
    pub fn prove(&self, _: PartialWitness<F>) -> anyhow::Result<ProofWithPublicInputs<F, C, D>> { unimplemented!() }
    pub fn verify(&self, _: ProofWithPublicInputs<F, C, D>) -> anyhow::Result<()> { unimplemented!() }
    pub fn verifier_data(&self) -> VerifierCircuitData<F, C, D> { unimplemented!() }
}
#[derive(Clone, Debug)] pub struct VerifierCircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> { pub verifier_only: VerifierOnlyCircuitData<C, D>, pub common: CommonCircuitData<F, D> }

impl<F: RichField + Extendable<D>, const D: usize> Eq for CommonCircuitData<F, D> {}
impl<C: GenericConfig<D>, const D: usize> Eq for VerifierOnlyCircuitData<C, D> {}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> PartialEq for CircuitData<F, C, D> { fn eq(&self, o: &Self) -> bool { self.common == o.common && self.verifier_only == o.verifier_only } }
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> Eq for CircuitData<F, C, D> {}
