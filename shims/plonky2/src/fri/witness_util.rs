use crate::field::extension::Extendable; use crate::hash::hash_types::{HashOut, RichField}; use crate::iop::witness::WitnessWrite; use crate::plonk::config::AlgebraicHasher; use super::proof::*;
pub fn set_fri_proof_target<F: RichField + Extendable<D>, W: WitnessWrite<F>, H: AlgebraicHasher<F>, const D: usize>(_: &mut W, _: &FriProofTarget<D>, _: &FriProof<F, H, D>) { unimplemented!() }
