use crate::hash::hash_types::{HashOutTarget, RichField};
use crate::plonk::config::Hasher;
#[derive(Clone, Debug, PartialEq, Eq)] pub struct MerkleProof<F: RichField, H: Hasher<F>> { pub siblings: Vec<H::Hash> }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct MerkleProofTarget { pub siblings: Vec<HashOutTarget> }
