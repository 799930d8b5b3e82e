use crate::hash::hash_types::RichField;
use crate::plonk::config::{GenericHashOut, Hasher};
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MerkleCap<F: RichField, H: Hasher<F>>(pub Vec<H::Hash>);
impl<F: RichField, H: Hasher<F>> Default for MerkleCap<F, H> { fn default() -> Self { Self(vec![]) } }
impl<F: RichField, H: Hasher<F>> MerkleCap<F, H> {
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn height(&self) -> usize { self.0.len().trailing_zeros() as usize }
    pub fn flatten(&self) -> Vec<F> { self.0.iter().flat_map(|h| h.to_vec()).collect() }
}
#[derive(Clone, Debug)] pub struct MerkleTree<F: RichField, H: Hasher<F>> { pub cap: MerkleCap<F, H> }
