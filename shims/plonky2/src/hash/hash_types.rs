use crate::field::goldilocks_field::GoldilocksField;
use crate::field::types::{Field, PrimeField64, Sample};
use crate::plonk::config::GenericHashOut;

pub trait RichField: PrimeField64 + crate::hash::poseidon2::Poseidon2 {
    // used by the recording circuit builder only
    fn fresh(_name: &str) -> Self { Self::ZERO }
    fn eq_indicator(a: Self, b: Self) -> Self { if a == b { Self::ONE } else { Self::ZERO } }
    fn uninterpreted(_name: &str, _args: &[Self], _i: usize) -> Self { Self::ZERO }
}
impl RichField for GoldilocksField {}
pub const NUM_HASH_OUT_ELTS: usize = 4;
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub struct HashOut<F: Field> { pub elements: [F; NUM_HASH_OUT_ELTS] }
impl<F: Field> HashOut<F> {
    pub const ZERO: Self = Self { elements: [F::ZERO; NUM_HASH_OUT_ELTS] };
    pub fn from_vec(e: Vec<F>) -> Self { Self { elements: e.try_into().ok().expect("4 elements") } }
    pub fn from_partial(e: &[F]) -> Self { let mut r = [F::ZERO; 4]; r[..e.len()].copy_from_slice(e); Self { elements: r } }
}
impl<F: Field> From<[F; 4]> for HashOut<F> { fn from(elements: [F; 4]) -> Self { Self { elements } } }
impl<F: Field> Default for HashOut<F> { fn default() -> Self { Self::ZERO } }
impl<F: Field> Sample for HashOut<F> { fn rand() -> Self { unimplemented!() } }
impl<F: RichField> GenericHashOut<F> for HashOut<F> {
    fn to_bytes(&self) -> Vec<u8> { self.elements.into_iter().flat_map(|x| x.to_canonical_u64().to_le_bytes()).collect() }
    fn from_bytes(bytes: &[u8]) -> Self {
        HashOut { elements: core::array::from_fn(|i| F::from_canonical_u64(u64::from_le_bytes(bytes[8 * i..8 * i + 8].try_into().unwrap()))) }
    }
    fn to_vec(&self) -> Vec<F> { self.elements.to_vec() }
}

use crate::iop::target::Target;
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub struct HashOutTarget { pub elements: [Target; NUM_HASH_OUT_ELTS] }
impl HashOutTarget {
    pub fn from_vec(e: Vec<Target>) -> Self { Self { elements: e.try_into().expect("4 elements") } }
    pub fn from_partial(e: &[Target], zero: Target) -> Self { let mut r = [zero; 4]; r[..e.len()].copy_from_slice(e); Self { elements: r } }
}
impl From<[Target; 4]> for HashOutTarget { fn from(elements: [Target; 4]) -> Self { Self { elements } } }
impl TryFrom<&[Target]> for HashOutTarget { type Error = anyhow::Error; fn try_from(e: &[Target]) -> Result<Self, anyhow::Error> { Ok(Self { elements: e.try_into()? }) } }
impl<F: Field> TryFrom<&[F]> for HashOut<F> { type Error = anyhow::Error; fn try_from(e: &[F]) -> Result<Self, anyhow::Error> { Ok(Self { elements: e.try_into()? }) } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MerkleCapTarget(pub Vec<HashOutTarget>);
