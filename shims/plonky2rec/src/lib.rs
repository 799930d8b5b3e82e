//! Stand-in for plonky2's circuit builder: it records, operation by operation, the circuit the real
//! recursion code of /repo/recproofs builds (targets, constraints, verified proofs), prints it for
//! the solver, and can solve and check it concretely with an ideal proof system.
pub mod rec;
pub mod field {
    pub mod extension {
        pub trait Extendable<const D: usize>: Sized { type Extension: Clone; }
        impl Extendable<2> for super::goldilocks_field::GoldilocksField { type Extension = [super::goldilocks_field::GoldilocksField; 2]; }
    }
    pub mod types {
        use std::fmt::{Debug, Display};
        use std::ops::*;
        pub trait Field: 'static + Copy + Eq + std::hash::Hash + Debug + Display + Default + Send + Sync + Neg<Output = Self> + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + AddAssign + SubAssign + MulAssign + std::iter::Sum {
            const ZERO: Self;
            const ONE: Self;
            const TWO: Self;
            const NEG_ONE: Self;
            const ORDER: u64 = super::goldilocks_field::P;
            fn from_canonical_u64(n: u64) -> Self;
            fn to_u64_(&self) -> u64;
            fn from_canonical_u32(n: u32) -> Self { Self::from_canonical_u64(n.into()) }
            fn from_canonical_u16(n: u16) -> Self { Self::from_canonical_u64(n.into()) }
            fn from_canonical_u8(n: u8) -> Self { Self::from_canonical_u64(n.into()) }
            fn from_canonical_usize(n: usize) -> Self { Self::from_canonical_u64(n as u64) }
            fn from_noncanonical_u64(n: u64) -> Self { Self::from_canonical_u64(n % super::goldilocks_field::P) }
            fn from_noncanonical_i64(n: i64) -> Self { if n < 0 { -Self::from_noncanonical_u64(n.unsigned_abs()) } else { Self::from_noncanonical_u64(n as u64) } }
            fn from_bool(b: bool) -> Self { Self::from_canonical_u64(b as u64) }
            fn is_zero(&self) -> bool { *self == Self::ZERO }
            fn is_nonzero(&self) -> bool { *self != Self::ZERO }
            fn is_one(&self) -> bool { *self == Self::ONE }
            fn sub_one(&self) -> Self { *self - Self::ONE }
            fn add_one(&self) -> Self { *self + Self::ONE }
            fn double(&self) -> Self { *self + *self }
            fn square(&self) -> Self { *self * *self }
            fn exp_u64(&self, mut e: u64) -> Self { let (mut b, mut r) = (*self, Self::ONE); while e > 0 { if e & 1 == 1 { r *= b } b *= b; e >>= 1 } r }
            fn inverse(&self) -> Self { assert!(!self.is_zero()); self.exp_u64(super::goldilocks_field::P - 2) }
            fn try_inverse(&self) -> Option<Self> { if self.is_zero() { None } else { Some(self.inverse()) } }
        }
        pub trait PrimeField64: Field {
            fn to_canonical_u64(&self) -> u64;
            fn to_noncanonical_u64(&self) -> u64 { self.to_canonical_u64() }
        }
        pub trait Field64: Field {}
    }
    pub mod goldilocks_field {
        use std::ops::*;
        pub const P: u64 = 0xffff_ffff_0000_0001;
        #[derive(Copy, Clone, Default)]
        pub struct GoldilocksField(pub u64);
        use GoldilocksField as G;
        impl PartialEq for G { fn eq(&self, o: &G) -> bool { self.0 % P == o.0 % P } }
        impl Eq for G {}
        impl std::hash::Hash for G { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (self.0 % P).hash(h) } }
        impl std::fmt::Debug for G { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0 % P) } }
        impl std::fmt::Display for G { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0 % P) } }
        fn m(x: u128) -> G { G((x % P as u128) as u64) }
        impl Add for G { type Output = G; fn add(self, o: G) -> G { m(self.0 as u128 + o.0 as u128) } }
        impl Neg for G { type Output = G; fn neg(self) -> G { m((P - self.0 % P) as u128) } }
        impl Sub for G { type Output = G; fn sub(self, o: G) -> G { self + -o } }
        impl Mul for G { type Output = G; fn mul(self, o: G) -> G { m(self.0 as u128 * o.0 as u128) } }
        impl AddAssign for G { fn add_assign(&mut self, o: G) { *self = *self + o } }
        impl SubAssign for G { fn sub_assign(&mut self, o: G) { *self = *self - o } }
        impl MulAssign for G { fn mul_assign(&mut self, o: G) { *self = *self * o } }
        impl std::iter::Sum for G { fn sum<I: Iterator<Item = G>>(i: I) -> G { i.fold(G(0), |a, b| a + b) } }
        impl super::types::Field for G {
            const ZERO: G = G(0);
            const ONE: G = G(1);
            const TWO: G = G(2);
            const NEG_ONE: G = G(P - 1);
            fn from_canonical_u64(n: u64) -> G { debug_assert!(n < P); G(n) }
            fn to_u64_(&self) -> u64 { self.0 % P }
        }
        impl super::types::PrimeField64 for G { fn to_canonical_u64(&self) -> u64 { self.0 % P } }
        impl super::types::Field64 for G {}
        impl crate::hash::hash_types::RichField for G {}
    }
}
pub mod hash {
    pub mod hash_types {
        use crate::iop::target::Target;
        use crate::field::types::{Field, PrimeField64};
        pub trait RichField: PrimeField64 {}
        pub const NUM_HASH_OUT_ELTS: usize = 4;
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
        pub struct HashOut<F> { pub elements: [F; 4] }
        impl<F: Field> HashOut<F> { pub const ZERO: Self = HashOut { elements: [F::ZERO; 4] }; pub fn to_vec(&self) -> Vec<F> { self.elements.to_vec() } }
        impl<F: Field> Default for HashOut<F> { fn default() -> Self { Self::ZERO } }
        impl<F> From<[F; 4]> for HashOut<F> { fn from(elements: [F; 4]) -> Self { Self { elements } } }
        #[derive(Copy, Clone, Debug, PartialEq, Eq)]
        pub struct HashOutTarget { pub elements: [Target; 4] }
        impl From<[Target; 4]> for HashOutTarget { fn from(elements: [Target; 4]) -> Self { Self { elements } } }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct MerkleCapTarget(pub Vec<HashOutTarget>);
    }
    pub mod merkle_tree {
        use crate::plonk::config::Hasher;
        pub struct MerkleCap<F, H: Hasher<F>>(pub Vec<H::Hash>) where F: crate::hash::hash_types::RichField;
        impl<F: crate::hash::hash_types::RichField, H: Hasher<F>> Clone for MerkleCap<F, H> { fn clone(&self) -> Self { Self(self.0.clone()) } }
        impl<F: crate::hash::hash_types::RichField, H: Hasher<F>> PartialEq for MerkleCap<F, H> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
        impl<F: crate::hash::hash_types::RichField, H: Hasher<F>> Eq for MerkleCap<F, H> {}
        impl<F: crate::hash::hash_types::RichField, H: Hasher<F>> std::fmt::Debug for MerkleCap<F, H> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
    }
    pub mod poseidon2 {
        use super::hash_types::{HashOut, RichField};
        #[derive(Copy, Clone, Debug, PartialEq, Eq)]
        pub struct Poseidon2Hash;
        impl<F: RichField> crate::plonk::config::Hasher<F> for Poseidon2Hash {
            type Hash = HashOut<F>;
            fn hash_no_pad(x: &[F]) -> HashOut<F> { HashOut { elements: crate::rec::hash(&x.iter().map(|x| x.to_u64_()).collect::<Vec<_>>()).map(F::from_canonical_u64) } }
        }
        impl<F: RichField> crate::plonk::config::AlgebraicHasher<F> for Poseidon2Hash {}
    }
}
pub mod gates {
    pub mod noop { #[derive(Clone, Debug)] pub struct NoopGate; }
    pub mod gate { #[derive(Clone, Debug, PartialEq, Eq)] pub struct GateRef(pub String); }
}
pub mod iop {
    pub mod target {
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum Target { Wire(usize), VirtualTarget { index: usize } }
        #[derive(Copy, Clone, Debug, PartialEq, Eq)]
        pub struct BoolTarget { pub target: Target }
        impl BoolTarget { pub fn new_unsafe(target: Target) -> Self { Self { target } } }
    }
    pub mod witness { pub use crate::rec::{PartialWitness, Witness, WitnessWrite}; }
}
pub mod plonk {
    pub mod circuit_builder { pub use crate::rec::CircuitBuilder; }
    pub mod circuit_data { pub use crate::rec::{CircuitConfig, CircuitData, CommonCircuitData, ProverOnlyCircuitData, VerifierCircuitTarget, VerifierOnlyCircuitData}; }
    pub mod config {
        use crate::hash::hash_types::{HashOut, RichField};
        use std::fmt::Debug;
        pub trait Hasher<F: RichField>: Sized + Copy + Debug + Eq + PartialEq + Send + Sync + 'static { type Hash: Clone + Debug + Eq + PartialEq + Send + Sync; fn hash_no_pad(x: &[F]) -> Self::Hash; }
        pub trait AlgebraicHasher<F: RichField>: Hasher<F, Hash = HashOut<F>> {}
        pub trait GenericConfig<const D: usize>: Debug + Clone + Sync + Sized + Send + Eq + PartialEq + 'static {
            type F: RichField + crate::field::extension::Extendable<D>;
            type Hasher: AlgebraicHasher<Self::F>;
            type InnerHasher: AlgebraicHasher<Self::F>;
        }
        #[derive(Debug, Copy, Clone, Eq, PartialEq)]
        pub struct Poseidon2GoldilocksConfig;
        impl GenericConfig<2> for Poseidon2GoldilocksConfig {
            type F = crate::field::goldilocks_field::GoldilocksField;
            type Hasher = crate::hash::poseidon2::Poseidon2Hash;
            type InnerHasher = crate::hash::poseidon2::Poseidon2Hash;
        }
    }
    pub mod proof { pub use crate::rec::{ProofWithPublicInputs, ProofWithPublicInputsTarget}; }
}
