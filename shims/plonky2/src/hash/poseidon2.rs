//! Poseidon2's interface with the permutation left abstract: an uninterpreted
//! function in the symbolic run, a fixed mixing function in a replay.
use crate::field::goldilocks_field::GoldilocksField;
use crate::hash::hash_types::{HashOut, RichField};
use crate::hash::hashing::{hash_n_to_hash_no_pad, PlonkyPermutation};
use crate::plonk::config::{AlgebraicHasher, Hasher};

pub const WIDTH: usize = 12;
pub const RATE: usize = 8;
pub const ROUND_F_BEGIN: usize = 4;
pub const ROUND_F_END: usize = 2 * ROUND_F_BEGIN;
pub const ROUND_P: usize = 22;

/// The round constants are plonky2's business; any fixed values do here (generated, distinct).
const fn constants<const N: usize>(mut s: u64) -> [u64; N] {
    let mut r = [0; N];
    let mut i = 0;
    while i < N {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        r[i] = s % 0xFFFF_FFFF_0000_0001;
        i += 1;
    }
    r
}
pub trait Poseidon2: Sized {
    fn permute_abstract(state: &mut [Self; WIDTH]);
    const RC12: [u64; WIDTH * ROUND_F_END] = constants(0x9e37_79b9_7f4a_7c15);
    const RC12_MID: [u64; ROUND_P] = constants(0xd1b5_4a32_d192_ed03);
    const MAT_DIAG12_M_1: [u64; WIDTH] = constants(0x2545_f491_4f6c_dd1d);
    fn poseidon2(input: [Self; WIDTH]) -> [Self; WIDTH] where Self: RichField {
        let mut s = input;
        Self::matmul_external(&mut s);
        for r in 0..ROUND_F_BEGIN { Self::constant_layer(&mut s, r); Self::sbox_layer(&mut s); Self::matmul_external(&mut s); }
        for r in 0..ROUND_P {
            s[0] += Self::from_canonical_u64(Self::RC12_MID[r]);
            s[0] = Self::sbox_monomial(s[0]);
            Self::matmul_internal(&mut s, &Self::MAT_DIAG12_M_1);
        }
        for r in ROUND_F_BEGIN..ROUND_F_END { Self::constant_layer(&mut s, r); Self::sbox_layer(&mut s); Self::matmul_external(&mut s); }
        s
    }
    fn constant_layer(s: &mut [Self; WIDTH], r: usize) where Self: RichField { for i in 0..WIDTH { s[i] += Self::from_canonical_u64(Self::RC12[r + i]); } }
    fn sbox_monomial(x: Self) -> Self where Self: RichField { let c = x * x * x; x * c * c }
    fn sbox_layer(s: &mut [Self; WIDTH]) where Self: RichField { for x in s { *x = Self::sbox_monomial(*x); } }
    fn matmul_internal(s: &mut [Self; WIDTH], d: &[u64; WIDTH]) where Self: RichField {
        let sum: Self = s.iter().copied().sum();
        for i in 0..WIDTH { s[i] = s[i] * (Self::from_canonical_u64(d[i]) - Self::ONE) + sum; }
    }
    /// circ(2 M4, M4, M4)
    fn matmul_external(s: &mut [Self; WIDTH]) where Self: RichField {
        const M4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
        let mut t = *s;
        for b in 0..3 { for i in 0..4 { t[4 * b + i] = (0..4).map(|j| Self::from_canonical_u64(M4[i][j]) * s[4 * b + j]).sum(); } }
        for b in 0..3 { for i in 0..4 { s[4 * b + i] = t[4 * b + i] + t[i] + t[4 + i] + t[8 + i]; } }
    }
}
impl Poseidon2 for GoldilocksField {
    fn permute_abstract(state: &mut [Self; WIDTH]) {
        #[cfg(feature = "rounds")]
        { *state = Self::poseidon2(*state); }
        #[cfg(not(feature = "rounds"))]
        {
            let out = abstract_permutation(core::array::from_fn(|i| state[i].0));
            *state = out.map(GoldilocksField);
        }
    }
}
/// Uninterpreted: equal states give equal, otherwise arbitrary, canonical states.
pub fn abstract_permutation(s: [u64; 12]) -> [u64; 12] {
    let mut o = [0u64; 12];
    rsx::uf(1, &s, &mut o);
    for x in &o { rsx::assume(*x < crate::field::goldilocks_field::P); }
    o
}
#[derive(Copy, Clone, Default, Debug, PartialEq, Eq)]
pub struct Poseidon2Permutation<T> { state: [T; WIDTH] }
impl PlonkyPermutation<crate::iop::target::Target> for Poseidon2Permutation<crate::iop::target::Target> {
    const RATE: usize = RATE;
    const WIDTH: usize = WIDTH;
    fn new<I: IntoIterator<Item = crate::iop::target::Target>>(_: I) -> Self { unimplemented!() }
    fn set_elt(&mut self, elt: crate::iop::target::Target, idx: usize) { self.state[idx] = elt; }
    fn set_from_iter<I: IntoIterator<Item = crate::iop::target::Target>>(&mut self, _: I, _: usize) { unimplemented!() }
    fn set_from_slice(&mut self, e: &[crate::iop::target::Target], s: usize) { self.state[s..s + e.len()].copy_from_slice(e); }
    fn permute(&mut self) { unimplemented!() }
    fn squeeze(&self) -> &[crate::iop::target::Target] { &self.state[..RATE] }
}
impl<T> AsRef<[T]> for Poseidon2Permutation<T> { fn as_ref(&self) -> &[T] { &self.state } }
impl<F: RichField> PlonkyPermutation<F> for Poseidon2Permutation<F> {
    const RATE: usize = RATE;
    const WIDTH: usize = WIDTH;
    fn new<I: IntoIterator<Item = F>>(iter: I) -> Self { let mut it = iter.into_iter(); let mut p = Self { state: [F::ZERO; WIDTH] }; for i in 0..WIDTH { match it.next() { Some(x) => p.state[i] = x, None => break } } p }
    fn set_elt(&mut self, elt: F, idx: usize) { self.state[idx] = elt; }
    fn set_from_iter<I: IntoIterator<Item = F>>(&mut self, elts: I, s: usize) { let mut i = s; for e in elts { if i >= WIDTH { break; } self.state[i] = e; i += 1; } }
    fn set_from_slice(&mut self, elts: &[F], s: usize) { self.state[s..s + elts.len()].copy_from_slice(elts); }
    fn permute(&mut self) { F::permute_abstract(&mut self.state) }
    fn squeeze(&self) -> &[F] { &self.state[..RATE] }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Poseidon2Hash;
impl<F: RichField> Hasher<F> for Poseidon2Hash {
    const HASH_SIZE: usize = 32;
    type Hash = HashOut<F>;
    type Permutation = Poseidon2Permutation<F>;
    fn hash_no_pad(input: &[F]) -> Self::Hash { hash_n_to_hash_no_pad::<F, Self::Permutation>(input) }
    fn two_to_one(l: Self::Hash, r: Self::Hash) -> Self::Hash {
        let mut p = Self::Permutation::new(core::iter::repeat(F::ZERO));
        p.set_from_slice(&l.elements, 0);
        p.set_from_slice(&r.elements, 4);
        p.permute();
        HashOut { elements: p.squeeze()[..4].try_into().unwrap() }
    }
}
impl<F: RichField> AlgebraicHasher<F> for Poseidon2Hash { type AlgebraicPermutation = Poseidon2Permutation<crate::iop::target::Target>; }
