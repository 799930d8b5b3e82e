use core::fmt::Debug;
use crate::hash::hash_types::{HashOut, RichField};
pub trait PlonkyPermutation<T: Copy + Default>: AsRef<[T]> + Copy + Debug + Default + Eq + Sync + Send {
    const RATE: usize;
    const WIDTH: usize;
    fn new<I: IntoIterator<Item = T>>(iter: I) -> Self;
    fn set_elt(&mut self, elt: T, idx: usize);
    fn set_from_iter<I: IntoIterator<Item = T>>(&mut self, elts: I, start_idx: usize);
    fn set_from_slice(&mut self, elts: &[T], start_idx: usize);
    fn permute(&mut self);
    fn squeeze(&self) -> &[T];
}
pub fn hash_n_to_m_no_pad<F: RichField, P: PlonkyPermutation<F>>(inputs: &[F], num_outputs: usize) -> Vec<F> {
    let mut perm = P::new(core::iter::repeat(F::ZERO));
    for chunk in inputs.chunks(P::RATE) { perm.set_from_slice(chunk, 0); perm.permute(); }
    let mut out = Vec::new();
    loop {
        for &x in perm.squeeze() { out.push(x); if out.len() == num_outputs { return out; } }
        perm.permute();
    }
}
pub fn hash_n_to_hash_no_pad<F: RichField, P: PlonkyPermutation<F>>(inputs: &[F]) -> HashOut<F> { HashOut::from_vec(hash_n_to_m_no_pad::<F, P>(inputs, 4)) }
