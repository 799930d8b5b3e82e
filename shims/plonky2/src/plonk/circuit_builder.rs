//! Recording circuit builder: every target stands for the field expression the circuit computes
//! there; `connect`, `assert_*` and in-circuit decompositions are recorded as equations.
use crate::field::extension::{Extendable, FieldExtension}; use crate::field::types::Field; use crate::fri::{proof::*, structure::*, FriParams}; use crate::gates::gate::GateRef; use crate::hash::hash_types::*; use crate::hash::hashing::PlonkyPermutation; use crate::hash::merkle_tree::MerkleCap; use crate::hash::poseidon2::Poseidon2Permutation; use crate::iop::{ext_target::ExtensionTarget, target::*}; use super::{circuit_data::*, config::*, proof::*};
#[derive(Clone, Debug)]
pub struct Verified { pub proof: usize, pub public_inputs: Vec<Target>, pub verifier: VerifierCircuitTarget, pub common: String, pub condition: Option<BoolTarget> }
#[derive(Clone, Debug)]
pub struct CircuitBuilder<F: RichField + Extendable<D>, const D: usize> {
    pub config: CircuitConfig,
    pub vals: Vec<F>,
    /// expressions the circuit forces to zero, with a note
    pub zeros: Vec<(F, String)>,
    /// values the circuit forces below 2^n
    pub ranges: Vec<(F, usize)>,
    pub pis: Vec<Target>,
    pub verified: Vec<Verified>,
    pub proofs: usize,
}
impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilder<F, D> {
    pub fn new(config: CircuitConfig) -> Self { Self { config, vals: vec![F::ZERO], zeros: vec![], ranges: vec![], pis: vec![], verified: vec![], proofs: 0 } }
    pub fn val(&mut self, v: F) -> Target { self.vals.push(v); Target(self.vals.len() - 1) }
    pub fn get(&self, t: Target) -> F { self.vals[t.0] }
    pub fn must(&mut self, v: F, why: &str) { self.zeros.push((v, why.to_string())); }
    pub fn add_virtual_target(&mut self) -> Target { self.val(F::fresh("v")) }
    pub fn add_virtual_targets(&mut self, n: usize) -> Vec<Target> { (0..n).map(|_| self.add_virtual_target()).collect() }
    pub fn add_virtual_target_arr<const N: usize>(&mut self) -> [Target; N] { core::array::from_fn(|_| self.add_virtual_target()) }
    pub fn add_virtual_hash(&mut self) -> HashOutTarget { HashOutTarget { elements: self.add_virtual_target_arr() } }
    pub fn add_virtual_cap(&mut self, h: usize) -> MerkleCapTarget { MerkleCapTarget((0..1usize << h).map(|_| self.add_virtual_hash()).collect()) }
    pub fn add_virtual_extension_target(&mut self) -> ExtensionTarget<D> { ExtensionTarget(self.add_virtual_target_arr()) }
    pub fn add_virtual_extension_targets(&mut self, n: usize) -> Vec<ExtensionTarget<D>> { (0..n).map(|_| self.add_virtual_extension_target()).collect() }
    pub fn add_virtual_bool_target_unsafe(&mut self) -> BoolTarget { BoolTarget { target: self.add_virtual_target() } }
    pub fn add_virtual_bool_target_safe(&mut self) -> BoolTarget { let b = self.add_virtual_bool_target_unsafe(); self.assert_bool(b); b }
    pub fn add_virtual_public_input(&mut self) -> Target { let t = self.add_virtual_target(); self.register_public_input(t); t }
    pub fn register_public_input(&mut self, t: Target) { self.pis.push(t); }
    pub fn register_public_inputs(&mut self, t: &[Target]) { self.pis.extend_from_slice(t); }
    pub fn num_public_inputs(&self) -> usize { self.pis.len() }
    pub fn num_gates(&self) -> usize { 1 << 12 }
    pub fn add_gate<G>(&mut self, _: G, _: Vec<F>) -> usize { 0 }
    pub fn add_gate_to_gate_set(&mut self, _: GateRef) {}
    pub fn connect(&mut self, a: Target, b: Target) { let d = self.get(a) - self.get(b); self.must(d, "connect"); }
    pub fn connect_hashes(&mut self, a: HashOutTarget, b: HashOutTarget) { for i in 0..4 { self.connect(a.elements[i], b.elements[i]); } }
    pub fn connect_merkle_caps(&mut self, a: &MerkleCapTarget, b: &MerkleCapTarget) { for (x, y) in a.0.iter().zip(&b.0) { self.connect_hashes(*x, *y); } }
    pub fn connect_verifier_data(&mut self, a: &VerifierCircuitTarget, b: &VerifierCircuitTarget) { self.connect_merkle_caps(&a.constants_sigmas_cap, &b.constants_sigmas_cap); self.connect_hashes(a.circuit_digest, b.circuit_digest); }
    pub fn connect_array<const N: usize>(&mut self, a: [Target; N], b: [Target; N]) { for i in 0..N { self.connect(a[i], b[i]); } }
    pub fn connect_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) { for i in 0..D { self.connect(a.0[i], b.0[i]); } }
    pub fn assert_zero(&mut self, a: Target) { let v = self.get(a); self.must(v, "assert_zero"); }
    pub fn assert_one(&mut self, a: Target) { let v = self.get(a) - F::ONE; self.must(v, "assert_one"); }
    pub fn assert_bool(&mut self, b: BoolTarget) { let v = self.get(b.target); self.must(v * (v - F::ONE), "assert_bool"); }
    pub fn constant(&mut self, c: F) -> Target { self.val(c) }
    pub fn constants(&mut self, c: &[F]) -> Vec<Target> { c.iter().map(|c| self.constant(*c)).collect() }
    pub fn constant_bool(&mut self, b: bool) -> BoolTarget { BoolTarget { target: self.val(F::from_bool(b)) } }
    pub fn constant_hash(&mut self, h: HashOut<F>) -> HashOutTarget { HashOutTarget { elements: h.elements.map(|e| self.constant(e)) } }
    pub fn constant_merkle_cap<H: Hasher<F, Hash = HashOut<F>>>(&mut self, c: &MerkleCap<F, H>) -> MerkleCapTarget { MerkleCapTarget(c.0.iter().map(|h| self.constant_hash(*h)).collect()) }
    pub fn constant_verifier_data<C: GenericConfig<D, F = F>>(&mut self, v: &VerifierOnlyCircuitData<C, D>) -> VerifierCircuitTarget where C::Hasher: AlgebraicHasher<F> { VerifierCircuitTarget { constants_sigmas_cap: self.constant_merkle_cap(&v.constants_sigmas_cap), circuit_digest: self.constant_hash(v.circuit_digest) } }
    pub fn zero(&mut self) -> Target { self.val(F::ZERO) }
    pub fn one(&mut self) -> Target { self.val(F::ONE) }
    pub fn two(&mut self) -> Target { self.val(F::TWO) }
    pub fn neg_one(&mut self) -> Target { self.val(F::NEG_ONE) }
    pub fn _false(&mut self) -> BoolTarget { self.constant_bool(false) }
    pub fn _true(&mut self) -> BoolTarget { self.constant_bool(true) }
    pub fn arithmetic(&mut self, c0: F, c1: F, a: Target, b: Target, d: Target) -> Target { let v = c0 * self.get(a) * self.get(b) + c1 * self.get(d); self.val(v) }
    pub fn add(&mut self, a: Target, b: Target) -> Target { let v = self.get(a) + self.get(b); self.val(v) }
    pub fn sub(&mut self, a: Target, b: Target) -> Target { let v = self.get(a) - self.get(b); self.val(v) }
    pub fn mul(&mut self, a: Target, b: Target) -> Target { let v = self.get(a) * self.get(b); self.val(v) }
    pub fn neg(&mut self, a: Target) -> Target { let v = -self.get(a); self.val(v) }
    pub fn square(&mut self, a: Target) -> Target { self.mul(a, a) }
    pub fn div(&mut self, a: Target, b: Target) -> Target { let q = self.inverse(b); self.mul(a, q) }
    /// As in plonky2, the circuit forces x * inverse = 1: x is not zero.
    pub fn inverse(&mut self, a: Target) -> Target { let i = F::fresh("inv"); let v = self.get(a) * i - F::ONE; self.must(v, "inverse"); self.val(i) }
    pub fn add_const(&mut self, a: Target, c: F) -> Target { let v = self.get(a) + c; self.val(v) }
    pub fn mul_const(&mut self, c: F, a: Target) -> Target { let v = self.get(a) * c; self.val(v) }
    pub fn mul_const_add(&mut self, c: F, a: Target, b: Target) -> Target { let v = self.get(a) * c + self.get(b); self.val(v) }
    pub fn mul_add(&mut self, a: Target, b: Target, c: Target) -> Target { let v = self.get(a) * self.get(b) + self.get(c); self.val(v) }
    pub fn mul_sub(&mut self, a: Target, b: Target, c: Target) -> Target { let v = self.get(a) * self.get(b) - self.get(c); self.val(v) }
    pub fn add_many<T: core::borrow::Borrow<Target>>(&mut self, t: impl IntoIterator<Item = T>) -> Target { let v = t.into_iter().map(|t| self.get(*t.borrow())).sum(); self.val(v) }
    pub fn mul_many<T: core::borrow::Borrow<Target>>(&mut self, t: impl IntoIterator<Item = T>) -> Target { let v = t.into_iter().map(|t| self.get(*t.borrow())).product(); self.val(v) }
    pub fn not(&mut self, b: BoolTarget) -> BoolTarget { let v = F::ONE - self.get(b.target); BoolTarget { target: self.val(v) } }
    pub fn and(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget { BoolTarget { target: self.mul(a.target, b.target) } }
    pub fn or(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget { let (x, y) = (self.get(a.target), self.get(b.target)); BoolTarget { target: self.val(x + y - x * y) } }
    pub fn _if(&mut self, b: BoolTarget, x: Target, y: Target) -> Target { self.select(b, x, y) }
    pub fn select(&mut self, b: BoolTarget, x: Target, y: Target) -> Target { let (b, x, y) = (self.get(b.target), self.get(x), self.get(y)); self.val(b * (x - y) + y) }
    pub fn select_hash(&mut self, b: BoolTarget, x: HashOutTarget, y: HashOutTarget) -> HashOutTarget { HashOutTarget { elements: core::array::from_fn(|i| self.select(b, x.elements[i], y.elements[i])) } }
    pub fn is_equal(&mut self, a: Target, b: Target) -> BoolTarget { let v = F::eq_indicator(self.get(a), self.get(b)); BoolTarget { target: self.val(v) } }
    pub fn is_nonzero(&mut self, a: Target) -> BoolTarget { let v = F::ONE - F::eq_indicator(self.get(a), F::ZERO); BoolTarget { target: self.val(v) } }
    pub fn range_check(&mut self, a: Target, n: usize) { let v = self.get(a); self.ranges.push((v, n)); }
    /// Bits whose weighted sum equals the value in the field (for n near 64 not necessarily the canonical ones).
    pub fn split_le(&mut self, a: Target, n: usize) -> Vec<BoolTarget> {
        let bits: Vec<BoolTarget> = (0..n).map(|_| self.add_virtual_bool_target_safe()).collect();
        let s = self.le_sum(bits.iter()); self.connect(s, a); bits
    }
    pub fn le_sum<T: core::borrow::Borrow<BoolTarget>>(&mut self, b: impl IntoIterator<Item = T>) -> Target {
        let mut w = F::ONE; let mut s = F::ZERO;
        for b in b { s += w * self.get(b.borrow().target); w = w + w; }
        self.val(s)
    }
    pub fn split_low_high(&mut self, x: Target, n_log: usize, num_bits: usize) -> (Target, Target) {
        let low = self.add_virtual_target(); let high = self.add_virtual_target();
        self.range_check(low, n_log); self.range_check(high, num_bits - n_log);
        let v = self.get(low) + self.get(high) * F::from_canonical_u64(1 << n_log) - self.get(x); self.must(v, "split_low_high");
        (low, high)
    }
    pub fn random_access(&mut self, _i: Target, _v: Vec<Target>) -> Target { unimplemented!() }
    pub fn permute<H: AlgebraicHasher<F>>(&mut self, _: H::AlgebraicPermutation) -> H::AlgebraicPermutation { unimplemented!() }
    pub fn hash_n_to_m_no_pad<H: AlgebraicHasher<F>>(&mut self, x: Vec<Target>, m: usize) -> Vec<Target> {
        let i: Vec<F> = x.iter().map(|t| self.get(*t)).collect();
        let o = crate::hash::hashing::hash_n_to_m_no_pad::<F, H::Permutation>(&i, m);
        o.into_iter().map(|v| self.val(v)).collect()
    }
    pub fn hash_n_to_hash_no_pad<H: AlgebraicHasher<F>>(&mut self, x: Vec<Target>) -> HashOutTarget { HashOutTarget::from_vec(self.hash_n_to_m_no_pad::<H>(x, 4)) }
    pub fn hash_pad<H: AlgebraicHasher<F>>(&mut self, x: Vec<Target>) -> HashOutTarget {
        let mut p = x; let (z, o) = (self.zero(), self.one());
        p.push(o);
        while (p.len() + 1) % <H::Permutation as PlonkyPermutation<F>>::WIDTH != 0 { p.push(z); }
        p.push(o);
        self.hash_n_to_hash_no_pad::<H>(p)
    }
    pub fn hash_or_noop<H: AlgebraicHasher<F>>(&mut self, x: Vec<Target>) -> HashOutTarget { if x.len() <= 4 { let z = self.zero(); HashOutTarget::from_partial(&x, z) } else { self.hash_n_to_hash_no_pad::<H>(x) } }
    // extension arithmetic
    fn ext(&self, t: ExtensionTarget<D>) -> F::Extension { F::Extension::from_basefield_array(t.0.map(|t| self.get(t))) }
    fn vext(&mut self, v: F::Extension) -> ExtensionTarget<D> { ExtensionTarget(v.to_basefield_array().map(|v| self.val(v))) }
    pub fn constant_extension(&mut self, c: F::Extension) -> ExtensionTarget<D> { self.vext(c) }
    pub fn zero_extension(&mut self) -> ExtensionTarget<D> { self.vext(F::Extension::ZERO) }
    pub fn one_extension(&mut self) -> ExtensionTarget<D> { self.vext(F::Extension::ONE) }
    pub fn two_extension(&mut self) -> ExtensionTarget<D> { self.vext(F::Extension::TWO) }
    pub fn neg_one_extension(&mut self) -> ExtensionTarget<D> { self.vext(F::Extension::NEG_ONE) }
    pub fn convert_to_ext(&mut self, t: Target) -> ExtensionTarget<D> { let z = self.zero(); t.to_ext_target(z) }
    pub fn add_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { let v = self.ext(a) + self.ext(b); self.vext(v) }
    pub fn sub_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { let v = self.ext(a) - self.ext(b); self.vext(v) }
    pub fn mul_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { let v = self.ext(a) * self.ext(b); self.vext(v) }
    pub fn square_extension(&mut self, a: ExtensionTarget<D>) -> ExtensionTarget<D> { self.mul_extension(a, a) }
    pub fn mul_add_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> { let v = self.ext(a) * self.ext(b) + self.ext(c); self.vext(v) }
    pub fn mul_sub_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>, c: ExtensionTarget<D>) -> ExtensionTarget<D> { let v = self.ext(a) * self.ext(b) - self.ext(c); self.vext(v) }
    pub fn scalar_mul_ext(&mut self, a: Target, b: ExtensionTarget<D>) -> ExtensionTarget<D> { let v = self.ext(b) * F::Extension::from_basefield(self.get(a)); self.vext(v) }
    pub fn div_extension(&mut self, a: ExtensionTarget<D>, b: ExtensionTarget<D>) -> ExtensionTarget<D> { let v = self.ext(a) * self.ext(b).inverse(); self.vext(v) }
    pub fn inner_product_extension(&mut self, c: F, start: ExtensionTarget<D>, pairs: Vec<(ExtensionTarget<D>, ExtensionTarget<D>)>) -> ExtensionTarget<D> { let mut v = self.ext(start); for (a, b) in pairs { v += F::Extension::from_basefield(c) * self.ext(a) * self.ext(b); } self.vext(v) }
    pub fn exp_power_of_2_extension(&mut self, a: ExtensionTarget<D>, n: usize) -> ExtensionTarget<D> { let v = self.ext(a).exp_power_of_2(n); self.vext(v) }
    // proofs
    pub fn add_virtual_proof_with_pis(&mut self, c: &CommonCircuitData<F, D>) -> ProofWithPublicInputsTarget<D> { self.proofs += 1; ProofWithPublicInputsTarget { proof: ProofTarget { id: self.proofs }, public_inputs: self.add_virtual_targets(c.num_public_inputs) } }
    pub fn add_virtual_verifier_data(&mut self, h: usize) -> VerifierCircuitTarget { VerifierCircuitTarget { constants_sigmas_cap: self.add_virtual_cap(h), circuit_digest: self.add_virtual_hash() } }
    pub fn verify_proof<C: GenericConfig<D, F = F>>(&mut self, p: &ProofWithPublicInputsTarget<D>, v: &VerifierCircuitTarget, c: &CommonCircuitData<F, D>) where C::Hasher: AlgebraicHasher<F> { self.verified.push(Verified { proof: p.proof.id, public_inputs: p.public_inputs.clone(), verifier: v.clone(), common: c.name.clone(), condition: None }); }
    pub fn conditionally_verify_proof<C: GenericConfig<D, F = F>>(&mut self, _c: BoolTarget, _p0: &ProofWithPublicInputsTarget<D>, _v0: &VerifierCircuitTarget, _p1: &ProofWithPublicInputsTarget<D>, _v1: &VerifierCircuitTarget, _i: &CommonCircuitData<F, D>) where C::Hasher: AlgebraicHasher<F> { unimplemented!() }
    pub fn verify_fri_proof<C: GenericConfig<D, F = F>>(&mut self, _i: &FriInstanceInfoTarget<D>, _o: &FriOpeningsTarget<D>, _c: &FriChallengesTarget<D>, _m: &[MerkleCapTarget], _p: &FriProofTarget<D>, _fp: &FriParams) where C::Hasher: AlgebraicHasher<F> { }
    pub fn verify_batch_fri_proof<C: GenericConfig<D, F = F>>(&mut self, _d: &[usize], _i: &[FriInstanceInfoTarget<D>], _o: &[FriOpeningsTarget<D>], _c: &FriChallengesTarget<D>, _m: &[MerkleCapTarget], _p: &FriProofTarget<D>, _fp: &FriParams) where C::Hasher: AlgebraicHasher<F> { }
    pub fn add_virtual_fri_proof(&mut self, _n: &[usize], _p: &FriParams) -> FriProofTarget<D> { unimplemented!() }
    pub fn build<C: GenericConfig<D, F = F>>(self) -> CircuitData<F, C, D> { unimplemented!() }
}
