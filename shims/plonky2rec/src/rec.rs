use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;
use std::marker::PhantomData;
use std::sync::Arc;

use crate::field::extension::Extendable;
use crate::field::types::Field;
use crate::gates::gate::GateRef;
use crate::gates::noop::NoopGate;
use crate::hash::hash_types::*;
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::target::{BoolTarget, Target};
use crate::plonk::config::*;
use crate::field::goldilocks_field::P;

/// An arbitrary (toy) hash: only used for concrete runs of the stand-in.
pub fn hash(x: &[u64]) -> [u64; 4] {
    let mut s = [0x9e3779b97f4a7c15u64, 0xbf58476d1ce4e5b9, 0x94d049bb133111eb, x.len() as u64 + 77];
    for (i, v) in x.iter().enumerate() {
        for j in 0..4 {
            s[j] = (s[j] ^ v.rotate_left(7 * j as u32)).wrapping_mul(0xff51afd7ed558ccd ^ ((i as u64) << 1)).rotate_left(29) ^ s[(j + 1) % 4];
        }
    }
    for _ in 0..4 { for j in 0..4 { s[j] = (s[j] ^ (s[j] >> 31)).wrapping_mul(0xc4ceb9fe1a85ec53).wrapping_add(s[(j + 3) % 4]); } }
    s.map(|v| v % P)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FriConfig { pub rate_bits: usize, pub cap_height: usize, pub proof_of_work_bits: u32, pub num_query_rounds: usize }
impl FriConfig { pub fn num_cap_elements(&self) -> usize { 1 << self.cap_height } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CircuitConfig { pub num_wires: usize, pub security_bits: usize, pub num_challenges: usize, pub zero_knowledge: bool, pub fri_config: FriConfig }
impl CircuitConfig {
    pub const fn standard_recursion_config() -> Self { Self { num_wires: 135, security_bits: 100, num_challenges: 2, zero_knowledge: false, fri_config: FriConfig { rate_bits: 3, cap_height: 4, proof_of_work_bits: 16, num_query_rounds: 28 } } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CommonCircuitData<F, const D: usize> { pub config: CircuitConfig, pub gates: Vec<GateRef>, pub num_public_inputs: usize, pub degree_bits_: usize, ph: PhantomData<F> }
impl<F, const D: usize> CommonCircuitData<F, D> {
    pub fn degree_bits(&self) -> usize { self.degree_bits_ }
    pub fn degree(&self) -> usize { 1 << self.degree_bits_ }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct VerifierOnlyCircuitData<C: GenericConfig<D>, const D: usize> { pub constants_sigmas_cap: MerkleCap<C::F, C::Hasher>, pub circuit_digest: <<C as GenericConfig<D>>::Hasher as Hasher<C::F>>::Hash }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VerifierCircuitTarget { pub constants_sigmas_cap: MerkleCapTarget, pub circuit_digest: HashOutTarget }
pub struct ProverOnlyCircuitData { pub public_inputs: Vec<Target> }
pub struct CircuitData<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> { pub prover_only: ProverOnlyCircuitData, pub verifier_only: VerifierOnlyCircuitData<C, D>, pub common: CommonCircuitData<F, D>, pub rec: Arc<Recorded> }

#[derive(Clone, Debug)]
pub struct ProofTarget { pub id: usize }
#[derive(Clone, Debug)]
pub struct ProofWithPublicInputsTarget<const D: usize> { pub proof: ProofTarget, pub public_inputs: Vec<Target> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct IdealProof { pub maker: Vec<u64>, pub attested: Vec<u64> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ProofWithPublicInputs<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> { pub proof: IdealProof, pub public_inputs: Vec<F>, pub ph: PhantomData<C> }

/// One recorded operation; its value is the wire with the operation's index.
#[derive(Clone, Debug)]
pub enum Op {
    Const(u64),
    /// c0 * a * b + c1 * d
    Arith(u64, Target, Target, u64, Target),
    Select(Target, Target, Target),
    IsEqual(Target, Target),
    Hash(Vec<Target>),
    /// element k of a hash
    Out(usize, usize),
    Inverse(Target),
    /// bit k of a target known to have n bits
    Bit(Target, usize, usize),
    /// the low n (or the remaining high) bits of a target of m bits
    Low(Target, usize, usize, usize),
    High(Target, usize, usize, usize),
}
#[derive(Clone, Debug)]
pub enum Con { Eq(Target, Target), Bool(Target), Range(Target, usize), NonZero(Target) }
#[derive(Clone, Debug)]
pub struct Verify { pub proof: usize, pub pis: Vec<Target>, pub verifier: VerifierCircuitTarget, pub common: String }
#[derive(Clone, Debug, Default)]
pub struct Recorded { pub nvirt: usize, pub ops: Vec<Op>, pub cons: Vec<Con>, pub pis: Vec<Target>, pub verifies: Vec<Verify>, pub proofs: Vec<Vec<Target>> }

pub struct CircuitBuilder<F: RichField + Extendable<D>, const D: usize> { pub config: CircuitConfig, r: Recorded, consts: HashMap<u64, Target>, gates: Vec<GateRef>, num_gates: usize, splits: usize, ph: PhantomData<F> }

type T = Target;
impl<F: RichField + Extendable<D>, const D: usize> CircuitBuilder<F, D> {
    pub fn new(config: CircuitConfig) -> Self { Self { config, r: Recorded::default(), consts: HashMap::new(), gates: vec![], num_gates: 0, splits: 0, ph: PhantomData } }
    fn op(&mut self, o: Op) -> T { self.r.ops.push(o); Target::Wire(self.r.ops.len() - 1) }
    pub fn add_virtual_target(&mut self) -> T { self.r.nvirt += 1; Target::VirtualTarget { index: self.r.nvirt - 1 } }
    pub fn add_virtual_targets(&mut self, n: usize) -> Vec<T> { (0..n).map(|_| self.add_virtual_target()).collect() }
    pub fn add_virtual_target_arr<const N: usize>(&mut self) -> [T; N] { [(); N].map(|()| self.add_virtual_target()) }
    pub fn add_virtual_hash(&mut self) -> HashOutTarget { HashOutTarget { elements: self.add_virtual_target_arr() } }
    pub fn add_virtual_cap(&mut self, h: usize) -> MerkleCapTarget { MerkleCapTarget((0..1 << h).map(|_| self.add_virtual_hash()).collect()) }
    pub fn add_virtual_verifier_data(&mut self, h: usize) -> VerifierCircuitTarget { VerifierCircuitTarget { constants_sigmas_cap: self.add_virtual_cap(h), circuit_digest: self.add_virtual_hash() } }
    pub fn add_virtual_bool_target_unsafe(&mut self) -> BoolTarget { BoolTarget::new_unsafe(self.add_virtual_target()) }
    pub fn add_virtual_bool_target_safe(&mut self) -> BoolTarget { let b = self.add_virtual_bool_target_unsafe(); self.assert_bool(b); b }
    pub fn add_virtual_public_input(&mut self) -> T { let t = self.add_virtual_target(); self.register_public_input(t); t }
    pub fn add_virtual_proof_with_pis(&mut self, common: &CommonCircuitData<F, D>) -> ProofWithPublicInputsTarget<D> {
        let public_inputs = self.add_virtual_targets(common.num_public_inputs);
        self.r.proofs.push(public_inputs.clone());
        ProofWithPublicInputsTarget { proof: ProofTarget { id: self.r.proofs.len() - 1 }, public_inputs }
    }
    pub fn register_public_input(&mut self, t: T) { self.r.pis.push(t) }
    pub fn register_public_inputs(&mut self, t: &[T]) { self.r.pis.extend_from_slice(t) }
    pub fn num_public_inputs(&self) -> usize { self.r.pis.len() }
    pub fn public_inputs(&self) -> &[T] { &self.r.pis }
    pub fn num_gates(&self) -> usize { self.num_gates }
    pub fn add_gate(&mut self, _: NoopGate, _: Vec<F>) -> usize { self.add_gate_to_gate_set(GateRef("noop".into())); self.num_gates += 1; self.num_gates - 1 }
    pub fn add_gate_to_gate_set(&mut self, g: GateRef) { if !self.gates.contains(&g) { self.gates.push(g) } }

    pub fn constant(&mut self, c: F) -> T { let c = c.to_u64_(); if let Some(t) = self.consts.get(&c) { return *t } let t = self.op(Op::Const(c)); self.consts.insert(c, t); t }
    pub fn constants(&mut self, c: &[F]) -> Vec<T> { c.iter().map(|c| self.constant(*c)).collect() }
    pub fn zero(&mut self) -> T { self.constant(F::ZERO) }
    pub fn one(&mut self) -> T { self.constant(F::ONE) }
    pub fn two(&mut self) -> T { self.constant(F::TWO) }
    pub fn neg_one(&mut self) -> T { self.constant(F::NEG_ONE) }
    pub fn constant_bool(&mut self, b: bool) -> BoolTarget { BoolTarget::new_unsafe(if b { self.one() } else { self.zero() }) }
    pub fn _true(&mut self) -> BoolTarget { self.constant_bool(true) }
    pub fn _false(&mut self) -> BoolTarget { self.constant_bool(false) }
    pub fn constant_hash(&mut self, h: HashOut<F>) -> HashOutTarget { HashOutTarget { elements: h.elements.map(|e| self.constant(e)) } }
    pub fn constant_verifier_data<C: GenericConfig<D, F = F>>(&mut self, v: &VerifierOnlyCircuitData<C, D>) -> VerifierCircuitTarget where C::Hasher: AlgebraicHasher<F> {
        VerifierCircuitTarget { constants_sigmas_cap: MerkleCapTarget(v.constants_sigmas_cap.0.iter().map(|h| self.constant_hash(*h)).collect()), circuit_digest: self.constant_hash(v.circuit_digest) }
    }

    pub fn arithmetic(&mut self, c0: F, c1: F, a: T, b: T, d: T) -> T { self.op(Op::Arith(c0.to_u64_(), a, b, c1.to_u64_(), d)) }
    pub fn mul(&mut self, a: T, b: T) -> T { let z = self.zero(); self.arithmetic(F::ONE, F::ZERO, a, b, z) }
    pub fn square(&mut self, a: T) -> T { self.mul(a, a) }
    pub fn mul_const(&mut self, c: F, a: T) -> T { let c = self.constant(c); self.mul(c, a) }
    pub fn mul_const_add(&mut self, c: F, x: T, y: T) -> T { let o = self.one(); self.arithmetic(c, F::ONE, x, o, y) }
    pub fn mul_add(&mut self, a: T, b: T, d: T) -> T { self.arithmetic(F::ONE, F::ONE, a, b, d) }
    pub fn mul_sub(&mut self, a: T, b: T, d: T) -> T { self.arithmetic(F::ONE, F::NEG_ONE, a, b, d) }
    pub fn add(&mut self, a: T, b: T) -> T { let o = self.one(); self.arithmetic(F::ONE, F::ONE, a, o, b) }
    pub fn sub(&mut self, a: T, b: T) -> T { let o = self.one(); self.arithmetic(F::ONE, F::NEG_ONE, a, o, b) }
    pub fn neg(&mut self, a: T) -> T { let z = self.zero(); self.sub(z, a) }
    pub fn add_const(&mut self, a: T, c: F) -> T { let c = self.constant(c); self.add(a, c) }
    pub fn add_many(&mut self, t: impl IntoIterator<Item = T>) -> T { let z = self.zero(); t.into_iter().fold(z, |a, b| self.add(a, b)) }
    pub fn inverse(&mut self, a: T) -> T { self.r.cons.push(Con::NonZero(a)); self.op(Op::Inverse(a)) }
    pub fn div(&mut self, a: T, b: T) -> T { let i = self.inverse(b); self.mul(a, i) }
    pub fn and(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget { BoolTarget::new_unsafe(self.mul(a.target, b.target)) }
    pub fn not(&mut self, b: BoolTarget) -> BoolTarget { let o = self.one(); BoolTarget::new_unsafe(self.sub(o, b.target)) }
    pub fn or(&mut self, a: BoolTarget, b: BoolTarget) -> BoolTarget { let n = self.arithmetic(F::NEG_ONE, F::ONE, a.target, b.target, a.target); BoolTarget::new_unsafe(self.add(n, b.target)) }
    pub fn select(&mut self, b: BoolTarget, x: T, y: T) -> T { self.op(Op::Select(b.target, x, y)) }
    pub fn is_equal(&mut self, a: T, b: T) -> BoolTarget { BoolTarget::new_unsafe(self.op(Op::IsEqual(a, b))) }
    pub fn is_nonzero(&mut self, a: T) -> BoolTarget { let z = self.zero(); let e = self.is_equal(a, z); self.not(e) }
    pub fn split_le(&mut self, a: T, n: usize) -> Vec<BoolTarget> { self.r.cons.push(Con::Range(a, n)); (0..n).map(|k| BoolTarget::new_unsafe(self.op(Op::Bit(a, k, n)))).collect() }
    pub fn split_low_high(&mut self, a: T, n: usize, m: usize) -> (T, T) { self.splits += 1; let s = self.splits; if m < 64 { self.r.cons.push(Con::Range(a, m)) } (self.op(Op::Low(a, n, m, s)), self.op(Op::High(a, n, m, s))) }
    pub fn range_check(&mut self, a: T, n: usize) { self.r.cons.push(Con::Range(a, n)) }
    pub fn connect(&mut self, a: T, b: T) { self.r.cons.push(Con::Eq(a, b)) }
    pub fn connect_hashes(&mut self, a: HashOutTarget, b: HashOutTarget) { for (a, b) in a.elements.into_iter().zip(b.elements) { self.connect(a, b) } }
    pub fn connect_merkle_caps(&mut self, a: &MerkleCapTarget, b: &MerkleCapTarget) { assert_eq!(a.0.len(), b.0.len()); for (a, b) in a.0.iter().zip(&b.0) { self.connect_hashes(*a, *b) } }
    pub fn connect_verifier_data(&mut self, a: &VerifierCircuitTarget, b: &VerifierCircuitTarget) { self.connect_merkle_caps(&a.constants_sigmas_cap, &b.constants_sigmas_cap); self.connect_hashes(a.circuit_digest, b.circuit_digest) }
    pub fn assert_bool(&mut self, b: BoolTarget) { self.r.cons.push(Con::Bool(b.target)) }
    pub fn assert_zero(&mut self, a: T) { let z = self.zero(); self.connect(a, z) }
    pub fn assert_one(&mut self, a: T) { let z = self.one(); self.connect(a, z) }
    pub fn hash_n_to_hash_no_pad<H: AlgebraicHasher<F>>(&mut self, x: Vec<T>) -> HashOutTarget {
        let Target::Wire(h) = self.op(Op::Hash(x)) else { unreachable!() };
        HashOutTarget { elements: [0, 1, 2, 3].map(|k| self.op(Op::Out(h, k))) }
    }
    pub fn verify_proof<C: GenericConfig<D, F = F>>(&mut self, p: &ProofWithPublicInputsTarget<D>, v: &VerifierCircuitTarget, common: &CommonCircuitData<F, D>) where C::Hasher: AlgebraicHasher<F> {
        assert_eq!(p.public_inputs.len(), common.num_public_inputs);
        self.r.verifies.push(Verify { proof: p.proof.id, pis: p.public_inputs.clone(), verifier: v.clone(), common: format!("{common:?}") });
    }

    pub fn build<C: GenericConfig<D, F = F>>(self) -> CircuitData<F, C, D> {
        let n = self.num_gates + 1;
        let common = CommonCircuitData { num_public_inputs: self.r.pis.len(), gates: self.gates, degree_bits_: (usize::BITS - (n - 1).leading_zeros()) as usize, config: self.config, ph: PhantomData };
        let s = format!("{:?} {:?}", self.r, common);
        let id = hash(&s.bytes().map(|b| b as u64).collect::<Vec<_>>());
        let h = |k: u64| HashOut { elements: hash(&[id[0], id[1], id[2], id[3], k]).map(F::from_canonical_u64) };
        // The hash of any hasher used here is HashOut<F>
        fn cast<A: 'static + Clone, B: 'static>(a: A) -> B { *(Box::new(a) as Box<dyn std::any::Any>).downcast::<B>().unwrap() }
        let verifier_only = VerifierOnlyCircuitData { constants_sigmas_cap: MerkleCap((0..common.config.fri_config.num_cap_elements() as u64).map(|k| cast(h(k + 1))).collect()), circuit_digest: cast(h(0)) };
        let rec = Arc::new(self.r);
        BUILT.lock().unwrap().push((verifier_id(&verifier_only), rec.clone()));
        CircuitData { prover_only: ProverOnlyCircuitData { public_inputs: rec.pis.clone() }, verifier_only, common, rec }
    }
}

/// Every circuit built so far, by the numbers of its verifier data
pub static BUILT: std::sync::Mutex<Vec<(Vec<u64>, Arc<Recorded>)>> = std::sync::Mutex::new(vec![]);

// ---- concrete solving with an ideal proof system
#[derive(Clone, Debug, Default)]
pub struct PartialWitness<F> { pub v: BTreeMap<Target, F>, pub proofs: BTreeMap<usize, IdealProof> }
impl<F: Field> PartialWitness<F> { pub fn new() -> Self { Self { v: BTreeMap::new(), proofs: BTreeMap::new() } } }
pub trait Witness<F: Field> { fn try_get_target(&self, t: T) -> Option<F>; }
impl<F: Field> Witness<F> for PartialWitness<F> { fn try_get_target(&self, t: T) -> Option<F> { self.v.get(&t).copied() } }
pub trait WitnessWrite<F: Field> {
    fn set_target(&mut self, t: T, v: F);
    fn set_proof_(&mut self, id: usize, p: IdealProof);
    fn set_target_arr(&mut self, t: &[T], v: &[F]) { assert_eq!(t.len(), v.len()); for (t, v) in t.iter().zip(v) { self.set_target(*t, *v) } }
    fn set_bool_target(&mut self, t: BoolTarget, v: bool) { self.set_target(t.target, F::from_bool(v)) }
    fn set_hash_target(&mut self, t: HashOutTarget, v: HashOut<F>) { for (t, v) in t.elements.into_iter().zip(v.elements) { self.set_target(t, v) } }
    fn set_verifier_data_target<C: GenericConfig<D, F = F>, const D: usize>(&mut self, t: &VerifierCircuitTarget, v: &VerifierOnlyCircuitData<C, D>) where F: RichField + Extendable<D>, C::Hasher: AlgebraicHasher<F> {
        for (t, v) in t.constants_sigmas_cap.0.iter().zip(&v.constants_sigmas_cap.0) { self.set_hash_target(*t, *v) }
        self.set_hash_target(t.circuit_digest, v.circuit_digest)
    }
    fn set_proof_with_pis_target<C: GenericConfig<D, F = F>, const D: usize>(&mut self, t: &ProofWithPublicInputsTarget<D>, v: &ProofWithPublicInputs<F, C, D>) where F: RichField + Extendable<D> {
        assert_eq!(t.public_inputs.len(), v.public_inputs.len());
        for (t, v) in t.public_inputs.iter().zip(&v.public_inputs) { self.set_target(*t, *v) }
        self.set_proof_(t.proof.id, v.proof.clone());
    }
}
impl<F: Field> WitnessWrite<F> for PartialWitness<F> {
    fn set_target(&mut self, t: T, v: F) { if let Some(o) = self.v.insert(t, v) { assert_eq!(o, v, "target set twice with different values") } }
    fn set_proof_(&mut self, id: usize, p: IdealProof) { self.proofs.insert(id, p); }
}

fn mulp(a: u64, b: u64) -> u64 { ((a as u128 * b as u128) % P as u128) as u64 }
fn addp(a: u64, b: u64) -> u64 { ((a as u128 + b as u128) % P as u128) as u64 }
fn powp(a: u64, mut e: u64) -> u64 { let (mut b, mut r) = (a, 1); while e > 0 { if e & 1 == 1 { r = mulp(r, b) } b = mulp(b, b); e >>= 1 } r }

impl Recorded {
    /// Values of all targets from some of them: operations forwards, equalities both ways, and an
    /// addition backwards. `oracle` overrides the toy hash.
    pub fn solve(&self, set: &BTreeMap<Target, u64>, oracle: &HashMap<Vec<u64>, [u64; 4]>) -> Result<BTreeMap<Target, u64>, String> {
        let mut v = set.clone();
        let mut hashes: HashMap<usize, [u64; 4]> = HashMap::new();
        loop {
            let n = v.len() + hashes.len();
            for (i, o) in self.ops.iter().enumerate() {
                let w = Target::Wire(i);
                if v.contains_key(&w) || hashes.contains_key(&i) { continue }
                let g = |t: &Target| v.get(t).copied();
                let r = match o {
                    Op::Const(c) => Some(*c),
                    Op::Arith(c0, a, b, c1, d) => {
                        let p = if *c0 == 0 { Some(0) } else { match (g(a), g(b)) { (Some(0), _) | (_, Some(0)) => Some(0), (Some(a), Some(b)) => Some(mulp(*c0, mulp(a, b))), _ => None } };
                        let q = if *c1 == 0 { Some(0) } else { g(d).map(|d| mulp(*c1, d)) };
                        p.zip(q).map(|(p, q)| addp(p, q))
                    }
                    Op::Select(b, x, y) => match g(b) { Some(1) => g(x), Some(0) => g(y), Some(b) => g(x).zip(g(y)).map(|(x, y)| addp(mulp(b, x), mulp(addp(1, P - b), y))), None => None },
                    Op::IsEqual(a, b) => g(a).zip(g(b)).map(|(a, b)| (a == b) as u64),
                    Op::Hash(x) => { if let Some(x) = x.iter().map(g).collect::<Option<Vec<_>>>() { let h = oracle.get(&x).copied().unwrap_or_else(|| hash(&x)); hashes.insert(i, h); } None }
                    Op::Out(h, k) => hashes.get(h).map(|h| h[*k]),
                    Op::Inverse(a) => g(a).and_then(|a| if a == 0 { None } else { Some(powp(a, P - 2)) }),
                    Op::Bit(a, k, _) => g(a).map(|a| a >> k & 1),
                    Op::Low(a, n, ..) => g(a).map(|a| a & ((1 << n) - 1)),
                    Op::High(a, n, ..) => g(a).map(|a| a >> n),
                };
                if let Some(r) = r { v.insert(w, r); }
            }
            for c in &self.cons {
                if let Con::Eq(a, b) = c {
                    match (v.get(a).copied(), v.get(b).copied()) {
                        (Some(x), None) if matches!(b, Target::VirtualTarget { .. }) => { v.insert(*b, x); }
                        (None, Some(x)) if matches!(a, Target::VirtualTarget { .. }) => { v.insert(*a, x); }
                        _ => {}
                    }
                }
            }
            if v.len() + hashes.len() == n { break }
        }
        Ok(v)
    }
    /// The first recorded constraint the values break (None: all hold).
    pub fn broken(&self, v: &BTreeMap<Target, u64>) -> Option<String> {
        let g = |t: &Target| v.get(t).copied();
        for (k, c) in self.cons.iter().enumerate() {
            let ok = match c {
                Con::Eq(a, b) => match (g(a), g(b)) { (Some(a), Some(b)) => a == b, _ => false },
                Con::Bool(a) => g(a).map_or(false, |a| a < 2),
                Con::Range(a, n) => g(a).map_or(false, |a| *n >= 64 || a >> n == 0),
                Con::NonZero(a) => g(a).map_or(false, |a| a != 0),
            };
            if !ok {
                let s: Vec<_> = match c { Con::Eq(a, b) => vec![g(a), g(b)], Con::Bool(a) | Con::Range(a, _) | Con::NonZero(a) => vec![g(a)] };
                return Some(format!("a target was set twice with different values: constraint {k} {c:?} with values {s:?}"));
            }
        }
        None
    }
    pub fn json(&self) -> String {
        fn t(t: &Target) -> String { match t { Target::Wire(i) => i.to_string(), Target::VirtualTarget { index } => (-1 - *index as i64).to_string() } }
        let l = |x: &[Target]| format!("[{}]", x.iter().map(t).collect::<Vec<_>>().join(","));
        let mut s = format!("{{\"nvirt\":{},\"pis\":{},\"proofs\":[{}],\"ops\":[", self.nvirt, l(&self.pis), self.proofs.iter().map(|p| l(p)).collect::<Vec<_>>().join(","));
        for (i, o) in self.ops.iter().enumerate() {
            if i > 0 { s.push(',') }
            let _ = match o {
                Op::Const(c) => write!(s, "[\"c\",\"{c}\"]"),
                Op::Arith(c0, a, b, c1, d) => write!(s, "[\"a\",\"{c0}\",{},{},\"{c1}\",{}]", t(a), t(b), t(d)),
                Op::Select(b, x, y) => write!(s, "[\"s\",{},{},{}]", t(b), t(x), t(y)),
                Op::IsEqual(a, b) => write!(s, "[\"=\",{},{}]", t(a), t(b)),
                Op::Hash(x) => write!(s, "[\"h\",{}]", l(x)),
                Op::Out(h, k) => write!(s, "[\"o\",{h},{k}]"),
                Op::Inverse(a) => write!(s, "[\"i\",{}]", t(a)),
                Op::Bit(a, k, n) => write!(s, "[\"b\",{},{k},{n}]", t(a)),
                Op::Low(a, n, m, k) => write!(s, "[\"lo\",{},{n},{m},{k}]", t(a)),
                Op::High(a, n, m, k) => write!(s, "[\"hi\",{},{n},{m},{k}]", t(a)),
            };
        }
        s.push_str("],\"cons\":[");
        for (i, c) in self.cons.iter().enumerate() {
            if i > 0 { s.push(',') }
            let _ = match c {
                Con::Eq(a, b) => write!(s, "[\"=\",{},{}]", t(a), t(b)),
                Con::Bool(a) => write!(s, "[\"b\",{}]", t(a)),
                Con::Range(a, n) => write!(s, "[\"r\",{},{n}]", t(a)),
                Con::NonZero(a) => write!(s, "[\"n\",{}]", t(a)),
            };
        }
        s.push_str("],\"verifies\":[");
        for (i, v) in self.verifies.iter().enumerate() {
            if i > 0 { s.push(',') }
            let w: Vec<Target> = v.verifier.circuit_digest.elements.into_iter().chain(v.verifier.constants_sigmas_cap.0.iter().flat_map(|h| h.elements)).collect();
            let _ = write!(s, "{{\"proof\":{},\"pis\":{},\"verifier\":{},\"common\":{:?}}}", v.proof, l(&v.pis), l(&w), v.common);
        }
        s.push_str("]}");
        s
    }
}
pub fn verifier_id<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(v: &VerifierOnlyCircuitData<C, D>) -> Vec<u64> where C::Hasher: AlgebraicHasher<F> {
    v.circuit_digest.elements.iter().chain(v.constants_sigmas_cap.0.iter().flat_map(|h| &h.elements)).map(|e| e.to_u64_()).collect()
}
impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> CircuitData<F, C, D> {
    fn id(&self) -> Vec<u64> { 
        // (Debug of HashOut and MerkleCap: the numbers of the verifier data in order)
        let s = format!("{:?} {:?}", self.verifier_only.circuit_digest, self.verifier_only.constants_sigmas_cap);
        s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
    }
    pub fn prove(&self, w: PartialWitness<F>) -> anyhow_::Result<ProofWithPublicInputs<F, C, D>> {
        let set = w.v.iter().map(|(t, v)| (*t, v.to_u64_())).collect();
        let v = self.rec.solve(&set, &HashMap::new()).map_err(anyhow_::msg)?;
        if let Some(b) = self.rec.broken(&v) { return Err(anyhow_::msg(b)) }
        for x in &self.rec.verifies {
            let g = |t: &Target| v.get(t).copied().ok_or_else(|| anyhow_::msg("unset target of a proof"));
            let p = w.proofs.get(&x.proof).ok_or_else(|| anyhow_::msg("no proof set"))?;
            let pis = x.pis.iter().map(g).collect::<anyhow_::Result<Vec<_>>>()?;
            let id = x.verifier.circuit_digest.elements.iter().chain(x.verifier.constants_sigmas_cap.0.iter().flat_map(|h| &h.elements)).map(g).collect::<anyhow_::Result<Vec<_>>>()?;
            if p.attested != pis { return Err(anyhow_::msg("proof of other public inputs")) }
            if p.maker != id { return Err(anyhow_::msg("proof of another circuit")) }
        }
        let pis = self.rec.pis.iter().map(|t| v.get(t).copied().ok_or_else(|| anyhow_::msg("unset public input"))).collect::<anyhow_::Result<Vec<_>>>()?;
        Ok(ProofWithPublicInputs { proof: IdealProof { maker: self.id(), attested: pis.clone() }, public_inputs: pis.into_iter().map(F::from_canonical_u64).collect(), ph: PhantomData })
    }
    pub fn verify(&self, p: ProofWithPublicInputs<F, C, D>) -> anyhow_::Result<()> {
        if p.proof.maker != self.id() { return Err(anyhow_::msg("proof of another circuit")) }
        if p.proof.attested != p.public_inputs.iter().map(|x| x.to_u64_()).collect::<Vec<_>>() { return Err(anyhow_::msg("proof of other public inputs")) }
        Ok(())
    }
}
use anyhow as anyhow_;
