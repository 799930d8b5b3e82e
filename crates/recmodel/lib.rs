//! Ideal proofs: for each circuit of /repo/recproofs, an object which carries the circuit's public
//! values and which can be made exactly when the circuit's relation holds (the relations are those
//! that properties P01-P05 establish about the circuits themselves). What the proposer computes
//! outside the circuits (events, objects and their hashes) is the real code.
#![allow(warnings)]
use core::iter::zip;
use itertools::{chain, Itertools};
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::hash_types::{HashOut, RichField};
use plonky2::hash::poseidon2::Poseidon2Hash;
use plonky2::plonk::config::Hasher;
use plonky2::field::extension::Extendable;
include!("../../target/gen/recitems.rs");

pub mod circuits {
    use super::*;
    use anyhow::{bail, Result};
    use core::marker::PhantomData;
    use core::ops::Deref;
    use itertools::Either;
    use plonky2::field::goldilocks_field::GoldilocksField as G;
    use plonky2::plonk::circuit_data::{CircuitConfig, CommonCircuitData, VerifierOnlyCircuitData};
    use plonky2::plonk::config::GenericConfig;
    use plonky2::plonk::proof::ProofWithPublicInputs;
    type H = HashOut<G>;
    const Z: H = HashOut { elements: [G(0); 4] };

    #[derive(Copy, Clone, Debug)]
    pub struct Leaf;
    #[derive(Copy, Clone, Debug)]
    pub struct Branch;
    pub struct Proof<T, I, F, C, const D: usize> { pub i: I, p: PhantomData<(T, F, C)> }
    impl<T, I, F, C, const D: usize> Proof<T, I, F, C, D> { fn make(i: I) -> Result<Self> { Ok(Proof { i, p: PhantomData }) } }
    impl<T, I: Clone, F, C, const D: usize> Clone for Proof<T, I, F, C, D> { fn clone(&self) -> Self { Proof { i: self.i.clone(), p: PhantomData } } }
    impl<T, I, F, C, const D: usize> core::fmt::Debug for Proof<T, I, F, C, D> { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
    /// A leaf or branch proof, as the circuits' LeafOrBranchRef takes them.
    pub trait Arg<'a, I> { fn inner(self) -> &'a I; }
    impl<'a, T, I, F, C, const D: usize> Arg<'a, I> for &'a Proof<T, I, F, C, D> { fn inner(self) -> &'a I { &self.i } }
    impl<'a, T, I, F, C, const D: usize> Arg<'a, I> for &'a mut Proof<T, I, F, C, D> { fn inner(self) -> &'a I { &self.i } }
    impl<'a, T, U, I, F, C, const D: usize> Arg<'a, I> for Either<&'a Proof<T, I, F, C, D>, &'a Proof<U, I, F, C, D>> { fn inner(self) -> &'a I { match self { Either::Left(a) => &a.i, Either::Right(b) => &b.i } } }
    impl<'a, T, U, I, F, C, const D: usize> Arg<'a, I> for &'a Either<Proof<T, I, F, C, D>, Proof<U, I, F, C, D>> { fn inner(self) -> &'a I { match self { Either::Left(a) => &a.i, Either::Right(b) => &b.i } } }
    impl<'a, T, U, I, F, C, const D: usize> Arg<'a, I> for &'a mut Either<Proof<T, I, F, C, D>, Proof<U, I, F, C, D>> { fn inner(self) -> &'a I { match self { Either::Left(a) => &a.i, Either::Right(b) => &b.i } } }

    fn two(a: H, b: H) -> H { Poseidon2Hash::two_to_one(a, b) }
    /// The hash over the bytes of two hashes, as the programs themselves compute it.
    fn two_bytes(a: H, b: H) -> H {
        let mut v = Vec::with_capacity(64);
        for e in a.elements.iter().chain(&b.elements) { for x in e.to_canonical_u64().to_le_bytes() { v.push(G(x as u64)); } }
        Poseidon2Hash::hash_no_pad(&v)
    }
    fn fwd(a: Option<H>, b: Option<H>) -> Option<H> { match (a, b) { (Some(a), Some(b)) => Some(two(a, b)), (Some(a), None) => Some(a), (None, b) => b } }
    macro_rules! circuit { ($($n:ident),*) => { $( pub struct $n<F, C, const D: usize>(PhantomData<(F, C)>); )* } }
    macro_rules! proofs { ($i:ident) => {
        pub type LeafProof<F, C, const D: usize> = super::Proof<super::Leaf, $i, F, C, D>;
        pub type BranchProof<F, C, const D: usize> = super::Proof<super::Branch, $i, F, C, D>;
    } }

    pub mod merge {
        use super::*;
        #[derive(Copy, Clone)]
        pub struct Public { pub a: Option<H>, pub b: Option<H>, pub merged: Option<H> }
        proofs!(Public);
        circuit!(LeafCircuit, BranchCircuit);
        impl<T, C, const D: usize> Proof<T, Public, G, C, D> {
            pub fn a_present(&self) -> bool { self.i.a.is_some() }
            pub fn a_hash(&self) -> H { self.i.a.unwrap_or(Z) }
            pub fn b_present(&self) -> bool { self.i.b.is_some() }
            pub fn b_hash(&self) -> H { self.i.b.unwrap_or(Z) }
            pub fn merged_present(&self) -> bool { self.i.merged.is_some() }
            pub fn merged_hash(&self) -> H { self.i.merged.unwrap_or(Z) }
        }
        impl<C, const D: usize> LeafCircuit<G, C, D> {
            pub fn new(_: &CircuitConfig) -> Self { Self(PhantomData) }
            pub fn prove(&self, _: &BranchCircuit<G, C, D>, a: Option<H>, b: Option<H>) -> Result<LeafProof<G, C, D>> { Proof::make(Public { a, b, merged: fwd(a, b) }) }
        }
        impl<C, const D: usize> BranchCircuit<G, C, D> {
            pub fn new(_: &CircuitConfig, _: &LeafCircuit<G, C, D>) -> Self { Self(PhantomData) }
            pub fn prove<'a>(&self, l: impl Arg<'a, Public>, r: impl Arg<'a, Public>) -> Result<BranchProof<G, C, D>> {
                let (l, r) = (l.inner(), r.inner());
                Proof::make(Public { a: fwd(l.a, r.a), b: fwd(l.b, r.b), merged: fwd(l.merged, r.merged) })
            }
        }
    }

    pub mod build_event_root {
        use super::*;
        #[derive(Copy, Clone)]
        pub struct Public { pub owner: [G; 4], pub hash: H, pub vm_hash: H }
        proofs!(Public);
        circuit!(LeafCircuit, BranchCircuit);
        impl<T, C, const D: usize> Proof<T, Public, G, C, D> {
            pub fn hash(&self) -> H { self.i.hash }
            pub fn vm_hash(&self) -> H { self.i.vm_hash }
            pub fn event_owner(&self) -> [G; 4] { self.i.owner }
        }
        impl<C, const D: usize> LeafCircuit<G, C, D> {
            pub fn new(_: &CircuitConfig) -> Self { Self(PhantomData) }
            pub fn prove(&self, _: &BranchCircuit<G, C, D>, e: Event<G>) -> Result<LeafProof<G, C, D>> { Proof::make(Public { owner: e.owner, hash: e.hash(), vm_hash: e.byte_wise_hash() }) }
        }
        impl<C, const D: usize> BranchCircuit<G, C, D> {
            pub fn new(_: &CircuitConfig, _: &LeafCircuit<G, C, D>) -> Self { Self(PhantomData) }
            pub fn prove<'a>(&self, l: impl Arg<'a, Public>, r: impl Arg<'a, Public>) -> Result<BranchProof<G, C, D>> {
                let (l, r) = (l.inner(), r.inner());
                if l.owner != r.owner { bail!("owners differ") }
                Proof::make(Public { owner: l.owner, hash: two(l.hash, r.hash), vm_hash: two_bytes(l.vm_hash, r.vm_hash) })
            }
            pub fn prove_one<'a>(&self, l: impl Arg<'a, Public>) -> Result<BranchProof<G, C, D>> { Proof::make(*l.inner()) }
        }
    }

    pub mod verify_program {
        use super::*;
        pub mod core { pub struct ProgramPublicIndices; }
        use self::core::ProgramPublicIndices;
        #[derive(Copy, Clone)]
        pub struct Public { pub program_id: H, pub events: Option<H>, pub call_list: [G; 4], pub cast_root: [G; 4] }
        proofs!(Public);
        circuit!(LeafCircuit, BranchCircuit);
        impl<T, C, const D: usize> Proof<T, Public, G, C, D> {
            pub fn program_id(&self) -> H { self.i.program_id }
            pub fn events_present(&self) -> bool { self.i.events.is_some() }
            pub fn events(&self) -> H { self.i.events.unwrap_or(Z) }
            pub fn call_list(&self) -> [G; 4] { self.i.call_list }
            pub fn cast_root(&self) -> [G; 4] { self.i.cast_root }
        }
        impl<C: GenericConfig<D, F = G>, const D: usize> LeafCircuit<G, C, D> where G: Extendable<D> {
            pub fn new(_: &CircuitConfig, _: &ProgramPublicIndices, _: &CommonCircuitData<G, D>, _: &build_event_root::BranchCircuit<G, C, D>) -> Self { Self(PhantomData) }
            /// The program's public inputs: hash (4), events present, event root (4), call list (4), cast root (4).
            pub fn prove(&self, _: &BranchCircuit<G, C, D>, _: &VerifierOnlyCircuitData<C, D>, program: &ProofWithPublicInputs<G, C, D>, er: Result<&build_event_root::BranchProof<G, C, D>, [G; 4]>) -> Result<LeafProof<G, C, D>> {
                let p = &program.public_inputs;
                let at = |k: usize| [p[k], p[k + 1], p[k + 2], p[k + 3]];
                let owner = match er { Ok(e) => e.i.owner, Err(o) => o };
                if owner != at(0) { bail!("events of another program") }
                if p[4] != (if er.is_ok() { G(1) } else { G(0) }) { bail!("events present") }
                let (events, vm) = match er { Ok(e) => (Some(e.i.hash), e.i.vm_hash), Err(_) => (None, Z) };
                if at(5) != vm.elements { bail!("event root") }
                Proof::make(Public { program_id: HashOut { elements: at(0) }, events, call_list: at(9), cast_root: at(13) })
            }
        }
        pub(crate) fn embed(m: &merge::Public, l: Option<H>, r: Option<H>) -> Result<Option<H>> {
            if m.a.is_some() != l.is_some() || m.b.is_some() != r.is_some() || m.a.unwrap_or(Z) != l.unwrap_or(Z) || m.b.unwrap_or(Z) != r.unwrap_or(Z) { bail!("merge of other events") }
            Ok(m.merged)
        }
        impl<C: GenericConfig<D, F = G>, const D: usize> BranchCircuit<G, C, D> where G: Extendable<D> {
            pub fn new(_: &CircuitConfig, _: &merge::BranchCircuit<G, C, D>, _: &LeafCircuit<G, C, D>) -> Self { Self(PhantomData) }
            pub fn prove<'a>(&self, m: &merge::BranchProof<G, C, D>, l: impl Arg<'a, Public>, r: impl Arg<'a, Public>) -> Result<BranchProof<G, C, D>> {
                let (l, r) = (l.inner(), r.inner());
                if l.call_list != r.call_list { bail!("call list") }
                if l.cast_root != r.cast_root { bail!("cast root") }
                Proof::make(Public { program_id: two_bytes(l.program_id, r.program_id), events: embed(&m.i, l.events, r.events)?, ..*l })
            }
            pub fn prove_one<'a>(&self, m: &merge::BranchProof<G, C, D>, l: impl Arg<'a, Public>) -> Result<BranchProof<G, C, D>> {
                let l = l.inner();
                Proof::make(Public { events: embed(&m.i, l.events, None)?, ..*l })
            }
        }
    }

    pub mod verify_tx {
        use super::*;
        #[derive(Copy, Clone)]
        pub struct Public { pub events: Option<H> }
        proofs!(Public);
        circuit!(LeafCircuit, BranchCircuit);
        impl<T, C, const D: usize> Proof<T, Public, G, C, D> {
            pub fn events_present(&self) -> bool { self.i.events.is_some() }
            pub fn events(&self) -> H { self.i.events.unwrap_or(Z) }
        }
        impl<C, const D: usize> LeafCircuit<G, C, D> {
            pub fn new(_: &CircuitConfig, _: &verify_program::BranchCircuit<G, C, D>) -> Self { Self(PhantomData) }
            pub fn prove(&self, _: &BranchCircuit<G, C, D>, set: &verify_program::BranchProof<G, C, D>) -> Result<LeafProof<G, C, D>> {
                if set.i.cast_root != set.i.program_id.elements { bail!("cast list") }
                Proof::make(Public { events: set.i.events })
            }
        }
        impl<C, const D: usize> BranchCircuit<G, C, D> {
            pub fn new(_: &CircuitConfig, _: &merge::BranchCircuit<G, C, D>, _: &LeafCircuit<G, C, D>) -> Self { Self(PhantomData) }
            pub fn prove<'a>(&self, m: &merge::BranchProof<G, C, D>, l: impl Arg<'a, Public>, r: impl Arg<'a, Public>) -> Result<BranchProof<G, C, D>> {
                let (l, r) = (l.inner(), r.inner());
                Proof::make(Public { events: verify_program::embed(&m.i, l.events, r.events)? })
            }
            pub fn prove_one<'a>(&self, m: &merge::BranchProof<G, C, D>, l: impl Arg<'a, Public>) -> Result<BranchProof<G, C, D>> {
                Proof::make(Public { events: verify_program::embed(&m.i, l.inner().events, None)? })
            }
        }
    }

    pub mod state_update {
        use super::*;
        #[derive(Copy, Clone)]
        pub struct Public { pub height: usize, pub old: H, pub new: H, pub address: Option<u64>, pub summary: Option<H> }
        pub type Proof<T, F, C, const D: usize> = super::Proof<T, Public, F, C, D>;
        proofs!(Public);
        pub struct LeafCircuit<F, C, const D: usize>(PhantomData<(F, C)>);
        pub struct BranchCircuit<F, C, const D: usize> { height: usize, p: PhantomData<(F, C)> }
        impl<T, C, const D: usize> super::Proof<T, Public, G, C, D> {
            pub fn old(&self) -> H { self.i.old }
            pub fn new(&self) -> H { self.i.new }
            pub fn summary_present(&self) -> bool { self.i.summary.is_some() }
            pub fn summary(&self) -> H { self.i.summary.unwrap_or(Z) }
            pub fn address_present(&self) -> bool { self.i.address.is_some() }
            pub fn address(&self) -> u64 { self.i.address.unwrap_or(0xffff_ffff_0000_0000) }
        }
        impl<C, const D: usize> LeafCircuit<G, C, D> {
            pub fn new(_: &CircuitConfig) -> Self { Self(PhantomData) }
            pub fn prove(&self, old: H, new: H, address: Option<u64>) -> Result<LeafProof<G, C, D>> {
                if address.is_none() && old != new { bail!("changed without being summarized") }
                Proof::make(Public { height: 0, old, new, address, summary: address.map(|a| {
                    let mut v = vec![G(a)];
                    v.extend(old.elements);
                    v.extend(new.elements);
                    Poseidon2Hash::hash_no_pad(&v)
                }) })
            }
        }
        pub(crate) fn height_of<F, C, const D: usize>(b: &BranchCircuit<F, C, D>) -> usize { b.height }
        impl<C, const D: usize> BranchCircuit<G, C, D> {
            pub fn from_leaf(_: &CircuitConfig, _: &LeafCircuit<G, C, D>) -> Self { Self { height: 1, p: PhantomData } }
            pub fn from_branch(_: &CircuitConfig, b: &Self) -> Self { Self { height: b.height + 1, p: PhantomData } }
            pub fn prove<T>(&self, l: &Proof<T, G, C, D>, r: &Proof<T, G, C, D>) -> Result<BranchProof<G, C, D>> {
                let (l, r) = (&l.i, &r.i);
                if l.height + 1 != self.height || r.height + 1 != self.height { bail!("a proof of another height") }
                if let Some(a) = l.address { if a % 2 != 0 { bail!("left address") } }
                if let Some(a) = r.address { if a % 2 != 1 { bail!("right address") } }
                if let (Some(a), Some(b)) = (l.address, r.address) { if a / 2 != b / 2 { bail!("addresses") } }
                Proof::make(Public { height: self.height, old: two(l.old, r.old), new: two(l.new, r.new), address: l.address.or(r.address).map(|a| a / 2), summary: fwd(l.summary, r.summary) })
            }
        }
    }

    pub mod accumulate_delta {
        use super::*;
        #[derive(Copy, Clone)]
        pub struct Public { pub hash: H, pub address: u64, pub flags: u8, pub old_owner: Option<[G; 4]>, pub new_owner: Option<[G; 4]>, pub old_data: Option<[G; 4]>, pub new_data: Option<[G; 4]> }
        proofs!(Public);
        circuit!(LeafCircuit, BranchCircuit);
        impl<T, C, const D: usize> Proof<T, Public, G, C, D> {
            pub fn events(&self) -> H { self.i.hash }
            pub fn address(&self) -> u64 { self.i.address }
        }
        impl<C, const D: usize> LeafCircuit<G, C, D> {
            pub fn new(_: &CircuitConfig) -> Self { Self(PhantomData) }
            pub fn prove(&self, _: &BranchCircuit<G, C, D>, address: u64, owner: [G; 4], ty: EventType, value: [G; 4]) -> Result<LeafProof<G, C, D>> {
                let mut v = owner.to_vec();
                v.push(G(ty as u64));
                v.push(G(address));
                v.extend(value);
                let mut p = Public { hash: Poseidon2Hash::hash_no_pad(&v), address, flags: 0, old_owner: None, new_owner: None, old_data: None, new_data: None };
                match ty as u8 {
                    0 => (p.flags, p.old_owner, p.new_data) = (1, Some(owner), Some(value)),
                    1 => (p.flags, p.new_data) = (2, Some(value)),
                    2 => (p.flags, p.old_data) = (4, Some(value)),
                    3 => (p.flags, p.old_owner, p.new_owner) = (8, Some(owner), Some(value)),
                    4 => (p.flags, p.old_owner, p.new_owner) = (16, Some(value), Some(owner)),
                    _ => unimplemented!("credits"),
                }
                Proof::make(p)
            }
        }
        fn same(a: Option<[G; 4]>, b: Option<[G; 4]>) -> Result<Option<[G; 4]>> {
            if let (Some(a), Some(b)) = (a, b) { if a != b { bail!("events disagree") } }
            Ok(a.or(b))
        }
        impl<C, const D: usize> BranchCircuit<G, C, D> {
            pub fn new(_: &CircuitConfig, _: &LeafCircuit<G, C, D>) -> Self { Self(PhantomData) }
            pub fn prove<'a>(&self, l: impl Arg<'a, Public>, r: impl Arg<'a, Public>) -> Result<BranchProof<G, C, D>> {
                let (l, r) = (l.inner(), r.inner());
                if l.address != r.address { bail!("addresses differ") }
                if l.flags & r.flags & 0b11001 != 0 { bail!("twice") }
                Proof::make(Public { hash: two(l.hash, r.hash), address: l.address, flags: l.flags | r.flags, old_owner: same(l.old_owner, r.old_owner)?, new_owner: same(l.new_owner, r.new_owner)?, old_data: same(l.old_data, r.old_data)?, new_data: same(l.new_data, r.new_data)? })
            }
            pub fn prove_one<'a>(&self, l: impl Arg<'a, Public>) -> Result<BranchProof<G, C, D>> { Proof::make(*l.inner()) }
        }
    }

    pub mod match_delta {
        use super::*;
        #[derive(Copy, Clone)]
        pub struct Public { pub events: H, pub state: H, pub block_height: u64 }
        proofs!(Public);
        circuit!(LeafCircuit, BranchCircuit);
        pub struct LeafWitnessValue<F> { pub block_height: u64, pub last_updated: u64, pub old_owner: [F; 4], pub new_owner: [F; 4], pub old_data: [F; 4], pub new_data: [F; 4], pub old_credits: u64, pub new_credits: u64 }
        impl<T, C, const D: usize> Proof<T, Public, G, C, D> {
            pub fn events(&self) -> H { self.i.events }
            pub fn state_hash(&self) -> H { self.i.state }
            pub fn block_height(&self) -> u64 { self.i.block_height }
        }
        fn obj(owner: [G; 4], last: u64, credits: u64, data: [G; 4]) -> H {
            let mut v = owner.to_vec();
            v.push(G(last));
            v.push(G(credits));
            v.extend(data);
            Poseidon2Hash::hash_no_pad(&v)
        }
        impl<C, const D: usize> LeafCircuit<G, C, D> {
            pub fn new(_: &CircuitConfig, _: &accumulate_delta::BranchCircuit<G, C, D>) -> Self { Self(PhantomData) }
            pub fn prove(&self, _: &BranchCircuit<G, C, D>, acc: &accumulate_delta::BranchProof<G, C, D>, v: LeafWitnessValue<G>) -> Result<LeafProof<G, C, D>> {
                let a = &acc.i;
                for (x, y) in [(a.old_owner, v.old_owner), (a.new_owner, v.new_owner), (a.old_data, v.old_data), (a.new_data, v.new_data)] { if let Some(x) = x { if x != y { bail!("the events tell another change") } } }
                if v.old_credits != v.new_credits { bail!("credits") }
                let (write, give, take) = (a.flags & 1 != 0, a.flags & 8 != 0, a.flags & 16 != 0);
                if give != take { bail!("ownership") }
                if !write && v.old_data != v.new_data { bail!("data changed without a write") }
                let (oz, nz) = (v.old_owner == [G(0); 4], v.new_owner == [G(0); 4]);
                if u8::from(oz) + u8::from(nz) + u8::from(v.old_owner == v.new_owner) != 1 { bail!("change of ownership") }
                if (oz || nz) != give { bail!("creation and deletion") }
                let last = if nz { 0 } else if give || write { v.block_height } else { v.last_updated };
                let mut s = vec![G(a.address)];
                s.extend(obj(v.old_owner, v.last_updated, v.old_credits, v.old_data).elements);
                s.extend(obj(v.new_owner, last, v.new_credits, v.new_data).elements);
                Proof::make(Public { events: a.hash, state: Poseidon2Hash::hash_no_pad(&s), block_height: v.block_height })
            }
        }
        impl<C, const D: usize> BranchCircuit<G, C, D> {
            pub fn new(_: &CircuitConfig, _: &LeafCircuit<G, C, D>) -> Self { Self(PhantomData) }
            pub fn prove<'a>(&self, l: impl Arg<'a, Public>, r: impl Arg<'a, Public>) -> Result<BranchProof<G, C, D>> {
                let (l, r) = (l.inner(), r.inner());
                if l.block_height != r.block_height { bail!("block height") }
                Proof::make(Public { events: two(l.events, r.events), state: two(l.state, r.state), block_height: l.block_height })
            }
            pub fn prove_one<'a>(&self, l: impl Arg<'a, Public>) -> Result<BranchProof<G, C, D>> { Proof::make(*l.inner()) }
        }
    }

    pub mod verify_block {
        use super::*;
        #[derive(Copy, Clone)]
        pub struct Public { pub base: H, pub state: H, pub height: u64 }
        #[derive(Copy, Clone, Debug)]
        pub struct Base;
        #[derive(Copy, Clone, Debug)]
        pub struct Block;
        pub type BaseProof<F, C, const D: usize> = super::Proof<Base, Public, F, C, D>;
        pub type BlockProof<F, C, const D: usize> = super::Proof<Block, Public, F, C, D>;
        impl<T, C, const D: usize> Proof<T, Public, G, C, D> {
            pub fn base_state(&self) -> H { self.i.base }
            pub fn state(&self) -> H { self.i.state }
            pub fn block_height(&self) -> u64 { self.i.height }
        }
        pub struct Circuit<F, C, const D: usize> { state_height: usize, p: PhantomData<(F, C)> }
        impl<C, const D: usize> Circuit<G, C, D> {
            pub fn new(_: &CircuitConfig, _: &verify_tx::BranchCircuit<G, C, D>, _: &match_delta::BranchCircuit<G, C, D>, su: &state_update::BranchCircuit<G, C, D>) -> Self { Self { state_height: state_update::height_of(su), p: PhantomData } }
            pub fn prove_base(&self, state: H) -> Result<BaseProof<G, C, D>> { Proof::make(Public { base: state, state, height: 0 }) }
            pub fn prove<'a>(&self, tx: &verify_tx::BranchProof<G, C, D>, md: &match_delta::BranchProof<G, C, D>, su: &state_update::BranchProof<G, C, D>, prev: impl Arg<'a, Public>) -> Result<BlockProof<G, C, D>> {
                let (tx, md, su, prev) = (&tx.i, &md.i, &su.i, prev.inner());
                if su.height != self.state_height { bail!("a state of another height") }
                if tx.events.unwrap_or(Z) != md.events { bail!("events") }
                if md.block_height != prev.height + 1 { bail!("height") }
                if su.summary != Some(md.state) { bail!("state changes") }
                if su.address != Some(0) { bail!("address") }
                if su.old != prev.state { bail!("previous state") }
                Proof::make(Public { base: prev.base, state: su.new, height: prev.height + 1 })
            }
        }
    }
}
