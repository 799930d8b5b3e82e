//! The proposer's state tree against an independent account of the objects.
use mozak_node::block_proposer::state::{AuxStateData, Operation, State};
use mozak_node::block_proposer::Address;
use plonky2::field::goldilocks_field::GoldilocksField as G;
use plonky2::hash::hash_types::HashOut;
use plonky2::hash::poseidon2::Poseidon2Hash;
use plonky2::plonk::circuit_data::CircuitConfig;
use plonky2::plonk::config::Hasher;
pub type Object = mozak_recproofs::Object<G>;
pub type H = HashOut<G>;

pub fn two(l: H, r: H) -> H { <Poseidon2Hash as Hasher<G>>::two_to_one(l, r) }
pub fn object_hash(o: &Object) -> H {
    let mut v = o.constraint_owner.to_vec();
    v.push(o.last_updated);
    v.push(o.credits);
    v.extend(o.data);
    Poseidon2Hash::hash_no_pad(&v)
}
pub fn any_object() -> Object { Object { constraint_owner: [G(rsx::felt()), G(1), G(2), G(3)], last_updated: G(rsx::felt()), credits: G(rsx::felt()), data: [G(rsx::felt()), G(rsx::felt()), G(0), G(7)] } }

#[derive(Clone, Copy)]
pub struct Slot { pub addr: u64, pub old: Option<Object>, pub new: Option<Object>, pub touched: bool, sealed: bool }
pub struct Model { pub depth: usize, pub slots: Vec<Slot>, empty: Vec<H> }
impl Model {
    pub fn new(depth: usize) -> Self {
        let mut empty = vec![object_hash(&Object::default())];
        for i in 0..=depth { let e = empty[i]; empty.push(two(e, e)); }
        Model { depth, slots: vec![], empty }
    }
    pub fn slot(&mut self, addr: u64) -> &mut Slot {
        let k = match self.slots.iter().position(|s| s.addr == addr) { Some(k) => k, None => { self.slots.push(Slot { addr, old: None, new: None, touched: false, sealed: false }); self.slots.len() - 1 } };
        &mut self.slots[k]
    }
    /// Whether the operation may be asked for at this point; if so it takes effect.
    pub fn apply(&mut self, addr: u64, op: Operation) -> bool {
        let s = self.slot(addr);
        let changed = match op {
            Operation::Read => false,
            Operation::Delete => { if s.sealed && s.new.is_some() { return false; } let c = !s.touched || (s.new.is_some()); s.new = None; c }
            Operation::Upsert(o) => { if s.sealed { return false; } s.new = Some(o); true }
        };
        s.touched = true;
        s.sealed |= changed;
        true
    }
    pub fn finalize(&mut self) { for s in &mut self.slots { s.old = s.new; s.touched = false; s.sealed = false; } }
    fn under(&self, level: usize, prefix: u64, s: &Slot) -> bool { level >= 64 || s.addr >> level == prefix }
    pub fn root(&self, level: usize, prefix: u64, new: bool) -> H {
        let live = |s: &Slot| if new { s.new } else { s.old };
        if !self.slots.iter().any(|s| live(s).is_some() && self.under(level, prefix, s)) { return self.empty[level]; }
        if level == 0 { return object_hash(&live(self.slots.iter().find(|s| s.addr == prefix).unwrap()).unwrap()); }
        two(self.root(level - 1, 2 * prefix, new), self.root(level - 1, 2 * prefix + 1, new))
    }
    pub fn summary(&self, level: usize, prefix: u64) -> Option<H> {
        if !self.slots.iter().any(|s| s.touched && self.under(level, prefix, s)) { return None; }
        if level == 0 {
            let s = self.slots.iter().find(|s| s.addr == prefix).unwrap();
            let h = |o: &Option<Object>| o.as_ref().map_or(self.empty[0], object_hash);
            let mut v = vec![G(prefix)];
            v.extend(h(&s.old).elements);
            v.extend(h(&s.new).elements);
            return Some(Poseidon2Hash::hash_no_pad(&v));
        }
        match (self.summary(level - 1, 2 * prefix), self.summary(level - 1, 2 * prefix + 1)) { (Some(l), Some(r)) => Some(two(l, r)), (l, r) => l.or(r) }
    }
    pub fn agree(&self, s: &State, k: u32) {
        let p = s.rsx_proof();
        let top = self.depth + 1;
        rsx::check(p.i.old == self.root(top, 0, false), k);
        rsx::check(p.i.new == self.root(top, 0, true), k + 1);
        rsx::check(p.i.summary == self.summary(top, 0), k + 2);
        rsx::check(p.i.address == if self.slots.iter().any(|s| s.touched) { Some(0) } else { None }, k + 3);
        for x in &self.slots { rsx::check(s.get_state(Address(x.addr)) == (x.old.as_ref(), x.new.as_ref()), k + 4); }
    }
}
fn op() -> Operation { match rsx::pick_below(3) { 0 => Operation::Read, 1 => Operation::Delete, _ => Operation::Upsert(any_object()) } }
/// Objects at some of the addresses, then a round of operations, then another, the root and every
/// object as accounted throughout.
fn rounds(depth: usize, max: usize, at: &[u64], first: usize, second: usize) {
    let aux = AuxStateData::new(&CircuitConfig::default(), max);
    let mut s = State::new(&aux, depth);
    let mut m = Model::new(depth);
    m.agree(&s, 10);
    let present = rsx::pick_below(1 << at.len());
    for (i, &a) in at.iter().enumerate() { if present >> i & 1 == 1 { let o = Operation::Upsert(any_object()); m.apply(a, o); s.apply_operation(Address(a), o); } }
    m.agree(&s, 20);
    s.finalize();
    m.finalize();
    m.agree(&s, 30);
    for (r, n) in [first, second].into_iter().enumerate() {
        for _ in 0..n {
            let a = at[rsx::pick_below(at.len() as u64) as usize];
            let o = op();
            rsx::assume(m.apply(a, o));
            s.apply_operation(Address(a), o);
        }
        m.agree(&s, 40 + 20 * r as u32);
        s.finalize();
        m.finalize();
        m.agree(&s, 50 + 20 * r as u32);
    }
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_state_single() { rounds(0, 0, &[0, 1], 2, 2) }
#[no_mangle]
pub extern "C" fn hx_state_pairs() { rounds(1, 2, &[0, 3], 2, 1) }
#[no_mangle]
pub extern "C" fn hx_state_tree() { rounds(2, 2, &[1, 2, 3, 6], 1, 1) }
#[no_mangle]
pub extern "C" fn hx_state_deep() { rounds(63, 63, &[5, 1 << 63 | 1], 1, 1) }
/// Several operations on one object in one round.
#[no_mangle]
pub extern "C" fn hx_state_sequence() { rounds(0, 1, &[1], 4, 2) }
/// Asking for the same update twice is fine, for two different ones is not.
#[no_mangle]
pub extern "C" fn hx_state_repeat() {
    let aux = AuxStateData::new(&CircuitConfig::default(), 1);
    let mut s = State::new(&aux, 1);
    let mut m = Model::new(1);
    let (o, o2) = (any_object(), any_object());
    if rsx::pick_below(2) == 1 { let b = Operation::Upsert(any_object()); m.apply(2, b); s.apply_operation(Address(2), b); m.finalize(); s.finalize(); }
    m.apply(2, Operation::Upsert(o));
    s.apply_operation(Address(2), Operation::Upsert(o));
    s.apply_operation(Address(2), Operation::Upsert(o));
    s.apply_operation(Address(2), Operation::Read);
    m.agree(&s, 1);
    rsx::on_panic(2);
    match rsx::pick_below(2) {
        0 => { rsx::assume(o != o2); s.apply_operation(Address(2), Operation::Upsert(o2)); rsx::check(false, 7); }
        _ => { s.apply_operation(Address(2), Operation::Delete); rsx::check(false, 8); }
    }
}
