//! Symbolic field element: a handle into a hash-consed expression graph.  Running the real
//! (field-generic) code over it yields the polynomials that code computes.
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use std::cell::RefCell;
use std::collections::HashMap;

use super::goldilocks_field::{GoldilocksField as G, P};
use super::types::{Field, Field64, PrimeField, PrimeField64, Sample};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u64),
    Var(String),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Neg(u32),
    Inv(u32),
    /// 1 if the two are equal, else 0
    Eq(u32, u32),
    /// output `.2` of function `.0` at arguments `.1`
    Uf(String, Vec<u32>, u32),
}
pub struct Graph { pub nodes: Vec<Node>, pub index: HashMap<Node, u32>, pub fresh: u32 }
impl Graph {
    fn new() -> Self {
        let mut g = Graph { nodes: vec![], index: HashMap::new(), fresh: 0 };
        for c in [0, 1, 2, P - 1] { g.mk(Node::Const(c)); }
        g
    }
    fn mk(&mut self, n: Node) -> u32 {
        if let Some(i) = self.index.get(&n) { return *i; }
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.index.insert(n, i);
        i
    }
}
thread_local! { pub static G_: RefCell<Graph> = RefCell::new(Graph::new()); }
#[derive(Copy, Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(transparent)]
pub struct Sym(pub u32);
pub fn mk(n: Node) -> Sym { G_.with(|g| Sym(g.borrow_mut().mk(n))) }
pub fn var(s: &str) -> Sym { mk(Node::Var(s.to_string())) }
pub fn fresh(s: &str) -> Sym { let k = G_.with(|g| { let mut g = g.borrow_mut(); g.fresh += 1; g.fresh }); var(&format!("{s}#{k}")) }
pub fn uf(name: &str, args: &[Sym], i: u32) -> Sym { mk(Node::Uf(name.to_string(), args.iter().map(|a| a.0).collect(), i)) }
pub fn nodes() -> Vec<Node> { G_.with(|g| g.borrow().nodes.clone()) }
impl Sym {
    pub fn konst(self) -> Option<u64> { G_.with(|g| if let Node::Const(c) = g.borrow().nodes[self.0 as usize] { Some(c) } else { None }) }
    pub fn node(self) -> Node { G_.with(|g| g.borrow().nodes[self.0 as usize].clone()) }
    pub fn eq_node(a: Sym, b: Sym) -> Sym {
        if a == b { return Sym::ONE; }
        if let (Some(_), Some(_)) = (a.konst(), b.konst()) { return Sym::ZERO; }
        mk(Node::Eq(a.0.min(b.0), a.0.max(b.0)))
    }
}
impl fmt::Debug for Sym { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "s{}", self.0) } }
impl fmt::Display for Sym { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "s{}", self.0) } }
impl Sample for Sym { fn rand() -> Self { fresh("rand") } }
fn c(x: u64) -> Sym { mk(Node::Const(x)) }
impl Add for Sym { type Output = Self; fn add(self, o: Self) -> Self {
    match (self.konst(), o.konst()) {
        (Some(a), Some(b)) => c((G(a) + G(b)).0),
        (Some(0), _) => o, (_, Some(0)) => self,
        _ => mk(Node::Add(self.0, o.0)) } } }
impl Sub for Sym { type Output = Self; fn sub(self, o: Self) -> Self {
    if self == o { return Sym::ZERO; }
    match (self.konst(), o.konst()) {
        (Some(a), Some(b)) => c((G(a) - G(b)).0),
        (_, Some(0)) => self, (Some(0), _) => -o,
        _ => mk(Node::Sub(self.0, o.0)) } } }
impl Mul for Sym { type Output = Self; fn mul(self, o: Self) -> Self {
    match (self.konst(), o.konst()) {
        (Some(a), Some(b)) => c((G(a) * G(b)).0),
        (Some(0), _) | (_, Some(0)) => Sym::ZERO,
        (Some(1), _) => o, (_, Some(1)) => self,
        _ => mk(Node::Mul(self.0, o.0)) } } }
impl Neg for Sym { type Output = Self; fn neg(self) -> Self { match self.konst() { Some(a) => c((-G(a)).0), None => mk(Node::Neg(self.0)) } } }
impl Div for Sym { type Output = Self; fn div(self, o: Self) -> Self { self * o.inverse() } }
impl AddAssign for Sym { fn add_assign(&mut self, o: Self) { *self = *self + o; } }
impl SubAssign for Sym { fn sub_assign(&mut self, o: Self) { *self = *self - o; } }
impl MulAssign for Sym { fn mul_assign(&mut self, o: Self) { *self = *self * o; } }
impl DivAssign for Sym { fn div_assign(&mut self, o: Self) { *self = *self / o; } }
impl Sum for Sym { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) } }
impl Product for Sym { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }
impl Field for Sym {
    const ZERO: Self = Self(0);
    const ONE: Self = Self(1);
    const TWO: Self = Self(2);
    const NEG_ONE: Self = Self(3);
    const TWO_ADICITY: usize = 32;
    const BITS: usize = 64;
    const MULTIPLICATIVE_GROUP_GENERATOR: Self = Self(2);
    fn from_canonical_u64(n: u64) -> Self { assert!(n < P); c(n) }
    fn from_noncanonical_u64(n: u64) -> Self { c(n % P) }
    fn from_noncanonical_u128(n: u128) -> Self { c((n % P as u128) as u64) }
    fn from_noncanonical_i64(n: i64) -> Self { c((n as i128).rem_euclid(P as i128) as u64) }
    fn try_inverse(&self) -> Option<Self> { match self.konst() { Some(0) => None, Some(a) => Some(c(G(a).inverse().0)), None => Some(mk(Node::Inv(self.0))) } }
    fn primitive_root_of_unity(n_log: usize) -> Self { uf(&format!("root{n_log}"), &[], 0) }
    fn exp_power_of_2(&self, log: usize) -> Self { uf(&format!("pow2^{log}"), &[*self], 0) }
}
impl PrimeField for Sym {}
impl Field64 for Sym { const ORDER: u64 = P; const CHARACTERISTIC: u64 = P; }
impl PrimeField64 for Sym {
    fn to_canonical_u64(&self) -> u64 { self.konst().expect("symbolic value has no u64 form") }
    fn to_noncanonical_u64(&self) -> u64 { self.to_canonical_u64() }
}
impl crate::hash::poseidon2::Poseidon2 for Sym {
    fn permute_abstract(state: &mut [Self; 12]) { let a = *state; for (i, s) in state.iter_mut().enumerate() { *s = uf("poseidon2", &a, i as u32); } }
}
impl crate::hash::hash_types::RichField for Sym {
    fn fresh(name: &str) -> Self { fresh(name) }
    fn eq_indicator(a: Self, b: Self) -> Self { Sym::eq_node(a, b) }
    fn uninterpreted(name: &str, args: &[Self], i: usize) -> Self { uf(name, args, i as u32) }
}
