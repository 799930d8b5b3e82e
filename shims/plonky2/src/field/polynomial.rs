use super::types::Field;
#[derive(Clone, Debug, PartialEq, Eq)] pub struct PolynomialValues<F: Field> { pub values: Vec<F> }
impl<F: Field> PolynomialValues<F> {
    pub fn new(values: Vec<F>) -> Self { Self { values } }
    pub fn constant(v: F, n: usize) -> Self { Self::new(vec![v; n]) }
    pub fn zero(n: usize) -> Self { Self::constant(F::ZERO, n) }
    pub fn len(&self) -> usize { self.values.len() }
    pub fn is_empty(&self) -> bool { self.values.is_empty() }
    pub fn selector(n: usize, i: usize) -> Self { let mut r = Self::zero(n); r.values[i] = F::ONE; r }
    pub fn lde_onto_coset(self, _r: usize) -> Self { unimplemented!() }
    pub fn ifft(self) -> PolynomialCoeffs<F> { unimplemented!() }
    pub fn coset_ifft(self, _s: F) -> PolynomialCoeffs<F> { unimplemented!() }
}
#[derive(Clone, Debug, PartialEq, Eq)] pub struct PolynomialCoeffs<F: Field> { pub coeffs: Vec<F> }
impl<F: Field> PolynomialCoeffs<F> {
    pub fn new(coeffs: Vec<F>) -> Self { Self { coeffs } }
    pub fn len(&self) -> usize { self.coeffs.len() }
    pub fn is_empty(&self) -> bool { self.coeffs.is_empty() }
    pub fn eval(&self, _x: F) -> F { unimplemented!() }
    pub fn to_extension<const D: usize>(&self) -> PolynomialCoeffs<F::Extension> where F: super::extension::Extendable<D> { unimplemented!() }
    pub fn chunks(&self, _n: usize) -> Vec<Self> { unimplemented!() }
    pub fn padded(&self, _n: usize) -> Self { unimplemented!() }
    pub fn trim_to_len(&mut self, _n: usize) -> anyhow::Result<()> { unimplemented!() }
}

impl<F: Field> From<Vec<F>> for PolynomialValues<F> { fn from(values: Vec<F>) -> Self { Self { values } } }
