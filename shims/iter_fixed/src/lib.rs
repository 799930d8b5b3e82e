//! Iterators of a fixed length, over arrays only.
pub struct IterFixed<T, const N: usize>([T; N]);
pub trait IntoIteratorFixed<const N: usize> { type Item; fn into_iter_fixed(self) -> IterFixed<Self::Item, N>; }
impl<T, const N: usize> IntoIteratorFixed<N> for [T; N] { type Item = T; fn into_iter_fixed(self) -> IterFixed<T, N> { IterFixed(self) } }
impl<'a, T, const N: usize> IntoIteratorFixed<N> for &'a [T; N] { type Item = &'a T; fn into_iter_fixed(self) -> IterFixed<&'a T, N> { IterFixed(self.each_ref()) } }
impl<T, const N: usize> IntoIteratorFixed<N> for IterFixed<T, N> { type Item = T; fn into_iter_fixed(self) -> IterFixed<T, N> { self } }
pub trait FromIteratorFixed<T, const N: usize> { fn from_(x: [T; N]) -> Self; }
impl<T, const N: usize> FromIteratorFixed<T, N> for [T; N] { fn from_(x: [T; N]) -> Self { x } }
impl<T, const N: usize> IterFixed<T, N> {
    pub fn map<U, F: FnMut(T) -> U>(self, f: F) -> IterFixed<U, N> { IterFixed(self.0.map(f)) }
    pub fn zip<I: IntoIteratorFixed<N>>(self, o: I) -> IterFixed<(T, I::Item), N> {
        let mut b = o.into_iter_fixed().0.into_iter();
        IterFixed(self.0.map(|a| (a, b.next().unwrap())))
    }
    pub fn enumerate(self) -> IterFixed<(usize, T), N> { let mut i = 0; IterFixed(self.0.map(|a| { i += 1; (i - 1, a) })) }
    pub fn rev(mut self) -> Self { self.0.reverse(); self }
    pub fn collect<U: FromIteratorFixed<T, N>>(self) -> U { U::from_(self.0) }
}
impl<T, const N: usize> IntoIterator for IterFixed<T, N> { type Item = T; type IntoIter = std::array::IntoIter<T, N>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
