//! Sequential stand-in (the real crate without its `parallel` feature).
pub trait MaybeIntoParIter { type Item; type Iter: Iterator<Item = Self::Item>; fn into_par_iter(self) -> Self::Iter; }
impl<T: IntoIterator> MaybeIntoParIter for T { type Item = T::Item; type Iter = T::IntoIter; fn into_par_iter(self) -> T::IntoIter { self.into_iter() } }
pub trait MaybeParIter<T> { fn par_iter(&self) -> core::slice::Iter<'_, T>; }
impl<T> MaybeParIter<T> for [T] { fn par_iter(&self) -> core::slice::Iter<'_, T> { self.iter() } }
pub trait MaybeParIterMut<T> { fn par_iter_mut(&mut self) -> core::slice::IterMut<'_, T>; }
impl<T> MaybeParIterMut<T> for [T] { fn par_iter_mut(&mut self) -> core::slice::IterMut<'_, T> { self.iter_mut() } }
pub trait ParallelIteratorMock: Iterator + Sized { fn flat_map_iter<U: IntoIterator, F: FnMut(Self::Item) -> U>(self, f: F) -> core::iter::FlatMap<Self, U, F> { self.flat_map(f) } }
impl<T: Iterator> ParallelIteratorMock for T {}
