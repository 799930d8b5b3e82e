//! Sets of enum flags of u8 size.
pub use enumflags2_derive::bitflags;
use std::marker::PhantomData;
use std::ops::*;
pub trait BitFlag: Copy { const ALL_BITS: u8; fn bits_(self) -> u8; fn all_() -> Vec<Self>; }
pub struct BitFlags<T>(u8, PhantomData<T>);
#[derive(Debug, Clone, Copy)]
pub struct FromBitsError;
impl<T> Clone for BitFlags<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for BitFlags<T> {}
impl<T> PartialEq for BitFlags<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T> Eq for BitFlags<T> {}
impl<T> Default for BitFlags<T> { fn default() -> Self { Self(0, PhantomData) } }
impl<T> std::fmt::Debug for BitFlags<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "BitFlags({:#b})", self.0) } }
impl<T: BitFlag> BitFlags<T> {
    pub const ALL: Self = Self(T::ALL_BITS, PhantomData);
    pub const EMPTY: Self = Self(0, PhantomData);
    pub fn all() -> Self { Self::ALL }
    pub fn empty() -> Self { Self::EMPTY }
    pub fn len(self) -> usize { self.0.count_ones() as usize }
    pub fn bits(self) -> u8 { self.0 }
    pub fn is_empty(self) -> bool { self.0 == 0 }
    pub fn from_bits(b: u8) -> Result<Self, FromBitsError> { if b & !T::ALL_BITS == 0 { Ok(Self(b, PhantomData)) } else { Err(FromBitsError) } }
    pub fn from_bits_truncate(b: u8) -> Self { Self(b & T::ALL_BITS, PhantomData) }
    pub fn intersects<B: Into<Self>>(self, o: B) -> bool { self.0 & o.into().0 != 0 }
    pub fn contains<B: Into<Self>>(self, o: B) -> bool { let o = o.into(); self.0 & o.0 == o.0 }
    pub fn insert<B: Into<Self>>(&mut self, o: B) { self.0 |= o.into().0 }
    pub fn remove<B: Into<Self>>(&mut self, o: B) { self.0 &= !o.into().0 }
    pub fn iter(self) -> impl Iterator<Item = T> { T::all_().into_iter().filter(move |f| self.0 & f.bits_() != 0) }
}
impl<T: BitFlag> From<T> for BitFlags<T> { fn from(t: T) -> Self { Self(t.bits_(), PhantomData) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> BitOr<B> for BitFlags<T> { type Output = Self; fn bitor(self, o: B) -> Self { Self(self.0 | o.into().0, PhantomData) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> BitAnd<B> for BitFlags<T> { type Output = Self; fn bitand(self, o: B) -> Self { Self(self.0 & o.into().0, PhantomData) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> BitXor<B> for BitFlags<T> { type Output = Self; fn bitxor(self, o: B) -> Self { Self(self.0 ^ o.into().0, PhantomData) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> BitOrAssign<B> for BitFlags<T> { fn bitor_assign(&mut self, o: B) { self.0 |= o.into().0 } }
impl<T: BitFlag, B: Into<BitFlags<T>>> BitAndAssign<B> for BitFlags<T> { fn bitand_assign(&mut self, o: B) { self.0 &= o.into().0 } }
impl<T: BitFlag> Not for BitFlags<T> { type Output = Self; fn not(self) -> Self { Self(!self.0 & T::ALL_BITS, PhantomData) } }
