//! rkyv's contract with the byte format left abstract: `access_unchecked` on the
//! bytes of an archive gives back exactly the value that was archived.  The bytes
//! of an archive are the address of a leaked archived copy.
pub use rkyv_derive::{Archive, Deserialize, Serialize};
pub trait Archive {
    type Archived: FromArchived<Self>;
    fn to_archived(&self) -> Self::Archived;
}
pub trait FromArchived<T: ?Sized> { fn from_archived(&self) -> T where T: Sized; }
pub trait Serialize<S: ?Sized>: Archive {}
impl<T: Archive + ?Sized, S: ?Sized> Serialize<S> for T {}
pub trait Deserialize<T, D: ?Sized> { fn deserialize(&self, d: &mut D) -> Result<T, rancor::Panic>; }
impl<T: Archive, A: FromArchived<T>, D: ?Sized> Deserialize<T, D> for A { fn deserialize(&self, _: &mut D) -> Result<T, rancor::Panic> { Ok(self.from_archived()) } }
pub mod rancor {
    #[derive(Debug)]
    pub struct Panic;
    pub type Error = Panic;
    pub type Failure = Panic;
    pub struct Strategy<T: ?Sized, E> { p: core::marker::PhantomData<E>, t: T }
    impl<T: ?Sized, E> Strategy<T, E> { pub fn wrap(t: &mut T) -> &mut Self { unsafe { core::mem::transmute_copy(&t) } } }
}
pub mod ser {
    use core::marker::PhantomData;
    pub struct Composite<W, A, S>(PhantomData<(W, A, S)>);
    pub struct AllocSerializer<const N: usize>;
    pub mod allocator { pub struct AllocationTracker<T>(T); pub struct GlobalAllocator; }
}
pub mod util {
    #[derive(Clone, Debug)]
    pub struct AlignedVec(pub Vec<u8>);
    impl AlignedVec { pub fn into_vec(self) -> Vec<u8> { self.0 } pub fn as_slice(&self) -> &[u8] { &self.0 } }
    impl core::ops::Deref for AlignedVec { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
    impl From<AlignedVec> for Vec<u8> { fn from(a: AlignedVec) -> Vec<u8> { a.0 } }
}
pub fn to_bytes<T: Serialize<rancor::Strategy<ser::AllocSerializer<N>, E>> + ?Sized, const N: usize, E>(t: &T) -> Result<util::AlignedVec, rancor::Panic> {
    let p = Box::into_raw(Box::new(t.to_archived()));
    Ok(util::AlignedVec((p as usize).to_le_bytes().to_vec()))
}
/// # Safety
/// As rkyv's: the bytes are the archive of a `T`.
pub unsafe fn access_unchecked<T: Archive>(b: &[u8]) -> &T::Archived {
    let p: [u8; 8] = b[..8].try_into().unwrap();
    &*(usize::from_le_bytes(p) as *const T::Archived)
}
macro_rules! num { ($($t:ty => $n:ident),*) => { $(
    #[derive(Clone, Copy, Debug, PartialEq)] pub struct $n($t);
    impl $n { pub fn to_native(self) -> $t { self.0 } }
    impl Archive for $t { type Archived = $n; fn to_archived(&self) -> $n { $n(*self) } }
    impl FromArchived<$t> for $n { fn from_archived(&self) -> $t { self.0 } }
)* } }
num!(u16 => U16, u32 => U32, u64 => U64, i32 => I32, i64 => I64, usize => Usize);
macro_rules! plain { ($($t:ty),*) => { $(
    impl Archive for $t { type Archived = $t; fn to_archived(&self) -> $t { *self } }
    impl FromArchived<$t> for $t { fn from_archived(&self) -> $t { *self } }
)* } }
plain!(u8, i8, bool, ());
impl<T: Archive, const N: usize> Archive for [T; N] { type Archived = [T::Archived; N]; fn to_archived(&self) -> Self::Archived { core::array::from_fn(|i| self[i].to_archived()) } }
impl<T, A: FromArchived<T>, const N: usize> FromArchived<[T; N]> for [A; N] { fn from_archived(&self) -> [T; N] { core::array::from_fn(|i| self[i].from_archived()) } }
pub struct AVec<A>(Vec<A>);
impl<A> AVec<A> { pub fn as_slice(&self) -> &[A] { &self.0 } }
impl<A> core::ops::Deref for AVec<A> { type Target = [A]; fn deref(&self) -> &[A] { &self.0 } }
impl<T: Archive> Archive for Vec<T> { type Archived = AVec<T::Archived>; fn to_archived(&self) -> Self::Archived { AVec(self.iter().map(|x| x.to_archived()).collect()) } }
impl<T, A: FromArchived<T>> FromArchived<Vec<T>> for AVec<A> { fn from_archived(&self) -> Vec<T> { self.0.iter().map(|x| x.from_archived()).collect() } }
