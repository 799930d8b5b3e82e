//! Names only: serialisation is outside every claim.
pub struct StrictPfx;
pub trait SerHex<C> {}
pub trait SerHexSeq<C> {}
