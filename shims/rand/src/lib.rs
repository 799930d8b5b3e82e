pub mod prelude { pub use crate::{Rng, RngCore, SeedableRng}; }
pub trait RngCore { fn fill_bytes(&mut self, b: &mut [u8]); }
pub trait Rng: RngCore {}
impl<T: RngCore> Rng for T {}
pub trait SeedableRng: Sized { fn seed_from_u64(s: u64) -> Self; }
