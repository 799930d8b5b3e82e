//! Some deterministic stream of bytes per seed.
pub struct ChaCha8Rng(u64);
impl rand::SeedableRng for ChaCha8Rng { fn seed_from_u64(s: u64) -> Self { ChaCha8Rng(s) } }
impl rand::RngCore for ChaCha8Rng {
    fn fill_bytes(&mut self, b: &mut [u8]) { for x in b { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); *x = (self.0 >> 56) as u8; } }
}
