#![allow(warnings)]
//! Stand-in for the parts of plonky2 that the code under check touches.
pub mod batch_fri; pub mod field; pub mod fri; pub mod gates; pub mod hash; pub mod iop; pub mod plonk; pub mod util;
