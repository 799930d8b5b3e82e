//! Harnesses over runner/.
pub mod refmodel;
pub mod decode;
pub mod step;
pub mod mem;
pub mod flow;
pub mod ecalls;
pub mod load;
