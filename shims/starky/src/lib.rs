//! Stand-in for starky: the constraint consumers behave as the real ones and also record every constraint.
pub mod config; pub mod constraint_consumer; pub mod evaluation_frame; pub mod stark;
