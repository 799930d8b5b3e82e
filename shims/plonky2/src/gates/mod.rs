pub mod noop; pub mod gate; pub mod poseidon2; pub mod constant;
