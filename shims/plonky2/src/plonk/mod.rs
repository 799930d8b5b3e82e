pub mod circuit_builder; pub mod circuit_data; pub mod config; pub mod plonk_common; pub mod proof;
