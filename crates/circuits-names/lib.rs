//! Names cli/src/runner.rs imports and no harness reaches.
use mozak_runner::elf::Program;
pub mod memoryinit { pub mod generation { pub fn generate_elf_memory_init_trace<F>(_: &super::super::Program) { unimplemented!() } } }
pub mod program { pub mod generation { pub fn generate_program_rom_trace<F>(_: &super::super::Program) { unimplemented!() } } }
pub mod stark { pub mod prover { pub fn get_program_id<F, C, const D: usize>(_: F, _: &(), _: &()) -> mozak_sdk::common::types::ProgramIdentifier { unimplemented!() } } }
