//! cli/src/runner.rs on its own (the program identifier it can also compute is not encoded).
#[path = "/repo/cli/src/runner.rs"]
pub mod runner;
pub mod trace_utils {
    pub fn get_trace_merkle_cap<F, C, const D: usize, T>(_: T, _: &starky::config::StarkConfig) -> () { unimplemented!() }
}
