use plonky2::fri::{reduction_strategies::FriReductionStrategy, FriConfig, FriParams};
#[derive(Clone, Debug)]
pub struct StarkConfig { pub security_bits: usize, pub num_challenges: usize, pub fri_config: FriConfig }
impl StarkConfig {
    pub const fn standard_fast_config() -> Self { Self { security_bits: 100, num_challenges: 2, fri_config: FriConfig { rate_bits: 1, cap_height: 4, proof_of_work_bits: 16, reduction_strategy: FriReductionStrategy::ConstantArityBits(4, 5), num_query_rounds: 84 } } }
    pub fn fri_params(&self, degree_bits: usize) -> FriParams { FriParams { config: self.fri_config.clone(), hiding: false, degree_bits, reduction_arity_bits: vec![] } }
}
