pub mod oracle; pub mod proof; pub mod structure; pub mod verifier; pub mod witness_util; pub mod reduction_strategies;
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct FriConfig { pub rate_bits: usize, pub cap_height: usize, pub proof_of_work_bits: u32, pub reduction_strategy: reduction_strategies::FriReductionStrategy, pub num_query_rounds: usize }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct FriParams { pub config: FriConfig, pub hiding: bool, pub degree_bits: usize, pub reduction_arity_bits: Vec<usize> }
impl FriParams { pub fn total_arities(&self) -> usize { self.reduction_arity_bits.iter().sum() } pub fn lde_bits(&self) -> usize { self.degree_bits + self.config.rate_bits } }
