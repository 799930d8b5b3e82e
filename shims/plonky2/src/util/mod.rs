pub mod reducing; pub mod timing; pub mod serialization;
pub fn transpose<T: Clone>(m: &[Vec<T>]) -> Vec<Vec<T>> { if m.is_empty() { return vec![]; } (0..m[0].len()).map(|j| m.iter().map(|r| r[j].clone()).collect()).collect() }
pub fn log2_ceil(n: usize) -> usize { (n.next_power_of_two()).trailing_zeros() as usize }
pub fn log2_strict(n: usize) -> usize { assert!(n.is_power_of_two()); n.trailing_zeros() as usize }
