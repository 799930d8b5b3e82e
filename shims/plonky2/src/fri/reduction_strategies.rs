#[derive(Debug, Clone, PartialEq, Eq)] pub enum FriReductionStrategy { Fixed(Vec<usize>), ConstantArityBits(usize, usize), MinSize(Option<usize>) }
