use super::ext_target::ExtensionTarget;
/// Index into the recording builder's value table.
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash, Ord, PartialOrd, Default)]
pub struct Target(pub usize);
impl Target { pub fn to_ext_target<const D: usize>(self, zero: Self) -> ExtensionTarget<D> { let mut a = [zero; D]; a[0] = self; ExtensionTarget(a) } }
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash, Ord, PartialOrd, Default)]
pub struct BoolTarget { pub target: Target }
impl BoolTarget { pub fn new_unsafe(target: Target) -> Self { Self { target } } }
