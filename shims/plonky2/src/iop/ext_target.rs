use super::target::Target;
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub struct ExtensionTarget<const D: usize>(pub [Target; D]);
impl<const D: usize> Default for ExtensionTarget<D> { fn default() -> Self { Self([Target::default(); D]) } }
impl<const D: usize> ExtensionTarget<D> { pub fn to_target_array(&self) -> [Target; D] { self.0 } }
impl<const D: usize> TryFrom<Vec<Target>> for ExtensionTarget<D> { type Error = Vec<Target>; fn try_from(v: Vec<Target>) -> Result<Self, Self::Error> { Ok(Self(v.try_into()?)) } }
