//! Marker-only serde: every type is "serialisable"; serialisation is outside every claim.
pub use serde_derive::{Deserialize, Serialize};
pub trait Serialize {}
impl<T: ?Sized> Serialize for T {}
pub trait Deserialize<'de> {}
impl<'de, T: ?Sized> Deserialize<'de> for T {}
pub trait Serializer {}
pub trait Deserializer<'de> {}
pub mod de { pub trait DeserializeOwned {} impl<T: ?Sized> DeserializeOwned for T {} pub use crate::Deserialize; }
pub mod ser { pub use crate::Serialize; }
