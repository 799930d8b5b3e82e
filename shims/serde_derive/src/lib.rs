//! No-op serde derives: serialisation is outside every claim made in /verif.
use proc_macro::TokenStream;
#[proc_macro_derive(Serialize, attributes(serde))]
pub fn ser(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(Deserialize, attributes(serde))]
pub fn de(_: TokenStream) -> TokenStream { TokenStream::new() }
