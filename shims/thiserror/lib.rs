//! derive(Error) for non-generic types: Display through Debug.
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_derive(Error, attributes(error, source, from))]
pub fn derive(i: TokenStream) -> TokenStream {
    let mut it = i.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(id) = &t {
            if matches!(id.to_string().as_str(), "enum" | "struct") {
                let n = it.next().unwrap();
                return format!("impl ::core::fmt::Display for {n} {{ fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{ ::core::fmt::Debug::fmt(self, f) }} }} impl ::std::error::Error for {n} {{}}").parse().unwrap();
            }
        }
    }
    panic!()
}
