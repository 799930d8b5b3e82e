use proc_macro::TokenStream;
#[proc_macro_attribute] pub fn proc_macro_error(_: TokenStream, i: TokenStream) -> TokenStream { i }
