//! A test whose result is kept for other tests: used only to run the repository's own recproofs
//! tests against the stand-in circuit builder (a check of the stand-in).
use proc_macro::TokenStream;
use quote::quote;
use syn::parse::{Parse, ParseStream};
struct Arg { vis: syn::Visibility, name: syn::Ident, ty: Option<syn::Type> }
impl Parse for Arg {
    fn parse(s: ParseStream) -> syn::Result<Self> {
        let vis = s.parse()?;
        let name = s.parse()?;
        let ty = if s.peek(syn::Token![:]) { let _: syn::Token![:] = s.parse()?; Some(s.parse()?) } else { None };
        Ok(Arg { vis, name, ty })
    }
}
#[proc_macro_attribute]
pub fn tested_fixture(a: TokenStream, item: TokenStream) -> TokenStream {
    let Arg { vis, name, ty } = syn::parse(a).unwrap();
    let f: syn::ItemFn = syn::parse(item).unwrap();
    let fname = &f.sig.ident;
    let (t, get) = match (&ty, &f.sig.output) {
        (Some(t), _) => (quote!(#t), quote!(#fname().unwrap())),
        (None, syn::ReturnType::Type(_, t)) => (quote!(#t), quote!(#fname())),
        _ => (quote!(()), quote!(#fname())),
    };
    let tn = quote::format_ident!("fixture_{}", fname);
    quote! {
        #f
        #[allow(dead_code)]
        #vis static #name: ::once_cell::sync::Lazy<&'static #t> = ::once_cell::sync::Lazy::new(|| Box::leak(Box::new(#get)));
        #[test]
        fn #tn() { let _ = *#name; }
    }.into()
}
