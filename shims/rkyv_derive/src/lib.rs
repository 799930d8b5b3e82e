//! Derives for the stand-in rkyv: a field-by-field archived copy of the type.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(Archive, attributes(archive, archive_attr, with, omit_bounds))]
pub fn archive(t: TokenStream) -> TokenStream {
    let i = parse_macro_input!(t as DeriveInput);
    let (n, v) = (&i.ident, &i.vis);
    let a = format_ident!("Archived{}", n);
    match &i.data {
        Data::Struct(s) => {
            let ty: Vec<_> = s.fields.iter().map(|f| &f.ty).collect();
            let fv: Vec<_> = s.fields.iter().map(|f| &f.vis).collect();
            match &s.fields {
                Fields::Named(_) => {
                    let id: Vec<_> = s.fields.iter().map(|f| f.ident.as_ref().unwrap()).collect();
                    quote! {
                        #v struct #a { #(#fv #id: <#ty as rkyv::Archive>::Archived),* }
                        impl rkyv::Archive for #n { type Archived = #a; fn to_archived(&self) -> #a { #a { #(#id: rkyv::Archive::to_archived(&self.#id)),* } } }
                        impl rkyv::FromArchived<#n> for #a { fn from_archived(&self) -> #n { #n { #(#id: rkyv::FromArchived::from_archived(&self.#id)),* } } }
                    }
                }
                _ => {
                    let k: Vec<_> = (0..ty.len()).map(syn::Index::from).collect();
                    quote! {
                        #v struct #a ( #(#fv <#ty as rkyv::Archive>::Archived),* );
                        impl rkyv::Archive for #n { type Archived = #a; fn to_archived(&self) -> #a { #a ( #(rkyv::Archive::to_archived(&self.#k)),* ) } }
                        impl rkyv::FromArchived<#n> for #a { fn from_archived(&self) -> #n { #n ( #(rkyv::FromArchived::from_archived(&self.#k)),* ) } }
                    }
                }
            }
        }
        _ => quote! {
            #v struct #a(#n);
            impl rkyv::Archive for #n { type Archived = #a; fn to_archived(&self) -> #a { #a(Clone::clone(self)) } }
            impl rkyv::FromArchived<#n> for #a { fn from_archived(&self) -> #n { Clone::clone(&self.0) } }
        },
    }
    .into()
}
#[proc_macro_derive(Serialize, attributes(archive, archive_attr, with, omit_bounds))]
pub fn ser(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(Deserialize, attributes(archive, archive_attr, with, omit_bounds))]
pub fn de(_: TokenStream) -> TokenStream { TokenStream::new() }
