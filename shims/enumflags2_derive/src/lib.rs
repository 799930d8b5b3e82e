use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_attribute]
pub fn bitflags(_a: TokenStream, item: TokenStream) -> TokenStream {
    let e: syn::ItemEnum = syn::parse(item).unwrap();
    let (n, vs): (_, Vec<_>) = (&e.ident, e.variants.iter().map(|v| &v.ident).collect());
    quote! {
        #e
        impl ::enumflags2::BitFlag for #n {
            const ALL_BITS: u8 = #(#n::#vs as u8)|*;
            fn bits_(self) -> u8 { self as u8 }
            fn all_() -> Vec<Self> { vec![#(#n::#vs),*] }
        }
        impl<B: Into<::enumflags2::BitFlags<#n>>> ::std::ops::BitOr<B> for #n { type Output = ::enumflags2::BitFlags<#n>; fn bitor(self, o: B) -> Self::Output { ::enumflags2::BitFlags::from(self) | o } }
        impl<B: Into<::enumflags2::BitFlags<#n>>> ::std::ops::BitAnd<B> for #n { type Output = ::enumflags2::BitFlags<#n>; fn bitand(self, o: B) -> Self::Output { ::enumflags2::BitFlags::from(self) & o } }
    }.into()
}
