//! Derives for the stand-in `ssz_rs`.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as Ts;
use quote::quote;
use syn::{Data, DeriveInput, Fields, Generics, Index, Member};

fn is_transparent(input: &DeriveInput) -> bool {
    input.attrs.iter().any(|a| {
        a.path().is_ident("ssz") && {
            let mut t = false;
            let _ = a.parse_nested_meta(|m| {
                if m.path.is_ident("transparent") {
                    t = true;
                }
                Ok(())
            });
            t
        }
    })
}

fn members(fields: &Fields) -> (Vec<Member>, Vec<syn::Type>, bool) {
    match fields {
        Fields::Named(f) => (
            f.named.iter().map(|f| Member::Named(f.ident.clone().unwrap())).collect(),
            f.named.iter().map(|f| f.ty.clone()).collect(),
            false,
        ),
        Fields::Unnamed(f) => (
            (0..f.unnamed.len()).map(|i| Member::Unnamed(Index::from(i))).collect(),
            f.unnamed.iter().map(|f| f.ty.clone()).collect(),
            f.unnamed.len() == 1,
        ),
        Fields::Unit => (vec![], vec![], false),
    }
}

fn serializable(input: &DeriveInput) -> Ts {
    let name = &input.ident;
    let generics: &Generics = &input.generics;
    let (ig, tg, wc) = generics.split_for_impl();
    match &input.data {
        Data::Struct(s) => {
            let (m, t, newtype) = members(&s.fields);
            if newtype {
                let t = &t[0];
                return quote! {
                    impl #ig ::ssz_rs::Serializable for #name #tg #wc {
                        fn is_variable_size() -> bool { <#t as ::ssz_rs::Serializable>::is_variable_size() }
                        fn size_hint() -> usize { <#t as ::ssz_rs::Serializable>::size_hint() }
                    }
                    impl #ig ::ssz_rs::Serialize for #name #tg #wc {
                        fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                            ::ssz_rs::Serialize::serialize(&self.0, buffer)
                        }
                    }
                    impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
                        fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> {
                            Ok(Self(<#t as ::ssz_rs::Deserialize>::deserialize(encoding)?))
                        }
                    }
                };
            }
            quote! {
                impl #ig ::ssz_rs::Serializable for #name #tg #wc {
                    fn is_variable_size() -> bool { false #( || <#t as ::ssz_rs::Serializable>::is_variable_size() )* }
                    fn size_hint() -> usize {
                        if <Self as ::ssz_rs::Serializable>::is_variable_size() { 0 } else { 0 #( + <#t as ::ssz_rs::Serializable>::size_hint() )* }
                    }
                }
                impl #ig ::ssz_rs::Serialize for #name #tg #wc {
                    fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                        let mut s = ::ssz_rs::__internal::Composer::default();
                        #( s.push(&self.#m)?; )*
                        s.finish(buffer)
                    }
                }
                impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
                    fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> {
                        let parts = ::ssz_rs::__internal::split(encoding, &[ #( (<#t as ::ssz_rs::Serializable>::is_variable_size(), <#t as ::ssz_rs::Serializable>::size_hint()) ),* ])?;
                        let mut parts = parts.into_iter();
                        Ok(Self { #( #m: <#t as ::ssz_rs::Deserialize>::deserialize(parts.next().unwrap())? ),* })
                    }
                }
            }
        }
        Data::Enum(e) => {
            assert!(is_transparent(input), "stand-in supports only transparent enums");
            let v: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
            let t: Vec<_> = e.variants.iter().map(|v| match &v.fields {
                Fields::Unnamed(f) => f.unnamed[0].ty.clone(),
                _ => panic!("transparent variant"),
            }).collect();
            let first = &t[0];
            let _ = first;
            quote! {
                impl #ig ::ssz_rs::Serializable for #name #tg #wc {
                    fn is_variable_size() -> bool { true }
                    fn size_hint() -> usize { 0 }
                }
                impl #ig ::ssz_rs::Serialize for #name #tg #wc {
                    fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                        match self { #( Self::#v(value) => ::ssz_rs::Serialize::serialize(value, buffer), )* }
                    }
                }
            }
        }
        _ => panic!("unions unsupported"),
    }
}

fn hash_tree_root(input: &DeriveInput) -> Ts {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    match &input.data {
        Data::Struct(s) => {
            let (m, t, newtype) = members(&s.fields);
            if newtype {
                let t = &t[0];
                return quote! {
                    impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
                        fn hash_tree_root(&self) -> ::std::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> {
                            ::ssz_rs::HashTreeRoot::hash_tree_root(&self.0)
                        }
                        fn is_composite_type() -> bool { <#t as ::ssz_rs::HashTreeRoot>::is_composite_type() }
                    }
                };
            }
            quote! {
                impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
                    fn hash_tree_root(&self) -> ::std::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> {
                        let chunks = [ #( ::ssz_rs::HashTreeRoot::hash_tree_root(&self.#m)?.0 ),* ];
                        ::ssz_rs::__internal::merkleize_chunks(&chunks, chunks.len())
                    }
                }
            }
        }
        Data::Enum(e) => {
            let v: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
            quote! {
                impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
                    fn hash_tree_root(&self) -> ::std::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> {
                        match self { #( Self::#v(value) => ::ssz_rs::HashTreeRoot::hash_tree_root(value), )* }
                    }
                }
            }
        }
        _ => panic!("unions unsupported"),
    }
}

fn indexable(input: &DeriveInput) -> Ts {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    match &input.data {
        Data::Struct(s) => {
            let (m, t, newtype) = members(&s.fields);
            if newtype {
                let t = &t[0];
                return quote! {
                    impl #ig ::ssz_rs::GeneralizedIndexable for #name #tg #wc {
                        fn chunk_count() -> usize { <#t as ::ssz_rs::GeneralizedIndexable>::chunk_count() }
                        fn compute_generalized_index(parent: usize, path: &[::ssz_rs::PathElement]) -> ::std::result::Result<usize, ::ssz_rs::MerkleizationError> {
                            <#t as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(parent, path)
                        }
                    }
                };
            }
            let n = m.len();
            let names: Vec<String> = m.iter().map(|m| match m { Member::Named(i) => i.to_string(), Member::Unnamed(i) => i.index.to_string() }).collect();
            let idx: Vec<usize> = (0..n).collect();
            quote! {
                impl #ig ::ssz_rs::GeneralizedIndexable for #name #tg #wc {
                    fn chunk_count() -> usize { #n }
                    fn compute_generalized_index(parent: usize, path: &[::ssz_rs::PathElement]) -> ::std::result::Result<usize, ::ssz_rs::MerkleizationError> {
                        match path.split_first() {
                            None => Ok(parent),
                            Some((::ssz_rs::PathElement::Field(field), rest)) => {
                                let width = (#n as usize).next_power_of_two();
                                match field.as_str() {
                                    #( #names => <#t as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(parent * width + #idx, rest), )*
                                    _ => Err(::ssz_rs::MerkleizationError::InvalidPath(path.to_vec())),
                                }
                            }
                            _ => Err(::ssz_rs::MerkleizationError::InvalidPath(path.to_vec())),
                        }
                    }
                }
            }
        }
        _ => quote! {},
    }
}

#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn derive_serializable(input: TokenStream) -> TokenStream {
    serializable(&syn::parse_macro_input!(input as DeriveInput)).into()
}

#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn derive_hash_tree_root(input: TokenStream) -> TokenStream {
    hash_tree_root(&syn::parse_macro_input!(input as DeriveInput)).into()
}

#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn derive_simple_serialize(input: TokenStream) -> TokenStream {
    let input = syn::parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let a = serializable(&input);
    let b = hash_tree_root(&input);
    let c = indexable(&input);
    quote! { #a #b #c impl #ig ::ssz_rs::SimpleSerialize for #name #tg #wc {} }.into()
}
