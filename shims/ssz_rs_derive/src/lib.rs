//! The derive macros of the ssz_rs stand-in: containers (structs with named fields), and transparent
//! wrappers (`#[ssz(transparent)]` tuple structs and enums).
use proc_macro::TokenStream;
use proc_macro2::TokenStream as Tokens;
use quote::quote;
use syn::{Data, DeriveInput, Fields, Ident, Type, parse_macro_input};

enum Shape {
    Container(Vec<(Ident, Type)>),
    Wrapper(Type),
    Enum(Vec<(Ident, Type)>),
}

fn shape(input: &DeriveInput) -> Shape {
    match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => Shape::Container(
                f.named.iter().map(|f| (f.ident.clone().unwrap(), f.ty.clone())).collect(),
            ),
            Fields::Unnamed(f) if f.unnamed.len() == 1 => Shape::Wrapper(f.unnamed[0].ty.clone()),
            _ => panic!("unsupported struct"),
        },
        Data::Enum(e) => Shape::Enum(
            e.variants
                .iter()
                .map(|v| match &v.fields {
                    Fields::Unnamed(f) if f.unnamed.len() == 1 => (v.ident.clone(), f.unnamed[0].ty.clone()),
                    _ => panic!("unsupported variant"),
                })
                .collect(),
        ),
        Data::Union(_) => panic!("unsupported union"),
    }
}

fn serializable(input: &DeriveInput) -> Tokens {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let (variable, hint, ser, de) = match shape(input) {
        Shape::Container(f) => {
            let names: Vec<_> = f.iter().map(|f| &f.0).collect();
            let types: Vec<_> = f.iter().map(|f| &f.1).collect();
            (
                quote!(false #(|| <#types as ::ssz_rs::Serializable>::is_variable_size())*),
                quote!(if Self::is_variable_size() { 0 } else { 0 #(+ <#types as ::ssz_rs::Serializable>::size_hint())* }),
                quote! {
                    let mut w = ::ssz_rs::__internal::Writer::default();
                    #(w.field(&self.#names)?;)*
                    w.finish(buffer)
                },
                quote! {
                    let mut r = ::ssz_rs::__internal::Reader::new(encoding);
                    #(r.declare::<#types>()?;)*
                    r.begin()?;
                    Ok(Self { #(#names: r.field::<#types>()?,)* })
                },
            )
        }
        Shape::Wrapper(t) => (
            quote!(<#t as ::ssz_rs::Serializable>::is_variable_size()),
            quote!(<#t as ::ssz_rs::Serializable>::size_hint()),
            quote!(::ssz_rs::Serialize::serialize(&self.0, buffer)),
            quote!(Ok(Self(<#t as ::ssz_rs::Deserialize>::deserialize(encoding)?))),
        ),
        Shape::Enum(v) => {
            let names: Vec<_> = v.iter().map(|f| &f.0).collect();
            let types: Vec<_> = v.iter().map(|f| &f.1).collect();
            (
                quote!(true),
                quote!(0),
                quote!(match self { #(Self::#names(inner) => ::ssz_rs::Serialize::serialize(inner, buffer),)* }),
                quote! {
                    #(if let Ok(inner) = <#types as ::ssz_rs::Deserialize>::deserialize(encoding) {
                        return Ok(Self::#names(inner));
                    })*
                    Err(::ssz_rs::DeserializeError::InvalidInput)
                },
            )
        }
    };
    quote! {
        impl #ig ::ssz_rs::Serializable for #name #tg #wc {
            fn is_variable_size() -> bool { #variable }
            fn size_hint() -> usize { #hint }
        }
        impl #ig ::ssz_rs::Serialize for #name #tg #wc {
            fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::core::result::Result<usize, ::ssz_rs::SerializeError> { #ser }
        }
        impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
            fn deserialize(encoding: &[u8]) -> ::core::result::Result<Self, ::ssz_rs::DeserializeError> { #de }
        }
    }
}

fn indexable(input: &DeriveInput) -> Tokens {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let (count, index) = match shape(input) {
        Shape::Container(f) => {
            let n = f.len();
            let arms = f.iter().enumerate().map(|(i, (id, t))| {
                let s = id.to_string();
                quote! {
                    #s => <#t as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(
                        rest, parent * (#n as usize).next_power_of_two() + #i),
                }
            });
            (
                quote!(#n),
                quote! {
                    match path.split_first() {
                        None => Ok(parent),
                        Some((::ssz_rs::PathElement::Field(field), rest)) => match field.as_str() {
                            #(#arms)*
                            _ => Err(::ssz_rs::MerkleizationError::InvalidPath(path.to_vec())),
                        },
                        Some((e, _)) => Err(::ssz_rs::MerkleizationError::InvalidPathElement(e.clone())),
                    }
                },
            )
        }
        Shape::Wrapper(t) => (
            quote!(<#t as ::ssz_rs::GeneralizedIndexable>::chunk_count()),
            quote!(<#t as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(path, parent)),
        ),
        Shape::Enum(v) => {
            let t = &v[v.len() - 1].1;
            (
                quote!(<#t as ::ssz_rs::GeneralizedIndexable>::chunk_count()),
                quote!(<#t as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(path, parent)),
            )
        }
    };
    quote! {
        impl #ig ::ssz_rs::GeneralizedIndexable for #name #tg #wc {
            fn chunk_count() -> usize { #count }
            fn compute_generalized_index(path: ::ssz_rs::Path, parent: ::ssz_rs::GeneralizedIndex)
                -> ::core::result::Result<::ssz_rs::GeneralizedIndex, ::ssz_rs::MerkleizationError> { #index }
        }
    }
}

fn prove(input: &DeriveInput) -> Tokens {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let (tree, below) = match shape(input) {
        Shape::Container(f) => {
            let names: Vec<_> = f.iter().map(|f| &f.0).collect();
            let n = f.len();
            let arms = names.iter().enumerate().map(|(i, id)| quote!(#i => ::ssz_rs::__internal::below(&self.#id, index),));
            (
                quote!(::ssz_rs::Tree::new(vec![#(::ssz_rs::HashTreeRoot::hash_tree_root(&self.#names)?),*], #n)),
                quote!(match chunk { #(#arms)* _ => Err(::ssz_rs::MerkleizationError::InvalidInnerIndex) }),
            )
        }
        Shape::Wrapper(_) => (
            quote!(::ssz_rs::Prove::compute_tree(&self.0)),
            quote!(::ssz_rs::Prove::prove_below(&self.0, chunk, index)),
        ),
        Shape::Enum(v) => {
            let names: Vec<_> = v.iter().map(|f| &f.0).collect();
            (
                quote!(match self { #(Self::#names(inner) => ::ssz_rs::Prove::compute_tree(inner),)* }),
                quote!(match self { #(Self::#names(inner) => ::ssz_rs::Prove::prove_below(inner, chunk, index),)* }),
            )
        }
    };
    quote! {
        impl #ig ::ssz_rs::Prove for #name #tg #wc {
            fn compute_tree(&self) -> ::core::result::Result<::ssz_rs::Tree, ::ssz_rs::MerkleizationError> { #tree }
            fn prove_below(&self, chunk: usize, index: ::ssz_rs::GeneralizedIndex)
                -> ::core::result::Result<::ssz_rs::proofs::Proof, ::ssz_rs::MerkleizationError> { #below }
        }
    }
}

fn hash_tree_root(input: &DeriveInput) -> Tokens {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let body = match shape(input) {
        Shape::Container(f) => {
            let names: Vec<_> = f.iter().map(|f| &f.0).collect();
            let n = f.len();
            quote!(Ok(::ssz_rs::Tree::new(vec![#(::ssz_rs::HashTreeRoot::hash_tree_root(&self.#names)?),*], #n)?.root()))
        }
        Shape::Wrapper(_) => quote!(::ssz_rs::HashTreeRoot::hash_tree_root(&self.0)),
        Shape::Enum(v) => {
            let names: Vec<_> = v.iter().map(|f| &f.0).collect();
            quote!(match self { #(Self::#names(inner) => ::ssz_rs::HashTreeRoot::hash_tree_root(inner),)* })
        }
    };
    quote! {
        impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
            fn hash_tree_root(&self) -> ::core::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> { #body }
        }
    }
}

#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn derive_serializable(input: TokenStream) -> TokenStream {
    serializable(&parse_macro_input!(input as DeriveInput)).into()
}
#[proc_macro_derive(GeneralizedIndexable, attributes(ssz))]
pub fn derive_generalized_indexable(input: TokenStream) -> TokenStream {
    indexable(&parse_macro_input!(input as DeriveInput)).into()
}
#[proc_macro_derive(Prove, attributes(ssz))]
pub fn derive_prove(input: TokenStream) -> TokenStream {
    prove(&parse_macro_input!(input as DeriveInput)).into()
}
#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn derive_hash_tree_root(input: TokenStream) -> TokenStream {
    hash_tree_root(&parse_macro_input!(input as DeriveInput)).into()
}
#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn derive_simple_serialize(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let (name, (ig, tg, wc)) = (&input.ident, input.generics.split_for_impl());
    let (a, b, c, d) = (serializable(&input), indexable(&input), prove(&input), hash_tree_root(&input));
    quote! { #a #b #c #d impl #ig ::ssz_rs::SimpleSerialize for #name #tg #wc {} }.into()
}
