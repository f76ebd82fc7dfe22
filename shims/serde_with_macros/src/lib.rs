//! Stand-in for serde_with's `#[serde_as]`.
use proc_macro::TokenStream;
use quote::quote;
use syn::visit_mut::VisitMut;
use syn::{parse_macro_input, parse_quote, Data, DeriveInput, Fields, LitStr, Type};

struct Infer;
impl VisitMut for Infer {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if matches!(t, Type::Infer(_)) {
            *t = parse_quote!(::serde_with::Same);
        } else {
            syn::visit_mut::visit_type_mut(self, t);
        }
    }
}

fn fields(fields: &mut Fields) {
    for f in fields.iter_mut() {
        let mut out = Vec::new();
        for attr in std::mem::take(&mut f.attrs) {
            if !attr.path().is_ident("serde_as") {
                out.push(attr);
                continue;
            }
            attr.parse_nested_meta(|meta| {
                let lit: LitStr = meta.value()?.parse()?;
                let mut ty: Type = lit.parse()?;
                Infer.visit_type_mut(&mut ty);
                let ty = quote!(#ty).to_string();
                if meta.path.is_ident("as") {
                    let with = format!("::serde_with::As::<{ty}>");
                    out.push(parse_quote!(#[serde(with = #with)]));
                } else if meta.path.is_ident("serialize_as") {
                    let with = format!("::serde_with::As::<{ty}>::serialize");
                    out.push(parse_quote!(#[serde(serialize_with = #with)]));
                } else if meta.path.is_ident("deserialize_as") {
                    let with = format!("::serde_with::As::<{ty}>::deserialize");
                    out.push(parse_quote!(#[serde(deserialize_with = #with)]));
                } else {
                    return Err(meta.error("unsupported by this stand-in"));
                }
                Ok(())
            })
            .expect("serde_as");
        }
        f.attrs = out;
    }
}

#[proc_macro_attribute]
pub fn serde_as(_args: TokenStream, input: TokenStream) -> TokenStream {
    let mut input = parse_macro_input!(input as DeriveInput);
    match &mut input.data {
        Data::Struct(s) => fields(&mut s.fields),
        Data::Enum(e) => e.variants.iter_mut().for_each(|v| fields(&mut v.fields)),
        Data::Union(_) => {}
    }
    quote!(#input).into()
}
