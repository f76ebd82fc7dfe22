//! Stand-in for prettyplease: the same tokens, without the layout.
use quote::ToTokens;

pub fn unparse(file: &syn::File) -> String {
    file.to_token_stream().to_string()
}
