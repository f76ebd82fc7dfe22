//! Stand-in for async-trait: the traits it is used with here (reqwest-middleware's) have native async
//! methods in their stand-ins, so that nothing needs to be rewritten.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
