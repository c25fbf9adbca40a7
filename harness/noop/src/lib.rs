//! A derive that does nothing: an item that compiles with it is valid Rust.
use proc_macro::TokenStream;

#[proc_macro_derive(Noop, attributes(serde))]
pub fn noop(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
