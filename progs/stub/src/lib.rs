//! Derives that accept everything and do nothing: what does not compile with these is not for the real ones to accept.
use proc_macro::TokenStream;

#[proc_macro_derive(Serialize, attributes(serde))]
pub fn ser(_: TokenStream) -> TokenStream {
    TokenStream::new()
}

#[proc_macro_derive(Deserialize, attributes(serde))]
pub fn de(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
