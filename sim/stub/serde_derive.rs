// Stand-in for serde_derive: accepts the derives and their attributes, expands to nothing.
extern crate proc_macro;
use proc_macro::TokenStream;
#[proc_macro_derive(Serialize, attributes(serde))]
pub fn s(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(Deserialize, attributes(serde))]
pub fn d(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
