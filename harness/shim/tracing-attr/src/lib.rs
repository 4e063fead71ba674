use proc_macro::TokenStream;
/// `#[instrument]` without tracing: the function as it is.
#[proc_macro_attribute]
pub fn instrument(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
