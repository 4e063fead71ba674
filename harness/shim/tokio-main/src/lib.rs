use proc_macro::{Ident, TokenStream, TokenTree};
/// `#[tokio::main]`: the function stays async and is called `tokio_main`; the harness runs it.
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut done = false;
    let t = item.into_iter().map(|t| match t {
        TokenTree::Ident(i) if !done && i.to_string() == "main" => {
            done = true;
            TokenTree::Ident(Ident::new("tokio_main", i.span()))
        }
        t => t,
    });
    t.collect()
}
