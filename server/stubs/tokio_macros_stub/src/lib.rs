//! #[tokio::main]: the simulator calls the async function itself.
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn main(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let already = matches!(item.clone().into_iter().find(|t| !matches!(t, TokenTree::Punct(_) | TokenTree::Group(_))), Some(TokenTree::Ident(i)) if i.to_string() == "pub");
    if already { return item; }
    let mut out: TokenStream = "pub".parse().unwrap();
    out.extend(item);
    out
}
