//! Stand-in for wolfram-library-link's `#[export]`: keeps the function as written, makes it `pub`, and leaves out the C wrapper.
use proc_macro::{Ident, Span, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn export(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut done = false;
    let mut out = Vec::new();
    for t in item {
        if let TokenTree::Ident(i) = &t {
            let s = i.to_string();
            if !done && s == "fn" { out.push(TokenTree::Ident(Ident::new("pub", Span::call_site()))); }
            if s == "pub" || s == "fn" { done = true; }
        }
        out.push(t);
    }
    out.into_iter().collect()
}
