//! `#[tokio::main]` and `#[tokio::test]` for the stand-in of tokio.

use proc_macro::{Delimiter, Group, Ident, Punct, Spacing, Span, TokenStream, TokenTree};

/// `async fn main() -> R { body }` becomes `pub fn main() -> R { tokio::runtime::run_main(async move { body }) }`.
#[proc_macro_attribute]
pub fn main(_args: TokenStream, item: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut body = None;
    for t in item {
        match t {
            TokenTree::Ident(ref i) if body.is_none() && (i.to_string() == "async" || i.to_string() == "pub") => {}
            TokenTree::Group(ref g) if g.delimiter() == Delimiter::Brace => {
                if let Some(old) = body.replace(g.clone()) {
                    out.push(TokenTree::Group(old));
                }
            }
            t => out.push(t),
        }
    }
    let at = out.iter().position(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "fn")).expect("a function");
    out.insert(at, TokenTree::Ident(Ident::new("pub", Span::call_site())));
    let word = |s: &str| TokenTree::Ident(Ident::new(s, Span::call_site()));
    let colons = || [TokenTree::Punct(Punct::new(':', Spacing::Joint)), TokenTree::Punct(Punct::new(':', Spacing::Alone))];
    let mut call: Vec<TokenTree> = vec![];
    call.extend(colons());
    call.push(word("tokio"));
    call.extend(colons());
    call.push(word("runtime"));
    call.extend(colons());
    call.push(word("run_main"));
    let fut: TokenStream = [word("async"), word("move"), TokenTree::Group(body.expect("a body"))].into_iter().collect();
    call.push(TokenTree::Group(Group::new(Delimiter::Parenthesis, fut)));
    out.push(TokenTree::Group(Group::new(Delimiter::Brace, call.into_iter().collect())));
    out.into_iter().collect()
}
