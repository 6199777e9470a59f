//! #[wasm_bindgen]: leaves items as they are, drops the attribute within them, and makes
//! structures convertible into a JsValue.
extern crate proc_macro;
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn strip(s: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    for t in s {
        match t {
            TokenTree::Group(g) => {
                if g.delimiter() == Delimiter::Bracket {
                    let first = g.stream().into_iter().next();
                    if matches!(&first, Some(TokenTree::Ident(i)) if i.to_string() == "wasm_bindgen")
                        && matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '#')
                    {
                        out.pop();
                        continue;
                    }
                }
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream {
    let item = strip(item);
    let t: Vec<TokenTree> = item.clone().into_iter().collect();
    let mut out = item;
    for k in 0..t.len() {
        match &t[k] {
            TokenTree::Ident(i) if i.to_string() == "struct" || i.to_string() == "enum" => {
                if let Some(TokenTree::Ident(n)) = t.get(k + 1) {
                    let e: TokenStream = format!(
                        "impl From<{n}> for ::wasm_bindgen::JsValue {{ fn from(x: {n}) -> Self {{ ::wasm_bindgen::JsValue::object(x) }} }}"
                    )
                    .parse()
                    .unwrap();
                    out.extend(e);
                }
                break;
            }
            TokenTree::Ident(i) if i.to_string() == "impl" || i.to_string() == "fn" => break,
            _ => {}
        }
    }
    out
}
