//! Auxiliary proc macros that realistic (and hostile) crates combine with the
//! macros under test. Written with `proc_macro` only.
extern crate proc_macro;
use proc_macro::TokenStream;

fn prepend(attr: &str, item: TokenStream) -> TokenStream {
    let mut out: TokenStream = attr.parse().unwrap();
    out.extend(item);
    out
}

/// `#[hidden_attr(repr(packed))]`: puts `#[<args>]` in front of the item.
#[proc_macro_attribute]
pub fn hidden_attr(args: TokenStream, item: TokenStream) -> TokenStream {
    prepend(&format!("#[{}]", args), item)
}

/// Returns the item unchanged.
#[proc_macro_attribute]
pub fn identity(_args: TokenStream, item: TokenStream) -> TokenStream {
    item
}

/// `#[append_items(<items>)]`: the item followed by the given items.
#[proc_macro_attribute]
pub fn append_items(args: TokenStream, item: TokenStream) -> TokenStream {
    let mut out = item;
    out.extend(args);
    out
}

/// Drops the annotated item and emits the given tokens in its place.
#[proc_macro_attribute]
pub fn replace_item(args: TokenStream, _item: TokenStream) -> TokenStream {
    args
}

/// Derive that expands to nothing and owns the helper attribute `#[helper]`.
#[proc_macro_derive(Nop, attributes(helper))]
pub fn nop(_item: TokenStream) -> TokenStream {
    TokenStream::new()
}

/// Derive that expands to nothing and owns the helper attribute `#[pin]`.
#[proc_macro_derive(PinNop, attributes(pin))]
pub fn pin_nop(_item: TokenStream) -> TokenStream {
    TokenStream::new()
}

/// `#[with_field(<tokens>)]`: appends the tokens to the item's body (a field, or a variant of an enum).
#[proc_macro_attribute]
pub fn with_field(args: TokenStream, item: TokenStream) -> TokenStream {
    use proc_macro::{Delimiter, Group, TokenTree};
    let mut seen_kw = false;
    let mut done = false;
    item.into_iter()
        .map(|tt| match tt {
            TokenTree::Ident(i) => {
                if matches!(i.to_string().as_str(), "struct" | "enum") {
                    seen_kw = true;
                }
                TokenTree::Ident(i)
            }
            TokenTree::Group(g) if seen_kw && !done && g.delimiter() != Delimiter::Bracket => {
                done = true;
                let mut s = g.stream();
                s.extend(args.clone());
                let mut n = Group::new(g.delimiter(), s);
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}

fn map_ident(ts: TokenStream, from: &str, to: &TokenStream) -> TokenStream {
    use proc_macro::{Group, TokenTree};
    ts.into_iter()
        .flat_map(|tt| match tt {
            TokenTree::Ident(ref i) if i.to_string() == from => to.clone(),
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), map_ident(g.stream(), from, to));
                n.set_span(g.span());
                TokenTree::Group(n).into()
            }
            t => t.into(),
        })
        .collect()
}

/// `#[subst(Old, <tokens>)]`: replaces every identifier `Old` in the item by the tokens.
#[proc_macro_attribute]
pub fn subst(args: TokenStream, item: TokenStream) -> TokenStream {
    let mut it = args.into_iter();
    let from = it.next().unwrap().to_string();
    it.next();
    map_ident(item, &from, &it.collect())
}
