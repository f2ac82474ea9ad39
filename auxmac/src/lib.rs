//! Attribute macros that stand for "another attribute macro applied to the same item".
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

/// Emits the item unchanged.
#[proc_macro_attribute]
pub fn id(_args: TokenStream, item: TokenStream) -> TokenStream {
    item
}

fn join(parts: Vec<TokenStream>) -> TokenStream {
    parts.into_iter().flatten().collect()
}

/// Splits off the leading outer attributes.
fn split_attrs(item: TokenStream) -> (TokenStream, TokenStream) {
    let (mut a, mut b) = (Vec::new(), Vec::new());
    let mut it = item.into_iter().peekable();
    while let Some(TokenTree::Punct(p)) = it.peek() {
        if p.as_char() != '#' {
            break;
        }
        a.push(it.next().unwrap());
        a.push(it.next().unwrap());
    }
    b.extend(it);
    (a.into_iter().collect(), b.into_iter().collect())
}

/// Adds the attribute(s) given as arguments in front of the item.
#[proc_macro_attribute]
pub fn add_attr(args: TokenStream, item: TokenStream) -> TokenStream {
    join(vec![args, item])
}

/// Adds the attribute(s) given as arguments after all attributes of the item.
#[proc_macro_attribute]
pub fn add_attr_last(args: TokenStream, item: TokenStream) -> TokenStream {
    let (a, b) = split_attrs(item);
    join(vec![a, args, b])
}

/// Moves the item's first attribute behind all others.
#[proc_macro_attribute]
pub fn rotate_attrs(_args: TokenStream, item: TokenStream) -> TokenStream {
    let (a, b) = split_attrs(item);
    let mut a: Vec<TokenTree> = a.into_iter().collect();
    if a.len() >= 4 {
        let tail = a.split_off(2);
        let mut t = tail;
        t.extend(a);
        a = t;
    }
    join(vec![a.into_iter().collect(), b])
}

/// Replaces the contents of the item's body (the last brace group, or the last parenthesis group of a tuple struct) by the
/// argument tokens.
#[proc_macro_attribute]
pub fn set_body(args: TokenStream, item: TokenStream) -> TokenStream {
    let (a, b) = split_attrs(item);
    let mut b: Vec<TokenTree> = b.into_iter().collect();
    let tuple = matches!(b.last(), Some(TokenTree::Punct(p)) if p.as_char() == ';');
    let want = if tuple { Delimiter::Parenthesis } else { Delimiter::Brace };
    if let Some(p) = b.iter().rposition(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == want)) {
        let d = match &b[p] {
            TokenTree::Group(g) => g.delimiter(),
            _ => unreachable!(),
        };
        b[p] = TokenTree::Group(Group::new(d, args));
    }
    join(vec![a, b.into_iter().collect()])
}

/// Discards the item and emits the arguments instead.
#[proc_macro_attribute]
pub fn replace_with(args: TokenStream, _item: TokenStream) -> TokenStream {
    args
}

/// Keeps the item's attributes and emits the arguments as the rest of the item.
#[proc_macro_attribute]
pub fn replace_item(args: TokenStream, item: TokenStream) -> TokenStream {
    let (a, _) = split_attrs(item);
    join(vec![a, args])
}

/// Says that it was reached, and emits the item unchanged.
#[proc_macro_attribute]
pub fn probe(_args: TokenStream, item: TokenStream) -> TokenStream {
    eprintln!("PROBE-REACHED");
    item
}
