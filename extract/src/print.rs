//! Token printing with line breaks, so that verifier messages have usable
//! locations.

use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use syn::Block;

/// Print tokens on one line.
pub fn flat(ts: TokenStream) -> String {
    let mut out = String::new();
    flat_into(ts, &mut out);
    out.trim().to_string()
}

fn flat_into(ts: TokenStream, out: &mut String) {
    let mut joint = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = delim(g.delimiter());
                out.push_str(o);
                flat_into(g.stream(), out);
                out.push_str(c);
                out.push(' ');
                joint = false;
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                joint = p.spacing() == Spacing::Joint;
                if !joint {
                    out.push(' ');
                }
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
                joint = false;
            }
        }
    }
    let _ = joint;
}

fn delim(d: Delimiter) -> (&'static str, &'static str) {
    match d {
        Delimiter::Brace => ("{ ", "}"),
        Delimiter::Parenthesis => ("(", ")"),
        Delimiter::Bracket => ("[", "]"),
        Delimiter::None => ("", ""),
    }
}

/// Print a block over several lines.
pub fn block(b: &Block) -> String {
    let mut out = String::new();
    multi(b.to_token_stream(), &mut out, 1);
    out
}

fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    out.push('\n');
    for _ in 0..ind {
        out.push_str("    ");
    }
}

fn multi(ts: TokenStream, out: &mut String, ind: usize) {
    let mut iter = ts.into_iter().peekable();
    while let Some(t) = iter.next() {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    out.push('{');
                    nl(out, ind + 1);
                    multi(g.stream(), out, ind + 1);
                    nl(out, ind);
                    out.push_str("} ");
                    let brk = match iter.peek() {
                        Some(TokenTree::Punct(_)) => false,
                        Some(TokenTree::Ident(i)) => i != "else",
                        Some(TokenTree::Group(_)) => true,
                        Some(TokenTree::Literal(_)) => true,
                        None => false,
                    };
                    if brk {
                        nl(out, ind);
                    }
                }
                d => {
                    let (o, c) = delim(d);
                    out.push_str(o);
                    multi(g.stream(), out, ind);
                    out.push_str(c);
                    out.push(' ');
                }
            },
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.spacing() != Spacing::Joint {
                    out.push(' ');
                }
                if p.as_char() == ';' && iter.peek().is_some() {
                    nl(out, ind);
                }
                if p.as_char() == ',' && out.ends_with("} , ") {
                    nl(out, ind);
                }
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
    }
}
