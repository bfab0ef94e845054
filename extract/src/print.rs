//! Token stream to text, with line breaks.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn text(ts: TokenStream) -> String {
    let mut s = String::new();
    emit(ts, 0, &mut s);
    s
}

fn nl(ind: usize, s: &mut String) {
    while s.ends_with(' ') {
        s.pop();
    }
    if !s.ends_with('\n') && !s.is_empty() {
        s.push('\n');
    }
    for _ in 0..ind {
        s.push_str("  ");
    }
}

fn emit(ts: TokenStream, ind: usize, s: &mut String) {
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    s.push('{');
                    if g.stream().is_empty() {
                        s.push_str("} ");
                    } else {
                        nl(ind + 1, s);
                        emit(g.stream(), ind + 1, s);
                        nl(ind, s);
                        s.push_str("} ");
                    }
                    let cont = matches!(it.peek(), Some(TokenTree::Punct(p)) if matches!(p.as_char(), ';' | ',' | '.' | '?' | ')'))
                        || matches!(it.peek(), Some(TokenTree::Ident(i)) if i == "else");
                    if !cont {
                        nl(ind, s);
                    } else {
                        s.pop();
                    }
                }
                Delimiter::Parenthesis => {
                    s.push('(');
                    emit(g.stream(), ind + 1, s);
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str(") ");
                }
                Delimiter::Bracket => {
                    s.push('[');
                    emit(g.stream(), ind + 1, s);
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str("] ");
                }
                Delimiter::None => emit(g.stream(), ind, s),
            },
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' {
                    nl(ind, s);
                } else if p.as_char() == ',' {
                    s.push(' ');
                } else if p.spacing() == Spacing::Alone {
                    s.push(' ');
                }
            }
            t => {
                s.push_str(&t.to_string());
                s.push(' ');
            }
        }
    }
}
