//! Canonical, span-annotated text of parsed values. `tok@col` marks where a token starts; inputs are
//! lexed on line 2 (the driver prepends a newline), so anything else is shown as `@?`.
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashMap;
use structmeta::{Flag, NameArgs, NameValue};

pub fn at(s: Span) -> String {
    match col(s) {
        Some(c) => format!("@{c}"),
        None => "@?".into(),
    }
}
/// The same for the span of a name, which must end where the name ends.
pub fn at_name(s: Span) -> String {
    let word = |t: String| t.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '#');
    if s.source_text().is_none_or(word) { at(s) } else { "@?".into() }
}
thread_local! {
    /// The line that the input is on.
    pub static LINE: std::cell::Cell<usize> = const { std::cell::Cell::new(2) };
}
pub fn col(s: Span) -> Option<usize> {
    let p = s.start();
    (p.line == LINE.get()).then_some(p.column)
}

/// Flat list of tokens with their positions; groups contribute their two delimiters.
pub fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            // invisible groups are transparent
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => flat(g.stream(), out),
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => unreachable!(),
                };
                out.push(format!("{o}{}", at(g.span_open())));
                flat(g.stream(), out);
                out.push(format!("{c}{}", at(g.span_close())));
            }
            TokenTree::Ident(i) => out.push(format!("{i}{}", at(i.span()))),
            TokenTree::Punct(p) => out.push(format!("{}{}", p.as_char(), at(p.span()))),
            TokenTree::Literal(l) => out.push(format!("{l}{}", at(l.span()))),
        }
    }
}
pub fn flat_str(ts: TokenStream) -> String {
    let mut v = Vec::new();
    flat(ts, &mut v);
    v.join(" ")
}

/// Removes the `@12` / `@?` position marks.
pub fn strip(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '@' {
            while it.peek().is_some_and(|c| c.is_ascii_digit() || *c == '?') {
                it.next();
            }
        } else {
            o.push(c);
        }
    }
    o
}

pub trait Canon {
    fn canon(&self) -> String;
}
macro_rules! leaf {
    ($($t:ty),*) => { $(impl Canon for $t { fn canon(&self) -> String { flat_str(self.to_token_stream()) } })* };
}
leaf!(
    syn::LitInt,
    syn::LitStr,
    syn::Expr,
    syn::Ident,
    syn::Type,
    syn::Path,
    syn::LitBool,
    syn::Visibility,
    syn::Meta,
    syn::Lit,
    syn::parse::Nothing,
    syn::Member,
    syn::Stmt,
    syn::Item,
    syn::ReturnType,
    syn::Generics,
    syn::Token![=],
    syn::Token![+],
    syn::Token![,],
    syn::Token![;],
    TokenStream
);
impl Canon for bool {
    fn canon(&self) -> String {
        self.to_string()
    }
}
impl Canon for Flag {
    fn canon(&self) -> String {
        match self.span {
            Some(s) => format!("on{}", at_name(s)),
            None => "off".into(),
        }
    }
}
impl<T: Canon> Canon for Option<T> {
    fn canon(&self) -> String {
        match self {
            Some(x) => format!("+{}", x.canon()),
            None => "-".into(),
        }
    }
}
impl<T: Canon> Canon for Box<T> {
    fn canon(&self) -> String {
        (**self).canon()
    }
}
impl<T: Canon> Canon for Vec<T> {
    fn canon(&self) -> String {
        let v: Vec<_> = self.iter().map(|x| x.canon()).collect();
        format!("[{}]", v.join(";"))
    }
}
impl<T: Canon> Canon for NameValue<T> {
    fn canon(&self) -> String {
        format!("nv{}({})", at_name(self.name_span), self.value.canon())
    }
}
impl<T: Canon> Canon for NameArgs<T> {
    fn canon(&self) -> String {
        format!("na{}({})", at_name(self.name_span), self.args.canon())
    }
}
impl<T: Canon> Canon for HashMap<String, T> {
    fn canon(&self) -> String {
        let mut v: Vec<_> = self.iter().collect();
        v.sort_by_key(|x| x.0);
        let v: Vec<_> = v.into_iter().map(|(k, x)| format!("{k}=>{}", x.canon())).collect();
        format!("{{{}}}", v.join(";"))
    }
}
impl<T: ToTokens, P: ToTokens> Canon for syn::punctuated::Punctuated<T, P> {
    fn canon(&self) -> String {
        format!("p{}[{}]", self.len(), flat_str(self.to_token_stream()))
    }
}
impl Canon for syn::token::Paren {
    fn canon(&self) -> String {
        delim("(", self.span)
    }
}
impl Canon for syn::token::Bracket {
    fn canon(&self) -> String {
        delim("[", self.span)
    }
}
impl Canon for syn::token::Brace {
    fn canon(&self) -> String {
        delim("{", self.span)
    }
}
impl Canon for syn::MacroDelimiter {
    fn canon(&self) -> String {
        match self {
            syn::MacroDelimiter::Paren(x) => x.canon(),
            syn::MacroDelimiter::Bracket(x) => x.canon(),
            syn::MacroDelimiter::Brace(x) => x.canon(),
        }
    }
}
fn delim(c: &str, s: proc_macro2::extra::DelimSpan) -> String {
    format!("{c}{}{}", at(s.open()), at(s.close()))
}
