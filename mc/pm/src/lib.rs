//! Procedural macros that emit the definition they are given, as macros of other crates do (G02).
use proc_macro::{Group, Span, TokenStream, TokenTree};

/// Gives every token another span: `f` is asked with the number of the token.
fn respan(ts: TokenStream, n: &mut usize, f: &dyn Fn(usize, Span) -> Span) -> TokenStream {
    ts.into_iter()
        .map(|t| {
            *n += 1;
            let s = f(*n, t.span());
            let mut t = match t {
                TokenTree::Group(g) => {
                    let inner = respan(g.stream(), n, f);
                    TokenTree::Group(Group::new(g.delimiter(), inner))
                }
                t => t,
            };
            t.set_span(s);
            t
        })
        .collect()
}

#[proc_macro]
pub fn call(i: TokenStream) -> TokenStream {
    respan(i, &mut 0, &|_, _| Span::call_site())
}
#[proc_macro]
pub fn mixed(i: TokenStream) -> TokenStream {
    respan(i, &mut 0, &|_, _| Span::mixed_site())
}
#[proc_macro]
pub fn odd(i: TokenStream) -> TokenStream {
    respan(i, &mut 0, &|n, s| if n % 2 == 1 { s.resolved_at(Span::mixed_site()) } else { s })
}
#[proc_macro]
pub fn even(i: TokenStream) -> TokenStream {
    respan(i, &mut 0, &|n, _| if n % 2 == 0 { Span::mixed_site() } else { Span::call_site() })
}
#[proc_macro_attribute]
pub fn keep(_: TokenStream, i: TokenStream) -> TokenStream {
    i
}
#[proc_macro_attribute]
pub fn keep_mixed(_: TokenStream, i: TokenStream) -> TokenStream {
    mixed(i)
}
