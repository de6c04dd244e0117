//! The same tokens from elsewhere: built by a program, with spans from anywhere, from an attribute, or
//! handed to a procedural macro by the compiler. The text of an input says what is to be the outcome.
use crate::canon::{LINE, at, strip};
use crate::report::{Report, Violation, begin, end, esc, hash, watch};
use crate::sm::{self, SmDef};
use crate::sn::{self, EMITTED, SnDef, TOKENS};
use proc_macro2::{Group, Span, TokenStream, TokenTree};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicUsize, Ordering};
use syn::parse::{ParseStream, Parser};

#[derive(Clone, Copy)]
pub enum Def {
    Sm(&'static SmDef),
    Sn(&'static SnDef),
}
impl Def {
    fn id(self) -> (&'static str, &'static str) {
        match self {
            Def::Sm(d) => (d.id, d.src),
            Def::Sn(d) => (d.id, d.src),
        }
    }
    /// What the derived parser says to the tokens, or to the text.
    fn ask(self, ts: Option<TokenStream>, text: &str) -> String {
        let r = catch_unwind(|| {
            TOKENS.set(ts);
            EMITTED.set(None);
            match self {
                Def::Sm(d) => sn::over(d.parse, text).map(|v| v.join(" | ")),
                Def::Sn(d) => (d.run)(text).map(|r| match r.emitted {
                    Some((e, again)) => format!("{} and {}, emitted {e}, again {again:?}", r.canon, r.rest),
                    None => format!("{} and {}", r.canon, r.rest),
                }),
            }
        });
        match r {
            Ok(Ok(v)) => format!("ok {v}"),
            Ok(Err(e)) => format!("err {} {e}", at(e.span())),
            Err(p) => {
                let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                format!("panic {}", s.unwrap_or_default())
            }
        }
    }
}

fn respan(ts: TokenStream, to: &mut dyn FnMut() -> Span) -> TokenStream {
    ts.into_iter()
        .map(|mut t| {
            let s = to();
            if let TokenTree::Group(g) = t {
                t = TokenTree::Group(Group::new(g.delimiter(), respan(g.stream(), to)));
            }
            t.set_span(s);
            t
        })
        .collect()
}
fn spans(ts: TokenStream, out: &mut Vec<Span>) {
    for t in ts {
        out.push(t.span());
        if let TokenTree::Group(g) = t {
            spans(g.stream(), out);
        }
    }
}
/// Spans of other tokens in a source of their own, with the columns of those given and `sep` between them.
fn places(of: &[Span], token: &str, sep: &str) -> Vec<Span> {
    let text: Vec<String> = of.iter().map(|s| format!("{}{token}", " ".repeat(s.start().column))).collect();
    let ts: TokenStream = text.join(sep).parse().unwrap();
    ts.into_iter().map(|t| t.span()).collect()
}
/// In an argument of a parser, the tokens of the first attribute there.
fn in_attribute(d: Def, text: &str) -> String {
    let parse = |i: ParseStream| i.call(syn::Attribute::parse_outer);
    let attrs = Parser::parse_str(parse, text).unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| match d {
        Def::Sm(d) => attrs[0].parse_args_with(d.parse).map(|v| v.join(" | ")),
        Def::Sn(_) => unreachable!(),
    }));
    match r {
        Ok(Ok(v)) => format!("ok {v}"),
        Ok(Err(e)) => format!("err {} {e}", at(e.span())),
        Err(_) => "panic".into(),
    }
}

/// Which fragments of a macro could stand for the text.
fn kinds(s: &str) -> Vec<&'static str> {
    let mut out = vec![];
    if s.starts_with('_') && s.len() == 1 {
        return out;
    }
    if syn::parse_str::<syn::Expr>(s).is_ok_and(|e| !matches!(e, syn::Expr::Verbatim(_) | syn::Expr::Let(_))) {
        out.push("expr");
    }
    if syn::parse_str::<syn::Type>(s).is_ok_and(|t| matches!(t, syn::Type::Path(_) | syn::Type::Tuple(_) | syn::Type::Paren(_))) {
        out.push("ty");
    }
    if syn::parse_str::<syn::Lit>(s).is_ok() && !s.starts_with('-') {
        out.push("literal");
    }
    if syn::parse_str::<syn::Ident>(s).is_ok() {
        out.push("ident");
    }
    if syn::parse_str::<syn::Meta>(s).is_ok_and(|m| match m {
        syn::Meta::NameValue(n) => matches!(n.value, syn::Expr::Lit(_)),
        _ => true,
    }) {
        out.push("meta");
    }
    out
}
fn trees(ts: TokenStream, out: &mut Vec<(usize, usize)>) {
    for t in ts {
        out.push((t.span().start().column, t.span().end().column));
        if let TokenTree::Group(g) = t {
            trees(g.stream(), out);
        }
    }
}

/// Entry point: `prog OUT LINES every|accepted [family=]PASS...`. Compares what can be compared here, and writes what the
/// procedural macros are to be given: definition, text, outcome, fragments.
pub fn main(defs: &[(&'static str, Def, usize)]) {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    watch(&args[1]);
    let mut rep = Report::default();
    // fragments in the inputs that are rejected, too
    let every = args[3] == "every";
    let mut lines = String::new();
    for (fam, d, k) in defs {
        rep.defs += 1;
        let (id, src) = d.id();
        let mut list = vec![];
        for p in &args[4..] {
            let (f, p) = p.split_once('=').unwrap_or(("", p));
            if !f.is_empty() && f != *fam {
                continue;
            }
            list.append(&mut match d {
                Def::Sm(d) => {
                    let mut c = sm::Ctx::new(sm::Mask::default());
                    c.list = Some(vec![]);
                    c.pass(d, p);
                    c.list.unwrap()
                }
                Def::Sn(d) => {
                    let mut c = sn::Ctx::new();
                    c.list = Some(vec![]);
                    c.pass(d, p);
                    c.list.unwrap()
                }
            });
        }
        let mut seen = std::collections::HashSet::new();
        list.retain(|t| !t.contains("NONE__") && seen.insert(t.clone()));
        for text in list {
            rep.traces += 1;
            if rep.traces % 1024 == 0 {
                proc_macro2::extra::invalidate_current_thread_spans();
            }
            begin(id, src, &text);
            let line = format!("\n{text}");
            let want = d.ask(None, &line);
            let bare = strip(&want);
            rep.states.insert(hash(&format!("{id} {want}")));
            rep.outcomes.insert(hash(&bare));
            if want.starts_with("ok") {
                rep.accepted += 1;
            } else {
                rep.rejected += 1;
            }
            if rep.samples.len() < 6 && rep.traces % 97 == 1 {
                rep.samples.push((src.into(), text.clone(), want.clone()));
            }
            let ts: TokenStream = line.parse().unwrap();
            let mut all = vec![];
            spans(ts.clone(), &mut all);
            let first = all.first().copied().unwrap_or(Span::call_site());
            let mut back = all.iter().rev().copied();
            let mut call = || Span::call_site();
            let mut one = || first;
            let mut rev = || back.next().unwrap();
            let own = places(&all, "a", "\n");
            let (mut own, mut files) = (own.into_iter(), all.iter().map(|s| places(&[*s], "Z", "")[0]));
            let mut own = || own.next().unwrap();
            let mut files = || files.next().unwrap();
            let sources: [(&str, &mut dyn FnMut() -> Span); 5] = [
                ("all spans the call site", &mut call),
                ("all spans the same", &mut one),
                ("spans in reverse", &mut rev),
                ("every token on a line of its own", &mut own),
                ("every token from a source of its own", &mut files),
            ];
            for (what, to) in sources {
                rep.transitions += 1;
                let got = strip(&d.ask(Some(respan(ts.clone(), to)), ""));
                if got != bare {
                    rep.violation(Violation {
                        def: id.into(),
                        src: src.into(),
                        input: text.clone(),
                        class: format!("different with {what}"),
                        expected: bare.clone(),
                        got,
                    });
                }
            }
            if let Def::Sm(_) = d {
                rep.transitions += 1;
                let got = in_attribute(*d, &format!("#[x(\n{text}\n)]"));
                if got != want {
                    rep.violation(Violation {
                        def: id.into(),
                        src: src.into(),
                        input: text.clone(),
                        class: "different in an attribute".into(),
                        expected: want.clone(),
                        got,
                    });
                }
            }
            end();
            let cs: Vec<char> = text.chars().collect();
            let mut us = vec![];
            match d {
                Def::Sm(_) => sm::units(&cs, 0, cs.len(), &mut us),
                Def::Sn(_) => trees(ts, &mut us),
            }
            us.sort();
            us.dedup();
            let mut frags = vec![];
            for (a, b) in us {
                if !every && !want.starts_with("ok") {
                    break;
                }
                let part: String = cs[a..b].iter().collect();
                for kind in kinds(&part) {
                    frags.push(format!("[{a},{b},{}]", esc(kind)));
                }
            }
            lines.push_str(&format!("[{k},{},{},[{}]]\n", esc(&text), esc(&want), frags.join(",")));
        }
    }
    std::fs::write(&args[2], lines).unwrap();
    std::fs::write(&args[1], rep.json()).unwrap();
}

// ---------------------------------------------------------------------------------------------
// In a procedural macro

static SHOWN: AtomicUsize = AtomicUsize::new(0);

/// Input: groups of a number, the number of the definition, `"expected outcome"` and mode, then on the next line
/// the tokens themselves. Modes: `all`, `no_place`, `again` (for what a derived ToTokens has emitted).
/// Output: the emitted tokens as input of the macro `path`; a compile error per difference.
pub fn replay(defs: &[Def], path: &str, input: TokenStream) -> TokenStream {
    let (mut out, mut emitted) = (TokenStream::new(), TokenStream::new());
    for t in input {
        let TokenTree::Group(g) = t else { panic!("group") };
        if let Some(text) = one(defs, g.stream(), &mut emitted) {
            if SHOWN.fetch_add(1, Ordering::Relaxed) < 40 {
                out.extend(quote::quote!(::core::compile_error! { #text }));
            }
        }
    }
    if !emitted.is_empty() {
        let path: TokenStream = path.parse().unwrap();
        out.extend(quote::quote!(#path! { #emitted }));
    }
    out
}
fn one(defs: &[Def], input: TokenStream, emitted: &mut TokenStream) -> Option<String> {
    let mut it = input.into_iter();
    let Some(TokenTree::Literal(n)) = it.next() else { panic!("number") };
    LINE.set(n.span().start().line + 1);
    let k = it.next().unwrap();
    let want: syn::LitStr = syn::parse2(it.next().unwrap().into()).unwrap();
    let want = want.value();
    let mode = it.next().unwrap().to_string();
    let d = defs[k.to_string().parse::<usize>().unwrap()];
    let got = d.ask(Some(it.collect()), "");
    // nothing of this call may be left for the next one
    let last = EMITTED.take();
    TOKENS.set(None);
    let (class, want, got) = match mode.as_str() {
        "all" => {
            if let (Some(ts), Some((_, again))) = (last, want.rsplit_once(", again Ok(")) {
                let again = strip(again);
                emitted.extend(quote::quote!({ #n #k #again again #ts }));
            }
            // the delimiters of a group that a macro makes have one place, that of the opening one
            let bare = |s: &str| {
                let mut s = match s.rsplit_once(", emitted ") {
                    Some((a, b)) => format!("{a}, emitted {}", strip(b)),
                    None => s.to_string(),
                };
                for close in [")@", "]@", "}@"] {
                    let mut parts = s.split(close);
                    let mut t = parts.next().unwrap().to_string();
                    for p in parts {
                        t.push_str(&close[..1]);
                        t.push_str(p.trim_start_matches(|c: char| c.is_ascii_digit() || c == '?'));
                    }
                    s = t;
                }
                // a lifetime is one token for the compiler
                let mut words: Vec<String> = s.split(' ').map(|w| w.into()).collect();
                for i in 1..words.len() {
                    if words[i - 1].contains("'@") {
                        words[i] = strip(&words[i]);
                    }
                }
                words.join(" ")
            };
            ("different as input of a procedural macro", bare(&want), bare(&got))
        }
        "no_place" => {
            let (want, got) = (strip(&want), strip(&got));
            if want.starts_with("err") && got.starts_with("err") {
                return None;
            }
            ("different with a macro fragment", want, got)
        }
        "again" => {
            let got = strip(&got);
            let got = got.rsplit_once(", again Ok(").map_or(&*got, |x| x.1).to_string();
            ("emitted tokens differ when they come back", want, got)
        }
        m => panic!("mode {m}"),
    };
    let text = format!(
        "G04 {{\"n\":{n},\"class\":{},\"expected\":{},\"got\":{}}} END",
        esc(class),
        esc(&want),
        esc(&got)
    );
    (want != got).then_some(text)
}
