//! `#[derive(Parse)]` / `#[derive(ToTokens)]`: reference model and explorer.
//!
//! The model reads a forest of token trees directly. Inputs are all forests up to a number of nodes over
//! the definition's own alphabet, and everything within k edits of the inputs the model accepts.
use crate::canon::{Canon, flat_str, strip};
use crate::report::{Report, Violation, begin, end, hash, watch};
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashSet;
use std::fmt::Write as _;
use syn::parse::{Parse, ParseStream, Parser};

#[derive(Clone, Copy)]
pub enum Ty {
    Int,
    Str,
    Ident,
    Eq,
    Plus,
    OptEq,
    OptPlus,
    Paren,
    Bracket,
    Brace,
    Macro,
    /// Punctuated<LitInt, Token![,]>
    Ints,
    /// Punctuated<Ident, Token![;]>
    Idents,
    /// TokenStream: everything up to the end
    Rest,
    Node(&'static SnDef),
    /// Punctuated<node, Token![,]>
    Nodes(&'static SnDef),
}
pub struct Fd {
    /// marks before the type's own opening (if the field opens a group, the part after it is in `after`)
    pub closes: usize,
    pub opens: bool,
    pub after: usize,
    pub ty: Ty,
    pub any: bool,
    pub peek: bool,
    pub term: bool,
}
pub struct Vr {
    pub name: &'static str,
    pub fields: &'static [Fd],
}
pub struct SnDef {
    pub id: &'static str,
    pub src: &'static str,
    pub is_enum: bool,
    pub variants: &'static [Vr],
    pub run: fn(&str) -> syn::Result<Res>,
}
pub struct Res {
    pub canon: String,
    pub rest: String,
    /// tokens emitted by ToTokens, and the result of parsing these again
    pub emitted: Option<(String, Result<String, String>)>,
}
/// Parses with `Parse` only.
pub fn run_parse<T: Parse + Canon>(s: &str) -> syn::Result<Res> {
    over(
        |input: ParseStream| {
            let v = T::parse(input)?;
            let rest: TokenStream = input.parse()?;
            Ok(Res { canon: v.canon(), rest: flat_str(rest), emitted: None })
        },
        s,
    )
}
/// Parses, emits the value and parses that again.
pub fn run_both<T: Parse + ToTokens + Canon>(s: &str) -> syn::Result<Res> {
    over(
        |input: ParseStream| {
            let v = T::parse(input)?;
            let rest: TokenStream = input.parse()?;
            let ts = emitted(&v);
            EMITTED.set(Some(ts.clone()));
            let again = match syn::parse2::<T>(ts.clone()) {
                Ok(w) => Ok(w.canon()),
                Err(e) => Err(e.to_string()),
            };
            Ok(Res { canon: v.canon(), rest: flat_str(rest), emitted: Some((flat_str(ts), again)) })
        },
        s,
    )
}

/// What a value emits, which is the same every time and after whatever stands in the stream before.
pub fn emitted<T: ToTokens>(v: &T) -> TokenStream {
    // made anew every time: in a procedural macro no token outlives the call
    let id = |s: &str| TokenTree::from(proc_macro2::Ident::new(s, proc_macro2::Span::call_site()));
    let pre = || {
        let group = Group::new(Delimiter::Parenthesis, id("pre").into());
        [id("pre"), group.into(), proc_macro2::Punct::new('=', proc_macro2::Spacing::Alone).into()]
    };
    let ts = v.to_token_stream();
    let mut out = TokenStream::from_iter(pre());
    v.to_tokens(&mut out);
    (&v).to_tokens(&mut out);
    let want: TokenStream = pre().into_iter().chain(ts.clone()).chain(ts.clone()).collect();
    if flat_str(out.clone()) == flat_str(want) {
        return ts;
    }
    TokenStream::from_iter([id("NOT_APPENDED"), Group::new(Delimiter::Brace, out).into()])
}

/// Canonical text of a list of nodes.
pub fn nodes<T: Canon, S>(p: &syn::punctuated::Punctuated<T, S>) -> String {
    let v: Vec<_> = p.iter().map(|x| x.canon()).collect();
    format!("n{}[{}]", v.len(), v.join(","))
}

// ---------------------------------------------------------------------------------------------
// Forests

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum T {
    L(&'static str),
    G(u8, Vec<T>),
    /// a group without delimiters
    N(Vec<T>),
}
/// In the text of an input, `NONE__ { ... }` stands for a group without delimiters.
fn invisible(ts: TokenStream) -> TokenStream {
    let mut out = Vec::new();
    let mut it = ts.into_iter();
    while let Some(t) = it.next() {
        out.push(match t {
            TokenTree::Ident(i) if i == "NONE__" => {
                let Some(TokenTree::Group(g)) = it.next() else { unreachable!() };
                TokenTree::Group(Group::new(Delimiter::None, invisible(g.stream())))
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), invisible(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        });
    }
    out.into_iter().collect()
}
thread_local! {
    /// the input, if it is not the text
    pub static TOKENS: std::cell::RefCell<Option<TokenStream>> = const { std::cell::RefCell::new(None) };
    /// what the last value parsed has emitted
    pub static EMITTED: std::cell::RefCell<Option<TokenStream>> = const { std::cell::RefCell::new(None) };
}
pub(crate) fn over<R>(f: impl FnOnce(ParseStream) -> syn::Result<R>, s: &str) -> syn::Result<R> {
    if let Some(ts) = TOKENS.take() {
        return Parser::parse2(f, ts);
    }
    if s.contains("NONE__") { Parser::parse2(f, invisible(s.parse()?)) } else { Parser::parse_str(f, s) }
}
const OPEN: [char; 3] = ['(', '[', '{'];
const CLOSE: [char; 3] = [')', ']', '}'];

/// A forest with positions.
pub(crate) enum P {
    L(&'static str, usize),
    G(u8, usize, usize, Vec<P>),
}
pub(crate) fn place(f: &[T], text: &mut String) -> Vec<P> {
    f.iter()
        .flat_map(|t| match t {
            T::L(s) => {
                let c = text.chars().count();
                let _ = write!(text, "{s} ");
                vec![P::L(s, c)]
            }
            T::G(d, ch) => {
                let o = text.chars().count();
                let _ = write!(text, "{} ", OPEN[*d as usize]);
                let ch = place(ch, text);
                let c = text.chars().count();
                let _ = write!(text, "{} ", CLOSE[*d as usize]);
                vec![P::G(*d, o, c, ch)]
            }
            T::N(ch) => {
                text.push_str("NONE__ { ");
                let ch = place(ch, text);
                text.push_str("} ");
                ch
            }
        })
        .collect()
}
/// Puts every run of neighbouring trees, at any depth, into a group without delimiters.
fn grouped(f: &[T], out: &mut dyn FnMut(Vec<T>)) {
    for i in 0..f.len() {
        for j in i + 1..=f.len() {
            let mut g = f[..i].to_vec();
            g.push(T::N(f[i..j].to_vec()));
            g.extend_from_slice(&f[j..]);
            out(g);
        }
        let (d, ch) = match &f[i] {
            T::G(d, ch) => (Some(*d), ch),
            T::N(ch) => (None, ch),
            T::L(_) => continue,
        };
        grouped(ch, &mut |c| {
            let mut g = f.to_vec();
            g[i] = match d {
                Some(d) => T::G(d, c),
                None => T::N(c),
            };
            out(g)
        });
    }
}
fn flat_p(ps: &[P], out: &mut Vec<String>) {
    for p in ps {
        match p {
            P::L(s, c) => out.push(format!("{s}@{c}")),
            P::G(d, o, c, ch) => {
                out.push(format!("{}@{o}", OPEN[*d as usize]));
                flat_p(ch, out);
                out.push(format!("{}@{c}", CLOSE[*d as usize]));
            }
        }
    }
}
fn flat_ps(ps: &[P]) -> String {
    let mut v = vec![];
    flat_p(ps, &mut v);
    v.join(" ")
}

// ---------------------------------------------------------------------------------------------
// The model

// What a single token is, syn itself decides.
fn is_int(s: &str) -> bool {
    matches!(s, "1" | "2") || s.starts_with(|c: char| c.is_ascii_digit()) && syn::parse_str::<syn::LitInt>(s).is_ok()
}
fn is_str(s: &str) -> bool {
    s == "\"s\"" || s.contains('"') && syn::parse_str::<syn::LitStr>(s).is_ok()
}
fn is_word(s: &str) -> bool {
    s.starts_with(|c: char| c.is_alphabetic() || c == '_') && !s.contains(['"', '\''])
}
fn is_keyword(s: &str) -> bool {
    s != "a" && s != "b" && (s == "fn" || syn::parse_str::<syn::Ident>(s).is_err())
}
/// Identifiers, keywords and literals of every sort.
fn words() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = "abstract as async auto await become box break const continue crate default do dyn else enum extern false final fn for gen if impl in \
        let loop macro macro_rules match mod move mut override priv pub raw ref return safe self Self static struct super trait true try type typeof \
        union unsafe unsized use virtual where while yield _ __ _a a_ _0 A Aa z9 é 変数 r#a r#fn r#type r#yield r#_a r#gen NONE any peek terminated dump name \
        tokens input syn structmeta Ok Err Some None 0 00 1u8 1_0 0x1f 0b1 0o7 1usize 340282366920938463463374607431768211455 999999999999999999999999999999999999999999 \
        1. 1.5 1e3 1f32 1.0f64 \"\" \"é\" \"\\n\" r\"s\" r#\"s\"# b\"s\" c\"s\" 's' b's' ."
        .split_whitespace()
        .collect();
    for c in 'a'..='z' {
        v.push(Box::leak(format!("{c}").into_boxed_str()));
        v.push(Box::leak(format!("r#{c}x").into_boxed_str()));
    }
    v.push(Box::leak("long_".repeat(60).into_boxed_str()));
    v
}
/// Does the tree at this place look like the beginning of a `ty`?
fn peek(ty: Ty, any: bool, p: Option<&P>) -> bool {
    match (ty, p) {
        (_, None) => false,
        (Ty::Int, Some(P::L(s, _))) => is_int(s),
        (Ty::Str, Some(P::L(s, _))) => is_str(s),
        (Ty::Ident, Some(P::L(s, _))) => is_word(s) && (any || !is_keyword(s)),
        (Ty::Eq, Some(P::L(s, _))) => *s == "=",
        (Ty::Plus, Some(P::L(s, _))) => *s == "+",
        (Ty::Paren, Some(P::G(d, ..))) => *d == 0,
        (Ty::Bracket, Some(P::G(d, ..))) => *d == 1,
        (Ty::Brace, Some(P::G(d, ..))) => *d == 2,
        (Ty::Macro, Some(P::G(..))) => true,
        _ => false,
    }
}
/// Where a parse may report that it failed: columns, None for the end of the whole input.
type At = Vec<Option<usize>>;
/// Trees of one group, and the column of its closing delimiter.
#[derive(Clone, Copy)]
struct In<'a> {
    ps: &'a [P],
    end: Option<usize>,
}
impl<'a> In<'a> {
    fn from(self, n: usize) -> Self {
        In { ps: &self.ps[n..], end: self.end }
    }
    fn here(self) -> At {
        vec![match self.ps.first() {
            None => self.end,
            Some(P::L(_, c)) => Some(*c),
            Some(P::G(_, o, ..)) => Some(*o),
        }]
    }
}
fn list(ps: In, sep: &str, mut item: impl FnMut(In) -> Result<usize, At>) -> Result<usize, At> {
    let mut i = 0;
    let mut n = 0;
    while i < ps.ps.len() {
        i += item(ps.from(i))?;
        n += 1;
        if i == ps.ps.len() {
            break;
        }
        if !matches!(&ps.ps[i], P::L(s, _) if *s == sep) {
            return Err(ps.from(i).here());
        }
        i += 1;
    }
    Ok(n)
}
/// One field that opens no group: its value and the number of trees it takes.
fn leaf(f: &Fd, ps: In) -> Result<(String, usize), At> {
    let one = |ty| {
        if peek(ty, f.any, ps.ps.first()) { Ok((flat_ps(&ps.ps[..1]), 1)) } else { Err(ps.here()) }
    };
    let item = |p: In, ty, any| if peek(ty, any, p.ps.first()) { Ok(1) } else { Err(p.here()) };
    let all = ps.ps.len();
    match f.ty {
        Ty::OptEq | Ty::OptPlus => {
            let ty = if matches!(f.ty, Ty::OptEq) { Ty::Eq } else { Ty::Plus };
            Ok(one(ty).map_or(("-".into(), 0), |(s, n)| (format!("+{s}"), n)))
        }
        Ty::Ints => {
            let n = list(ps, ",", |p| item(p, Ty::Int, false))?;
            Ok((format!("p{n}[{}]", flat_ps(ps.ps)), all))
        }
        Ty::Idents => {
            let n = list(ps, ";", |p| item(p, Ty::Ident, f.any))?;
            Ok((format!("p{n}[{}]", flat_ps(ps.ps)), all))
        }
        Ty::Nodes(d) => {
            let mut items = vec![];
            let n = list(ps, ",", |p| {
                let (v, n) = parse_in(d, p)?;
                items.push(v);
                Ok(n)
            })?;
            Ok((format!("n{n}[{}]", items.join(",")), all))
        }
        Ty::Rest => Ok((flat_ps(ps.ps), all)),
        Ty::Node(d) => parse_in(d, ps),
        ty => one(ty),
    }
}
fn fields(v: &Vr, ps: In) -> Result<(String, usize), At> {
    // enclosing scopes, with the number of trees used
    let mut stack: Vec<(In, usize)> = vec![(ps, 0)];
    let mut vals = vec![];
    fn close(stack: &mut Vec<(In, usize)>) -> Result<(), At> {
        let (t, i) = stack.pop().unwrap();
        if i == t.ps.len() { Ok(()) } else { Err(t.from(i).here()) }
    }
    for f in v.fields {
        for _ in 0..f.closes {
            close(&mut stack)?;
        }
        let top = stack.last_mut().unwrap();
        if f.opens {
            let t = top.0.ps.get(top.1);
            if !peek(f.ty, false, t) {
                return Err(top.0.from(top.1).here());
            }
            let Some(P::G(d, o, c, ch)) = t else { unreachable!() };
            vals.push(format!("{}@{o}@{c}", OPEN[*d as usize]));
            top.1 += 1;
            stack.push((In { ps: ch, end: Some(*c) }, 0));
            for _ in 0..f.after {
                close(&mut stack)?;
            }
        } else {
            let (s, n) = leaf(f, top.0.from(top.1))?;
            vals.push(s);
            top.1 += n;
        }
    }
    while stack.len() > 1 {
        close(&mut stack)?;
    }
    Ok((format!("{}<{}>", v.name, vals.join("|")), stack[0].1))
}
fn parse_in(d: &SnDef, ps: In) -> Result<(String, usize), At> {
    if !d.is_enum {
        return fields(&d.variants[0], ps);
    }
    let mut at = ps.here();
    for v in d.variants {
        let mut n = 0;
        let mut all = true;
        for f in v.fields.iter().filter(|f| f.peek) {
            all &= peek(f.ty, f.any, ps.ps.get(n));
            n += 1;
        }
        if n > 0 {
            if all {
                return fields(v, ps);
            }
            continue;
        }
        match fields(v, ps) {
            Ok(r) => return Ok(r),
            Err(e) => at.extend(e),
        }
    }
    Err(at)
}
fn parse(d: &SnDef, ps: &[P]) -> Result<(String, usize), At> {
    parse_in(d, In { ps, end: None })
}
/// The tokens a variant emits, given the text of its fields (for delimiter fields: `(`, `[` or `{`).
pub fn emit(v: &Vr, vals: &[&str]) -> String {
    let mut out: Vec<&str> = vec![];
    let mut open: Vec<&str> = vec![];
    let close = |o: &str| match o {
        "(" => ")",
        "[" => "]",
        _ => "}",
    };
    for (f, s) in v.fields.iter().zip(vals) {
        for _ in 0..f.closes {
            out.push(close(open.pop().unwrap()));
        }
        if f.opens {
            out.push(s);
            open.push(s);
            for _ in 0..f.after {
                out.push(close(open.pop().unwrap()));
            }
        } else if !s.is_empty() {
            out.push(s);
        }
    }
    while let Some(o) = open.pop() {
        out.push(close(o));
    }
    out.join(" ")
}

// ---------------------------------------------------------------------------------------------
// Inputs

/// The definition and those it contains, each once (a definition may contain itself).
fn reach(d: &'static SnDef, out: &mut Vec<&'static SnDef>) {
    if out.iter().any(|x| std::ptr::eq(*x, d)) {
        return;
    }
    out.push(d);
    for v in d.variants {
        for f in v.fields {
            if let Ty::Node(d) | Ty::Nodes(d) = f.ty {
                reach(d, out);
            }
        }
    }
}
fn alphabet(d: &'static SnDef, leaves: &mut Vec<&'static str>, groups: &mut Vec<u8>) {
    let mut all = vec![];
    reach(d, &mut all);
    for d in all {
        alphabet_of(d, leaves, groups);
    }
}
fn alphabet_of(d: &SnDef, leaves: &mut Vec<&'static str>, groups: &mut Vec<u8>) {
    let mut l = |s: &'static str| {
        if !leaves.contains(&s) {
            leaves.push(s)
        }
    };
    for v in d.variants {
        for f in v.fields {
            match f.ty {
                Ty::Int => l("1"),
                Ty::Str => l("\"s\""),
                Ty::Ident => {
                    l("a");
                    l("fn")
                }
                Ty::Eq | Ty::OptEq => l("="),
                Ty::Plus | Ty::OptPlus => l("+"),
                Ty::Ints => {
                    l("1");
                    l(",")
                }
                Ty::Idents => {
                    l("a");
                    l("fn");
                    l(";")
                }
                Ty::Nodes(_) => l(","),
                _ => {}
            }
        }
    }
    for v in d.variants {
        for f in v.fields {
            let mut g = |x: u8| {
                if !groups.contains(&x) {
                    groups.push(x)
                }
            };
            match f.ty {
                Ty::Paren => g(0),
                Ty::Bracket => g(1),
                Ty::Brace => g(2),
                Ty::Macro => (0..3).for_each(g),
                _ => {}
            }
        }
    }
}
/// All forests with exactly `n` nodes.
pub(crate) fn forests(n: usize, leaves: &[&'static str], groups: &[u8], memo: &mut Vec<Vec<Vec<T>>>) {
    while memo.len() <= n {
        let k = memo.len();
        let mut out = vec![];
        if k == 0 {
            out.push(vec![]);
        } else {
            for l in leaves {
                for rest in &memo[k - 1] {
                    let mut f = vec![T::L(l)];
                    f.extend(rest.iter().cloned());
                    out.push(f);
                }
            }
            for &g in groups {
                for inner in 0..k {
                    for ch in &memo[inner] {
                        for rest in &memo[k - 1 - inner] {
                            let mut f = vec![if g == 3 { T::N(ch.clone()) } else { T::G(g, ch.clone()) }];
                            f.extend(rest.iter().cloned());
                            out.push(f);
                        }
                    }
                }
            }
        }
        memo.push(out);
    }
}
/// Everything one edit away.
fn edits(f: &[T], leaves: &[&'static str], groups: &[u8], out: &mut dyn FnMut(Vec<T>)) {
    for i in 0..=f.len() {
        let with = |t: Vec<T>, skip: usize| {
            let mut g = f[..i].to_vec();
            g.extend(t);
            g.extend(f[i + skip..].iter().cloned());
            g
        };
        for l in leaves {
            out(with(vec![T::L(l)], 0));
        }
        for &g in groups {
            out(with(vec![T::G(g, vec![])], 0));
        }
        if i == f.len() {
            break;
        }
        out(with(vec![], 1));
        for l in leaves {
            if f[i] != T::L(l) {
                out(with(vec![T::L(l)], 1));
            }
        }
        for &g in groups {
            out(with(vec![T::G(g, vec![f[i].clone()])], 1));
        }
        if i + 1 < f.len() {
            out(with(vec![f[i + 1].clone(), f[i].clone()], 2));
        }
        if let T::G(d, ch) = &f[i] {
            for &g in groups {
                if g != *d {
                    out(with(vec![T::G(g, ch.clone())], 1));
                }
            }
            out(with(ch.clone(), 1));
            // the last tree moves out of the group, the next one in
            if let Some((l, c)) = ch.split_last() {
                out(with(vec![T::G(*d, c.to_vec()), l.clone()], 1));
            }
            if let Some(n) = f.get(i + 1) {
                let mut c = ch.clone();
                c.push(n.clone());
                out(with(vec![T::G(*d, c)], 2));
            }
            edits(ch, leaves, groups, &mut |c| out(with(vec![T::G(*d, c)], 1)));
        }
    }
}
thread_local! {
    /// how many elements lists have, if this is not left to the alternatives
    static LONG: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
    /// what stands for the values of a recursive type
    static SUB: std::cell::RefCell<Option<(&'static str, Vec<T>)>> = const { std::cell::RefCell::new(None) };
}
fn size(f: &[T]) -> usize {
    f.iter().map(|t| if let T::G(_, c) = t { 1 + size(c) } else { 1 }).sum()
}
/// The last leaf, at any depth, becomes another or is removed.
fn change_last(f: &mut Vec<T>, w: Option<&'static str>) {
    match f.last_mut() {
        Some(T::G(_, c)) if !c.is_empty() => change_last(c, w),
        Some(t) => match w {
            Some(w) => *t = T::L(w),
            None => _ = f.pop(),
        },
        None => {}
    }
}
/// Lists of n elements with and without a separator at the end.
fn long(n: usize, sep: &'static str, items: &[Vec<T>]) -> Vec<Vec<T>> {
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            v.push(T::L(sep));
        }
        v.extend(items[i % items.len()].iter().cloned());
    }
    let mut w = v.clone();
    w.push(T::L(sep));
    if n == 0 { vec![v] } else { vec![v, w] }
}
/// Forests the fields of this definition describe, one per combination of alternatives.
fn valid(d: &SnDef) -> Vec<Vec<T>> {
    fn inner(d: &SnDef) -> Vec<Vec<T>> {
        thread_local! { static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) } }
        if let Some((id, v)) = SUB.with_borrow(|s| s.clone()) && id == d.id {
            return vec![v];
        }
        let n = DEPTH.get();
        if n == 3 {
            return vec![];
        }
        DEPTH.set(n + 1);
        let v = valid(d).into_iter().take(3).collect();
        DEPTH.set(n);
        v
    }
    fn alts(f: &Fd) -> Vec<Vec<T>> {
        let l = |s: &[&'static str]| s.iter().map(|s| T::L(s)).collect::<Vec<_>>();
        if let Some(n) = LONG.get() {
            match f.ty {
                Ty::Ints => return long(n, ",", &[l(&["1"]), l(&["2"])]),
                Ty::Idents if f.any => return long(n, ";", &[l(&["a"]), l(&["fn"]), l(&["b"])]),
                Ty::Idents => return long(n, ";", &[l(&["a"]), l(&["b"])]),
                Ty::Nodes(d) => return inner(d).iter().flat_map(|v| long(n, ",", std::slice::from_ref(v))).collect(),
                Ty::Rest => return vec![(0..n).map(|i| T::L(["1", "a", ","][i % 3])).collect()],
                _ => {}
            }
        }
        match f.ty {
            Ty::Int => vec![l(&["1"])],
            Ty::Str => vec![l(&["\"s\""])],
            Ty::Ident if f.any => vec![l(&["a"]), l(&["fn"])],
            Ty::Ident => vec![l(&["a"])],
            Ty::Eq => vec![l(&["="])],
            Ty::Plus => vec![l(&["+"])],
            Ty::OptEq => vec![l(&["="]), vec![]],
            Ty::OptPlus => vec![l(&["+"]), vec![]],
            Ty::Ints => vec![l(&["1", ",", "2"]), vec![], l(&["1"]), l(&["1", ",", "2", ","])],
            Ty::Idents if f.any => vec![l(&["fn", ";", "a"]), vec![], l(&["a", ";"])],
            Ty::Idents => vec![l(&["a", ";", "b"]), vec![], l(&["a", ";"])],
            Ty::Rest => vec![l(&["1", "a"]), vec![]],
            Ty::Node(d) => inner(d),
            Ty::Nodes(d) => {
                let v = inner(d);
                let mut out = vec![vec![]];
                for a in &v {
                    out.push(a.clone());
                    let mut x = a.clone();
                    x.push(T::L(","));
                    out.push(x.clone());
                    x.extend(v[0].iter().cloned());
                    out.push(x);
                }
                out
            }
            _ => unreachable!(),
        }
    }
    fn rec(v: &Vr, i: usize, stack: Vec<(u8, Vec<T>)>, out: &mut Vec<Vec<T>>) {
        fn pop(mut s: Vec<(u8, Vec<T>)>, n: usize) -> Vec<(u8, Vec<T>)> {
            for _ in 0..n {
                let (d, ch) = s.pop().unwrap();
                s.last_mut().unwrap().1.push(T::G(d, ch));
            }
            s
        }
        if i == v.fields.len() {
            let n = stack.len() - 1;
            let s = pop(stack, n);
            out.push(s.into_iter().next().unwrap().1);
            return;
        }
        let f = &v.fields[i];
        let stack = pop(stack, f.closes);
        if f.opens {
            let ds: &[u8] = match f.ty {
                Ty::Paren => &[0],
                Ty::Bracket => &[1],
                Ty::Brace => &[2],
                _ => &[0, 1, 2],
            };
            for &d in ds {
                let mut s = stack.clone();
                s.push((d, vec![]));
                rec(v, i + 1, pop(s, f.after), out);
            }
        } else {
            for a in alts(f) {
                let mut s = stack.clone();
                s.last_mut().unwrap().1.extend(a);
                rec(v, i + 1, s, out);
            }
        }
    }
    let mut out = vec![];
    for v in d.variants {
        rec(v, 0, vec![(9, vec![])], &mut out);
    }
    out
}

// ---------------------------------------------------------------------------------------------

pub struct Ctx {
    pub rep: Report,
    /// also compare where errors are reported
    place: bool,
    n: u64,
    /// only collect the traces
    pub list: Option<Vec<String>>,
}
impl Ctx {
    pub fn new() -> Self {
        Ctx { rep: Report::default(), place: false, n: 0, list: None }
    }
    fn bad(&mut self, d: &SnDef, input: &str, class: &str, expected: String, got: String) {
        self.rep.violation(Violation {
            def: d.id.into(),
            src: d.src.into(),
            input: input.into(),
            class: class.into(),
            expected,
            got,
        });
    }
    fn eval(&mut self, d: &SnDef, f: &[T]) {
        self.n += 1;
        if self.n % 4096 == 0 {
            proc_macro2::extra::invalidate_current_thread_spans();
        }
        let mut text = String::new();
        let ps = place(f, &mut text);
        if let Some(list) = &mut self.list {
            list.push(text);
            return;
        }
        let m = parse(d, &ps);
        self.rep.traces += 1;
        self.rep.transitions += 1;
        let show = match &m {
            Ok((v, n)) => format!("{v} and {n} trees consumed"),
            Err(_) => "rejected".into(),
        };
        self.rep.states.insert(hash(&format!("{}\u{0}{}", d.id, strip(&show))));
        self.rep.outcomes.insert(hash(&strip(&show)));
        if self.rep.samples.len() < 6 && self.rep.traces % 97 == 1 {
            self.rep.samples.push((d.src.into(), text.clone(), show.clone()));
        }
        let line = format!("\n{text}");
        let run = d.run;
        begin(d.id, d.src, &text);
        let got = std::panic::catch_unwind(|| run(&line));
        end();
        let got = match got {
            Ok(g) => g,
            Err(_) => {
                self.bad(d, &text, "panic", show, "panic".into());
                return;
            }
        };
        match (m, got) {
            (Err(at), Err(e)) => {
                self.rep.rejected += 1;
                if self.place {
                    let p = e.span().start();
                    let got = (p.line == 2).then_some(p.column);
                    if !at.contains(&got) || e.to_string().is_empty() {
                        self.bad(d, &text, "error at the wrong place", format!("at one of {at:?}"), format!("at {got:?}: {e}"));
                    }
                }
            }
            (Ok(_), Err(e)) => self.bad(d, &text, "rejected", show, format!("error: {e}")),
            (Err(_), Ok(r)) => self.bad(d, &text, "accepted", show, r.canon),
            (Ok((v, n)), Ok(r)) => {
                self.rep.accepted += 1;
                if v != r.canon {
                    let class = if strip(&v) == strip(&r.canon) { "wrong span" } else { "wrong value" };
                    self.bad(d, &text, class, v, r.canon);
                    return;
                }
                let rest = flat_ps(&ps[n..]);
                if rest != r.rest {
                    self.bad(d, &text, "wrong consumption", format!("left: {rest}"), format!("left: {}", r.rest));
                    return;
                }
                if let Some((e, again)) = r.emitted {
                    let used = flat_ps(&ps[..n]);
                    if e != used {
                        self.bad(d, &text, "emitted differs from consumed", used, e);
                        return;
                    }
                    let want = parse(d, &ps[..n]).map(|x| x.0).ok();
                    if again.as_ref().ok() != want.as_ref() {
                        self.bad(d, &text, "not the same when parsed again", format!("{want:?}"), format!("{again:?}"));
                    }
                }
            }
        }
    }
    pub fn pass(&mut self, d: &'static SnDef, p: &str) {
        let (kind, arg) = p.split_once(':').unwrap();
        let n: usize = arg.parse().unwrap();
        let (mut leaves, mut groups) = (vec![], vec![]);
        alphabet(d, &mut leaves, &mut groups);
        match kind {
            "forest" => {
                // one token that occurs nowhere in the definition
                leaves.push(if leaves.contains(&"\"s\"") { "." } else { "\"s\"" });
                if groups.is_empty() {
                    groups.push(0);
                }
                let mut memo = vec![];
                forests(n, &leaves, &groups, &mut memo);
                for fs in &memo {
                    for f in fs {
                        self.eval(d, f);
                    }
                }
            }
            "edits" => {
                leaves.push("?");
                for g in 0..3 {
                    if !groups.contains(&g) {
                        groups.push(g);
                        break;
                    }
                }
                let mut seen = HashSet::new();
                let mut cur = valid(d);
                cur.retain(|f| seen.insert(f.clone()));
                for f in &cur {
                    self.eval(d, f);
                }
                for _ in 0..n {
                    let mut next = vec![];
                    for f in &cur {
                        edits(f, &leaves, &groups, &mut |g| {
                            if seen.insert(g.clone()) {
                                next.push(g);
                            }
                        });
                    }
                    for f in &next {
                        self.eval(d, f);
                    }
                    cur = next;
                }
            }
            // lists of every length up to n, and values of recursive types of every depth up to n
            "grow" => {
                let mut seen = HashSet::new();
                for k in 0..=n {
                    LONG.set(Some(k));
                    for f in valid(d) {
                        if seen.insert(f.clone()) {
                            self.eval(d, &f);
                        }
                    }
                }
                LONG.set(None);
                for pick in 0..3 {
                    let mut cur = valid(d).into_iter().nth(pick);
                    for _ in 0..n {
                        let Some(v) = cur.take() else { break };
                        SUB.set(Some((d.id, v)));
                        let mut deeper = valid(d);
                        deeper.retain(|f| size(f) <= 300 && seen.insert(f.clone()));
                        for f in &deeper {
                            self.eval(d, f);
                        }
                        deeper.sort_by_key(|f| std::cmp::Reverse(size(f)));
                        deeper.truncate(1);
                        cur = deeper.pop();
                    }
                    SUB.set(None);
                }
            }
            // every word, number, literal in the place of every leaf, or of n neighbouring ones
            "words" => {
                fn put(f: &[T], k: usize, w: &[&'static str]) -> Vec<T> {
                    fn rec(f: &[T], k: usize, w: &[&'static str], at: &mut usize) -> Vec<T> {
                        f.iter()
                            .map(|t| match t {
                                T::G(d, c) => T::G(*d, rec(c, k, w, at)),
                                T::N(c) => T::N(rec(c, k, w, at)),
                                T::L(s) => {
                                    *at += 1;
                                    T::L(if *at > k && *at <= k + w.len() { w[*at - 1 - k] } else { s })
                                }
                            })
                            .collect()
                    }
                    rec(f, k, w, &mut 0)
                }
                fn leaves_in(f: &[T]) -> usize {
                    f.iter().map(|t| if let T::G(_, c) = t { leaves_in(c) } else { 1 }).sum()
                }
                let all = words();
                let mut seen = HashSet::new();
                for f in valid(d) {
                    let l = leaves_in(&f);
                    for k in 0..l {
                        for (i, w) in all.iter().enumerate() {
                            let g = put(&f, k, &[w]);
                            if seen.insert(g.clone()) {
                                self.eval(d, &g);
                            }
                            for n in 2..=n {
                                if k + n <= l {
                                    let ws: Vec<_> = (0..n).map(|j| all[(i + 7 * j) % all.len()]).collect();
                                    let g = put(&f, k, &ws);
                                    if seen.insert(g.clone()) {
                                        self.eval(d, &g);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            // every token forest over many tokens, only for an answer
            "chaos" => {
                for f in crate::soup::texts(&leaves, crate::soup::MANY, &[0, 1, 2, 3], n) {
                    let run = d.run;
                    let run = |s: &str| run(s).map(|r| format!("{} {} {:?}", r.canon, r.rest, r.emitted));
                    crate::soup::total(&mut self.rep, (d.id, d.src), &f, &run);
                }
            }
            // valid inputs of recursive types of depths up to n, and what is wrong at the far end of them; only for an answer
            "deep" => {
                let answer = |rep: &mut Report, f: &[T]| {
                    let mut text = String::new();
                    place(f, &mut text);
                    let run = d.run;
                    let run = |s: &str| run(s).map(|r| format!("{} {} {:?}", r.canon, r.rest, r.emitted));
                    crate::soup::total(rep, (d.id, d.src), &text, &run);
                };
                for pick in 0..6 {
                    let mut cur = valid(d).into_iter().nth(pick);
                    for k in 1..=n {
                        let Some(v) = cur.take() else { break };
                        SUB.set(Some((d.id, v)));
                        let mut deeper = valid(d);
                        SUB.set(None);
                        deeper.retain(|f| size(f) <= 400);
                        deeper.sort_by_key(|f| std::cmp::Reverse(size(f)));
                        // not at every depth: what doubles with each of them has to take forever at some
                        let some = if [1, 2, 3, 8, 16, n].contains(&k) { 3 } else { 0 };
                        for f in deeper.iter().take(some) {
                            answer(&mut self.rep, f);
                            for w in [Some("+"), None] {
                                let mut g = f.clone();
                                change_last(&mut g, w);
                                answer(&mut self.rep, &g);
                            }
                        }
                        cur = deeper.into_iter().next();
                    }
                }
            }
            // n invisible groups in everything at most one edit away from a valid input
            "none" => {
                let mut seen = HashSet::new();
                let mut cur = valid(d);
                cur.retain(|f| seen.insert(f.clone()));
                if n == 1 {
                    for f in cur.clone() {
                        edits(&f, &leaves, &groups, &mut |g| {
                            if seen.insert(g.clone()) {
                                cur.push(g);
                            }
                        });
                    }
                }
                for _ in 0..n {
                    let mut next = vec![];
                    for f in &cur {
                        grouped(f, &mut |g| {
                            if seen.insert(g.clone()) {
                                next.push(g);
                            }
                        });
                    }
                    for f in &next {
                        self.eval(d, f);
                    }
                    cur = next;
                }
            }
            _ => panic!("pass {p}"),
        }
    }
}

/// Entry point of a generated explorer program: `prog OUT [family=]PASS...`
pub fn main(defs: &[(&'static str, &'static SnDef)]) {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    watch(&args[1]);
    let mut ctx = Ctx::new();
    for (fam, d) in defs {
        ctx.rep.defs += 1;
        for p in &args[2..] {
            let (f, p) = p.split_once('=').unwrap_or(("", p));
            if p == "place" {
                ctx.place = true;
            } else if f.is_empty() || f == *fam {
                ctx.pass(d, p);
            }
        }
    }
    std::fs::write(&args[1], ctx.rep.json()).unwrap();
}

/// Values built directly (no parsing): per value the variant, the text of each field, the emitted tokens.
pub type Values = fn() -> Vec<(usize, Vec<&'static str>, TokenStream)>;
pub fn main_emit(defs: &[(&'static SnDef, Values)]) {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut rep = Report::default();
    for (d, vals) in defs {
        rep.defs += 1;
        let bad = |rep: &mut Report, input: String, expected: String, got: String| {
            rep.violation(Violation {
                def: d.id.into(),
                src: d.src.into(),
                input,
                class: "wrong tokens".into(),
                expected,
                got,
            })
        };
        let Ok(list) = std::panic::catch_unwind(vals) else {
            bad(&mut rep, "".into(), "no panic".into(), "panic".into());
            continue;
        };
        for (v, texts, ts) in list {
            let v = &d.variants[v];
            let want = emit(v, &texts);
            let got = strip(&flat_str(ts));
            rep.traces += 1;
            rep.transitions += texts.len() as u64;
            rep.states.insert(hash(&format!("{} {want}", d.id)));
            rep.outcomes.insert(hash(&want));
            rep.accepted += 1;
            if rep.samples.len() < 6 && rep.traces % 37 == 1 {
                rep.samples.push((d.src.into(), format!("{}{texts:?}", v.name), want.clone()));
            }
            if want != got {
                bad(&mut rep, format!("{}{texts:?}", v.name), want, got);
            }
        }
    }
    std::fs::write(&args[1], rep.json()).unwrap();
}

/// Canonical text of one node.
pub fn show(name: &str, fields: &[String]) -> String {
    format!("{name}<{}>", fields.join("|"))
}
