//! `#[derive(StructMeta)]`: reference model and explorer.
//!
//! The model is a transition system over argument lists: its state is what the arguments read so far have
//! put into each field; a transition reads one more argument. It is written from the documentation, works
//! on the text of the argument list and uses syn only to decide whether a single value is a `T`.
use crate::canon::{flat_str, strip};
use crate::report::{Report, Violation, begin, end, hash, watch};
use crate::soup;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use syn::parse::{ParseStream, Parser};

#[derive(Clone, Copy)]
pub enum Leaf {
    Int,
    Str,
    Expr,
    Ident,
    Type,
    Bool,
    /// TokenStream, which takes everything between the parentheses
    Tokens,
    /// an enum with a derived Parse that contains argument structs: see `Made` in gen/rs/made.rs
    Made,
    /// a nested argument struct
    Inner(&'static SmDef),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sty {
    Bool,
    Flag,
    Val,
    Vec,
    NV,
    NVOpt,
    NA,
    NAOpt,
    NAVec,
    NAOptVec,
}
use Sty::*;
impl Sty {
    fn flag(self) -> bool {
        matches!(self, Bool | Flag | NVOpt | NAOpt | NAOptVec)
    }
    fn nv(self) -> bool {
        matches!(self, Val | NV | NVOpt)
    }
    fn na(self) -> bool {
        matches!(self, Vec | NA | NAOpt | NAVec | NAOptVec)
    }
    fn forms(self) -> Forms {
        Forms(self.flag(), self.nv(), self.na())
    }
}
#[derive(Clone, Copy)]
pub enum Role {
    /// named parameter; `true` if the whole type is wrapped in Option
    Named(&'static str, bool, Sty),
    Rest(Sty),
    Req,
    Opt,
    Var,
}
pub struct Fld {
    pub role: Role,
    pub leaf: Leaf,
}
pub struct SmDef {
    pub id: &'static str,
    pub src: &'static str,
    pub filter: bool,
    pub fields: &'static [Fld],
    pub parse: fn(ParseStream) -> syn::Result<std::vec::Vec<String>>,
    /// further argument names / whole arguments to try on this definition
    pub extra: &'static [&'static str],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Forms(bool, bool, bool);

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum EK {
    Value,
    TooMany,
    AfterNamed,
    Dup(String),
    WrongForm(String, Forms),
    Unknown(String, Option<String>),
    Missing(std::vec::Vec<String>),
    MissingUnnamed(usize, usize),
}
#[derive(Clone, Debug)]
pub struct E {
    pub kind: EK,
    /// columns of the offending argument; the error must lie in lo..=hi
    pub lo: usize,
    pub hi: usize,
    /// the end of the argument is the end of the whole input
    pub eof: bool,
    /// no further argument can repair the list
    pub dead: bool,
}
pub struct Out {
    pub res: Result<std::vec::Vec<String>, E>,
    pub state: String,
}

struct Seg {
    lo: usize,
    hi: usize,
}
type V<T> = std::vec::Vec<T>;

/// Splits `cs[lo..hi]` at its top-level commas. The last element is the part after the last comma.
fn split(cs: &[char], lo: usize, hi: usize) -> V<Seg> {
    let mut out = V::new();
    let mut depth = 0;
    let mut start = lo;
    let mut i = lo;
    let mut push = |s: usize, e: usize| {
        let mut s = s;
        while s < e && cs[s] == ' ' {
            s += 1;
        }
        out.push(Seg { lo: s, hi: e });
    };
    while i < hi {
        match cs[i] {
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' => depth -= 1,
            '"' => {
                i += 1;
                while cs[i] != '"' {
                    i += 1;
                }
            }
            ',' if depth == 0 => {
                push(start, i);
                start = i + 1;
            }
            _ => {}
        }
        i += 1;
    }
    push(start, hi);
    out
}
fn trim_end(cs: &[char], lo: usize, mut hi: usize) -> usize {
    while hi > lo && cs[hi - 1] == ' ' {
        hi -= 1;
    }
    hi
}
fn skip(cs: &[char], mut lo: usize, hi: usize) -> usize {
    while lo < hi && cs[lo] == ' ' {
        lo += 1;
    }
    lo
}
fn ident(cs: &[char], lo: usize, hi: usize) -> Option<usize> {
    let mut i = lo;
    if hi > lo + 2 && cs[lo] == 'r' && cs[lo + 1] == '#' {
        i += 2;
    }
    if i >= hi || !(cs[i].is_alphabetic() || cs[i] == '_') {
        return None;
    }
    while i < hi && (cs[i].is_alphanumeric() || cs[i] == '_') {
        i += 1;
    }
    Some(i)
}
fn close_of(cs: &[char], lo: usize) -> usize {
    let mut depth = 0;
    let mut i = lo;
    loop {
        match cs[i] {
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' => {
                depth -= 1;
                if depth == 0 {
                    return i;
                }
            }
            '"' => {
                i += 1;
                while cs[i] != '"' {
                    i += 1;
                }
            }
            _ => {}
        }
        i += 1;
    }
}

thread_local! {
    static MEMO: RefCell<HashMap<(u8, String), Option<V<(String, usize)>>>> = RefCell::default();
}
fn leaf_tokens(leaf: Leaf, text: &str) -> Option<V<(String, usize)>> {
    let tag = match leaf {
        Leaf::Int => 0,
        Leaf::Str => 1,
        Leaf::Expr => 2,
        Leaf::Ident => 3,
        Leaf::Type => 4,
        Leaf::Bool => 5,
        Leaf::Tokens => 6,
        Leaf::Made => 7,
        Leaf::Inner(_) => unreachable!(),
    };
    let key = (tag, text.to_string());
    if let Some(r) = MEMO.with(|m| m.borrow().get(&key).cloned()) {
        return r;
    }
    let t = format!("\n{text}");
    fn p<T: syn::parse::Parse + quote::ToTokens>(t: &str) -> Option<String> {
        syn::parse_str::<T>(t).ok().map(|x| flat_str(x.to_token_stream()))
    }
    let r = match leaf {
        Leaf::Int => p::<syn::LitInt>(&t),
        Leaf::Str => p::<syn::LitStr>(&t),
        Leaf::Expr => p::<syn::Expr>(&t),
        Leaf::Ident => p::<syn::Ident>(&t),
        Leaf::Type => p::<syn::Type>(&t),
        Leaf::Bool => p::<syn::LitBool>(&t),
        Leaf::Tokens => p::<TokenStream>(&t),
        Leaf::Made => syn::parse_str::<made::Made>(&t).ok().map(|x| x.0.join(" ")),
        Leaf::Inner(_) => unreachable!(),
    };
    let r: Option<V<(String, usize)>> = r.map(|x| {
        x.split(' ')
            .filter(|s| !s.is_empty())
            .map(|s| {
                let (a, b) = s.rsplit_once('@').unwrap();
                (a.to_string(), b.parse().unwrap())
            })
            .collect()
    });
    MEMO.with(|m| m.borrow_mut().insert(key, r.clone()));
    r
}
fn leaf_parse(cs: &[char], leaf: Leaf, lo: usize, hi: usize, eof: bool) -> Result<String, E> {
    if let Leaf::Inner(d) = leaf {
        let o = model(d, cs, lo, hi, false);
        return match o.res {
            Ok(v) => Ok(format!("<{}>", v.join("|"))),
            Err(mut e) => {
                e.dead = true;
                e.eof |= matches!(e.kind, EK::Missing(_) | EK::MissingUnnamed(..));
                Err(e)
            }
        };
    }
    let l = skip(cs, lo, hi);
    let h = trim_end(cs, l, hi);
    let text: String = cs[l..h].iter().collect();
    match leaf_tokens(leaf, &text) {
        Some(t) => Ok(t
            .iter()
            .map(|(s, c)| format!("{s}@{}", c + l))
            .collect::<V<_>>()
            .join(" ")),
        None => Err(E { kind: EK::Value, lo, hi, eof, dead: true }),
    }
}
fn is_snake(s: &[char]) -> bool {
    s.iter().all(|c| matches!(c, 'a'..='z' | '0'..='9' | '_'))
}

/// Distance of the documented hint: one character inserted, removed or replaced counts 1, two
/// neighbours swapped count 2, everything else is not similar. Computed by trying every edit.
pub fn distance(a: &str, b: &str) -> Option<usize> {
    let a: V<char> = a.chars().collect();
    let b: V<char> = b.chars().collect();
    if a == b {
        return Some(0);
    }
    let (s, l) = if a.len() <= b.len() { (&a, &b) } else { (&b, &a) };
    if l.len() == s.len() + 1 {
        for i in 0..l.len() {
            let mut x = l.clone();
            x.remove(i);
            if &x == s {
                return Some(1);
            }
        }
        return None;
    }
    if a.len() != b.len() {
        return None;
    }
    if a.iter().zip(&b).filter(|(x, y)| x != y).count() == 1 {
        return Some(1);
    }
    for i in 1..a.len() {
        let mut x = a.clone();
        x.swap(i - 1, i);
        if x == b {
            return Some(2);
        }
    }
    None
}
pub fn hint<'a>(names: &[&'a str], ident: &str) -> Option<&'a str> {
    let mut ds: V<(usize, &str)> =
        names.iter().filter_map(|n| distance(n, ident).map(|d| (d, *n))).collect();
    ds.sort();
    match ds.as_slice() {
        [] => None,
        [(_, n)] => Some(n),
        [(d0, n), (d1, _), ..] => (d0 != d1).then_some(*n),
    }
}

/// The reference model: reads `cs[lo..hi]` as the argument list of `def`.
pub fn model(def: &SmDef, cs: &[char], lo: usize, hi: usize, top: bool) -> Out {
    let mut slots: V<Option<String>> = def.fields.iter().map(|_| None).collect();
    let mut lists: BTreeMap<usize, V<String>> = BTreeMap::new();
    let mut rest: BTreeMap<String, String> = BTreeMap::new();
    let mut named_used = false;
    let mut unnamed = 0usize;
    let res = (|| -> Result<V<String>, E> {
        let of = |f: fn(&Role) -> bool| -> V<usize> {
            (0..def.fields.len()).filter(|&i| f(&def.fields[i].role)).collect()
        };
        let req = of(|r| matches!(r, Role::Req));
        let opt = of(|r| matches!(r, Role::Opt));
        let var = of(|r| matches!(r, Role::Var));
        let rest_f = of(|r| matches!(r, Role::Rest(_))).first().copied();
        let rest_sty = rest_f.map(|i| match def.fields[i].role {
            Role::Rest(s) => s,
            _ => unreachable!(),
        });
        let named: V<(usize, &str, Sty)> = (0..def.fields.len())
            .filter_map(|i| match def.fields[i].role {
                Role::Named(n, _, s) => Some((i, n, s)),
                _ => None,
            })
            .collect();
        let takes = |f: fn(Sty) -> bool| named.iter().any(|x| f(x.2)) || rest_sty.is_some_and(f);
        let positional = !opt.is_empty() || !var.is_empty();

        let mut segs = if skip(cs, lo, hi) == hi { V::new() } else { split(cs, lo, hi) };
        let mut trailing = false;
        if segs.len() > 1 && segs.last().is_some_and(|s| s.lo == s.hi) {
            segs.pop();
            trailing = true;
        }
        let n = segs.len();
        for (k, seg) in segs.iter().enumerate() {
            let eof = k + 1 == n && !trailing && top;
            let err = |kind: EK| E { kind, lo: seg.lo, hi: seg.hi, eof, dead: true };
            if seg.lo == seg.hi {
                return Err(err(EK::Value));
            }
            if k < req.len() {
                let f = req[k];
                slots[f] = Some(leaf_parse(cs, def.fields[f].leaf, seg.lo, seg.hi, eof)?);
                continue;
            }
            // How does the argument start?
            let mut name = None;
            if let Some(e) = ident(cs, seg.lo, seg.hi) {
                if !def.filter || is_snake(&cs[seg.lo..e]) {
                    let a = skip(cs, e, seg.hi);
                    let next = |i: usize| if i < seg.hi { cs[i] } else { ' ' };
                    let form = if a == seg.hi {
                        Some(0)
                    } else if next(a) == '=' && next(a + 1) != '=' && next(a + 1) != '>' {
                        Some(1)
                    } else if next(a) == '(' {
                        Some(2)
                    } else {
                        None
                    };
                    let is_name = !positional
                        || match form {
                            Some(0) => takes(Sty::flag),
                            Some(1) => takes(Sty::nv),
                            Some(2) => takes(Sty::na),
                            _ => false,
                        };
                    if is_name {
                        name = Some((cs[seg.lo..e].iter().collect::<String>(), a, form));
                    }
                }
            }
            let Some((name, after, form)) = name else {
                if !positional {
                    return Err(err(EK::TooMany));
                }
                if named_used {
                    return Err(err(EK::AfterNamed));
                }
                let f = if unnamed < opt.len() {
                    opt[unnamed]
                } else if let Some(&f) = var.first() {
                    f
                } else {
                    return Err(err(EK::TooMany));
                };
                let v = leaf_parse(cs, def.fields[f].leaf, seg.lo, seg.hi, eof)?;
                if unnamed < opt.len() {
                    slots[f] = Some(v);
                } else {
                    lists.entry(f).or_default().push(v);
                }
                unnamed += 1;
                continue;
            };
            named_used = true;
            let has = |s: Sty| match form {
                Some(0) => s.flag(),
                Some(1) => s.nv(),
                Some(2) => s.na(),
                _ => false,
            };
            let declared = named.iter().find(|x| x.1 == name);
            let (f, sty, is_rest) = if let Some(d) = declared.filter(|d| has(d.2)) {
                (d.0, d.2, false)
            } else if rest_sty.is_some_and(has) {
                (rest_f.unwrap(), rest_sty.unwrap(), true)
            } else {
                let mut fo = Forms(false, false, false);
                for s in declared.map(|d| d.2).into_iter().chain(rest_sty) {
                    let x = s.forms();
                    fo = Forms(fo.0 | x.0, fo.1 | x.1, fo.2 | x.2);
                }
                return Err(err(if fo == Forms(false, false, false) {
                    let names: V<&str> = named.iter().map(|x| x.1).collect();
                    let h = hint(&names, &name).map(|s| s.to_string());
                    EK::Unknown(name, h)
                } else {
                    EK::WrongForm(name, fo)
                }));
            };
            let leaf = def.fields[f].leaf;
            let dup = if is_rest { rest.contains_key(&name) } else { slots[f].is_some() };
            let value = (|| Ok(match form.unwrap() {
                0 => None,
                1 => {
                    let s = skip(cs, after + 1, seg.hi);
                    if s == seg.hi {
                        return Err(err(EK::Value));
                    }
                    Some(leaf_parse(cs, leaf, s, seg.hi, eof)?)
                }
                _ => {
                    let c = close_of(cs, after);
                    let v = if matches!(sty, Vec | NAVec | NAOptVec) {
                        let mut items = if skip(cs, after + 1, c) == c {
                            V::new()
                        } else {
                            split(cs, after + 1, c)
                        };
                        if items.len() > 1 && items.last().is_some_and(|s| s.lo == s.hi) {
                            items.pop();
                        }
                        let mut vs = V::new();
                        for i in items {
                            if i.lo == i.hi {
                                return Err(err(EK::Value));
                            }
                            vs.push(leaf_parse(cs, leaf, i.lo, i.hi, false)?);
                        }
                        format!("[{}]", vs.join(";"))
                    } else {
                        leaf_parse(cs, leaf, skip(cs, after + 1, c), c, false)?
                    };
                    if skip(cs, c + 1, seg.hi) != seg.hi {
                        return Err(err(EK::Value));
                    }
                    Some(v)
                }
            }))();
            // An argument that is both a duplicate and malformed may be reported either way.
            let value = match value {
                Err(e) if dup => return Err(E { eof: e.eof || eof, ..err(EK::Value) }),
                v => v?,
            };
            let at = seg.lo;
            let value = match sty {
                Bool => "true".to_string(),
                Flag => format!("on@{at}"),
                Val | Vec => value.unwrap(),
                NV => format!("nv@{at}({})", value.unwrap()),
                NA | NAVec => format!("na@{at}({})", value.unwrap()),
                NVOpt | NAOpt | NAOptVec => format!(
                    "{}@{at}({})",
                    if sty == NVOpt { "nv" } else { "na" },
                    value.map_or("-".into(), |v| format!("+{v}"))
                ),
            };
            if dup {
                return Err(err(EK::Dup(name)));
            }
            if is_rest {
                rest.insert(name, value);
            } else {
                slots[f] = Some(value);
            }
        }
        let end = |kind| E { kind, lo, hi, eof: true, dead: false };
        if n < req.len() {
            // An empty list, or one that stops after a comma, is reported as a missing value.
            return Err(end(if n == 0 || trailing {
                EK::Value
            } else {
                EK::MissingUnnamed(req.len(), n)
            }));
        }
        let mut out = V::new();
        let mut missing = V::new();
        for (i, f) in def.fields.iter().enumerate() {
            let s = slots[i].clone();
            out.push(match f.role {
                Role::Req => s.unwrap(),
                Role::Opt => s.map_or("-".into(), |v| format!("+{v}")),
                Role::Var => {
                    format!("[{}]", lists.get(&i).cloned().unwrap_or_default().join(";"))
                }
                Role::Rest(_) => format!(
                    "{{{}}}",
                    rest.iter().map(|(k, v)| format!("{k}=>{v}")).collect::<V<_>>().join(";")
                ),
                Role::Named(n, opt, sty) => match (sty, opt, s) {
                    (Bool, _, s) => s.is_some().to_string(),
                    (Flag, _, s) => s.unwrap_or("off".into()),
                    (_, true, s) => s.map_or("-".into(), |v| format!("+{v}")),
                    (_, false, Some(v)) => v,
                    (_, false, None) => {
                        missing.push(n.to_string());
                        String::new()
                    }
                },
            });
        }
        if missing.is_empty() { Ok(out) } else { Err(end(EK::Missing(missing))) }
    })();
    let state = match &res {
        Err(e) if e.dead => format!("dead {:?}", e.kind),
        _ => strip(&format!("{slots:?}{lists:?}{rest:?}{named_used}{unnamed}")),
    };
    Out { res, state }
}

// ---------------------------------------------------------------------------------------------
// Exploration

#[derive(Clone, Copy, Default)]
pub struct Mask {
    /// accept/reject and values
    pub sem: bool,
    pub span: bool,
    pub place: bool,
    pub msg: bool,
    pub hint: bool,
    /// the missing parameter is named
    pub missing: bool,
    /// each trace also with parts of it in invisible groups
    pub none: bool,
}

/// The parts of a list that a macro fragment (`$e:expr`, `$m:meta`, ...) can stand for: arguments,
/// values and the contents of parentheses, at every depth.
pub fn units(cs: &[char], lo: usize, hi: usize, out: &mut V<(usize, usize)>) {
    if skip(cs, lo, hi) == hi {
        return;
    }
    for s in split(cs, lo, hi) {
        let h = trim_end(cs, s.lo, s.hi);
        if s.lo == h {
            continue;
        }
        out.push((s.lo, h));
        let Some(e) = ident(cs, s.lo, h) else { continue };
        let a = skip(cs, e, h);
        if a < h && cs[a] == '=' && !(a + 1 < h && matches!(cs[a + 1], '=' | '>')) {
            let v = skip(cs, a + 1, h);
            if v < h {
                out.push((v, h));
            }
        } else if a < h && cs[a] == '(' {
            let c = close_of(cs, a);
            units(cs, a + 1, c, out);
        }
    }
}
/// Puts the tokens of every range (columns) into a group without delimiters.
fn wrap(ts: TokenStream, ranges: &[(usize, usize)]) -> TokenStream {
    let trees: V<TokenTree> = ts.into_iter().collect();
    let col = |t: &TokenTree| t.span().start().column;
    let mut out = V::new();
    let mut i = 0;
    while i < trees.len() {
        let c = col(&trees[i]);
        let n = ranges.iter().enumerate().filter(|(_, r)| r.0 == c).max_by_key(|(_, r)| r.1);
        if let Some((k, r)) = n {
            let mut j = i;
            while j < trees.len() && col(&trees[j]) < r.1 {
                j += 1;
            }
            let mut others = ranges.to_vec();
            others.remove(k);
            let inner = wrap(trees[i..j].iter().cloned().collect(), &others);
            out.push(TokenTree::Group(Group::new(Delimiter::None, inner)));
            i = j;
            continue;
        }
        out.push(match &trees[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), wrap(g.stream(), ranges));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t.clone(),
        });
        i += 1;
    }
    out.into_iter().collect()
}
pub struct Ctx {
    pub mask: Mask,
    pub rep: Report,
    n: u64,
    /// only collect the traces
    pub list: Option<V<String>>,
}

fn vals(leaf: Leaf, i: usize) -> (String, String, String) {
    match leaf {
        Leaf::Int => (format!("1{i}"), format!("2{i}"), "\"s\"".into()),
        Leaf::Str => (format!("\"s{i}\""), format!("\"t,{i}\""), "1".into()),
        Leaf::Expr => (format!("a{i} + 1"), format!("f(1{i}, 2)"), "+".into()),
        Leaf::Ident => (format!("q{i}"), format!("w{i}"), "1".into()),
        Leaf::Type => (format!("U{i}"), format!("Vec<T{i}>"), "1".into()),
        Leaf::Bool => ("true".into(), "false".into(), "1".into()),
        Leaf::Tokens => (format!("a{i} +"), format!("{{ x }}, ::y(1{i},,)"), "=".into()),
        Leaf::Made => (format!("1{i} .. 2"), format!("g(1{i}, [2 ; 3 .. 4], x = 5, f)"), "+".into()),
        Leaf::Inner(_) => ("".into(), "".into(), "1 1".into()),
    }
}
/// What the derived parsers of gen/rs/made.rs should do, written by hand.
mod made {
    use crate::canon::at;
    use proc_macro2::Span;
    use syn::ext::IdentExt;
    use syn::parse::{Parse, ParseStream};
    use syn::{Ident, LitInt, Result, Token, bracketed, parenthesized};
    pub struct Made(pub Vec<String>);
    fn int(l: &LitInt) -> String {
        format!("{l}{}", at(l.span()))
    }
    fn dots(d: &Token![..]) -> [String; 2] {
        d.spans.map(|s| format!(".{}", at(s)))
    }
    fn done(i: ParseStream, at: Span) -> Result<()> {
        if i.is_empty() { Ok(()) } else { Err(syn::Error::new(at, "more")) }
    }
    impl Parse for Made {
        fn parse(i: ParseStream) -> Result<Self> {
            let mut out = vec![];
            if i.peek(LitInt) {
                let a: LitInt = i.parse()?;
                out.push(int(&a));
                let f = i.fork();
                if f.parse::<Token![..]>().is_ok() && f.parse::<LitInt>().is_ok() {
                    out.extend(dots(&i.parse()?));
                    out.push(int(&i.parse()?));
                }
            } else if i.peek(Ident::peek_any) && i.peek2(syn::token::Paren) {
                let n = Ident::parse_any(i)?;
                let c;
                let p = parenthesized!(c in i);
                out.extend([format!("{n}{}", at(n.span())), format!("({}", at(p.span.open()))]);
                out.extend(args(&c)?);
                done(&c, p.span.close())?;
                out.push(format!("){}", at(p.span.close())));
            } else if i.peek(syn::token::Bracket) {
                let c;
                let p = bracketed!(c in i);
                out.push(format!("[{}", at(p.span.open())));
                while !c.is_empty() {
                    out.extend(c.parse::<Made>()?.0);
                    if c.is_empty() {
                        break;
                    }
                    let s: Token![;] = c.parse()?;
                    out.push(format!(";{}", at(s.span)));
                }
                out.push(format!("]{}", at(p.span.close())));
            } else if i.peek(Token![+]) {
                let m: Token![+] = i.parse()?;
                out.push(format!("+{}", at(m.span)));
                if i.peek(LitInt) {
                    out.push(int(&i.parse()?));
                }
            } else {
                return Err(i.error("none"));
            }
            Ok(Made(out))
        }
    }
    fn args(c: ParseStream) -> Result<Vec<String>> {
        let (mut v, mut x, mut f, mut named) = (vec![], None, None, false);
        while !c.is_empty() {
            let word = if c.peek(Ident::peek_any) { c.fork().call(Ident::parse_any).ok().map(|w| w.to_string()) } else { None };
            let ends = c.peek2(Token![,]) || c.fork().call(Ident::parse_any).is_ok() && c.cursor().ident().is_some_and(|(_, r)| r.eof());
            let sets = c.peek2(Token![=]) && !c.peek2(Token![==]) && !c.peek2(Token![=>]);
            match word {
                Some(w) if ends => {
                    let i = Ident::parse_any(c)?;
                    if w != "f" || f.is_some() {
                        return Err(syn::Error::new(i.span(), "flag"));
                    }
                    f = Some(format!("f{}", at(i.span())));
                    named = true;
                }
                Some(w) if sets => {
                    let i = Ident::parse_any(c)?;
                    c.parse::<Token![=]>()?;
                    if w != "x" || x.is_some() {
                        return Err(syn::Error::new(i.span(), "value"));
                    }
                    x = Some(int(&c.parse()?));
                    named = true;
                }
                _ if named => return Err(c.error("unnamed after named")),
                _ => v.extend(c.parse::<Made>()?.0),
            }
            if c.is_empty() {
                break;
            }
            c.parse::<Token![,]>()?;
        }
        v.extend(x);
        v.extend(f);
        Ok(v)
    }
}
/// All argument texts for one parameter name, by alphabet.
fn name_items(n: &str, leaf: Leaf, i: usize, alpha: &str, out: &mut V<String>) {
    let (g, h, b) = vals(leaf, i);
    let mut push = |s: String| out.push(s);
    match alpha {
        "min" => {
            for s in [n.to_string(), format!("{n} = {g}"), format!("{n}({g})")] {
                push(s)
            }
        }
        "core" => {
            for s in [
                n.to_string(),
                format!("{n} = {g}"),
                format!("{n} = {h}"),
                format!("{n}({g})"),
                format!("{n}()"),
                format!("{n}({g}, {h})"),
                format!("{n} = {b}"),
            ] {
                push(s)
            }
            // a value in parentheses of its own
            if matches!(leaf, Leaf::Expr | Leaf::Type) {
                push(format!("{n}((x, {h}))"));
                push(format!("{n} = (x, {h})"));
            }
        }
        "full" => {
            for s in [
                n.to_string(),
                format!("{n} = {g}"),
                format!("{n} = {h}"),
                format!("{n}({g})"),
                format!("{n}()"),
                format!("{n}({g}, {h})"),
                format!("{n}({h}, {g},)"),
                format!("{n}({g},)"),
                format!("{n}({g}, {h}, {g})"),
                format!("{n}(,)"),
                format!("{n}({g},,{h})"),
                format!("{n}(,{g})"),
                format!("{n}({g} {h})"),
                format!("{n}({b})"),
                format!("{n}({g}, {b})"),
                format!("{n} = {b}"),
                format!("{n} ="),
                format!("{n} == {g}"),
                format!("{n} => {g}"),
                format!("{n} {g}"),
                format!("{n} = {g} {h}"),
                format!("{n}={g}"),
                format!("{n} ={g}"),
                format!("{n}= {g}"),
                format!("{n} ({g})"),
                format!("{n}( {g} )"),
                format!("{n}({g})({h})"),
                format!("{n}({g}) = {h}"),
                format!("{n} = ({g})"),
                format!("{n} = (x, {h})"),
                format!("{n}(({g}))"),
                format!("{n}((x, {h}))"),
                format!("{n}(({g}), ({h}))"),
                format!("{n} = = {g}"),
                format!("{n}[{g}]"),
                format!("{n}{{{g}}}"),
                format!("{n}::x"),
                format!("{n}!({g})"),
                format!("{n}.f"),
            ] {
                push(s)
            }
            if matches!(leaf, Leaf::Expr) {
                for s in [
                    "=-1", "=!x", "=&x", "= -1", "=..", "=|x| x", "=*p", "=-x + 1", "= x == y",
                    "= x = y", " =-1", "=<T>::X", "=::p", "= 'l: loop {}", "=#[a] x",
                ] {
                    push(format!("{n}{s}"))
                }
            }
            if matches!(leaf, Leaf::Int) {
                for s in ["=-1", "= -1", "=- 1", "=--1"] {
                    push(format!("{n}{s}"))
                }
            }
            if matches!(leaf, Leaf::Type) {
                for s in ["=&u8", "=*const u8", "=!", "=::a::B", "=<A as B>::C", "=-1"] {
                    push(format!("{n}{s}"))
                }
            }
        }
        _ => panic!("alphabet {alpha}"),
    }
}
/// Only the forms the model accepts for this style, two different values each.
fn valid_items(n: &str, sty: Sty, leaf: Leaf, i: usize, inner: &[String], out: &mut V<String>) {
    let (g, h, _) = vals(leaf, i);
    if sty.flag() {
        out.push(n.to_string());
    }
    if let Leaf::Inner(_) = leaf {
        for x in inner {
            if sty.na() {
                out.push(format!("{n}({x})"));
            }
        }
        return;
    }
    let paren = matches!(leaf, Leaf::Expr | Leaf::Type);
    if sty.nv() {
        out.push(format!("{n} = {g}"));
        out.push(format!("{n} = {h}"));
        if paren {
            out.push(format!("{n} = (x, {h})"));
        }
    }
    if sty.na() {
        out.push(format!("{n}({g})"));
        if paren {
            out.push(format!("{n}((x, {h}))"));
        }
        if matches!(sty, Vec | NAVec | NAOptVec) {
            out.push(format!("{n}({g}, {h})"));
            out.push(format!("{n}({h}, {g}, {g},)"));
            out.push(format!("{n}()"));
        } else {
            out.push(format!("{n}({h})"));
        }
    }
}
const LIKE: &[&str] =
    &["zz", "zz = 1", "zz(1)", "zz == 1", "zz => 1", "zz.f", "Zz", "Zz = 1", "Zz(1)", "zz(1).g()", "zz[0]", "zz::y", "zz + 1", "zz!(1)", "zz {}", "1 + zz", "(zz)", "-1", "zz=-1", "zz = -1"];

fn inner_lists(d: &'static SmDef, alpha: &str, depth: usize) -> V<String> {
    // a definition may contain itself
    thread_local! { static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) } }
    let n = DEPTH.get();
    if n == 2 {
        return vec![String::new()];
    }
    DEPTH.set(n + 1);
    let it = items(d, alpha);
    DEPTH.set(n);
    let mut out = vec![String::new()];
    let mut cur = vec![String::new()];
    for _ in 0..depth {
        let mut next = V::new();
        for c in &cur {
            for i in &it {
                next.push(if c.is_empty() { i.clone() } else { format!("{c}, {i}") });
            }
        }
        out.extend(next.iter().cloned());
        cur = next;
    }
    out
}

/// The alphabet of arguments for one definition.
pub fn items(def: &SmDef, alpha: &str) -> V<String> {
    let mut out = V::new();
    let positional = def.fields.iter().any(|f| matches!(f.role, Role::Req | Role::Opt | Role::Var));
    for (i, f) in def.fields.iter().enumerate() {
        match f.role {
            Role::Named(n, _, sty) => match (alpha, f.leaf) {
                ("valid", Leaf::Inner(d)) => {
                    valid_items(n, sty, f.leaf, i, &inner_lists(d, "valid", 2), &mut out)
                }
                ("valid", _) => valid_items(n, sty, f.leaf, i, &[], &mut out),
                (a, Leaf::Inner(d)) => {
                    out.push(n.to_string());
                    out.push(format!("{n} = 1"));
                    let (a, dep) = match a {
                        "min" => ("valid", 1),
                        "core" => ("min", 1),
                        _ => ("core", 2),
                    };
                    for x in inner_lists(d, a, dep) {
                        out.push(format!("{n}({x})"));
                    }
                }
                ("names", leaf) => name_forms(n, leaf, i, &mut out),
                ("hint", _) => {}
                ("like", leaf) => name_items(n, leaf, i, "core", &mut out),
                (a, leaf) => name_items(n, leaf, i, a, &mut out),
            },
            Role::Rest(sty) => {
                let a = match alpha {
                    "like" => "core",
                    a => a,
                };
                let ns: &[&str] = match alpha {
                    "hint" | "names" => &[],
                    "min" => &["zz"],
                    _ => &["zz", "yy"],
                };
                for (j, n) in ns.iter().enumerate() {
                    if let Leaf::Inner(d) = f.leaf {
                        for x in inner_lists(d, if a == "full" { "min" } else { "valid" }, 1) {
                            out.push(format!("{n}({x})"));
                        }
                        out.push(n.to_string());
                        continue;
                    }
                    if alpha == "valid" {
                        valid_items(n, sty, f.leaf, 7 + j, &[], &mut out);
                    } else if j == 0 {
                        name_items(n, f.leaf, 7 + j, a, &mut out);
                    } else {
                        name_items(n, f.leaf, 7 + j, "min", &mut out);
                    }
                }
            }
            Role::Req | Role::Opt | Role::Var => {
                let (g, h, b) = vals(f.leaf, i);
                match alpha {
                    "valid" | "min" => out.push(g),
                    "hint" => {}
                    "full" => out.extend([g.clone(), h.clone(), b, format!("{g} {h}"), format!("({g})"), format!("(x, {h})")]),
                    _ => {
                        if matches!(f.leaf, Leaf::Expr | Leaf::Type) {
                            out.push(format!("(x, {h})"));
                        }
                        out.extend([g, h, b])
                    }
                }
            }
        }
    }
    let has_rest = def.fields.iter().any(|f| matches!(f.role, Role::Rest(_)));
    match alpha {
        "full" => {
            if !has_rest {
                name_items("zz", Leaf::Int, 9, "core", &mut out);
            }
            if !positional {
                out.extend(["1".into(), "(a)".into(), "+".into()]);
            }
        }
        "core" => {
            if !has_rest {
                name_items("zz", Leaf::Int, 9, "min", &mut out);
            }
            if !positional {
                out.push("1".into());
            }
        }
        "like" => out.extend(LIKE.iter().map(|s| s.to_string())),
        _ => {}
    }
    out.extend(def.extra.iter().map(|s| s.to_string()));
    let mut seen = std::collections::HashSet::new();
    out.retain(|s| seen.insert(s.clone()));
    out
}
/// Near misses of a declared name, each in the three forms.
fn name_forms(n: &str, leaf: Leaf, i: usize, out: &mut V<String>) {
    let mut names = vec![n.to_string()];
    let cs: V<char> = n.chars().collect();
    names.push(n.to_uppercase());
    names.push(n.to_lowercase());
    let mut cap = cs.clone();
    cap[0] = cap[0].to_ascii_uppercase();
    names.push(cap.iter().collect());
    names.push(format!("{n}_"));
    names.push(format!("_{n}"));
    names.push(format!("{n}{n}"));
    names.push(format!("{n}1"));
    names.push(n.replace('_', ""));
    names.push(n.replace('_', "__"));
    if cs.len() > 1 {
        for k in 0..cs.len() {
            let mut c = cs.clone();
            c.remove(k);
            names.push(c.iter().collect());
        }
        for k in 1..cs.len() {
            let mut c = cs.clone();
            c.swap(k - 1, k);
            names.push(c.iter().collect());
        }
    }
    if !["self", "Self", "super", "crate", "_"].contains(&n) {
        names.push(format!("r#{n}"));
    }
    let (g, _, _) = vals(leaf, i);
    for m in names {
        let c: V<char> = m.chars().collect();
        if ident(&c, 0, c.len()) != Some(c.len()) {
            continue;
        }
        out.push(m.clone());
        out.push(format!("{m} = {g}"));
        out.push(format!("{m}({g})"));
    }
}

fn word(msg: &str, n: usize) -> bool {
    let n = n.to_string();
    msg.split(|c: char| !c.is_ascii_digit()).any(|w| w == n)
}

impl Ctx {
    pub fn new(mask: Mask) -> Self {
        Ctx { mask, rep: Report::default(), n: 0, list: None }
    }
    fn bad(&mut self, def: &SmDef, input: &str, class: &str, expected: String, got: String) {
        self.rep.violation(Violation {
            def: def.id.into(),
            src: def.src.into(),
            input: input.into(),
            class: class.into(),
            expected,
            got,
        });
    }
    /// Replays one trace against the implementation and compares. Returns "the list is dead".
    pub fn eval(&mut self, def: &SmDef, input: &str) -> bool {
        let cs: V<char> = input.chars().collect();
        let m = model(def, &cs, 0, cs.len(), true);
        if let Some(list) = &mut self.list {
            list.push(input.into());
            return matches!(&m.res, Err(e) if e.dead);
        }
        self.rep.traces += 1;
        self.rep.transitions += 1;
        self.rep.states.insert(hash(&format!("{}\u{0}{}", def.id, m.state)));
        self.n += 1;
        if self.n % 4096 == 0 {
            proc_macro2::extra::invalidate_current_thread_spans();
        }
        let text = format!("\n{input}");
        begin(def.id, def.src, input);
        let got = std::panic::catch_unwind(|| Parser::parse_str(def.parse, &text));
        end();
        let got = match got {
            Ok(g) => g,
            Err(p) => {
                let s = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                self.bad(def, input, "panic", format!("{:?}", m.res), format!("panic: {s}"));
                return true;
            }
        };
        let dead = matches!(&m.res, Err(e) if e.dead);
        let mask = self.mask;
        let show = match &m.res {
            Ok(v) => format!("Ok {}", v.join(" | ")),
            Err(e) => format!("Err {:?}", e.kind),
        };
        if self.rep.samples.len() < 6 && self.rep.traces % 97 == 1 {
            self.rep.samples.push((def.src.into(), input.into(), show.clone()));
        }
        self.rep.outcomes.insert(hash(&strip(&show)));
        match (&m.res, &got) {
            (Ok(e), Ok(g)) => {
                self.rep.accepted += 1;
                if e != g {
                    let (se, sg) = (strip(&e.join(" | ")), strip(&g.join(" | ")));
                    if se != sg {
                        if mask.sem {
                            self.bad(def, input, "wrong value", e.join(" | "), g.join(" | "));
                        }
                    } else if mask.span {
                        self.bad(def, input, "wrong span", e.join(" | "), g.join(" | "));
                    }
                }
            }
            (Ok(e), Err(g)) => {
                if mask.sem {
                    self.bad(def, input, "rejected", format!("accepted as {}", e.join(" | ")), format!("error: {g}"));
                }
            }
            (Err(e), Ok(g)) => {
                if mask.sem {
                    self.bad(def, input, "accepted", format!("rejected: {:?}", e.kind), format!("accepted as {}", g.join(" | ")));
                }
            }
            (Err(e), Err(g)) => {
                self.rep.rejected += 1;
                let p = g.span().start();
                let col = (p.line == 2).then_some(p.column);
                let msg = g.to_string();
                if mask.place {
                    let ok = match e.kind {
                        EK::Value => match col {
                            Some(c) => (e.lo..=e.hi).contains(&c),
                            None => e.eof,
                        },
                        EK::Missing(_) | EK::MissingUnnamed(..) => true,
                        _ => col == Some(e.lo),
                    };
                    if !ok {
                        self.bad(def, input, "wrong place", format!("{:?} at {}..={}", e.kind, e.lo, e.hi), format!("{col:?}: {msg}"));
                    }
                }
                if mask.msg || mask.missing && matches!(e.kind, EK::Missing(_)) {
                    let ok = match &e.kind {
                        EK::Value | EK::TooMany | EK::AfterNamed => !msg.is_empty(),
                        EK::Dup(n) | EK::Unknown(n, _) => msg.contains(&format!("`{n}`")),
                        EK::WrongForm(n, f) => {
                            let head = msg.split(", found").next().unwrap();
                            head.contains(&format!("`{n}`")) == f.0
                                && head.contains(&format!("`{n} = ...`")) == f.1
                                && head.contains(&format!("`{n}(...)`")) == f.2
                        }
                        EK::Missing(ns) => ns.iter().any(|n| {
                            [" ", "(", "`"].iter().any(|e| msg.contains(&format!("`{n}{e}")))
                        }),
                        EK::MissingUnnamed(a, b) => word(&msg, *a) && word(&msg, *b),
                    };
                    if !ok {
                        self.bad(def, input, "wrong message", format!("{:?}", e.kind), msg.clone());
                    }
                }
                if mask.hint {
                    if let EK::Unknown(_, h) = &e.kind {
                        let got = msg
                            .split_once("similar name exists: `")
                            .and_then(|x| x.1.split_once('`'))
                            .map(|x| x.0.to_string());
                        if &got != h {
                            self.bad(def, input, "wrong hint", format!("hint {h:?}"), msg);
                        }
                    }
                }
            }
        }
        if mask.none {
            self.none(def, input, &cs, &m);
        }
        dead
    }
    /// Replays the trace with its parts in invisible groups: each part alone, each twice, all arguments,
    /// all parts at once.
    fn none(&mut self, def: &SmDef, input: &str, cs: &[char], m: &Out) {
        let mut us = V::new();
        units(cs, 0, cs.len(), &mut us);
        us.sort();
        us.dedup();
        let mut sets: V<V<(usize, usize)>> = us.iter().flat_map(|&u| [vec![u], vec![u, u]]).collect();
        if us.len() > 1 {
            sets.push(us.clone());
            let args: V<(usize, usize)> = split(cs, 0, cs.len()).iter().map(|s| (s.lo, trim_end(cs, s.lo, s.hi))).filter(|r| r.0 < r.1).collect();
            sets.push(args);
            for i in 0..us.len() {
                for j in 0..i {
                    sets.push(vec![us[j], us[i]]);
                }
            }
        }
        sets.sort();
        sets.dedup();
        let ts: TokenStream = format!("\n{input}").parse().unwrap();
        for set in sets {
            self.rep.transitions += 1;
            let w = wrap(ts.clone(), &set);
            let shown = w.to_string();
            begin(def.id, def.src, &shown);
            let got = std::panic::catch_unwind(|| Parser::parse2(def.parse, w));
            end();
            let got = match got {
                Ok(g) => g,
                Err(_) => {
                    self.bad(def, input, "panic with an invisible group", format!("{:?}", m.res), format!("{set:?} {shown}"));
                    continue;
                }
            };
            match (&m.res, &got) {
                (Ok(e), Ok(g)) if e == g => {}
                (Err(_), Err(_)) => {}
                _ => {
                    let g = match got {
                        Ok(g) => format!("accepted as {}", g.join(" | ")),
                        Err(e) => format!("error: {e}"),
                    };
                    let e = match &m.res {
                        Ok(g) => format!("accepted as {}", g.join(" | ")),
                        Err(e) => format!("rejected: {:?}", e.kind),
                    };
                    self.bad(def, input, "different in an invisible group", e, format!("{g}, with columns {set:?} grouped"));
                }
            }
        }
    }
    /// Depth-first exploration: level k takes its arguments from alphabet `levels[k]`.
    fn dfs(&mut self, def: &SmDef, prefix: &str, levels: &[V<String>], dead: bool) {
        let Some((first, others)) = levels.split_first() else { return };
        for it in first {
            let s = if prefix.is_empty() { it.clone() } else { format!("{prefix}, {it}") };
            let d = self.eval(def, &s);
            // Behind an argument that makes the list invalid one more level is explored (nothing
            // may repair it); deeper extensions of dead lists are cut.
            if !(dead && d) {
                self.dfs(def, &s, others, d);
            }
        }
    }
    /// Every list of up to `depth` arguments, with every placement of separators: gaps `, ` `,` ` `
    /// `,,` `, ,`, an optional leading comma, trailing nothing, `,` or `,,`.
    fn seps(&mut self, def: &SmDef, items: &[String], depth: usize) {
        fn lists(items: &[String], n: usize) -> V<V<&str>> {
            if n == 0 {
                return vec![vec![]];
            }
            let mut out = V::new();
            for l in lists(items, n - 1) {
                for i in items {
                    let mut m = l.clone();
                    m.push(i.as_str());
                    out.push(m);
                }
            }
            out
        }
        for n in 0..=depth {
            for l in lists(items, n) {
                let gaps: &[&str] = &[", ", ",", " ", ",,", " , , ", " ;"];
                let g = n.saturating_sub(1);
                for code in 0..gaps.len().pow(g as u32) {
                    for lead in ["", ",", ", ,"] {
                        for trail in ["", ",", " , ", ",,"] {
                            let mut s = lead.to_string();
                            let mut c = code;
                            for (k, it) in l.iter().enumerate() {
                                if k > 0 {
                                    s.push_str(gaps[c % gaps.len()]);
                                    c /= gaps.len();
                                }
                                s.push_str(it);
                            }
                            s.push_str(trail);
                            self.eval(def, &s);
                        }
                    }
                }
            }
        }
    }
    /// Definitions with many fields: all fields given, in declaration order, every rotation, reversed,
    /// and with every two exchanged, with either value; each also with every single one left out or
    /// doubled.
    fn perm(&mut self, def: &SmDef) {
        let mut opts: V<V<String>> = V::new();
        let mut fixed: V<V<String>> = V::new();
        for (i, f) in def.fields.iter().enumerate() {
            let mut v = V::new();
            match f.role {
                Role::Named(n, _, sty) => {
                    let inner = match f.leaf {
                        Leaf::Inner(d) => inner_lists(d, "valid", 1),
                        _ => V::new(),
                    };
                    valid_items(n, sty, f.leaf, i, &inner, &mut v);
                    opts.push(v);
                }
                Role::Rest(sty) => {
                    for (j, n) in ["zz", "yy", "xx"].iter().enumerate() {
                        let mut v = V::new();
                        valid_items(n, sty, f.leaf, 50 + j, &[], &mut v);
                        opts.push(v);
                    }
                }
                Role::Req | Role::Opt => {
                    let (g, h, _) = vals(f.leaf, i);
                    fixed.push(vec![g, h]);
                }
                Role::Var => {
                    for j in 0..3 {
                        let (g, h, _) = vals(f.leaf, 20 + j);
                        fixed.push(vec![g, h]);
                    }
                }
            }
        }
        let n = opts.len();
        let mut orders: V<V<usize>> = V::new();
        for r in 0..n.max(1) {
            orders.push((0..n).map(|i| (i + r) % n).collect());
        }
        orders.push((0..n).rev().collect());
        for i in 0..n {
            for j in 0..i {
                let mut o: V<usize> = (0..n).collect();
                o.swap(i, j);
                orders.push(o);
            }
        }
        let max = opts.iter().chain(&fixed).map(|v| v.len()).max().unwrap_or(1);
        for o in &orders {
            for k in 0..max {
                let mut l: V<&str> = fixed.iter().map(|v| v[k % v.len()].as_str()).collect();
                l.extend(o.iter().map(|&i| opts[i][k % opts[i].len()].as_str()));
                self.eval(def, &l.join(", "));
                for d in 0..l.len() {
                    let mut m = l.clone();
                    m.remove(d);
                    self.eval(def, &m.join(", "));
                }
                if k < 2 {
                    for d in 0..l.len() {
                        for e in [l.len(), l.len() / 2] {
                            let mut m = l.clone();
                            m.insert(e, l[d]);
                            self.eval(def, &m.join(", "));
                        }
                    }
                }
            }
        }
        // prefixes of the unnamed part, and the given named part growing one by one
        for k in 0..=fixed.len() {
            let l: V<&str> = fixed[..k].iter().map(|v| v[0].as_str()).collect();
            self.eval(def, &l.join(", "));
            for o in &opts {
                let mut m = l.clone();
                m.push(o[0].as_str());
                self.eval(def, &m.join(", "));
            }
        }
        for k in 0..=n {
            let mut l: V<&str> = fixed.iter().map(|v| v[0].as_str()).collect();
            l.extend(opts[..k].iter().map(|v| v[0].as_str()));
            self.eval(def, &l.join(", "));
            let mut l: V<&str> = fixed.iter().map(|v| v[0].as_str()).collect();
            l.extend(opts[k..].iter().map(|v| v[0].as_str()));
            self.eval(def, &l.join(", "));
        }
    }
    /// Pairs of arguments for the same name with up to `between` other arguments between and `after`.
    fn dups(&mut self, def: &SmDef, between: usize, after: usize) {
        let all = items(def, "valid");
        let fixed: V<String> = def
            .fields
            .iter()
            .enumerate()
            .filter(|(_, f)| matches!(f.role, Role::Req))
            .map(|(i, f)| vals(f.leaf, i).0)
            .collect();
        let key = |s: &str| {
            let c: V<char> = s.chars().collect();
            ident(&c, 0, c.len()).map(|e| c[..e].iter().collect::<String>())
        };
        fn seqs(all: &[String], n: usize) -> V<V<String>> {
            let mut out = vec![vec![]];
            let mut cur: V<V<String>> = vec![vec![]];
            for _ in 0..n {
                let mut next = V::new();
                for c in &cur {
                    for a in all {
                        let mut c = c.clone();
                        c.push(a.clone());
                        next.push(c);
                    }
                }
                out.extend(next.iter().cloned());
                cur = next;
            }
            out
        }
        for x in &all {
            let Some(kx) = key(x) else { continue };
            let others: V<String> =
                all.iter().filter(|o| key(o).is_some_and(|k| k != kx)).cloned().collect();
            let mids = seqs(&others, between);
            let tails = seqs(&others, after);
            for y in all.iter().filter(|y| key(y).as_ref() == Some(&kx)) {
                for m in &mids {
                    for t in &tails {
                        let mut l = fixed.clone();
                        l.push(x.clone());
                        l.extend(m.iter().cloned());
                        l.push(y.clone());
                        l.extend(t.iter().cloned());
                        self.eval(def, &l.join(", "));
                    }
                }
            }
        }
    }
    /// Lists of 0..=n+2 unnamed arguments in order, each also with one position made a bad value or a
    /// named argument, and with named arguments behind them.
    fn fill(&mut self, def: &SmDef, more: usize) {
        let pos: V<usize> = (0..def.fields.len())
            .filter(|&i| matches!(def.fields[i].role, Role::Req))
            .chain((0..def.fields.len()).filter(|&i| matches!(def.fields[i].role, Role::Opt)))
            .chain((0..def.fields.len()).filter(|&i| matches!(def.fields[i].role, Role::Var)))
            .collect();
        let mut named = V::new();
        for (i, f) in def.fields.iter().enumerate() {
            match f.role {
                Role::Named(n, _, sty) => valid_items(n, sty, f.leaf, i, &[], &mut named),
                Role::Rest(sty) => valid_items("zz", sty, f.leaf, i, &[], &mut named),
                _ => {}
            }
        }
        let leaf = |k: usize| pos.get(k).or(pos.last()).map_or(Leaf::Int, |&i| def.fields[i].leaf);
        for n in 0..=pos.len() + more {
            for swap in [false, true] {
                let l: V<String> = (0..n)
                    .map(|k| {
                        let v = vals(leaf(k), 30 + k);
                        if swap { v.1 } else { v.0 }
                    })
                    .collect();
                for trail in ["", ",", ",,"] {
                    self.eval(def, &format!("{}{trail}", l.join(", ")));
                }
                let mut alts = named.clone();
                alts.extend(["zz".into(), "1".into(), "\"s\"".into(), "".into(), "a + 1".into()]);
                for k in 0..=n {
                    for a in &alts {
                        let mut m = l.clone();
                        m.insert(k, a.clone());
                        self.eval(def, &m.join(", "));
                        if k < n {
                            m.remove(k + 1);
                            self.eval(def, &m.join(", "));
                        }
                        if k == n {
                            for b in &named {
                                let mut m = m.clone();
                                m.push(b.clone());
                                self.eval(def, &m.join(", "));
                                m.push(l.last().cloned().unwrap_or("1".into()));
                                self.eval(def, &m.join(", "));
                            }
                        }
                    }
                }
            }
        }
    }
    /// Definitions with many parameters: each argument alone, every two in both orders, all of them, all
    /// but one, and all with one of them again; a rest map gets two more names.
    fn many(&mut self, def: &SmDef) {
        let mut fixed: V<String> = V::new();
        let mut opts: V<V<String>> = V::new();
        for (i, f) in def.fields.iter().enumerate() {
            let mut v = V::new();
            match f.role {
                Role::Named(n, _, sty) => valid_items(n, sty, f.leaf, i, &[], &mut v),
                Role::Rest(sty) => {
                    for (j, n) in ["zz", "yy"].iter().enumerate() {
                        let mut v = V::new();
                        valid_items(n, sty, f.leaf, 50 + j, &[], &mut v);
                        opts.push(v);
                    }
                    continue;
                }
                Role::Req => {
                    fixed.push(vals(f.leaf, i).0);
                    continue;
                }
                _ => continue,
            }
            opts.push(v);
        }
        let list = |l: &[&str]| {
            let mut s: V<&str> = fixed.iter().map(|x| x.as_str()).collect();
            s.extend(l);
            s.join(", ")
        };
        for i in 0..opts.len() {
            for x in &opts[i] {
                self.eval(def, &list(&[x]));
            }
            for j in 0..opts.len() {
                for k in 0..2 {
                    let (x, y) = (&opts[i][k % opts[i].len()], &opts[j][(k + 1) % opts[j].len()]);
                    self.eval(def, &list(&[x, y]));
                }
            }
        }
        let all: V<&str> = opts.iter().map(|o| o[0].as_str()).collect();
        self.eval(def, &list(&all));
        for i in 0..all.len() {
            let mut m = all.clone();
            m.rotate_left(i);
            self.eval(def, &list(&m));
            m.push(m[0]);
            self.eval(def, &list(&m));
            m.pop();
            m.remove(0);
            self.eval(def, &list(&m));
        }
    }
    /// Long lists: 0..=n values for a variadic field, a rest map and every list parameter; each also with
    /// one of them malformed or (rest map) doubled.
    fn grow(&mut self, def: &SmDef, n: usize) {
        let sizes: V<usize> = (0..=n)
            .filter(|&k| k <= 40 || [-1, 0, 1].iter().any(|d| ((k as i64 + d) as u64).is_power_of_two()))
            .collect();
        let fixed: V<String> = def
            .fields
            .iter()
            .enumerate()
            .filter(|(_, f)| matches!(f.role, Role::Req | Role::Opt))
            .map(|(i, f)| vals(f.leaf, i).0)
            .collect();
        let list = |l: &[String], trail: &str| {
            let mut s = fixed.clone();
            s.extend_from_slice(l);
            s.join(", ") + trail
        };
        for f in def.fields {
            for &k in &sizes {
                let spots = [0, k / 2, k.saturating_sub(1)];
                match f.role {
                    Role::Var => {
                        let l: V<String> = (0..k).map(|j| vals(f.leaf, 100 + j).0).collect();
                        self.eval(def, &list(&l, ""));
                        self.eval(def, &list(&l, ","));
                        for &p in spots.iter().filter(|_| k > 0) {
                            let mut m = l.clone();
                            m[p] = "+".into();
                            self.eval(def, &list(&m, ""));
                        }
                    }
                    Role::Rest(sty) => {
                        let l: V<String> = (0..k)
                            .map(|j| {
                                let mut v = V::new();
                                valid_items(&format!("k{j}"), sty, f.leaf, 100 + j, &[], &mut v);
                                v.swap_remove(j % v.len())
                            })
                            .collect();
                        self.eval(def, &list(&l, ""));
                        for &p in spots.iter().filter(|_| k > 0) {
                            let mut m = l.clone();
                            m.push(l[p].clone());
                            self.eval(def, &list(&m, ""));
                            m[p] = format!("k{p} +");
                            self.eval(def, &list(&m, ""));
                        }
                    }
                    Role::Named(name, _, Sty::Vec | Sty::NAVec | Sty::NAOptVec) => {
                        let l: V<String> = (0..k).map(|j| vals(f.leaf, 100 + j).0).collect();
                        self.eval(def, &list(&[format!("{name}({})", l.join(", "))], ""));
                        self.eval(def, &list(&[format!("{name}({},)", l.join(", "))], ""));
                        for &p in spots.iter().filter(|_| k > 0) {
                            let mut m = l.clone();
                            m[p] = "+".into();
                            self.eval(def, &list(&[format!("{name}({})", m.join(", "))], ""));
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    /// Structs that contain themselves, nested 0 to `n` deep, alone and between other arguments; right and wrong at the bottom.
    /// Structs inside themselves, at every depth up to n or at some only.
    fn depth(&mut self, def: &'static SmDef, n: usize, every: bool) {
        let fixed: V<String> =
            def.fields.iter().enumerate().filter(|(_, f)| matches!(f.role, Role::Req)).map(|(i, f)| vals(f.leaf, i).0).collect();
        let list = |more: V<String>| fixed.iter().cloned().chain(more).collect::<V<_>>().join(", ");
        // arguments that come before and after the nested ones
        let mut flat = vec![None];
        for (i, f) in def.fields.iter().enumerate() {
            if let Role::Named(name, _, sty) = f.role
                && !matches!(f.leaf, Leaf::Inner(_))
            {
                let mut v = V::new();
                valid_items(name, sty, f.leaf, i, &[], &mut v);
                flat.extend(v.into_iter().map(Some));
            }
        }
        for f in def.fields {
            let name = match (f.role, f.leaf) {
                (Role::Named(name, ..), Leaf::Inner(d)) if std::ptr::eq(d, def) => name,
                (Role::Rest(_), Leaf::Inner(d)) if std::ptr::eq(d, def) => "kk",
                _ => continue,
            };
            for bottom in [list(vec![]), list(vec![name.into()]), list(vec!["+".into()]), list(vec!["zz = 1".into()]), String::new()] {
                for x in &flat {
                    for before in [true, false] {
                        if x.is_none() && before {
                            continue;
                        }
                        let mut t = bottom.clone();
                        for k in 0..=n {
                            if every || [0, 1, 4, 16, n].contains(&k) {
                                self.eval(def, &t);
                            }
                            let mut l = vec![format!("{name}({t})")];
                            if let Some(x) = x {
                                l.insert(if before { 0 } else { 1 }, x.clone());
                            }
                            t = list(l);
                        }
                    }
                }
            }
        }
    }
    pub fn pass(&mut self, def: &'static SmDef, p: &str) {
        let (kind, arg) = p.split_once(':').unwrap_or((p, ""));
        match kind {
            "dfs" => {
                self.eval(def, "");
                let levels: V<V<String>> = arg.split(',').map(|a| items(def, a)).collect();
                self.dfs(def, "", &levels, false);
            }
            "seps" => {
                let (a, n) = arg.split_once(',').unwrap();
                self.seps(def, &items(def, a), n.parse().unwrap());
            }
            "perm" => self.perm(def),
            "many" => self.many(def),
            "depth" => self.depth(def, arg.parse().unwrap(), true),
            "deep" => self.depth(def, arg.parse().unwrap(), false),
            "grow" => self.grow(def, arg.parse().unwrap()),
            // every token forest over a few tokens, compared with the model
            "soup" => {
                for f in soup::texts(&soup_names(def), &["q", "10", "=", ","], &[0], arg.parse().unwrap()) {
                    self.eval(def, f.trim_end());
                }
            }
            // every token forest over many tokens, only for an answer
            "chaos" => {
                for f in soup::texts(&soup_names(def), soup::MANY, &[0, 1, 2, 3], arg.parse().unwrap()) {
                    let parse = def.parse;
                    let run = |s: &str| crate::sn::over(parse, s).map(|v| v.join(" | "));
                    soup::total(&mut self.rep, (def.id, def.src), &f, &run);
                }
            }
            "fill" => self.fill(def, arg.parse().unwrap()),
            "dups" => {
                let (a, b) = arg.split_once(',').unwrap();
                self.dups(def, a.parse().unwrap(), b.parse().unwrap());
            }
            "idents" => {
                // every identifier up to length n over the letters, as the only argument
                let (letters, n) = arg.split_once(',').unwrap();
                let n: usize = n.parse().unwrap();
                let mut cur = vec![String::new()];
                for _ in 0..n {
                    let mut next = V::new();
                    for c in &cur {
                        for l in letters.chars() {
                            next.push(format!("{c}{l}"));
                        }
                    }
                    for s in &next {
                        self.eval(def, &format!("{s} = 1"));
                        self.eval(def, s);
                        self.eval(def, &format!("{s}(1)"));
                    }
                    cur = next;
                }
            }
            "edits" => {
                // every identifier within two edits of a declared name
                let mut set = std::collections::BTreeSet::new();
                for f in def.fields {
                    if let Role::Named(n, _, _) = f.role {
                        for e in edits(n) {
                            for e2 in if n.len() <= 6 { edits(&e) } else { vec![e.clone()] } {
                                set.insert(e2);
                            }
                            set.insert(e);
                        }
                    }
                }
                for s in set {
                    let c: V<char> = s.chars().collect();
                    if ident(&c, 0, c.len()) == Some(c.len()) && c.len() > 0 && s != "_" {
                        self.eval(def, &format!("{s} = 1"));
                    }
                }
            }
            _ => panic!("pass {p}"),
        }
    }
}
/// Up to two declared names.
fn soup_names(def: &SmDef) -> V<&'static str> {
    let names = def.fields.iter().filter_map(|f| match f.role {
        Role::Named(n, _, _) => Some(n),
        _ => None,
    });
    names.take(2).collect()
}
fn edits(n: &str) -> V<String> {
    let c: V<char> = n.chars().collect();
    let mut out = V::new();
    let letters: V<char> = {
        let mut l: V<char> = c.iter().copied().chain(['q']).collect();
        l.sort();
        l.dedup();
        l
    };
    for i in 0..=c.len() {
        for &l in &letters {
            let mut d = c.clone();
            d.insert(i, l);
            out.push(d.iter().collect());
        }
        if i < c.len() {
            let mut d = c.clone();
            d.remove(i);
            out.push(d.iter().collect());
            for &l in &letters {
                let mut d = c.clone();
                d[i] = l;
                out.push(d.iter().collect());
            }
            if i > 0 {
                let mut d = c.clone();
                d.swap(i - 1, i);
                out.push(d.iter().collect());
            }
        }
    }
    out
}

/// Entry point of a generated explorer program: `prog OUT MASK [family=]PASS...`
pub fn main(defs: &[(&'static str, &'static SmDef)]) {
    let args: V<String> = std::env::args().collect();
    let mut mask = Mask::default();
    for m in args[2].split(',') {
        match m {
            "sem" => mask.sem = true,
            "span" => mask.span = true,
            "place" => mask.place = true,
            "msg" => mask.msg = true,
            "hint" => mask.hint = true,
            "missing" => mask.missing = true,
            "none" => mask.none = true,
            _ => panic!("mask {m}"),
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    watch(&args[1]);
    let mut ctx = Ctx::new(mask);
    for (fam, d) in defs {
        ctx.rep.defs += 1;
        for p in &args[3..] {
            let (f, p) = p.split_once('=').unwrap_or(("", p));
            if f.is_empty() || f == *fam {
                ctx.pass(d, p);
            }
        }
        MEMO.with(|m| {
            if m.borrow().len() > 200_000 {
                m.borrow_mut().clear()
            }
        });
    }
    std::fs::write(&args[1], ctx.rep.json()).unwrap();
}
