"""G02: definitions under unusual names, in hostile scopes, at unusual places, through macros."""
import re
from . import core, sm, sn
from .sm import D, F

S = "::std::"
TY_ABS = dict(Bool="::std::primitive::bool", Flag="::structmeta::Flag", Val="{}", Vec="::std::vec::Vec<{}>", NV="::structmeta::NameValue<{}>",
              NVOpt="::structmeta::NameValue<::std::option::Option<{}>>", NA="::structmeta::NameArgs<{}>",
              NAOpt="::structmeta::NameArgs<::std::option::Option<{}>>", NAVec="::structmeta::NameArgs<::std::vec::Vec<{}>>",
              NAOptVec="::structmeta::NameArgs<::std::option::Option<::std::vec::Vec<{}>>>")
SN_ABS = dict(Int="::syn::LitInt", Str="::syn::LitStr", Ident="::syn::Ident", Eq="::syn::Token![=]", Plus="::syn::Token![+]",
              OptEq="::std::option::Option<::syn::Token![=]>", OptPlus="::std::option::Option<::syn::Token![+]>", Paren="::syn::token::Paren",
              Bracket="::syn::token::Bracket", Brace="::syn::token::Brace", Macro="::syn::MacroDelimiter",
              Ints="::syn::punctuated::Punctuated<::syn::LitInt, ::syn::Token![,]>",
              Idents="::syn::punctuated::Punctuated<::syn::Ident, ::syn::Token![;]>", Rest="::proc_macro2::TokenStream")


def abs_ty(f):
    """The field's type with absolute paths only."""
    l = "::syn::LitInt"
    if f.kind == "named":
        t = TY_ABS[f.sty].format(l)
        return f"::std::option::Option<{t}>" if f.opt else t
    if f.kind == "rest":
        return f"::std::collections::HashMap<::std::string::String, {TY_ABS[f.sty].format(l)}>"
    return {"req": l, "opt": f"::std::option::Option<{l}>", "var": f"::std::vec::Vec<{l}>"}[f.kind]


def lit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


LINTS = "#[deny(warnings)] #[allow(dead_code, unused_macros)]"
NAMES = "#[allow(non_camel_case_types, non_snake_case)] "  # on the type only: what the derive adds has no such excuse


class Item:
    """One definition with its harness, in a scope. place: mod fn method closure"""

    def __init__(self, label, d, tname="A", scope="", place="mod", macro=None, lints=LINTS, names=False):
        self.inst = ""  # type arguments
        self.label, self.d, self.tname, self.scope, self.place, self.macro, self.lints, self.names = label, d, tname, scope, place, macro, lints, names
        self.struct = isinstance(d, D)

    def definition(self):
        d = self.d
        if self.struct:
            for f in d.fields:
                if f.ty is None:
                    f.ty = abs_ty(f)
            t, self.acc = d.struct(self.tname)
            t = t.replace("#[derive(StructMeta)]", "#[derive(::structmeta::StructMeta)]")
        else:
            d.tname = self.tname
            old = sn.RUST
            sn.RUST = SN_ABS
            try:
                t = d.def_text()
            finally:
                sn.RUST = old
            t = re.sub(r"#\[derive\(([^)]*)\)\]", lambda m: "#[derive(" + ", ".join("::structmeta::" + x for x in m[1].split(", ")) + ")]", t, count=1)
        if self.macro:
            t = self.macro(self, t)
        return NAMES + t if self.names and t is not None else t

    def source(self):
        return f"// {self.place}\n" + (self.scope + "\n" if self.scope else "") + self.definition()

    def harness(self, ident):
        d, n, src = self.d, self.tname + self.inst, lit(self.source())
        if self.struct:
            vals = ", ".join(f"::mc::canon::Canon::canon(&x.{a})" for a in self.acc)
            fl = ", ".join(f"::mc::sm::Fld {{ role: {f.role().replace('Role::', '::mc::sm::Role::').replace('Sty::', '::mc::sm::Sty::')}, "
                           f"leaf: ::mc::sm::Leaf::Int }}" for f in d.fields)
            ex = ", ".join(lit(x) for x in d.extra)
            return (f'#[allow(deprecated)] pub static DEF: ::mc::sm::SmDef = ::mc::sm::SmDef {{ id: "{ident}", src: {src}, filter: {"true" if d.filter else "false"}, fields: &[{fl}], '
                    f"parse: |i| {{ let x = <{n} as ::syn::parse::Parse>::parse(i)?; let _ = &x; ::std::result::Result::Ok(::std::vec![{vals}]) }}, extra: &[{ex}] }};")
        arms = []
        for v in d.variants:
            names = [f"harness_{i}" for i in range(len(v.fields))]
            if v.kind == "record":
                pat = " { " + ", ".join(f"{d.names[i]}: {x}" for i, x in enumerate(names)) + " }"
            else:
                pat = "(" + ", ".join(names) + ")" if v.kind == "tuple" else ""
            vals = ", ".join(f"::mc::canon::Canon::canon({x})" for x in names)
            vn = v.name if d.is_enum else ""
            arms.append(f'{d.path(v)}{pat} => ::mc::sn::show("{vn}", &[{vals}]),')
        out = f"#[allow(deprecated)] impl ::mc::canon::Canon for {n} {{ fn canon(&self) -> ::std::string::String {{ match self {{ {' '.join(arms)} }} }} }}\n"
        run = f"::mc::sn::run_both::<{n}>" if "ToTokens" in d.derives else f"::mc::sn::run_parse::<{n}>"
        st = d.statics(ident, run)
        st = re.sub(r'src: "(?:[^"\\]|\\.)*"', lambda m: "src: " + src, st, count=1)
        head, tail = st.split("src: " + src, 1)
        head = head.replace(": SnDef = SnDef", ": ::mc::sn::SnDef = ::mc::sn::SnDef")
        tail = re.sub(r"(?<![:\w])(Vr|Fd) \{", r"::mc::sn::\1 {", tail)
        tail = tail.replace("Ty::", "::mc::sn::Ty::")
        return out + "#[allow(deprecated)] " + head + "src: " + src + tail

    def code(self, k):
        ty = "::mc::sm::SmDef" if self.struct else "::mc::sn::SnDef"
        inner = f"{self.scope}\n{self.definition()}\n{self.harness(f'd{k}')}"
        ret = f"pub fn def() -> &'static {ty}"
        if self.place == "mod":
            return f"{self.lints} pub mod d{k} {{\npub mod sc {{\n{inner}\n}}\n{ret} {{ &sc::DEF }}\n}}"
        if self.place == "fn":
            return f"{self.lints} pub mod d{k} {{\n{ret} {{\n{inner}\n&DEF\n}}\n}}"
        if self.place == "method":
            return f"{self.lints} pub mod d{k} {{\npub struct Zzz;\nimpl Zzz {{ fn m(self) -> &'static {ty} {{\n{inner}\n&DEF\n}} }}\n{ret} {{ Zzz.m() }}\n}}"
        return f"{self.lints} pub mod d{k} {{\n{ret} {{\nlet f = || {{\nif true {{\n{inner}\n&DEF\n}} else {{ unreachable!() }}\n}};\nf()\n}}\n}}"


# --- shapes ------------------------------------------------------------------------------------

def N(name, sty, opt=0, field=None, attrs=()):
    return F("named", sty, opt, "Int", name, field=field, attrs=attrs)


def sm_shapes(fam):
    return [
        D(fam, [F("req"), N("bb", "Val"), F("opt"), N("fl", "Flag"), F("var"), N("li", "NAVec", 1)]),
        D(fam, [N("a" + s.lower() + "o" * o, s, o) for s, o in sm.KINDS if s not in ("NV", "NA") or not o][:9] + [F("rest", "NAOptVec")]),
        D(fam, [N("n1", "NVOpt", 1), N("n2", "NAOpt", 1), N("n3", "NAVec", 1), N("b1", "Bool"), F("rest", "NVOpt")]),
        D(fam, [F("req"), F("req"), F("opt"), N("na", "NA", 1)], tuple=True),
        D(fam, [], unit=True), D(fam, []), D(fam, [], tuple=True),
        D(fam, [F("opt"), N("fl", "Flag"), F("rest", "Val")], filter=True),
        D(fam, [F("rest", "NA")]), D(fam, [F("req")]), D(fam, [F("opt")], tuple=True), D(fam, [F("var")]), D(fam, [N("fl", "Bool")]),
    ]


def fd(*a, **k):
    return sn.Fd(*a, **k)


BOTH = ("Parse", "ToTokens")


def sn_shapes(fam):
    V, SD = sn.Vr, sn.SD
    out = []
    bodies = [
        [], [fd("Int")], [fd("Int"), fd("Ident"), fd("Eq")],
        [fd("Paren", opens=True), fd("Int"), fd("Ident", closes=1)],
        [fd("Int"), fd("Macro", opens=True), fd("Bracket", opens=True), fd("Ident", closes=1), fd("Brace", opens=True, closes=1)],
        [fd("Ident", any=True), fd("Paren", opens=True, after=1), fd("Idents", any=True)], [fd("Ints")],
    ]
    for b in bodies:
        for kind in ("tuple", "record"):
            out.append(SD([V([f.copy() for f in b], kind)], fam=fam, derives=BOTH))
    vs = lambda: [V([fd("Int"), fd("Eq")], name="V1"), V([fd("Ident", any=True, peek=True), fd("Int", peek=True), fd("Eq")], "record", name="V2"),
                  V([fd("Paren", opens=True, peek=True), fd("Int")], name="V3"), V([fd("Macro", opens=True), fd("Ident")], "record", name="V4"), V([], name="V5")]
    for r in range(5):
        v = vs()
        out.append(SD(v[r:] + v[:r], True, fam, BOTH))
        out.append(SD([vs()[r]], True, fam, BOTH))
    return out


# --- alphabets ---------------------------------------------------------------------------------

TYPE_NAMES = ["Option", "Some", "None", "Ok", "Err", "Result", "Vec", "String", "HashMap", "Flag", "NameValue", "NameArgs", "Span", "Ident", "Error", "Token",
              "Punctuated", "NameIndex", "ParseStream", "ParseBuffer", "TokenStream", "ToTokens", "Parse", "StructMeta", "MacroDelimiter", "Paren", "Default", "Iterator",
              "IdentExt", "Speculative", "Self_", "T", "r#type", "r#fn", "r#match", "É", "_A", "__", "Box", "Into", "ToString", "Structmeta", "u8", "bool", "str", "usize"]
MOD_NAMES = ["syn", "quote", "proc_macro2", "structmeta", "std", "core", "alloc", "helpers", "exports"]
FIELD_NAMES = ["input", "span", "index", "content", "value", "name", "is_next", "unnamed_index", "named_used", "_value_0", "_value_1", "value_0", "structmeta", "syn",
               "std", "r#type", "r#fn", "r#match", "r#loop", "tokens", "fork", "_0", "_1", "_input", "input_0", "_input_0", "x", "_x", "__", "_parse_V1", "parse_V1", "token",
               "Ok", "Err", "Some", "None", "Option", "é", "self_", "token_stream", "e", "i", "parse", "peek", "len", "A", "item", "list", "r#in", "r#ref", "r#mut"]
VARIANT_NAMES = ["Ok", "Err", "Some", "None", "Option", "Result", "Parse", "ToTokens", "A", "r#type", "r#fn", "input", "_0", "fork", "__", "É", "syn", "value", "tokens", "V", "structmeta",
                 "_parse_A", "parse_A", "r#match", "IdentExt", "String"]
# names that a careless derivation of one name from another would make equal
PAIRS = [("v", "V"), ("ab", "aB"), ("a_b", "ab"), ("a", "_a"), ("a", "__a"), ("a", "a_"), ("a", "a_0"), ("a_0", "a0"), ("r#type", "type_"), ("r#type", "_type"), ("r#fn", "Fn"),
         ("é", "É"), ("_1", "_0"), ("_0", "f0"), ("ß", "ss"), ("a_b", "a__b"), ("a_b", "aB"), ("value", "_value"), ("x", "x_1"), ("ſ", "s"), ("ñ", "n"), ("x1", "x_1"), ("aa", "a"),
         ("value_1", "value_0"), ("_value_1", "_value_0"), ("input_1", "input_0"), ("r#in", "in_"), ("K", "k"), ("İ", "i")]
SCOPES = (
    [f"pub mod {m} {{}}" for m in MOD_NAMES]
    + ["pub mod syn { pub mod parse { pub trait Parse { fn parse() {} } } pub mod ext { pub trait IdentExt {} } pub struct Error; pub type Result<T> = T; }\npub mod quote { pub trait ToTokens {} }\n"
       "pub mod proc_macro2 { pub struct Span; pub struct TokenStream; }\npub mod structmeta { pub struct Flag; pub mod helpers {} }\npub mod std {} pub mod core {}"]
    + [f"#[allow(non_camel_case_types)] pub struct {t};" for t in ("syn", "quote", "proc_macro2", "structmeta")]
    + [f"pub struct {t};" for t in TYPE_NAMES if not t.startswith("r#") and t not in ("T", "__", "_A", "É", "u8", "bool", "str", "usize")]
    + [f"#[allow(non_camel_case_types)] pub type {t} = ();" for t in ("Option", "Result", "Vec", "String", "HashMap", "Flag", "NameArgs", "NameValue", "Span", "Error", "u8", "bool", "str", "usize", "TokenStream")]
    + [f"pub trait {t} {{}}" for t in ("Option", "Result", "Parse", "ToTokens", "IdentExt", "Speculative", "Clone", "Iterator", "IntoIterator", "FromIterator", "Fn", "FnOnce", "Into", "From")]
    + ["pub type Result<T> = ::std::result::Result<T, ::std::fmt::Error>;", "#[allow(unused_imports)] use ::std::fmt::Result;", "#[allow(unused_imports)] use ::std::io::{Error, Result};",
       "#[allow(unused_imports)] use ::syn::{Result, Error, Ident};", "#[allow(unused_imports)] use ::syn::parse::Parse;", "#[allow(unused_imports)] use ::quote::ToTokens;",
       "#[allow(unused_imports)] use ::syn::*;", "#[allow(unused_imports)] use ::structmeta::*;", "#[allow(unused_imports)] use ::proc_macro2::*;", "#[allow(unused_imports)] use ::syn::parse::*; #[allow(unused_imports)] use ::syn::ext::*;",
       "#[allow(unused_imports)] use ::syn as quote; #[allow(unused_imports)] use ::quote as syn; #[allow(unused_imports)] use ::proc_macro2 as structmeta;", "#[allow(unused_imports)] use ::std as syn; #[allow(unused_imports)] use ::std as proc_macro2;",
       "#[allow(unused_imports)] use ::core::result::Result::{self, *};",
       "pub enum E { Ok, Err, Some, None }\n#[allow(unused_imports)] use E::*;",
       "pub fn parse() {} pub fn check_end() {} pub fn is_snake_case() {} pub fn try_parse_name() {} pub fn surround() {}",
       "pub trait Ext { fn parse(&self) {} fn is_empty(&self) {} fn fork(&self) {} fn peek(&self) {} fn error(&self) {} fn unwrap(&self) {} fn is_some(&self) {} fn ok_or_else(&self) {} "
       "fn span(&self) {} fn call(&self) {} fn cursor(&self) {} } impl<T: ?Sized> Ext for T {}",
       "#[allow(unused_macros)] macro_rules! parenthesized { () => {} }\n#[allow(unused_macros)] macro_rules! bracketed { () => {} }\n#[allow(unused_macros)] macro_rules! braced { () => {} }\n"
       "#[allow(unused_macros)] macro_rules! quote { () => {} }\n#[allow(unused_macros)] macro_rules! helpers_parse_macro_delimiter { () => {} }",
       "#[allow(unused_macros)] macro_rules! format { () => {} }", "#[allow(unused_macros)] macro_rules! unreachable { () => {} }", "#[allow(unused_macros)] macro_rules! panic { () => {} }",
       "#[allow(unused_macros)] macro_rules! vec { () => {} }"]
)


# --- macros ------------------------------------------------------------------------------------

def split_def(t):
    """attributes, `struct A` part, field list, tail"""
    m = re.match(r"((?:#\[(?:[^\[\]]|\[[^\]]*\])*\] )*)(struct|enum) (\S+?)( \{ | ?\(|;)(.*)$", t)
    return m


def fields_of(text):
    """Top-level comma split."""
    out, depth, cur, quote = [], 0, "", False
    for c in text:
        if c == '"':
            quote = not quote
        if not quote:
            if c in "([{<":
                depth += 1
            elif c in ")]}>":
                depth -= 1
            if c == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def parts(t):
    """(attrs, keyword, name, open, [fields], close)"""
    i = t.index("struct ") if "struct " in t and (("enum " not in t) or t.index("struct ") < t.index("enum ")) else t.index("enum ")
    attrs, rest = t[:i].strip(), t[i:]
    m = re.match(r"(struct|enum) ([^\s({;]+)\s*(.*)$", rest, re.S)
    kw, name, body = m[1], m[2], m[3]
    if body.startswith("{"):
        return attrs, kw, name, "{", fields_of(body[1:body.rindex("}")]), "}"
    if body.startswith("("):
        return attrs, kw, name, "(", fields_of(body[1:body.rindex(")")]), ");"
    return attrs, kw, name, "", [], ";"


def field_parts(f):
    """(attributes, name or None, type) of a struct field"""
    attrs = ""
    while f.startswith("#["):
        depth = 0
        q = False
        for i, c in enumerate(f):
            if c == '"':
                q = not q
            if q:
                continue
            if c == "[":
                depth += 1
            elif c == "]":
                depth -= 1
                if depth == 0:
                    break
        attrs += f[:i + 1] + " "
        f = f[i + 1:].strip()
    m = re.match(r"([\w#]+): (.*)$", f, re.S)
    return (attrs, m[1], m[2]) if m else (attrs, None, f)


def m_all_caller(i, t):
    return f"macro_rules! mk {{ ($($t:tt)*) => {{ $($t)* }} }}\nmk! {{ {t} }}"


def m_all_inside(i, t):
    return f"macro_rules! mk {{ () => {{ {t} }} }}\nmk!();"


def m_derive_inside(i, t):
    a, kw, n, o, fs, c = parts(t)
    return f"macro_rules! mk {{ ($($t:tt)*) => {{ {a} $($t)* }} }}\nmk! {{ {kw} {n} {o} {', '.join(fs)} {c} }}"


def m_derive_caller(i, t):
    a, kw, n, o, fs, c = parts(t)
    return f"macro_rules! mk {{ ($(#[$m:meta])*) => {{ $(#[$m])* {kw} {n} {o} {', '.join(fs)} {c} }} }}\nmk! {{ {a} }}"


def m_name(i, t):
    a, kw, n, o, fs, c = parts(t)
    return f"macro_rules! mk {{ ($n:ident) => {{ {a} {kw} $n {o} {', '.join(fs)} {c} }} }}\nmk!({n});"


def m_nested(i, t):
    a, kw, n, o, fs, c = parts(t)
    return (f"macro_rules! mk2 {{ ($($t:tt)*) => {{ {a} $($t)* }} }}\nmacro_rules! mk {{ ($n:ident, $($t:tt)*) => {{ mk2! {{ {kw} $n {o} $($t)* {c} }} }} }}\n"
            f"mk! {{ {n}, {', '.join(fs)} }}")


def m_alternate(i, t):
    """Odd fields come from the caller, even ones from the macro."""
    a, kw, n, o, fs, c = parts(t)
    pat = " ".join(f"{{$($f{k}:tt)*}}" for k in range(0, len(fs), 2))
    body = ", ".join(f"$($f{k})*" if k % 2 == 0 else f for k, f in enumerate(fs))
    return f"macro_rules! mk {{ ({pat}) => {{ {a} {kw} {n} {o} {body} {c} }} }}\nmk! {{ {' '.join('{' + fs[k] + '}' for k in range(0, len(fs), 2))} }}"


def m_alternate2(i, t):
    a, kw, n, o, fs, c = parts(t)
    pat = " ".join(f"{{$($f{k}:tt)*}}" for k in range(1, len(fs), 2))
    body = ", ".join(f"$($f{k})*" if k % 2 else f for k, f in enumerate(fs))
    return f"macro_rules! mk {{ ({pat}) => {{ {a} {kw} {n} {o} {body} {c} }} }}\nmk! {{ {' '.join('{' + fs[k] + '}' for k in range(1, len(fs), 2))} }}"


def m_types(i, t):
    """Field types as `$t:ty`."""
    a, kw, n, o, fs, c = parts(t)
    if kw == "enum":
        return None
    fp = [field_parts(f) for f in fs]
    body = ", ".join(x + (f"{nm}: " if nm else "") + f"$t{k}" for k, (x, nm, ty) in enumerate(fp))
    return (f"macro_rules! mk {{ ({', '.join(f'$t{k}:ty' for k in range(len(fp)))}) => {{ {a} {kw} {n} {o} {body} {c} }} }}\n"
            f"mk! {{ {', '.join(ty for _, _, ty in fp)} }}")


def m_idents(i, t):
    """Field names as `$f:ident`."""
    a, kw, n, o, fs, c = parts(t)
    if kw == "enum" or o != "{":
        return None
    fp = [field_parts(f) for f in fs]
    body = ", ".join(x + f"$f{k}: {ty}" for k, (x, nm, ty) in enumerate(fp))
    return (f"macro_rules! mk {{ ({', '.join(f'$f{k}:ident' for k in range(len(fp)))}) => {{ {a} {kw} {n} {o} {body} {c} }} }}\n"
            f"mk! {{ {', '.join(nm for _, nm, _ in fp)} }}")


def m_attrs(i, t):
    """Field attributes as `$m:meta`, their literals as `$l:literal`."""
    a, kw, n, o, fs, c = parts(t)
    if kw == "enum":
        return None
    pats, args, body = [], [], []
    for k, f in enumerate(fs):
        x, nm, ty = field_parts(f)
        lits = re.findall(r'"[^"]*"', x)
        for j, l in enumerate(lits):
            x = x.replace(l, f"$l{k}_{j}", 1)
            pats.append(f"$l{k}_{j}:literal")
            args.append(l)
        body.append(x + (f"{nm}: " if nm else "") + ty)
    if not args:
        return None
    return f"macro_rules! mk {{ ({', '.join(pats)}) => {{ {a} {kw} {n} {o} {', '.join(body)} {c} }} }}\nmk! {{ {', '.join(args)} }}"


def m_metas(i, t):
    a, kw, n, o, fs, c = parts(t)
    if kw == "enum":
        return None
    pats, args, body = [], [], []
    for k, f in enumerate(fs):
        x, nm, ty = field_parts(f)
        for j, m in enumerate(re.findall(r"#\[((?:[^\"\]]|\"[^\"]*\")*)\] ", x)):
            x = x.replace(f"#[{m}] ", f"#[$m{k}_{j}] ", 1)
            pats.append(f"$m{k}_{j}:meta")
            args.append(m)
        body.append(x + (f"{nm}: " if nm else "") + ty)
    if not args:
        return None
    return f"macro_rules! mk {{ ({', '.join(pats)}) => {{ {a} {kw} {n} {o} {', '.join(body)} {c} }} }}\nmk! {{ {', '.join(args)} }}"


def m_variant_types(i, t):
    """Types of the variants' fields as `$t:ty`."""
    a, kw, n, o, fs, c = parts(t)
    if kw != "enum":
        return None
    pats, args, vs = [], [], []
    for v in fs:
        m = re.match(r"([\w#]+)\s*([({]?)(.*?)([)}]?)$", v, re.S)
        if not m[2]:
            vs.append(v)
            continue
        out = []
        for f in fields_of(m[3]):
            x, nm, ty = field_parts(f)
            pats.append(f"$t{len(pats)}:ty")
            args.append(ty)
            out.append(x + (f"{nm}: " if nm else "") + f"$t{len(pats) - 1}")
        vs.append(f"{m[1]} {m[2]} {', '.join(out)} {m[4]}")
    if not args:
        return None
    return f"macro_rules! mk {{ ({', '.join(pats)}) => {{ {a} {kw} {n} {o} {', '.join(vs)} {c} }} }}\nmk! {{ {', '.join(args)} }}"


def put(a, kw, n, o, fs, c):
    return f"{a} {kw} {n} {o} {', '.join(fs)} {c}"


def m_deprecated(i, t):
    return "#[deprecated] " + t


def m_deprecated_types(i, t):
    if "::syn::LitInt" not in t:
        return None
    return "#[deprecated] pub type Dl = ::syn::LitInt;\n#[allow(deprecated)] " + re.sub(r"(peek[^,]*|\()?::syn::LitInt", lambda m: m[0] if m[1] and "peek" in m[1] else (m[1] or "") + "Dl", t)


def m_deprecated_parts(i, t):
    """Every field, or every other variant and the fields of the rest."""
    a, kw, n, o, fs, c = parts(t)
    if kw == "struct":
        return put(a, kw, n, o, ["#[deprecated] " + f for f in fs], c) if fs else None
    out = []
    for k, v in enumerate(fs):
        m = re.match(r"([\w#]+)\s*([({]?)(.*?)([)}]?)$", v, re.S)
        if k % 2 or not m[2]:
            out.append("#[deprecated] " + v)
        else:
            out.append(f"{m[1]} {m[2]} {', '.join('#[deprecated] ' + f for f in fields_of(m[3]))} {m[4]}")
    return put(a, kw, n, o, out, c)


def m_deprecated_one(i, t):
    """One field, or one variant, among others with attributes."""
    a, kw, n, o, fs, c = parts(t)
    if not fs:
        return None
    j = len(t) % len(fs)
    mark = ("#[allow(dead_code)] #[deprecated = \"x\"] ", "#[deprecated(note = \"x\")] #[doc = \"y\"] ")[len(fs) % 2]
    return put("#[doc = \"t\"] " + a, kw, n, o, [(mark if k == j else "#[doc = \"z\"] ") + f for k, f in enumerate(fs)], c)


def m_decorated(i, t):
    """Attributes of the compiler, fields and variants that are configured away, visibilities, discriminants."""
    a, kw, n, o, fs, c = parts(t)
    vis = ("", "pub ", "pub(crate) ", "pub(self) ", "pub(in super) ")
    out = []
    gone = "#[cfg(any())] "
    for k, f in enumerate(fs):
        f = f.removeprefix("pub ")
        x, nm, ty = field_parts(f) if kw == "struct" else ("", None, f)
        out.append((gone + ("zzz%d: Nope" % k if o == "{" else "Nope") if kw == "struct" else gone + "Zzz%d(Nope)" % k) if k % 2 else None)
        doc = ("/** d */ ", "#[doc(hidden)] ", "#[cfg(all())] ", "#[cfg_attr(all(), allow(unused))] ")[(k + len(fs)) % 4]
        if kw == "struct":
            out.append(doc + x + vis[(k + len(t)) % 5] + (f"{nm}: " if nm else "") + ty)
        else:
            out.append(doc + f + (f" = {10 + k}" if k % 3 == 0 else ""))
    head = "#[non_exhaustive] " + ("#[repr(u8)] " if kw == "enum" and fs else "")
    return put(head + a, kw, n, o, [x for x in out if x], c)


def param(name, const=False):
    """One type in the definition is a parameter of that name."""
    def m(i, t):
        if "::syn::LitInt" not in t and not const:
            return None
        a, kw, n, o, fs, c = parts(t)
        t = put(a, kw, n, o, fs, "")
        if not const:
            t = re.sub(r"(peek[^,]*?|\()?::syn::LitInt", lambda m: m[0] if m[1] and "peek" in m[1] else (m[1] or "") + name, t)
            if not re.search(r"(?<!\w)" + re.escape(name) + r"(?!\w)", t.split(f"{kw} {n} ", 1)[-1]):
                return None
        bounds = ": ::syn::parse::Parse" + (" + ::quote::ToTokens" if "ToTokens" in a else "")
        where = ""
        par = f"const {name}: usize" if const else name
        if not const:
            if len(fs) % 2:
                where = f" where {name}{bounds}"
            else:
                par += bounds
        i.inst = "<3>" if const else "<::syn::LitInt>"
        h, r = t.split(f"{kw} {n}", 1)
        if o == "{":
            return f"{h}{kw} {n}<{par}>{where} {r} }}"
        return f"{h}{kw} {n}<{par}> {r} {c[:-1]}{where};" if c.endswith(";") else f"{h}{kw} {n}<{par}> {r} {c}"
    m.__name__ = "m_parameter"
    return m


def proc(f):
    """Through a procedural macro, which gives the tokens other spans."""
    def m(i, t):
        return f(t)
    m.__name__ = "m_procedural"
    return m


PROC = [proc(lambda t, n=n: f"::mc::pm::{n}! {{ {t} }}") for n in ("call", "mixed", "odd", "even")]
PROC += [proc(lambda t, n=n: f"#[::mc::pm::{n}] {t}") for n in ("keep", "keep_mixed")]
MACROS = [m_all_caller, m_all_inside, m_derive_inside, m_derive_caller, m_name, m_nested, m_alternate, m_alternate2, m_types, m_idents, m_attrs, m_metas, m_variant_types]
STRICT = "#[deny(warnings, unused)] #[forbid(non_snake_case, nonstandard_style, rust_2018_idioms, let_underscore, non_camel_case_types, nonstandard_style, unsafe_code)] #[allow(dead_code, unused_macros)]"
PLACES = ["mod", "fn", "method", "closure"]


def items(thorough):
    out = []
    # field names in every role
    roles = [("named", s, o) for s, o in sm.KINDS] + [("rest", s, 0) for s in ("Val", "NVOpt", "NAVec", "NA")] + [("req", "Val", 0), ("opt", "Val", 0), ("var", "Val", 0)]
    for j, n in enumerate(FIELD_NAMES):
        plain = n[2:] if n.startswith("r#") else n
        for k, (kind, s, o) in enumerate(roles):
            if not thorough and (j + k) % 3:
                continue
            f = F(kind, s, o, "Int", plain, field=n)
            rest = [N("zfl", "Flag"), N("zna", "NA", 1)]
            fs = [f] + rest if (j + k) % 2 else rest + [f]
            if kind in ("opt", "var"):
                fs = [F("req", field="zreq")] + fs
            out.append(Item("field name", names=True, d=D("sc", fs), place=PLACES[(j + k) % 2]))
    fr = [[fd("Int")], [fd("Ident", any=True), fd("Eq")], [fd("Paren", opens=True), fd("Int")], [fd("Paren", opens=True), fd("Int"), fd("Ident", closes=1)],
          [fd("Macro", opens=True), fd("Ident")], [fd("Idents", any=True)], [fd("Int"), fd("Bracket", opens=True), fd("Int"), fd("Brace", opens=True, closes=1)]]
    for j, n in enumerate(FIELD_NAMES):
        for k, r in enumerate(fr):
            for pos in range(len(r)):
                if not thorough and len(r) > 2 and (j + k + pos) % 2:
                    continue
                names = ["q0", "q1", "q2", "q3", "q4", "q5"]
                names[pos] = n
                names[(pos + 1) % 4] = FIELD_NAMES[(j + 7) % len(FIELD_NAMES)]
                d = sn.SD([sn.Vr([f.copy() for f in r], "record")], fam="sc", derives=BOTH)
                e = sn.SD([sn.Vr([], name="U"), sn.Vr([f.copy(peek=i == 0 and not f.term) if f.ty != "Macro" else f.copy() for i, f in enumerate(r)], "record", name="V1"),
                           sn.Vr([f.copy() for f in r] + [fd("Eq")], "record", name="V2")][1:], True, "sc", BOTH)
                for x in (d, e):
                    x.names = names
                    out.append(Item("field name", names=True, d=x, place=PLACES[(j + k) % 2]))
    # pairs of names that differ in case, underscores, accents, `r#`
    kinds = [k for k in roles if k[0] == "named"]
    for j, (n, m) in enumerate(PAIRS):
        plain = lambda x: x[2:] if x.startswith("r#") else x
        for k in range(len(kinds) if thorough else 4):
            a, b = kinds[(j + k) % len(kinds)], kinds[(j + 3 * k + 1) % len(kinds)]
            for x, y in ((n, m), (m, n)):
                fs = [F(*a[:3], "Int", plain(x), field=x), F(*b[:3], "Int", plain(y), field=y)]
                out.append(Item("pair of field names", names=True, d=D("sc", fs), place=PLACES[(j + k) % 2]))
        for k, pair in enumerate([("req", "req"), ("req", "opt"), ("opt", "var"), ("req", "rest"), ("opt", "named"), ("var", "named"), ("named", "rest")]):
            for x, y in ((n, m), (m, n)):
                f = [F(r, "Val", 0, "Int", None if r in ("req", "opt", "var", "rest") else plain(z), field=z) for r, z in zip(pair, (x, y))]
                out.append(Item("pair of field names", names=True, d=D("sc", f), place=PLACES[(j + k) % 2]))
        for k, r in enumerate(fr[1:] if thorough else fr[1:5]):
            if len(r) < 2:
                continue
            for x, y in ((n, m), (m, n)):
                d = sn.SD([sn.Vr([f.copy() for f in r], "record")], fam="sc", derives=BOTH)
                e = sn.SD([sn.Vr([f.copy(peek=i == 0 and not f.term) if f.ty != "Macro" else f.copy() for i, f in enumerate(r)], "record", name="V1"),
                           sn.Vr([f.copy() for f in r] + [fd("Eq")], "record", name="V2")], True, "sc", BOTH)
                for z in (d, e):
                    z.names = [x, y, "q2", "q3", "q4", "q5"]
                    out.append(Item("pair of field names", names=True, d=z, place=PLACES[(j + k) % 2]))
    for j, (n, m) in enumerate(PAIRS):
        for x, y in ((n, m), (m, n)):
            for k, d in enumerate(q for q in sn_shapes("sc") if q.is_enum and len(q.variants) > 1):
                if thorough or k == j % 4:
                    d.variants[j % 4].name, d.variants[j % 4 + 1].name = x, y
                    out.append(Item("pair of variant names", names=True, d=d, place=PLACES[(j + k) % 2]))
    # type names
    shapes = lambda: sm_shapes("sc") + sn_shapes("sc")
    for j, n in enumerate(TYPE_NAMES):
        for k, d in enumerate(shapes()):
            if thorough or (j + k) % 3 == 0 or n in ("Option", "Some", "None", "Ok", "Err", "Result"):
                out.append(Item("type name", names=True, d=d, tname=n, place=PLACES[(j + k) % 2]))
    # names of type and const parameters
    for j, n in enumerate(TYPE_NAMES + ["T1", "_T", "input", "fork", "value", "tokens", "span", "index", "r#fn"]):
        if n in ("Self_", "__", "Flag", "bool", "MacroDelimiter"):  # the latter are types that the derives know
            continue
        for k, d in enumerate(shapes()):
            if thorough or (j + k) % 4 == 0:
                it = Item("type parameter name", d, names=True, place=PLACES[(j + k) % 2], macro=param(n), tname="A1")
                if it.definition() is not None:
                    out.append(it)
    # (a const parameter called like a type or trait in scope cannot be given as an argument without braces: no matter of the derives)
    for j, n in enumerate(["N", "_N", "É", "__N", "INPUT", "CONST", "T1", "n1", "a_b", "r#fn"]):
        for k, d in enumerate(shapes()):
            if thorough or (j + k) % 5 == 0:
                out.append(Item("const parameter name", d, names=True, place=PLACES[(j + k) % 2], macro=param(n, True), tname="A1",
                                lints=LINTS + " #[allow(non_upper_case_globals)]"))
    # variant names
    for j, n in enumerate(VARIANT_NAMES):
        for k, d in enumerate(x for x in sn_shapes("sc") if x.is_enum):
            d.variants[j % len(d.variants)].name = n
            if len(d.variants) > 1:
                d.variants[(j + 1) % len(d.variants)].name = VARIANT_NAMES[(j + 5) % len(VARIANT_NAMES)]
            if thorough or (j + k) % 2 == 0:
                out.append(Item("variant name", names=True, d=d, place=PLACES[(j + k) % 2], tname="A" if "A" != n else "B"))
    # scopes
    for j, s in enumerate(SCOPES):
        for k, d in enumerate(shapes()):
            if thorough or (j + k) % 2 == 0:
                for p in ((PLACES if thorough else ("mod", "fn")) if (j + k) % 4 == 0 or thorough else ("mod",)):
                    out.append(Item("scope", d, scope=s, place=p))
    # macros and places
    for d in shapes():
        for p in PLACES:
            out.append(Item("place", d, place=p))
    for d in shapes():
        for p in PLACES if thorough else PLACES[:2]:
            out.append(Item("strict lints", d, place=p, lints=STRICT))
    for m in MACROS + PROC + [m_decorated, m_deprecated, m_deprecated_parts, m_deprecated_one, m_deprecated_types]:
        for k, d in enumerate(shapes()):
            for p in (("mod", "fn") if thorough else ("mod", "fn")[k % 2:k % 2 + 1]):
                it = Item("macro " + m.__name__[2:], d, place=p, macro=m)
                if it.definition() is not None:
                    out.append(it)
    return out


HEAD = ("#![allow(uncommon_codepoints, mixed_script_confusables)]\n"
        "#![warn(future_incompatible, rust_2021_compatibility, rust_2024_compatibility)]")
WHAT = "a definition does not compile, or with warnings"


def build(res, p, ed, numbered, code, header, footer):
    """Builds the program; a definition that does not compile is reported and left out, the others are still explored."""
    for rounds in range(6):
        p.bins, p.lines = {}, {}
        for b, part in enumerate(core.spread(numbered, core.JOBS)):
            p.add_bin(f"b{b}", header, [(code(k, it), it) for k, it in part], footer(part))
        errors = p.build()
        if not errors:
            return True
        bad = {}
        for b, it, text, m in errors:
            if it is not None and it not in bad:
                bad[it] = text
        if not bad:
            raise core.CheckError(f"{errors[0][0]}: harness does not compile:\n{errors[0][2]}")
        for it, text in bad.items():
            res.violations.append(core.Violation(WHAT, it.source(), f"{it.label}, edition {ed}", "compiles without warnings", text))
        numbered = [(k, i) for k, i in numbered if i not in bad]
        if not numbered:
            return False
    raise core.CheckError("too many rounds of compile errors")


# --- a crate that depends on structmeta alone ----------------------------------------------------

ALONE = """#![allow(dead_code)]
#![deny(warnings)]
extern crate structmeta;"""


def alone_code(k, it):
    t = it.definition()
    t = re.sub(r"::syn::Token!", "TOKEN!", t)
    t = re.sub(r"::syn::(\w+)\b(?!:)", r"\1", t)
    t = re.sub(r"::syn::(token|punctuated)::", r"::structmeta::helpers::exports::syn::\1::", t)
    t = t.replace("::proc_macro2::TokenStream", "::structmeta::helpers::exports::proc_macro2::TokenStream")
    t = t.replace("TOKEN!", "::structmeta::helpers::exports::syn::Token!")
    used = [n for n in ("LitInt", "LitStr", "Ident", "MacroDelimiter") if re.search(rf"\b{n}\b", t)]
    use = "".join(f"use ::structmeta::helpers::exports::syn::{n};\n" for n in used)
    if it.place == "fn":
        return f"pub fn d{k}() {{\n{use}{t}\n}}"
    return f"pub mod d{k} {{\n{use}{t}\n}}"


def explore(res, thorough, editions):
    its = items(thorough)
    cov = res.coverage
    kinds = cov.setdefault("definitions_by_kind", {})
    for it in its:
        kinds[it.label] = kinds.get(it.label, 0) + 1
    cov["editions"] = list(editions)
    for which, mainfn in ((True, "sm"), (False, "sn")):
        numbered = list(enumerate(i for i in its if i.struct == which))
        for ed in editions:
            p = core.Program(f"G02{mainfn}{ed}", edition=ed)
            table = lambda part: ",\n".join(f'("sc", d{k}::def())' for k, it in part)
            if build(res, p, ed, numbered, lambda k, it: it.code(k), HEAD, lambda part: f"fn main() {{ mc::{mainfn}::main(&[{table(part)}]) }}"):
                for r in p.run(["sem", "sc=dfs:valid,min"] if which else ["sc=edits:1", "sc=forest:2"]):
                    res.merge(r)
    shapes = sm_shapes("sc") + sn_shapes("sc")
    alone = [Item("no dependency on syn", d, place=pl) for d in shapes for pl in ("mod", "fn")]
    kinds["no dependency on syn"] = len(alone) * len(editions)
    for ed in editions:
        p = core.Program(f"G02alone{ed}", edition=ed)
        p.deps = "structmeta"
        build(res, p, ed, list(enumerate(alone)), alone_code, ALONE, lambda part: "fn main() {}")
        cov["states"] += len(alone)
        cov["transitions"] += len(alone)
        cov["traces_validated_against_impl"] += len(alone)
    if res.prop == "G02":
        locals_(res)


# --- values in scope that are called like local variables of the generated code -----------------

LOCALS = {True: ["input", "is_next", "unnamed_index", "named_used", "index", "span", "name", "_value_0"],
          False: ["input", "fork", "value", "tokens", "_0", "_parse_0", "input_0"]}


def locals_(res):
    """A pattern of that name means the value, not a new variable."""
    its = []
    for struct, names in LOCALS.items():
        d = sm_shapes("sc")[0] if struct else sn_shapes("sc")[-2]
        if struct:
            d = D("sc", [F("req"), N("bb", "Val"), F("opt"), N("fl", "Flag"), F("rest", "NAVec")])
        else:
            V = sn.Vr
            d = sn.SD([V([fd("Paren", opens=True), fd("Int"), fd("Ident", closes=1)], name="V1"), V([fd("Ident")], name="V2")], True, "sc", BOTH)
        for n in names:
            its.append((n, Item("value in scope", d, scope=f"#[allow(non_camel_case_types)] pub struct {n};")))
    p = core.Program("G02locals", edition="2024")
    numbered = list(enumerate(its))
    r = core.Result("G02")
    build(r, p, "2024", [(k, it) for k, (n, it) in numbered], lambda k, it: it.code(k), HEAD, lambda part: "fn main() {}")
    for n, it in its:
        hit = [v for v in r.violations if v.definition == it.source()]
        for v in hit[:1]:
            what = "StructMeta" if it.struct else "Parse, ToTokens"
            res.violations.append(core.Violation(WHAT, f"unit struct `{n}` in scope", what, "compiles without warnings", v.got))
    res.coverage["states"] += len(its)
    res.coverage["transitions"] += len(its)
    res.coverage["traces_validated_against_impl"] += len(its)
    res.coverage["definitions_by_kind"]["value in scope"] = len(its)
