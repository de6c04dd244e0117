"""Enumerates `#[derive(Parse)]` / `#[derive(ToTokens)]` definitions and their explorer programs."""
from itertools import product, permutations
from . import core

RUST = dict(Int="LitInt", Str="LitStr", Ident="Ident", Eq="Token![=]", Plus="Token![+]", OptEq="Option<Token![=]>",
            OptPlus="Option<Token![+]>", Paren="Paren", Bracket="Bracket", Brace="Brace", Macro="MacroDelimiter",
            Ints="Punctuated<LitInt, Token![,]>", Idents="Punctuated<Ident, Token![;]>", Rest="TokenStream")
OPEN = dict(Paren="(", Bracket="[", Brace="{")
CLOSE = {"(": ")", "[": "]", "{": "}"}


class Fd:
    def __init__(self, ty, closes=0, opens=False, after=0, any=False, peek=False, mark="("):
        self.ty, self.closes, self.opens, self.after, self.any, self.peek = ty, closes, opens, after, any, peek
        self.term = ty in ("Ints", "Idents") or (isinstance(ty, tuple) and ty[0] == "Nodes")
        self.mark = OPEN.get(ty, mark)
        self.box = False
        self.text = None

    def copy(self, **k):
        f = Fd(self.ty, self.closes, self.opens, self.after, self.any, self.peek, self.mark)
        f.text = self.text
        for a, v in k.items():
            setattr(f, a, v)
        return f

    def rust(self):
        if isinstance(self.ty, tuple):
            name = "Self" if self.box == "Self" else self.ty[1].tname
            if self.ty[0] == "Nodes":
                return f"Punctuated<{name}, Token![,]>"
            return f"Box<{name}>" if self.box else name
        return self.text or RUST[self.ty]

    def ty_rs(self):
        if isinstance(self.ty, tuple):
            return f"Ty::{self.ty[0]}(&{self.ty[1].static})"
        return f"Ty::{self.ty}"


class Vr:
    """kind: tuple record unit"""

    def __init__(self, fields, kind="tuple", name="V"):
        self.fields, self.name = fields, name
        self.kind = kind if fields else ("unit" if kind == "tuple" else kind)


NAMES = ["a", "b", "r#type", "x_1", "input", "tokens", "_0", "A", "fork", "content", "_9", "r#fn"]


class SD:
    def __init__(self, variants, is_enum=False, fam="s", derives=("Parse",), inner=(), style=0):
        self.variants, self.is_enum, self.fam, self.derives, self.inner = variants, is_enum, fam, derives, inner
        self.style = style
        self.tname, self.static = "A", "DEF"
        self.names = NAMES
        # items before the definition; a macro that makes it: its parameters and arguments
        self.prelude, self.macro = "", None

    def size(self):
        return max(len(self.variants), *(len(v.fields) for v in self.variants)) if self.variants else 0

    def field(self, f, i, kind, stack):
        m = ""
        for _ in range(f.closes):
            m += CLOSE[stack.pop()]
        if f.opens:
            m += f.mark
            stack.append(f.mark)
        for _ in range(f.after):
            m += CLOSE[stack.pop()]
        a = ""
        if m:
            if self.style % 3 == 0:
                a += f'#[to_tokens("{m}")] '
            elif self.style % 3 == 1:
                a += "".join(f'#[to_tokens("{c}")] ' for c in m)
            else:
                a += "#[to_tokens(" + ", ".join(f'"{c}"' for c in m) + ")] "
        ps = [n for n, v in (("peek", f.peek), ("any", f.any), ("terminated", f.term)) if v]
        if ps and "Parse" in self.derives:
            if self.style % 2:
                ps.reverse()
            if self.style % 4 < 2:
                a += f"#[parse({', '.join(ps)})] "
            else:
                a += "".join(f"#[parse({p})] " for p in ps)
        n = f"{self.names[i]}: " if kind == "record" else ""
        return a + n + f.rust()

    def body(self, v):
        stack = []
        fs = ", ".join(self.field(f, i, v.kind, stack) for i, f in enumerate(v.fields))
        return {"tuple": f"({fs})", "record": f" {{ {fs} }}", "unit": ""}[v.kind]

    def def_text(self):
        d = f"#[derive({', '.join(self.derives)})] "
        if self.is_enum:
            return d + f"enum {self.tname} {{ " + ", ".join(v.name + self.body(v) for v in self.variants) + " }"
        v = self.variants[0]
        return d + f"struct {self.tname}{self.body(v)}" + ("" if v.kind == "record" else ";")

    def source(self):
        t = self.def_text()
        return "\n".join([self.prelude] * bool(self.prelude) + [d.def_text() for d in self.inner] + [self.made(t)])

    def made(self, text):
        if not self.macro:
            return text
        return f"macro_rules! mk {{ ({self.macro[0]}) => {{ {text} }} }} mk! {{ {self.macro[1]} }}"

    def path(self, v):
        return f"{self.tname}::{v.name}" if self.is_enum else self.tname

    def statics(self, ident, run):
        vs = []
        b = lambda x: "true" if x else "false"
        for v in self.variants:
            fs = ", ".join(
                f"Fd {{ closes: {f.closes}, opens: {b(f.opens)}, after: {f.after}, ty: {f.ty_rs()}, any: {b(f.any)}, "
                f"peek: {b(f.peek)}, term: {b(f.term)} }}" for f in v.fields)
            vs.append(f'Vr {{ name: "{v.name if self.is_enum else ""}", fields: &[{fs}] }}')
        src = self.source().replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
        return (f'pub static {self.static}: SnDef = SnDef {{ id: "{ident}", src: "{src}", is_enum: {b(self.is_enum)}, '
                f"variants: &[{', '.join(vs)}], run: {run} }};")

    def canon(self):
        arms = []
        for v in self.variants:
            names = [f"x{i}" for i in range(len(v.fields))]
            if v.kind == "record":
                pat = " { " + ", ".join(f"{self.names[i]}: {n}" for i, n in enumerate(names)) + " }"
            elif v.kind == "tuple":
                pat = "(" + ", ".join(names) + ")"
            else:
                pat = ""
            vals = ", ".join(f"mc::sn::nodes({n})" if isinstance(f.ty, tuple) and f.ty[0] == "Nodes" else f"{n}.canon()"
                             for n, f in zip(names, v.fields))
            arms.append(f"{self.path(v)}{pat} => cs(\"{v.name if self.is_enum else ''}\", &[{vals}]),")
        return f"impl Canon for {self.tname} {{ fn canon(&self) -> String {{ match self {{ {' '.join(arms)} }} }} }}"

    def name_inner(self):
        for j, d in enumerate(self.inner):
            d.tname, d.static = f"I{j}", f"DEF{j}"

    def code(self, k, emit=None):
        out = [f"pub mod d{k} {{", "#[allow(unused_imports)] use super::*;", self.prelude]
        self.name_inner()
        for d in list(self.inner) + [self]:
            kw = "enum" if d.is_enum else "struct"
            out.append(d.made(d.def_text().replace(f"{kw} {d.tname}", f"pub {kw} {d.tname}", 1)))
            if "Parse" in d.derives:
                out.append(d.canon())
                run = f"mc::sn::run_both::<{d.tname}>" if "ToTokens" in d.derives else f"mc::sn::run_parse::<{d.tname}>"
            else:
                run = 'no_parse'
            out.append(d.statics(f"d{k}{d.static}", run))
        if emit:
            out.append(emit)
        out.append("}")
        return "\n".join(out)


HEADER = """#![allow(dead_code, unused_imports, non_snake_case, non_camel_case_types)]
use mc::canon::Canon;
use mc::sn::{Fd, SnDef, Ty, Vr};
use proc_macro2::TokenStream;
use quote::ToTokens as _;
use structmeta::{Parse, ToTokens};
use syn::punctuated::Punctuated;
use syn::token::{Brace, Bracket, Paren};
use syn::{Ident, LitInt, LitStr, MacroDelimiter, Token};
fn cs(n: &str, v: &[String]) -> String { format!("{n}<{}>", v.join("|")) }
fn no_parse(_: &str) -> syn::Result<mc::sn::Res> { unreachable!() }
fn int(s: &str) -> LitInt { syn::parse_str(s).unwrap() }
fn st(s: &str) -> LitStr { LitStr::new(s, proc_macro2::Span::call_site()) }
fn id(s: &str) -> Ident { syn::ext::IdentExt::parse_any.parse_str(s).unwrap() }
use syn::parse::Parser as _;"""


def explore(res, name, defs, passes, emit=False):
    p = core.Program(name)
    for b, part in enumerate(core.spread(list(range(len(defs))), core.JOBS)):
        pieces, table = [], []
        for k in part:
            d = defs[k]
            pieces.append((d.code(k, values_fn(d) if emit else None), d.source()))
            table.append(f"(&d{k}::DEF, d{k}::values as mc::sn::Values)" if emit else f'("{d.fam}", &d{k}::DEF)')
        main = "main_emit" if emit else "main"
        p.add_bin(f"b{b}", HEADER, pieces, f"fn main() {{ mc::sn::{main}(&[" + ",\n".join(table) + "]) }")
    errors = p.build()
    if errors:
        res.compile_errors(errors)
        for b in {e[0] for e in errors}:
            p.bins.pop(b, None)
    if p.bins:
        for r in p.run(passes):
            res.merge(r)


# ---------------------------------------------------------------------------------------------
# Shapes

def shapes(n, delims=("Paren", "Bracket", "Brace", "Macro"), leaves=("Int",), after=True, macro_mark="("):
    """All well-formed mark scripts of n fields: per field how many groups it closes, then either a leaf or
    a group it opens (which may be closed on the spot)."""
    def rec(i, depth, acc):
        if i == n:
            yield list(acc)
            return
        for c in range(depth + 1):
            d = depth - c
            yield from rec(i + 1, d, acc + [Fd(leaves[i % len(leaves)], closes=c)])
            for t in delims:
                for a in range(d + 2 if after else 1):
                    yield from rec(i + 1, d + 1 - a, acc + [Fd(t, closes=c, opens=True, after=a, mark=macro_mark)])
    yield from rec(0, 0, [])


def struct_defs(scripts, derives, fam="s", both=False):
    out = []
    for k, fs in enumerate(scripts):
        for kind in (("tuple", "record") if both else (("tuple", "record")[k % 2],)):
            out.append(SD([Vr([f.copy() for f in fs], kind)], fam=fam, derives=derives, style=k))
    return out


VALS = dict(Int=[("11", 'int("11")'), ("12", 'int("12")'), ("13", 'int("13")'), ("14", 'int("14")'), ("15", 'int("15")')],
            Str=[('"s"', 'st("s")')], Ident=[("x", 'id("x")')],
            Eq=[("=", "<Token![=]>::default()")], Plus=[("+", "<Token![+]>::default()")],
            OptEq=[("=", "Some(<Token![=]>::default())"), ("", "None")],
            OptPlus=[("+", "Some(<Token![+]>::default())"), ("", "None")],
            Paren=[("(", "Paren::default()")], Bracket=[("[", "Bracket::default()")], Brace=[("{", "Brace::default()")],
            Macro=[("(", "MacroDelimiter::Paren(Paren::default())"), ("[", "MacroDelimiter::Bracket(Bracket::default())"),
                   ("{", "MacroDelimiter::Brace(Brace::default())")],
            Ints=[("", "Punctuated::new()"), ("1 , 2", "Punctuated::parse_terminated.parse_str(\"1, 2\").unwrap()"),
                  ("1 ,", "Punctuated::parse_terminated.parse_str(\"1,\").unwrap()")],
            Idents=[("a ; b", "Punctuated::parse_terminated.parse_str(\"a; b\").unwrap()"), ("", "Punctuated::new()")],
            Rest=[("1 a", '"1 a".parse().unwrap()'), ("", "TokenStream::new()")])


def values(d):
    """(variant index, texts, constructor, emitted text of the node)"""
    out = []
    for vi, v in enumerate(d.variants):
        per = []
        for i, f in enumerate(v.fields):
            if isinstance(f.ty, tuple) and f.ty[0] == "Node":
                o = []
                for _, texts, ctor, whole in values(f.ty[1]):
                    o.append((whole, f"Box::new({ctor})" if f.box else ctor))
                per.append(o)
            elif f.ty == "Int":
                per.append([VALS["Int"][i % 5]])
            else:
                per.append(VALS[f.ty])
        for c in product(*per):
            texts = [t for t, _ in c]
            if v.kind == "record":
                args = " { " + ", ".join(f"{d.names[i]}: {x}" for i, (_, x) in enumerate(c)) + " }"
            elif v.kind == "tuple":
                args = "(" + ", ".join(x for _, x in c) + ")"
            else:
                args = ""
            out.append((vi, texts, d.path(v) + args, emit(v, texts)))
    return out


def emit(v, texts):
    """Only for nodes inside nodes: what the inner node contributes."""
    out, open_ = [], []
    for f, s in zip(v.fields, texts):
        for _ in range(f.closes):
            out.append(CLOSE[open_.pop()])
        if f.opens:
            out.append(s)
            open_.append(s)
            for _ in range(f.after):
                out.append(CLOSE[open_.pop()])
        elif s:
            out.append(s)
    while open_:
        out.append(CLOSE[open_.pop()])
    return " ".join(out)


def values_fn(d):
    d.name_inner()
    rows = []
    for vi, texts, ctor, _ in values(d):
        ts = ", ".join('"%s"' % t.replace('"', '\\"') for t in texts)
        rows.append(f"({vi}, vec![{ts}], mc::sn::emitted(&{ctor}))")
    return "pub fn values() -> Vec<(usize, Vec<&'static str>, TokenStream)> { vec![" + ",\n".join(rows) + "] }"


# ---------------------------------------------------------------------------------------------
# Variant pools

def S(fields, kind="tuple", derives=("Parse",), inner=()):
    return SD([Vr(fields, kind)], derives=derives, inner=inner)


def pool_plain(derives):
    """Variants without peek marks: (name, constructor of fields, inner definitions, kind)."""
    P = lambda *a, **k: Fd(*a, **k)
    node = lambda: S([P("Ident"), P("Eq")], derives=derives)
    grp = lambda: S([P("Paren", opens=True), P("Int")], "record", derives)
    en = lambda: SD([Vr([P("Int"), P("Eq")], name="X"), Vr([P("Ident")], "record", name="Y")], True, derives=derives)
    return [
        ("U", lambda n: [], "tuple"),
        ("I", lambda n: [P("Int")], "tuple"),
        ("N", lambda n: [P("Ident")], "record"),
        ("II", lambda n: [P("Int"), P("Int")], "tuple"),
        ("IE", lambda n: [P("Int"), P("OptEq"), P("Ident")], "record"),
        ("G", lambda n: [P("Paren", opens=True), P("Int")], "tuple"),
        ("GG", lambda n: [P("Paren", opens=True), P("Int"), P("Ident")], "record"),
        ("GC", lambda n: [P("Paren", opens=True), P("Int"), P("Int", closes=1)], "tuple"),
        ("M", lambda n: [P("Macro", opens=True), P("Ident")], "tuple"),
        ("T", lambda n: [P("Ints")], "tuple"),
        ("K", lambda n: [P("Ident", any=True), P("Int")], "tuple"),
        ("S", lambda n: [P(("Node", n(node)))], "tuple"),
        ("SG", lambda n: [P(("Node", n(grp))), P("Int")], "record"),
        ("SE", lambda n: [P(("Node", n(en)))], "tuple"),
    ]


def pool_peek(derives):
    P = lambda *a, **k: Fd(*a, peek=True, **k)
    N = lambda *a, **k: Fd(*a, **k)
    return [
        ("pI", lambda n: [P("Int"), N("Int")], "tuple"),
        ("pIo", lambda n: [P("Int")], "record"),
        ("pN", lambda n: [P("Ident"), N("Eq")], "tuple"),
        ("pNa", lambda n: [P("Ident", any=True), N("Int")], "record"),
        ("pG", lambda n: [P("Paren", opens=True), N("Int")], "tuple"),
        ("pGN", lambda n: [P("Paren", opens=True), N("Int"), P("Ident", closes=1), N("Int")], "record"),
        ("pIE", lambda n: [P("Int"), P("Eq"), N("Int")], "tuple"),
        ("pINI", lambda n: [P("Int"), P("Ident"), P("Int"), N("Eq")], "tuple"),
        ("pIGN", lambda n: [P("Int"), P("Paren", opens=True, after=1), P("Ident", any=True)], "tuple"),
        ("pNaE", lambda n: [P("Ident", any=True), P("Eq")], "tuple"),
        ("pIO", lambda n: [P("Int"), N("OptEq"), N("Ident")], "record"),
        ("pB", lambda n: [P("Bracket", opens=True), N("Ident"), N("Int", closes=1)], "tuple"),
        ("pS", lambda n: [P("Str"), N("Int")], "tuple"),
    ]


def enum_of(items, derives, fam, style=0):
    inner = []

    def n(mk):
        d = mk()
        inner.append(d)
        return d
    vs = [Vr(mk(n), kind, name=f"V{i}_{name}") for i, (name, mk, kind) in enumerate(items)]
    return SD(vs, True, fam, derives, inner, style)


def deep(derives, depths, fam="d"):
    """Many groups inside each other, left open or closed one by one; many fields; many variants."""
    out = []
    f = Fd
    cyc = ("Paren", "Bracket", "Brace", "Macro")
    for n in depths:
        for leaf in ("Int", "Ident"):
            opens = [f(cyc[i % 4], opens=True) for i in range(n)]
            out.append(SD([Vr([x.copy() for x in opens] + [f(leaf)], "tuple")], fam=fam, derives=derives, style=n))
            out.append(SD([Vr([x.copy() for x in opens] + [f(leaf)] + [f("Eq", closes=1) for _ in range(n)], "tuple")], fam=fam, derives=derives, style=n))
            out.append(SD([Vr([x.copy() for x in opens] + [f(leaf, closes=n)], "tuple")], fam=fam, derives=derives, style=n))
            out.append(SD([Vr([y for x in opens for y in (x.copy(), f(leaf))] + [f("Eq", closes=n - 1), f(leaf)], "tuple")], fam=fam, derives=derives, style=n + 1))
            # groups one after the other
            out.append(SD([Vr([f(cyc[i % 4], opens=True, closes=1 if i else 0) for i in range(n)] + [f(leaf, closes=1)], "tuple")], fam=fam, derives=derives, style=n))
    return out


def recursive(derives, fam="rec"):
    """Types that contain themselves, boxed or in lists, called by name or Self; and two that contain each other."""
    out = []
    f, V = Fd, Vr
    for k, box in enumerate(("Self", True, "Self")):
        for peek in (False, True):
            shapes_ = [
                lambda a: [V([f("Int")], name="L"), V([f("Paren", opens=True, peek=peek), a()], name="G")],
                lambda a: [V([f("Bracket", opens=True, peek=peek), a()], "record", name="G"), V([f("Eq", peek=peek), a()], name="N"), V([f("Ident")], name="L")],
                lambda a: [V([f("Eq", peek=peek), a(), a()], "record", name="P"), V([f("Ident"), f("OptEq")], name="L")],
                lambda a: [V([f("Brace", opens=True, peek=peek), a("Nodes")], name="M"), V([f("Int")], "record", name="L")],
                lambda a: [V([f("Ident"), f("Macro", opens=True), a("Nodes")], name="C"), V([f("Ident")], name="L")],
                lambda a: [V([f("Ident"), f("Eq"), a()], name="S"), V([f("Ident", any=True)], name="L"), V([f("Paren", opens=True), a(), f("Eq", closes=1), a()], name="D")],
            ]
            for j, mk in enumerate(shapes_):
                d = SD([], True, fam, derives, style=j + k)

                def a(kind="Node", d=d):
                    x = f((kind, d))
                    x.box = box
                    return x
                d.variants = mk(a)
                if k == 2:
                    d.variants = d.variants[::-1]
                out.append(d)
    # a struct with a list of itself
    for box in ("Self", True):
        for kind in ("tuple", "record"):
            d = SD([], False, fam, derives, style=len(out))
            x = f(("Nodes", d))
            x.box = box
            d.variants = [V([f("Ident"), f("Bracket", opens=True), x], kind)]
            out.append(d)
    # each other
    for peek in (False, True):
        i = SD([], False, "", derives)
        d = SD([V([f("Int")], name="X"), V([f("Eq", peek=peek), f(("Node", i))], name="Y")], True, fam, derives, inner=[i])
        x = f(("Node", d))
        x.box = True
        i.variants = [V([f("Paren", opens=True), f("Ident"), x], "record")]
        out.append(d)
    return out


def twins(derives, peek, fam="tw"):
    """Enums whose variants have the same field types and differ only in the marks, in every order."""
    out = []
    f = Fd
    names = [[f("Ident", any=a), f("Int")] for a in (False, True)]
    after = [[f("Int"), f("Ident", any=a)] for a in (False, True)]
    both = [[f("Ident", any=a), f("Ident", any=b)] for a in (False, True) for b in (False, True)]
    lists = [[f("Eq"), f("Idents", any=a)] for a in (False, True)]
    ends = [[f("Paren", opens=True), f("Int", closes=a), f("Ident", closes=b)] for a, b in ((0, 0), (1, 0), (0, 1))]
    macro = [[f("Macro", opens=True), f("Ident", closes=a, any=b), f("Int", closes=c)] for a, c in ((0, 0), (1, 0), (0, 1)) for b in (False, True)]
    two = [[f("Paren", opens=True), f("Bracket", opens=True, closes=a), f("Int", closes=b)] for a, b in ((0, 0), (1, 0), (0, 1), (0, 2), (1, 1))]
    sets = [names, after, both, lists, ends, macro, two]
    if peek:
        def marked(fs):
            """The fields with every possible placement of peek marks."""
            n, inside = 0, False
            for x in fs:
                if x.closes:
                    inside = False
                if inside or x.ty == "Idents":
                    break
                inside = inside or x.opens
                n += 1
                if inside:
                    break
            return [[x.copy(peek=i < k) for i, x in enumerate(fs)] for k in range(n + 1)]
        sets = [[m for x in s for m in marked(x)] for s in sets if s is not macro]
    for s in sets:
        for k, (a, b) in enumerate(permutations(range(len(s)), 2)):
            if peek and not any(x.peek for x in s[a] + s[b]):
                continue
            vs = [Vr([x.copy() for x in s[i]], ("tuple", "record")[(k + j) % 2], name=f"V{j}") for j, i in enumerate((a, b))]
            out.append(SD(vs, True, fam, derives, style=k))
            if not peek:
                last = [c for c in range(len(s)) if c not in (a, b)][:1]
                vs = [Vr([x.copy() for x in s[i]], name=f"V{j}") for j, i in enumerate((a, b, *last))]
                out.append(SD(vs[:1] + [Vr([f("Int")], name="O")] + vs[1:], True, fam, derives, style=k + 1))
    return out


def prefixes(derives, fam="px", triples=False):
    """Enums one variant of which is the beginning of another, or the same; no marks at all."""
    out = []
    seqs = [t for n in range(4) for t in product(("Int", "Str"), repeat=n)] + [("Int", "Ident"), ("Int", "OptEq"), ("Int", "OptEq", "Int"), ("Ident",), ("Ident", "Eq", "Int"), ("Ident", "Eq"), ("Int", "Ints"), ("Int", "Rest")]
    V = lambda k, *ts: [Vr([Fd(x) for x in t], ("tuple", "record")[(k + j) % 2], name=f"V{j}") for j, t in enumerate(ts)]
    begins = lambda a, b: a == b[:len(a)]
    for k, (a, b) in enumerate(permutations(seqs, 2)):
        if begins(a, b) or begins(b, a) or len(a) == len(b) and k % 3 == 0:
            for kind in (0, 1) if begins(a, b) else (k,):
                out.append(SD(V(kind, a, b), True, fam, derives, style=k))
            # both of one kind: the field types alone tell them apart
            if begins(a, b) and a:
                out.append(SD([Vr([Fd(x) for x in t], kind="tuple", name=n) for n, t in (("X", a), ("Y", b))], True, fam, derives, style=k))
    for k, (a, b, c) in enumerate(permutations(seqs, 3)):
        if begins(a, b) and (begins(b, c) or begins(a, c)) and (triples or k % 4 == 0):
            out.append(SD(V(k, a, b, c), True, fam, derives, style=k))
            out.append(SD(V(k, c, a, b), True, fam, derives, style=k))
    return out


ODD = ["_x", "__", "_1", "r#fn", "r#type", "x_", "x1", "Camel", "UPPER", "camelCase", "é", "a_rather_long_name_of_forty_one_characters",
       "paren_token", "span", "name", "value", "tokens", "dump", "ident", "skip", "self_", "eq_token"]
ODD_V = ["_A", "__", "r#type", "lower", "UPPER", "É", "Ok", "Err", "None", "Some", "A", "ARatherLongNameOfThirtyTwoLetters", "Default", "Unknown", "Other", "Eof"]


def odd_names(derives, fam="nm", peek=True):
    """Every odd name for a field of every sort, and for a variant at every place."""
    f, out = Fd, []
    rows = [lambda: [f("Int"), f("Ident")], lambda: [f("Paren", opens=True), f("Eq"), f("Str", closes=1)],
            lambda: [f("Macro", opens=True), f("Ident", any=True)], lambda: [f("OptEq"), f("Idents")], lambda: [f("Bracket", opens=True, after=1), f("Int")]]
    for i, n in enumerate(ODD):
        for j, r in enumerate(rows):
            for at in range(len(r())):
                names = ["p", "q", "s"]
                names[at] = n
                d = SD([Vr(r(), "record")], fam=fam, derives=derives, style=i + j)
                d.names = names
                out.append(d)
                if at == 0:
                    fs = r()
                    if peek and i % 2 and fs[0].ty not in ("Macro", "OptEq"):
                        fs[0].peek = True
                    d = SD([Vr(fs, "record", name="V"), Vr([f("Ident"), f("Eq")], name="W")], True, fam, derives, style=i)
                    d.names = names
                    out.append(d)
    pool = [lambda: [f("Int", peek=peek), f("Eq")], lambda: [f("Int"), f("Ident")], lambda: [f("Ident")], lambda: []]
    for i, n in enumerate(ODD_V):
        for at in range(4):
            for kind in ("tuple", "record"):
                vs = [Vr(x(), kind if k != at else ("tuple", "record")[i % 2], name=n if k == at else f"V{k}") for k, x in enumerate(pool)]
                out.append(SD(vs, True, fam, derives, style=i))
    return out


def lists_inside(derives, fam="pd"):
    """Lists and `any` names at every depth of nested groups."""
    out = []
    f = Fd
    cyc = ("Paren", "Bracket", "Brace", "Macro")
    for n in (2, 3, 4, 5):
        for at in range(n + 1):
            for x in (f("Ints"), f("Idents", any=True), f("Ident", any=True), f("Idents")):
                pre = [f(cyc[(i + n) % 4], opens=True) for i in range(n)]
                # open on, list last; or behind a token, everything else closed
                if at == n:
                    out.append(SD([Vr([y.copy() for y in pre] + [x], ("tuple", "record")[n % 2])], fam=fam, derives=derives, style=n))
                    out.append(SD([Vr([f("Eq")] + [y.copy() for y in pre] + [f("Int"), x.copy()], "tuple")], fam=fam, derives=derives, style=n))
                else:
                    out.append(SD([Vr([y.copy() for y in pre] + [f("Eq"), x.copy(closes=n - at)], ("tuple", "record")[at % 2])], fam=fam, derives=derives, style=n + at))
                    if at:
                        rest = [f("Eq", closes=at)]
                        out.append(SD([Vr([y.copy() for y in pre] + [x.copy(), x.copy(closes=n - at)] + rest, "record")], fam=fam, derives=derives, style=n + at))
    return out


def broad(derives, sizes, fam="w"):
    """Structs with many fields and enums with many variants."""
    out = []
    f = Fd
    leaves = ("Int", "Ident", "Eq", "Str")
    for n in sizes:
        out.append(SD([Vr([f(leaves[i % 4]) for i in range(n)], "tuple")], fam=fam, derives=derives))
        d = SD([Vr([f(leaves[(i * 3 + 1) % 4]) for i in range(n)], "record")], fam=fam, derives=derives)
        d.names = [f"f{(i * 7) % n if n % 7 else i}" for i in range(n)]
        out.append(d)
        for peek in (0, 1, 2):
            vs, k = [], 0
            while len(vs) < n:
                # distinct sequences of leaves, the longer ones first
                for seq in product(leaves, repeat=4 if n > 64 else 3 if n > 16 else 2):
                    fs = [f(t, peek=(peek == 1 and j < 2) or (peek == 2 and j == 0 and k % 2)) for j, t in enumerate(seq)]
                    vs.append(Vr(fs, ("tuple", "record")[k % 2], name=f"W{k}"))
                    k += 1
                    if len(vs) == n:
                        break
            out.append(SD(vs, True, fam, derives))
            out.append(SD(vs[::-1] + [Vr([], name="U")], True, fam, derives))
    return out


def with_fallback(scripts, derives, fam="fb"):
    """Every script as the first variant of an enum whose last variant takes whatever is there."""
    out = []
    for k, fs in enumerate(scripts):
        vs = [Vr([x.copy() for x in fs], ("tuple", "record")[k % 2], name="S"), Vr([Fd("Rest")], name="F")]
        out.append(SD(vs, True, fam, derives, style=k))
    return out
