"""Enumerates `#[derive(StructMeta)]` definitions and the Rust code of their explorer programs."""
import copy
from itertools import product, permutations, combinations
from . import core

STY = ["Bool", "Flag", "Val", "Vec", "NV", "NVOpt", "NA", "NAOpt", "NAVec", "NAOptVec"]
TY = dict(Bool="bool", Flag="Flag", Val="{}", Vec="Vec<{}>", NV="NameValue<{}>",
          NVOpt="NameValue<Option<{}>>", NA="NameArgs<{}>", NAOpt="NameArgs<Option<{}>>",
          NAVec="NameArgs<Vec<{}>>", NAOptVec="NameArgs<Option<Vec<{}>>>")
LEAF = dict(Int="LitInt", Str="LitStr", Expr="Expr", Ident="Ident", Type="Type", Bool="LitBool", Tokens="proc_macro2::TokenStream", Made="Made")
# value types whose values the model does not know (some of them are read from nothing)
OTHER = dict(Vis="syn::Visibility", Meta="syn::Meta", Lit="syn::Lit", Nothing="syn::parse::Nothing", Pat="syn::Member", OptEq="std::option::Option<syn::Token![=]>",
             Path="syn::Path", Stmt="syn::Stmt", Item="syn::Item", Ret="syn::ReturnType", Gen="syn::Generics")
LEAF |= OTHER
REST = ["Val", "Vec", "NV", "NVOpt", "NA", "NAOpt", "NAVec", "NAOptVec"]
# all named kinds: (style, wrapped in Option)
KINDS = [("Bool", 0), ("Flag", 0)] + [(s, o) for s in REST for o in (0, 1)]


class F:
    """A field. kind: named rest req opt var"""

    def __init__(self, kind, sty="Val", opt=0, leaf="Int", name=None, field=None, attrs=(), ty=None):
        self.kind, self.sty, self.opt, self.leaf = kind, sty, opt, leaf
        self.name, self.field, self.attrs, self.ty = name, field, list(attrs), ty

    def leaf_ty(self):
        return LEAF[self.leaf] if isinstance(self.leaf, str) else self.leaf.tname

    def leaf_rs(self):
        if isinstance(self.leaf, str) and self.leaf in OTHER:
            return "Leaf::Tokens"
        return f"Leaf::{self.leaf}" if isinstance(self.leaf, str) else f"Leaf::Inner(&{self.leaf.mod or 'self'}::DEF)"

    def rust_ty(self):
        if self.ty is not None:
            return self.ty
        l = self.leaf_ty()
        if self.kind == "named":
            t = TY[self.sty].format(l)
            return f"Option<{t}>" if self.opt else t
        if self.kind == "rest":
            return f"HashMap<String, {TY[self.sty].format(l)}>"
        return {"req": l, "opt": f"Option<{l}>", "var": f"Vec<{l}>"}[self.kind]

    def role(self):
        if self.kind == "named":
            o = "true" if self.opt else "false"
            return f'Role::Named("{self.name}", {o}, Sty::{self.sty})'
        if self.kind == "rest":
            return f"Role::Rest(Sty::{self.sty})"
        return {"req": "Role::Req", "opt": "Role::Opt", "var": "Role::Var"}[self.kind]


class D:
    """A definition. tuple: `struct A(..)`. fam selects the passes."""

    def __init__(self, fam, fields, filter=False, tuple=False, extra=(), inner=(), prelude="",
                 unit=False, sattr=None, wrap=None):
        self.fam, self.fields, self.filter, self.tuple, self.extra = fam, fields, filter, tuple, extra
        self.inner, self.prelude, self.unit, self.sattr, self.wrap = inner, prelude, unit, sattr, wrap
        self.mod = None
        self.tname = "A"

    def size(self):
        return len(self.fields)

    def struct(self, name="A"):
        """The Rust definition."""
        fs, acc = [], []
        for i, f in enumerate(self.fields):
            attrs = list(f.attrs)
            if f.kind in ("req", "opt", "var"):
                if not self.tuple and not any("unnamed" in a for a in attrs):
                    attrs.append("unnamed")
                ident = f.field or f"u{i}"
            elif f.kind == "rest":
                ident = f.field or f"rest{i}"
            else:
                if f.field is None and self.tuple:
                    attrs.append(f'name = "{f.name}"')
                ident = f.field or f.name
            a = "".join(f"{x} " if x.startswith("#") else f"#[struct_meta({x})] " for x in attrs)
            if self.tuple:
                fs.append(f"{a}{f.rust_ty()}")
                acc.append(str(i))
            else:
                fs.append(f"{a}{ident}: {f.rust_ty()}")
                acc.append(ident)
        s = "#[derive(StructMeta)] "
        if self.filter:
            s += '#[struct_meta(name_filter = "snake_case")] '
        if self.sattr:
            s += self.sattr + " "
        if self.unit:
            s += f"struct {name};"
        elif self.tuple:
            s += f"struct {name}({', '.join(fs)});"
        else:
            s += f"struct {name} {{ {', '.join(fs)} }}"
        if self.wrap:
            s = self.wrap(self, s)
        return s, acc

    def source(self):
        s = "\n".join(d.struct(d.tname)[0] for d in self.inner)
        return "\n".join(x for x in (s, self.prelude, self.struct(self.tname)[0]) if x)

    def is_inner(self):
        return any(d is not self for d in self.inner)

    def code(self, k):
        """Module text of the k-th definition."""
        out = [f"pub mod d{k} {{", "#[allow(unused_imports)] use super::*;"]
        for j, d in enumerate(self.inner):
            d.mod = f"i{j}"
            d.tname = f"I{j}"
        for j, d in enumerate(self.inner):
            out.append(f"pub mod i{j} {{ #[allow(unused_imports)] use super::*;")
            out += d.body(f"d{k}i{j}")
            out.append("}")
            out.append(f"pub use i{j}::I{j};")
        if self.prelude:
            out.append(self.prelude)
        out += self.body(f"d{k}")
        out.append("}")
        return "\n".join(out).replace("crate::HERE::", f"crate::d{k}::")

    def body(self, ident):
        s, acc = self.struct(self.tname)
        out = [s.replace(f"struct {self.tname}", f"pub struct {self.tname}", 1)]
        vals = ", ".join(f"x.{a}.canon()" for a in acc)
        n = self.tname
        out.append(f"impl {n} {{ pub fn canons(&self) -> ::std::vec::Vec<String> {{ let x = self; let _ = x; vec![{vals}] }} }}")
        out.append(f"impl Canon for {n} {{ fn canon(&self) -> String {{ format!(\"<{{}}>\", self.canons().join(\"|\")) }} }}")
        fl = ", ".join(f"Fld {{ role: {f.role()}, leaf: {f.leaf_rs()} }}" for f in self.fields)
        ex = ", ".join('"%s"' % x.replace("\\", "\\\\").replace('"', '\\"') for x in self.extra)
        src = self.source().replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
        out.append(f'pub static DEF: SmDef = SmDef {{ id: "{ident}", src: "{src}", filter: {"true" if self.filter else "false"}, '
                   f"fields: &[{fl}], parse: |i| Ok(<{n} as syn::parse::Parse>::parse(i)?.canons()), extra: &[{ex}] }};")
        return out


HEADER = """#![allow(dead_code, unused_imports, non_snake_case, non_camel_case_types, mixed_script_confusables, uncommon_codepoints)]
use mc::canon::Canon;
use mc::sm::{Fld, Leaf, Role, SmDef, Sty};
#[allow(unused_extern_crates)] extern crate alloc;
use std::{collections, option, primitive, string, vec};
use std::collections::{HashMap, hash_map};
use structmeta::{Flag, NameArgs, NameValue, StructMeta};
use syn::{Expr, Ident, LitBool, LitInt, LitStr, Type};"""
MADE = open(core.VERIF + "/gen/rs/made.rs").read()


def spell(d, k):
    """Every third definition as it is, one with the fields called like their neighbours' parameters, one with
    every other parameter on a field of another name."""
    ns = [f for f in d.fields if f.kind == "named"]
    if d.tuple or d.wrap or not ns or k % 3 == 0 or any(f.field is not None or f.attrs for f in ns):
        return
    names = [f.name for f in ns]
    if any(n.startswith("r#") for n in names):
        return
    for i, f in enumerate(ns):
        if k % 3 == 1 and len(ns) > 1:
            f.field = names[(i + 1) % len(names)]
        elif k % 3 == 1 or i % 2 == k // 3 % 2:
            f.field = f"fld{i}"
        if f.field:
            f.attrs = [f'name = "{f.name}"']


def filtered(defs, every=4):
    """The same definitions with name_filter: of every so many, and of the inner structs of such."""
    out = []
    for d in [d for d in defs if not d.filter and not d.wrap and d.fam not in ("long", "rec")][::every]:
        t = copy.copy(d)
        if d.inner and not any(x is d for x in d.inner):
            new = {id(x): copy.copy(x) for x in d.inner}
            t.inner = list(new.values())
            for x in t.inner:
                x.filter = True
            for x in [t] + t.inner:
                x.fields = [copy.copy(f) for f in x.fields]
                for f in x.fields:
                    f.leaf = new.get(id(f.leaf), f.leaf)
        elif not d.inner:
            t.filter = True
            t.extra = [*d.extra, "Q", "aB = 1", "Q(1)"]
        else:
            continue
        if len(out) % 2 and d.inner:
            t.filter = True
        out.append(t)
    return out


def explore(res, prog_name, defs, passes, mask, bins=None):
    """passes: list of `[family=]pass`"""
    for k, d in enumerate(defs):
        spell(d, k)
    p = core.Program(prog_name)
    idx = list(range(len(defs)))
    for b, part in enumerate(core.spread(idx, bins or core.JOBS)):
        pieces, table = [], []
        for k in part:
            d = defs[k]
            pieces.append((d.code(k), None))
            pieces[-1] = (pieces[-1][0], d.source())
            table.append(f'("{d.fam}", &d{k}::DEF)')
        footer = "fn main() { mc::sm::main(&[" + ",\n".join(table) + "]) }"
        made = any(isinstance(f, F) and f.leaf == "Made" for k in part for x in [defs[k], *defs[k].inner] for f in x.fields)
        p.add_bin(f"b{b}", HEADER + (MADE if made else ""), pieces, footer)
    errors = p.build()
    if errors:
        res.compile_errors(errors)
        bad = {e[0] for e in errors}
        for b in list(p.bins):
            if b in bad:
                del p.bins[b]
    if p.bins:
        for r in p.run([mask, *passes]):
            res.merge(r)


# ---------------------------------------------------------------------------------------------
# Families

NAMES = ["abc", "xy", "foo_1", "b", "abd"]
LEAVES = ["Int", "Str", "Expr", "Int", "Str"]


def named(kinds, leaves=LEAVES, names=NAMES):
    return [F("named", s, o, leaves[i], names[i]) for i, (s, o) in enumerate(kinds)]


def singles(leaves=("Int", "Str", "Expr", "Ident", "Type", "Bool"), fam="single"):
    return [D(fam, named([k], [l])) for k in KINDS for l in leaves if k[0] not in ("Bool", "Flag") or l == "Int"]


ODD = ["_x", "__", "_1", "x_", "x1", "r#type", "r#fn", "Self", "crate", "true", "Camel", "UPPER", "camelCase", "é", "a_rather_long_name_of_forty_one_characters",
       "input", "span", "index", "name", "value", "content", "unnamed", "fork", "structmeta", "Option", "self", "dump"]


def odd_names(fam, kinds=None, step=1):
    """Every kind of parameter under names that are not just three lower-case letters, alone and in company."""
    out = []
    for i, n in enumerate(ODD):
        for j, (s, o) in enumerate(kinds or KINDS):
            if (i + j) % step:
                continue
            bare = n.removeprefix("r#")
            plain = n not in ("Self", "crate", "true", "self")
            style = (i + j // step) % 4
            if style in (0, 1) and plain:
                f = F("named", s, o, ("Int", "Str")[j % 2], bare, field=n)
            else:
                f = F("named", s, o, ("Int", "Str")[j % 2], bare, field="abc", attrs=[f'name = "{bare}"'])
            f.attrs += [[], ["#[doc(hidden)]"], ['#[doc = "d"]'], ["#[allow(unused)]"], ["#[cfg(all())]"]][(i + j) % 5]
            more = [[], [F("named", "Flag", 0, "Int", "other")], [F("req")], [F("rest", "NVOpt")]][(i + j // step) % 4 if style else j % 4]
            out.append(D(fam, more + [f] if style % 2 else [f] + more, tuple=style == 3))
    return out


def tokens(fam):
    """A type that takes whatever stands between the parentheses, nothing included."""
    fl = lambda: [F("named", "Flag", 0, "Int", "fl")]
    out = []
    for s in ("NA", "NAOpt"):
        for o in (0, 1):
            n = lambda: [F("named", s, o, "Tokens", "abc")]
            out += [D(fam, n()), D(fam, n() + [F("named", "Val", 1, "Int", "xy")]), D(fam, [F("req")] + n()), D(fam, [F("opt", leaf="Expr")] + n()), D(fam, n() + [F("rest", "NAVec")])]
        out += [D(fam, [F("rest", s, leaf="Tokens")] + x) for x in ([], fl(), [F("named", "NAVec", 1, "Int", "abc")])]
    return out


def pairs(fam="pair", tuple=False):
    return [D(fam, named(k), tuple=tuple) for k in product(KINDS, KINDS)]


SIX = [("Flag", 0), ("Val", 0), ("Vec", 1), ("NV", 0), ("NAOpt", 1), ("NAVec", 0)]


def triples(kinds=SIX, fam="triple"):
    return [D(fam, named(k)) for k in product(kinds, repeat=3)]


def unnamed_shape(r, o, v, leaves=("Int",)):
    n = r + o + v
    return [F("req" if i < r else "opt" if i < r + o else "var", leaf=leaves[i % len(leaves)]) for i in range(n)]


def interleave(a, b):
    """All merges of two lists that keep both orders."""
    n = len(a) + len(b)
    for pos in combinations(range(n), len(b)):
        out, ia, ib = [], iter(a), iter(b)
        for i in range(n):
            out.append(next(ib) if i in pos else next(ia))
        yield out


WIDE_NAMES = ["zeta", "alpha", "mid", "b", "beta_2", "yy1", "omega", "a_b", "cc", "kappa", "last", "delta"]


def wides(fam="wide"):
    """Many fields at once, in several declaration orders."""
    out = []
    for rot in range(0, 18, 3):
        ks = [KINDS[(i * 5 + rot) % 18] for i in range(12)]
        base = [F("named", s, o, ["Int", "Str", "Expr"][i % 3], WIDE_NAMES[i]) for i, (s, o) in enumerate(ks)]
        out.append(D(fam, base))
        out.append(D(fam, list(reversed(base))))
        out.append(D(fam, base, tuple=True))
        un = unnamed_shape(2, 2, 1, ("Int", "Str"))
        mix = []
        for i, f in enumerate(base[:8]):
            if i < len(un):
                mix.append(un[i])
            mix.append(f)
        out.append(D(fam, mix))
        out.append(D(fam, mix + [F("rest", REST[rot % 8], leaf="Int")]))
        out.append(D(fam, [F("rest", REST[(rot + 3) % 8], leaf="Str")] + base[:6]))
    return out


def many(sizes, kinds=KINDS, company=("", "req", "opt", "rest"), fam="many"):
    """Many parameters of the same kind."""
    out = []
    for n in sizes:
        for s, o in kinds:
            fs = [F("named", s, o, ["Int", "Str", "Expr"][i % 3], f"p{(i * 7) % n if n % 7 else i}x") for i in range(n)]
            for c in company:
                if c == "":
                    out.append(D(fam, fs))
                elif c == "req":
                    out.append(D(fam, [F("req"), F("req")] + fs))
                elif c == "opt":
                    out.append(D(fam, fs + [F("opt", leaf="Str")], filter=True))
                elif c == "rest":
                    out.append(D(fam, fs + [F("rest", s if s not in ("Bool", "Flag") else "NVOpt")]))
                else:
                    out += [D(fam, fs + [F("rest", r)]) for r in REST]
    return out


def long_lists(fam="long"):
    out = []
    for leaf in ("Int", "Expr"):
        for u in ((0, 0, 1), (1, 0, 1), (2, 2, 1)):
            out.append(D(fam, unnamed_shape(*u, (leaf,))))
            out.append(D(fam, unnamed_shape(*u, (leaf,)) + [F("named", "Flag", 0, "Int", "fl")]))
        for k in KINDS:
            if "Vec" in k[0]:
                out.append(D(fam, named([k], [leaf])))
        out += [D(fam, [F("rest", r, leaf=leaf)]) for r in REST]
    return out


MADE_TEXTS = ["1", "1 .. 2", "1 ..", "1 .. q", "..", "1 2", "1..2", "g()", "g(1)", "g(1,)", "g(,)", "g(f)", "g(f,)", "g(f, f)", "g(x = 1)", "g(x = 1, x = 2)", "g(x)", "g(f = 1)", "g(f(1))",
              "g(f())", "g(x(1 .. 2), x = 3)", "g(q)", "g(q, 1)", "g(f, 1)", "g(1, f, x = 2)", "g(1 .. 2, [3], f)", "g(x = 1 .. 2)", "g[1]", "g {}", "g", "fn(1)", "self(f)", "r#g(1)",
              "g(1)(2)", "g(1) .. 2", "(1)", "[]", "[1]", "[1 ;]", "[1 ; 2 .. 3]", "[;]", "[1, 2]", "[[], [1]]", "[[] ; [1 ;]]", "[g(1 ; 2)]", "[g(1, 2) ;]", "g([1 ; 2], [f])", "g(h(i(f)), f)",
              "g(h(i(x)), f)", "g(h(1 1))", "+", "+ 1", "+ +", "+ 1 .. 2", "[+ ; + 1]", "g(+, + 1, f)", "g(+ f)", "[1 .. 2 .. 3]", "{ 1 }", "g(1 ..)", "g(1 .., f)", "[1 .. ; 2]"]


def made(fam="made"):
    """Values that are parsed by a derived Parse, which in turn contain argument structs."""
    out = []
    M = lambda kinds: named(kinds, ["Made"] * 5)

    def ways(n, k):
        return [n, f"{n} = {{}}", f"{n}({{}})"] + ([f"{n}({{}}, 1)", f"{n}([], {{}},)"] if k.endswith("Vec") else [])
    for s, o in KINDS:
        if s in ("Bool", "Flag"):
            continue
        d = M([(s, o)])
        out.append(D(fam, d, extra=sorted({w.format(t) for t in MADE_TEXTS for w in ways("abc", s)})))
        out.append(D(fam, M([(s, o), ("NAVec", 1)]), extra=[w.format(t) for t in MADE_TEXTS[::5] for w in ways("abc", s)]))
    for s in REST:
        out.append(D(fam, [F("rest", s, leaf="Made")], extra=[w.format(t) for t in MADE_TEXTS for w in ways("zz", s)]))
    for r, o, v in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1)):
        for m in ([], [F("named", "Flag", 0, "Int", "fl")], [F("named", "NAVec", 0, "Made", "na")], [F("named", "NVOpt", 1, "Made", "va"), F("rest", "NAOpt", leaf="Made")]):
            for fl in (0, 1):
                out.append(D(fam if r + o + v == 1 else fam + "2", unnamed_shape(r, o, v, ("Made",)) + m, filter=fl, extra=MADE_TEXTS if r + o + v == 1 else MADE_TEXTS[fl::4]))
    return out


def rests(unnamed=((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)), fam="rest", declared=None, leaf="Int", dleaf="Int"):
    out = []
    for s in REST:
        for k in (declared if declared is not None else [None] + KINDS):
            for u in unnamed:
                fs = unnamed_shape(*u)
                if k is not None:
                    fs = fs + [F("named", k[0], k[1], dleaf, "abc")]
                fs = fs + [F("rest", s, leaf=leaf)]
                out.append(D(fam, fs))
    return out


# --- nested ---

def inner_defs():
    """Argument structs used inside others: (constructor) list."""
    I = lambda *a, **k: F("named", *a, **k)
    return [
        lambda: D("inner", [I("Val", 0, "Int", "abc")]),
        lambda: D("inner", [I("Flag", 0, "Int", "fl"), I("Val", 1, "Str", "abc")]),
        lambda: D("inner", [F("req"), F("opt"), I("Bool", 0, "Int", "fl")]),
        lambda: D("inner", [F("var", leaf="Expr"), I("Val", 1, "Int", "abc")]),
        lambda: D("inner", [F("rest", "Val"), I("NA", 1, "Str", "abc")]),
        lambda: D("inner", [F("opt", leaf="Str"), F("rest", "NVOpt")]),
        lambda: D("inner", [F("req"), F("req", leaf="Str")], tuple=True),
        lambda: D("inner", [], unit=True),
    ]


def nested(fam="nest"):
    out = []
    N = lambda *a, **k: F("named", *a, **k)
    for mk in inner_defs():
        for outer in range(9):
            i = mk()
            if outer == 0:
                fs = [N("NA", 0, i, "nn")]
            elif outer == 1:
                fs = [N("NAOpt", 0, i, "nn"), N("Val", 1, "Int", "abc")]
            elif outer == 2:
                fs = [N("NA", 1, i, "nn"), N("Flag", 0, "Int", "fl")]
            elif outer == 3:
                fs = [F("rest", "NA", leaf=i), N("Val", 1, "Int", "abc")]
            elif outer == 4:
                fs = [F("rest", "NAOpt", leaf=i), N("Flag", 0, "Int", "fl")]
            elif outer == 5:
                fs = [F("opt"), N("NAOpt", 1, i, "nn"), F("rest", "Val")]
            elif outer == 6:
                fs = [F("req"), N("NA", 0, i, "nn"), F("var")]
            elif outer == 7:
                fs = [N("NA", 1, i, "nn"), N("NA", 1, i, "mm")]
            else:
                fs = [N("NA", 1, i, "nn"), F("rest", "NA", leaf=i)]
            out.append(D(fam, fs, inner=[i]))
    return out


def nested2(fam="nest2"):
    """Two levels of nesting."""
    out = []
    N = lambda *a, **k: F("named", *a, **k)
    for mk in inner_defs():
        for st, o in (("NA", 0), ("NAOpt", 1)):
            i = mk()
            m = D("inner", [N(st, o, i, "nn"), N("Flag", 0, "Int", "fl")])
            out.append(D(fam, [N("NAOpt", 1, m, "oo"), N("Val", 1, "Int", "abc"), F("opt")], inner=[i, m]))
    return out


def recursive(fam="rec"):
    """Structs that contain themselves."""
    out = []
    N = lambda *a, **k: F("named", *a, **k)
    for self_ in ("Self", "A"):
        b = f"Box<{self_}>"
        for k in range(6):
            d = D(fam, [])
            X = lambda sty, opt, ty, d=d: F("named", sty, opt, d, "nn", ty=ty)
            R = lambda sty, ty, d=d: F("rest", sty, leaf=d, ty=ty)
            d.fields = [
                [N("Flag", 0, "Int", "fl"), X("NA", 1, f"Option<NameArgs<{b}>>")],
                [F("opt"), N("Val", 1, "Str", "abc"), X("NAOpt", 1, f"Option<NameArgs<Option<{b}>>>")],
                [R("NA", f"HashMap<String, NameArgs<{self_}>>"), N("Flag", 0, "Int", "fl")],
                [N("Val", 1, "Int", "abc"), R("NAOpt", f"HashMap<String, NameArgs<Option<{self_}>>>")],
                [F("var", leaf="Expr"), X("NA", 1, f"Option<NameArgs<{b}>>")],
                [F("req", leaf="Str"), X("NA", 1, f"Option<NameArgs<{b}>>"), R("NA", f"HashMap<String, NameArgs<{self_}>>")],
            ][k]
            out.append(d)
    return out
