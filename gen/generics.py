"""G01: definitions with generic parameters; instantiations behave like the definition written out."""
import re
from . import core, scope, sm, sn, verdict
from .scope import Item, parts

L = "::mc::leaf::"
I = "::syn::LitInt"


class Form:
    """params, where: with {P} for the bounds the derive needs. leaves: what the LitInt fields become, in turn.
    insts: type arguments for the behaviour; extra: further ones that must have the trait, {X} the weakest sufficient type."""

    def __init__(self, name, params, where, leaves, inst, extra=()):
        self.name, self.params, self.where, self.leaves, self.inst, self.extra = name, params, where, leaves, inst, extra


FORMS = [
    Form("inline bound", "T: {P}", "", ["T"], I, ["{X}"]),
    Form("where bound", "T", "T: {P}", ["T"], L + "Lf", ["{X}", I]),
    Form("where bound, trailing comma", "T,", "T: {P},", ["T"], I, ["{X}"]),
    Form("two parameters", "T: {P}, U: {P}", "", ["T", "U"], f"{I}, {L}Lf", ["{X}, " + L + "Lf", L + "Lf, {X}"]),
    Form("inline and where", "T, U: {P}", "T: {P}, U: Sized", ["U", "T"], f"{I}, {L}Lf", ["{X}, {X}"]),
    Form("three parameters", "T, U, V", "T: {P}, U: {P}, V: {P}", ["V", "T", "U"], f"{I}, {L}Lf, {L}Ar<1>", ["{X}, {X}, {X}"]),
    Form("empty where", "T: {P}", " ", ["T"], I, ["{X}"]),
    Form("lifetime", "'a", "", [L + "Lt<'a>"], "'static", ["'s"]),
    Form("lifetime bounds", "'a, 'b: 'a", "", [L + "Lt<'a>", L + "Lt<'b>"], "'static, 'static", ["'s, 'static"]),
    Form("lifetime bounds in where", "'a, 'b", "'b: 'a", [L + "Lt<'b>", L + "Lt<'a>"], "'static, 'static", ["'s, 'static", "'s, 's"]),
    Form("lifetime and type", "'a, T: {P} + 'a", "", [L + "Rf<'a, T>"], "'static, " + I, ["'s, {X}"]),
    Form("type with static bound", "T: 'static + {P}", "", ["T"], L + "Lt<'static>", ["{X}"]),
    Form("const", "const N: usize", "", [L + "Ar<N>"], "3", ["0", "{ 1 + 1 }"]),
    Form("const default", "const N: usize = 3", "", [L + "Ar<N>"], "", ["4"]),
    Form("two consts", "const B: bool, const C: char", "", [L + "Fl<B, C>"], "true, 'x'", ["false, 'y'"]),
    Form("const expression argument", "const N: usize", "", [L + "Ar<N>", L + "Ar<{ 3 + 4 }>"], "3", ["0"]),
    Form("type default", "T: {P} = " + I, "", ["T"], "", ["{X}"]),
    Form("type default used", "T: {P} = " + I, "", ["T"], L + "Ar<2>", []),
    Form("default of an earlier one", "T: {P}, U: {P} = T", "", ["T", "U"], L + "Lf", ["{X}, " + I]),
    Form("associated type", "T: " + L + "Has", "T::Leaf: {P}", ["T::Leaf"], L + "Nt", []),
    Form("associated type, bounded", "T: " + L + "HasB", "", ["<T as " + L + "HasB>::Leaf", "T::Leaf"], L + "Nt", []),
    Form("associated type equality", "T", "T: " + L + "Has<Leaf = " + L + "Lf>", ["T::Leaf"], L + "Nt", []),
    Form("unsized", "T: ?Sized", "", [L + "Ph<T>"], "str", [L + "Nt", "[u8]", "dyn Fn()"]),
    Form("unsized in where", "T", "T: ?Sized", [L + "Ph<T>"], "str", [L + "Nt", "dyn Fn()"]),
    Form("higher-ranked bound", "T: {P} + for<'x> " + L + "Tr<'x>", "", ["T"], I, ["{X}"]),
    Form("higher-ranked predicate", "T: {P}", "for<'x> &'x T: " + L + "Tr<'x>, for<'x> " + L + "Rf<'x, T>: Sized", ["T"], I, ["{X}"]),
    Form("predicate on a type without parameters", "T: {P}", I + ": {P}, u8: Copy, (): Sized", ["T"], I, ["{X}"]),
    Form("predicate on the type itself", "T: {P}", "Self: Sized", ["T"], I, ["{X}"]),
    Form("bound through another parameter", "T: {P} + Into<U>, U: {P} + From<T>", "", ["T", "U"], f"{I}, {I}", ["{X}, {X}"]),
    Form("parameter inside a tuple", "T: {P}, U", "(T, U): Sized, U: {P}", ["T", "U"], f"{I}, {L}Lf", ["{X}, {X}"]),
    Form("boxed", "T: {P}", "", ["::std::boxed::Box<T>"], I, ["{X}"]),
    Form("everything", "'a, 'b: 'a, T: {P} + 'b, U: {P} = " + I + ", const N: usize = 2", "T: " + L + "Tr<'a>, " + L + "Lt<'a>: Sized",
         ["T", L + "Lt<'a>", "U", L + "Ar<N>", L + "Rf<'b, T>"], f"'static, 'static, {L}Lf", ["'s, 'static, {X}, {X}, 5"]),
] + [Form(f"needed of {x}", "T: {P}", w if ": " in w else f"{w}: {L}Need", ["T"], I, ["{X}"])
     for x, w in (("every reference", f"for<'x> &'x T: {L}Need"), ("every reference, for spelled inside", f"T: 'static, &'static T: {L}Need, for<'x, 'y> &'x mut T: {L}Need"), ("a slice", "[T]"), ("an array", "[T; 2]"),
                  ("a list", "::std::vec::Vec<T>"), ("a pointer", "*const T"), ("a pair", "(T, T)"), ("a function", "fn(T) -> T"), ("a trait object", "dyn Fn(T)"),
                  ("a boxed trait object", "::std::boxed::Box<dyn Fn(T) + Send>"), ("PhantomData", "::std::marker::PhantomData<T>"), ("a projection", "Option<<Vec<T> as IntoIterator>::Item>"),
                  ("another type", f"(): {L}NeedFor<T>, u8: {L}NeedFor<[T]>"), ("the parameter and every reference", f"for<'x> T: {L}NeedFor<&'x T> + ::std::marker::Sized"),
                  ("the same type twice", f"Vec<T>: {L}Need, Vec<T>: Sized"))] + [
    Form("needed of two parameters", "T: {P}, U: {P}", f"(T, U): {L}Need, (U, T): {L}Need, fn(T) -> U: {L}Need", ["T", "U"], f"{I}, {L}Lf", ["{X}, " + L + "Lf"]),
    Form("needed of a constant", "const N: usize", f"[u8; N]: {L}Need", [L + "Ar<N>"], "3", ["0"]),
    Form("no predicate but needed in the bounds", f"T: 'static + {{P}} + {L}NeedFor<&'static T>", "", ["T"], I, ["{X}"]),
] + [Form(f"parameter called {n}", f"{n}: {{P}}", "", [n], I, ["{X}"])
     for n in ("Parse", "ToTokens", "Result", "Ok", "Err", "Some", "None", "E", "Self_", "r#type", "Fork", "value", "syn", "structmeta", "Span", "Error", "input")] \
  + [Form(f"lifetime called {n}", n, "", [L + f"Lt<{n}>"], "'static", ["'s"]) for n in ("'input", "'b", "'_a", "'syn", "'r")] \
  + [Form(f"const called {n}", f"const {n}: usize", "", [L + f"Ar<{n}>"], "3", ["4"]) for n in ("N", "INPUT", "A_1", "É", "FN")]



def many(n):
    """Many parameters."""
    r, j = range(n), ", ".join
    X = j("{X}" for _ in r)
    t, l, c = [f"T{i}" for i in r], [f"'a{i}" for i in r], [f"N{i}" for i in r]
    ph = lambda of: L + f"Ph<({j(of)},)>"
    at = lambda x: L + f"Lt<{x}>"
    ar = lambda x: f"[u8; {x}]"
    return [
        Form(f"{n} types", j(x + ": {P}" for x in t), "", [ph(t)], j([I] * n), [X]),
        Form(f"{n} types, bounds in where", j(t), j(x + ": {P}" for x in t), [ph(t)], j(I if i % 2 else L + "Lf" for i in r), [X]),
        Form(f"{n} types with defaults", j(x + ": {P} = " + I for x in t), "", [ph(t[::-1])], j([L + "Lf"] * (n // 2)), [X, j([L + "Lf"] * (n - 1))]),
        Form(f"{n} lifetimes", j(l), "", [ph(map(at, l))], j(["'static"] * n), [j("'s" if i % 2 else "'static" for i in r)]),
        Form(f"{n} lifetimes that outlive each other", j(x + (f": {l[i - 1]}" if i else "") for i, x in enumerate(l)), "", [ph(map(at, l))], j(["'static"] * n), [j("'static" if i else "'s" for i in r)]),
        Form(f"{n} constants", j(f"const {x}: usize" for x in c), "", [ph(map(ar, c))], j(str(i) for i in r), [j(str(n - i) for i in r)]),
        Form(f"{n} constants with defaults", j(f"const {x}: usize = {i}" for i, x in enumerate(c)), "", [ph(map(ar, c))], "", [j(str(n - i) for i in r)]),
        Form(f"{n} of each", j(l) + ", " + j(x + ": {P}" if i % 2 else x for i, x in enumerate(t)) + ", " + j(f"const {x}: usize" for x in c), j(f"{x}: " + "{P}" + f" + {l[i]}" for i, x in enumerate(t)),
             [ph([*map(at, l), *t, *map(ar, c)])], j(["'static"] * n + [I] * n + [str(i) for i in r]), [j(["'s"] * n + ["{X}"] * n + ["1"] * n)]),
        Form(f"{n} predicates on one type", "T", j([f"T: {L}Tr<'static>", "T: {P}", "T: Sized", f"{L}Ph<T>: Sized"] * (n // 4)), ["T"], I, ["{X}"]),
    ]


FORMS += many(12) + many(33)

PLAIN = {"StructMeta": "::syn::parse::Parse", "Parse": "::syn::parse::Parse", "ToTokens": "::quote::ToTokens"}


def bound(derives):
    return " + ".join(dict.fromkeys(PLAIN[d] for d in derives))


def weakest(derives, first="L"):
    b = {PLAIN[d] for d in derives}
    return L + first + ("f" if len(b) == 2 else "p" if PLAIN["Parse"] in b else "q")


def generic(form, t, derives):
    """The definition with some of its types replaced by parameters; None if there is nothing to replace."""
    n = -1

    def sub(m):
        nonlocal n
        if m[1]:  # peek needs a token type
            return m[0]
        n += 1
        return (m[2] or "") + form.leaves[n % len(form.leaves)]
    a, kw, name, o, fs, c = parts(t)
    body = ", ".join(fs)
    body = re.sub(r"(#\[parse\([^)]*peek[^)]*\)\] (?:#\[[^\]]*\] )*)?((?:[\w#]+: )?)::syn::LitInt", sub, body)
    used = n + 1
    if used < len(form.leaves):
        # parameters that no field uses are an error of their own, except const ones
        missing = [l for l in form.leaves[used:]]
        if any(not (l.startswith(L + "Ar<") or l.startswith(L + "Fl<")) for l in missing):
            return None
    p, w = form.params.replace("{P}", bound(derives)), form.where.replace("{P}", bound(derives))
    w = f"where {w.strip()} " if w else ""
    if o == "{":
        return f"{a} {kw} {name}<{p}> {w}{{ {body} }}"
    if o == "(":
        return f"{a} {kw} {name}<{p}>({body}) {w};"
    return f"{a} {kw} {name}<{p}> {w};"


def items(thorough):
    out = []
    shapes = scope.sm_shapes("sc") + scope.sn_shapes("sc")
    if thorough:
        shapes += extra_shapes()
    for j, form in enumerate(FORMS):
        for k, d in enumerate(shapes):
            derives = ("StructMeta",) if isinstance(d, sm.D) else d.derives
            it = Item("instantiation: " + form.name, d, macro=lambda i, t, form=form, derives=derives: generic(form, t, derives),
                      place=scope.PLACES[(j + k) % (4 if thorough else 2)], names=True)
            it.inst = f"<{form.inst}>" if form.inst else ""
            if it.definition() is not None:
                out.append(it)
    return out


def extra_shapes():
    out = []
    for s, o in sm.KINDS:
        if s in ("Bool", "Flag"):
            continue
        out.append(sm.D("sc", [scope.N("aa", s, o), sm.F("opt"), scope.N("bb", "NV", 1)]))
        out.append(sm.D("sc", [sm.F("req"), scope.N("aa", s, o), sm.F("rest", "Val")]))
    fd, V = scope.fd, sn.Vr
    pool = [lambda: [fd("Int")], lambda: [fd("Ident"), fd("Int")], lambda: [fd("Paren", opens=True), fd("Int")], lambda: [fd("Macro", opens=True), fd("Int"), fd("Int", closes=1)],
            lambda: [fd("Ident", any=True, peek=True), fd("Int")], lambda: [fd("Brace", opens=True), fd("Ints")], lambda: [fd("Eq"), fd("Int"), fd("Int")]]
    for a in pool:
        for b in pool:
            if a is not b:
                for kinds in (("tuple", "record"), ("record", "tuple")):
                    out.append(sn.SD([V(a(), kinds[0], name="V1"), V(b(), kinds[1], name="V2")], True, "sc", scope.BOTH))
    for a in pool:
        for kind in ("tuple", "record"):
            b = [f.copy(peek=False) for f in a()]
            out.append(sn.SD([V(b, kind)], fam="sc", derives=("Parse",)))
    return out


def need_cases(thorough):
    """Every listed instantiation has the trait: no bound is added."""
    out = []
    shapes = [(d, ("StructMeta",)) for d in scope.sm_shapes("sc")]
    for derives in (("Parse",), ("ToTokens",), ("Parse", "ToTokens")):
        for d in scope.sn_shapes("sc") + (extra_shapes() if thorough else []):
            if isinstance(d, sn.SD):
                d.derives = derives
                shapes.append((d, derives))
    for form in FORMS:
        for d, derives in shapes:
            it = Item(form.name, d, macro=lambda i, t: generic(form, t, derives), names=True)
            t = it.definition()
            if t is None:
                continue
            fns = [f for f, dv in (("need_parse", ("Parse", "StructMeta")), ("need_tokens", ("ToTokens",))) if set(dv) & set(derives)]
            insts = [form.inst] + [e.replace("{X}", weakest(derives)) for e in form.extra]
            if "'static" not in form.params + form.where:
                insts += [e.replace("{X}", weakest(derives, "B") + "<'s>").replace("'static", "'s") for e in form.extra if "{X}" in e]
            calls = " ".join(f"::mc::leaf::{f}::<A{'<' + i + '>' if i else ''}>();" for f in fns for i in insts)
            out.append(verdict.Case(f"{t}\nfn check<'s>(_: &'s ()) {{ {calls} }}", True, f"trait for every allowed instantiation, {'+'.join(derives)}"))
    return out


HEAD = "#![deny(warnings)]\n#![allow(dead_code, unused_imports, non_snake_case, non_camel_case_types, uncommon_codepoints, mixed_script_confusables)]"


def explore(res, thorough):
    its = items(thorough)
    kinds = res.coverage.setdefault("definitions_by_kind", {})
    for it in its:
        kinds[it.label] = kinds.get(it.label, 0) + 1
    for which, mainfn in ((True, "sm"), (False, "sn")):
        numbered = list(enumerate(i for i in its if i.struct == which))
        p = core.Program("G01" + mainfn)
        table = lambda part: ",\n".join(f'("sc", d{k}::def())' for k, it in part)
        if scope.build(res, p, "2024", numbered, lambda k, it: it.code(k), scope.HEAD, lambda part: f"fn main() {{ mc::{mainfn}::main(&[{table(part)}]) }}"):
            for r in p.run(["sem", "sc=dfs:valid,min"] if which else ["sc=edits:1", "sc=forest:2"]):
                res.merge(r)
    verdict.decide(res, "G01need", need_cases(thorough), HEAD)
