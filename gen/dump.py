"""G03: dump stops the build and shows the whole implementation; that code, put in place of the derive, is explored."""
import re
from . import core, generics, scope, sm, sn, verdict
from .scope import Item, fd, parts

# how dump is put on the type: attributes in front, settings beside it (F: name_filter, if the definition has one)
SM_PLACES = ["(dump{,F})", "({F,}dump)", "(dump)|F", "F|(dump)", "(dump,{F,})", "(dump, dump{,F})", "(dump)|F|(dump)"]
SN_PLACES = ["(dump)", "(dump,)", "(dump, dump)", "(dump)|(dump)", "()|(dump)", "(dump)|()"]
NAMES = {"StructMeta": "struct_meta", "Parse": "parse", "ToTokens": "to_tokens"}
TRAITS = {"StructMeta": "Parse", "Parse": "Parse", "ToTokens": "ToTokens"}


def settings(derive, place, filt):
    """The attributes that put dump on a type."""
    n = NAMES[derive]
    f = 'name_filter = "snake_case"'
    out = []
    for a in place.split("|"):
        if a == "F":
            if filt:
                out.append(f"#[{n}({f})]")
            continue
        a = a.replace("{,F}", ", " + f if filt else "").replace("{F,}", f + ", " if filt else "")
        out.append(f"#[{n}{a}]")
    return " ".join(out) + " "


def with_dump(t, dumped, k, filt):
    """dumped: the derives to dump."""
    a, rest = t.split("] ", 1)  # the derive attribute
    rest = re.sub(r'^#\[struct_meta\(name_filter = "snake_case"\)\] ', "", rest) if "StructMeta" in dumped else rest
    s = ""
    for d in dumped:
        p = SM_PLACES if d == "StructMeta" else SN_PLACES
        s += settings(d, p[k % len(p)], filt)
    if k % 2 and "StructMeta" not in dumped:
        return s + t  # in front of the derive
    return a + "] " + s + rest


def strip(t, dumped, derives):
    """The definition without the dumped derives and the attributes nobody declares any more."""
    left = [d for d in derives if d not in dumped]
    a, rest = t.split("] ", 1)
    gone = [] if left else ["struct_meta", "to_tokens"]
    if "Parse" not in left:
        gone.append("parse")
    for g in gone:
        rest = re.sub(rf'#\[{g}\((?:[^"()]|"[^"]*")*\)\] ?', "", rest)
    head = "#[derive(" + ", ".join("::structmeta::" + d for d in left) + ")] " if left else ""
    return head + rest


def shown(texts, trait, name):
    """The implementation of the trait shown in a compiler message."""
    name = re.escape(name)
    for t in texts:
        m = re.search(r"#\s*\[\s*automatically_derived\s*\]|\bimpl\b", t)
        if m and re.search(rf"\b{trait}\s+for\s+{name}\b", t[m.start():]):
            return t[m.start():]
    return None


def messages(m):
    return [m["message"]] + [c["message"] for c in m["children"]]


def definitions(thorough):
    """(label, item)"""
    out = []
    for d in scope.sm_shapes("sc") + scope.sn_shapes("sc"):
        out.append(Item("shape", d))
    one = [("Bool", 0), ("Flag", 0), ("Val", 0), ("Val", 1), ("Vec", 0), ("NV", 1), ("NVOpt", 0), ("NA", 1), ("NAVec", 0), ("NAOptVec", 0)]
    kinds = sm.KINDS if thorough else one
    for a in kinds:
        for f in (False, True):
            out.append(Item("parameter", sm.D("sc", [scope.N("aa", *a)], filter=f)))
        for b in kinds:
            if a < b or thorough:
                out.append(Item("parameters", sm.D("sc", [scope.N("aa", *a), scope.N("bb", *b)], filter=a[0] > b[0], tuple=(a[1] + b[1]) % 2 == 1 and a != b)))
    for s in sm.REST:
        out.append(Item("rest", sm.D("sc", [sm.F("req"), sm.F("rest", s)])))
        out.append(Item("rest", sm.D("sc", [sm.F("rest", s), sm.F("opt")])))
    for n in (0, 1, 2) + ((3,) if thorough else ()):
        for k, fs in enumerate(sn.shapes(n)):
            der = (("Parse",), ("ToTokens", "Parse"), ("Parse", "ToTokens"))[k % 3]
            out.append(Item("marks", sn.SD([sn.Vr([f.copy() for f in fs], ("tuple", "record")[k % 2])], fam="sc", derives=der, style=k)))
    # large ones: nothing may be cut off
    for n in (17, 33) + ((65, 129) if thorough else ()):
        for i, k in enumerate(kinds):
            fs = [scope.N(f"p{(j * 7) % n if n % 7 else j}x", *(kinds[(i + j) % len(kinds)] if i % 2 else k)) for j in range(n)]
            out.append(Item("large", sm.D("sc", fs + [[], [sm.F("rest", "NVOpt")], [sm.F("opt"), sm.F("var")]][i % 3], filter=i % 4 == 1)))
        out += [Item("large", d) for der in (("Parse",), ("ToTokens", "Parse")) for d in sn.deep(der, (n,), "sc") + sn.broad(der, (n,), "sc")
                if sum(f.ty == "Macro" for f in d.variants[0].fields) <= 2 or n == 17]
    for n in (300,) + ((1000,) if thorough else ()):
        fs = [scope.N(f"p{j}x", *kinds[j % len(kinds)]) for j in range(n)]
        out.append(Item("large", sm.D("sc", fs + [sm.F("rest", "NVOpt")])))
        out += [Item("large", d) for i, d in enumerate(sn.broad(("ToTokens", "Parse"), (n,), "sc")) if i in (1, 2)]
    for i, d in enumerate(generics.extra_shapes()):
        if thorough or i % 5 == 0 or isinstance(d, sn.SD):
            out.append(Item("more shapes", d))
    for j, form in enumerate(generics.FORMS):
        for k, d in enumerate(scope.sm_shapes("sc") + scope.sn_shapes("sc")):
            if not thorough and (j + k) % 4:
                continue
            derives = ("StructMeta",) if isinstance(d, sm.D) else d.derives
            it = Item("generic", d, macro=lambda i, t, form=form, derives=derives: generics.generic(form, t, derives), names=False)
            it.inst = f"<{form.inst}>" if form.inst else ""
            if it.definition() is not None:
                it.lints = "#[deny(warnings)] #[allow(dead_code, unused_macros, non_camel_case_types)]"
                out.append(it)
    return out


def explore(res, thorough):
    its = definitions(thorough)
    cov = res.coverage
    kinds = cov.setdefault("definitions_by_kind", {})
    for it in its:
        kinds[it.label] = kinds.get(it.label, 0) + 1
    # every definition, with each choice of dumped derives
    cases, plain = [], []
    for k, it in enumerate(its):
        d = it.d
        derives = ("StructMeta",) if it.struct else tuple(d.derives)
        t = re.sub(r"\s*\n\s*", " ", it.definition()).strip()
        plain.append(verdict.Case(t, True, "without dump"))
        subsets = [(x,) for x in derives] + ([derives] if len(derives) > 1 else [])
        for s, dumped in enumerate(subsets):
            places = range(7) if it.label == "shape" else (k + s,)
            for pl in places:
                cases.append((it, t, derives, dumped, pl))
    dump_cases = []
    for it, t, derives, dumped, pl in cases:
        c = verdict.Case(with_dump(t, dumped, pl, it.struct and it.d.filter), False, "dump of " + "+".join(dumped))
        c.it, c.plain, c.derives, c.dumped, c.texts = it, t, derives, dumped, []
        dump_cases.append(c)
    verdict.accept(res, "G03", plain, HEAD)
    labels = cov.setdefault("dumps", {})
    for c in dump_cases:
        labels[c.label] = labels.get(c.label, 0) + 1
    pasted = []
    for i in range(0, len(dump_cases), verdict.CHUNK):
        chunk = dump_cases[i:i + verdict.CHUNK]
        for b, c, text, m in verdict.program("G03_err", chunk, HEAD).build("check"):
            if c is not None:
                c.texts += messages(m)
        for c in chunk:
            if not c.texts:
                res.violations.append(core.Violation("dump does not stop the build", c.text, c.label, "a compile error with the code", "compiles"))
                continue
            codes = [shown(c.texts, TRAITS[d], c.it.tname) for d in c.dumped]
            if None in codes:
                d = c.dumped[codes.index(None)]
                res.violations.append(core.Violation(f"dump does not show the implementation of {TRAITS[d]}", c.text, c.label,
                                                     "an error with the complete impl", "\n".join(c.texts)))
                continue
            for d in c.derives:
                if d not in c.dumped and shown(c.texts, TRAITS[d], c.it.tname):
                    res.violations.append(core.Violation(f"the implementation of {TRAITS[d]} is shown without dump", c.text, c.label, "no error", "\n".join(c.texts)))
            pasted.append((c, strip(c.plain, c.dumped, c.derives) + "\n" + "\n".join(codes)))
    n = len(plain) + len(dump_cases)
    cov["states"] += n
    cov["transitions"] += n
    cov["traces_validated_against_impl"] += n
    # the shown code in place of the derive
    seen, its = set(), []
    for c, text in pasted:
        if (text, id(c.it)) in seen:
            continue
        seen.add((text, id(c.it)))
        j = Item("shown code of " + "+".join(c.dumped), c.it.d, c.it.tname, lints="#[allow(warnings)]")
        j.inst = c.it.inst
        j.macro = lambda i, t, text=text: text
        its.append(j)
    for which, mainfn in ((True, "sm"), (False, "sn")):
        numbered = list(enumerate(i for i in its if i.struct == which))
        p = core.Program("G03" + mainfn)
        table = lambda part: ",\n".join(f'("{"big" if it.d.size() > 200 else "sc"}", d{k}::def())' for k, it in part)
        if numbered and scope.build(res, p, "2024", numbered, lambda k, it: it.code(k), "", lambda part: f"fn main() {{ mc::{mainfn}::main(&[{table(part)}]) }}"):
            for r in p.run(["sem", "sc=dfs:valid,min", "big=dfs:valid"] if which else ["sc=edits:1", "sc=forest:2", "big=forest:2"]):
                res.merge(r)


HEAD = "#![allow(warnings)]"
