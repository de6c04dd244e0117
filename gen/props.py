"""What is explored for each property."""
from itertools import product, combinations, permutations
from . import core, dump, expand, generics, real, scope, sm, sn, verdict
from .sm import D, F, KINDS, REST, named, unnamed_shape

THOROUGH = core.TIER == "thorough"
CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


REPS = [("Bool", 0), ("Flag", 0), ("Val", 0), ("Val", 1), ("Vec", 0), ("NVOpt", 0), ("NA", 1), ("NAOptVec", 0)]


@check
def C01(res):
    if THOROUGH:
        defs = sm.pairs() + sm.pairs("pair", tuple=True) + sm.triples([k for k in KINDS if k[0] not in ("NV", "NAVec")]) \
            + sm.wides() + sm.rests() + sm.many((3, 5, 9, 17, 33, 65)) + sm.many((129,), REPS, ("", "rest")) + sm.long_lists() + sm.odd_names("odd")
        sm.explore(res, "C01", defs, ["pair=dfs:valid,valid,valid", "triple=dfs:valid,valid,valid", "wide=perm",
                                      "rest=dfs:valid,valid,valid", "many=many", "long=grow:1025", "odd=dfs:valid,valid"], "sem")
        return
    defs = sm.pairs() + sm.triples() + sm.wides() + sm.rests(unnamed=((0, 0, 0), (1, 0, 0)), declared=sm.SIX) \
        + sm.many((5, 17, 33, 66), REPS, ("", "rest")) + sm.long_lists() + sm.odd_names("odd")
    sm.explore(res, "C01", defs, ["pair=dfs:valid,valid", "triple=dfs:valid,valid,valid", "wide=perm",
                                  "rest=dfs:valid,valid", "many=many", "long=grow:257", "odd=dfs:valid,valid"], "sem")


def one_with_company():
    """Every kind next to parameters of the other forms and to unnamed ones."""
    out = []
    for k in KINDS:
        n = named([k], ["Expr"])
        out.append(D("co", n + [F("named", "Flag", 0, "Int", "fl"), F("named", "Val", 1, "Int", "va")]))
        out.append(D("co", n + [F("named", "NA", 1, "Int", "na")]))
        out.append(D("co", [F("req", leaf="Expr")] + n))
        out.append(D("co", n, tuple=True))
        out.append(D("co", n, filter=True))
        out.append(D("cou", n + [F("opt", leaf="Expr")]))
        out.append(D("cou", [F("var", leaf="Expr")] + n, filter=True))
    return out


@check
def C02(res):
    defs = sm.singles() + sm.tokens("single") + one_with_company()
    defs += sm.pairs("pair") + sm.many((5, 17))
    p = ["single=dfs:full,core", "co=dfs:full", "cou=dfs:full", "pair=dfs:full,core", "many=dfs:core"]
    if THOROUGH:
        p = ["single=dfs:full,full", "co=dfs:full,full", "cou=dfs:full,full", "pair=dfs:full,full", "many=dfs:core,core"]
    sm.explore(res, "C02", defs + sm.odd_names("odd"), p + ["odd=dfs:core"], "sem")


@check
def C03(res):
    defs = sm.singles(leaves=("Int", "Expr")) + sm.pairs() + sm.triples() + sm.wides() \
        + sm.rests(unnamed=((0, 0, 0), (1, 1, 1))) + sm.many((5, 17) if not THOROUGH else (5, 17, 65), REPS if not THOROUGH else KINDS, ("", "req")) + sm.many((66,), REPS, ("",))
    if THOROUGH:
        defs += sm.triples(REPS, "triple") + sm.rests(fam="rest")
    defs += sm.filtered(defs, 5) + sm.odd_names("odd")
    sm.explore(res, "C03", defs, ["odd=dfs:min,min", "single=dfs:core,core", "pair=dfs:min,min", "triple=dfs:valid,valid,valid",
                                  "wide=perm", "rest=dfs:min,min", "many=many"], "sem,missing")


@check
def C04(res):
    defs = sm.singles(leaves=("Int", "Str"), fam="single") + sm.tokens("single")
    defs += [D("pair", named([k, c])) for k in KINDS for c in sm.SIX]
    defs += [D("pair", [F("named", k[0], k[1], "Int", "abc"), F("req"), F("opt")]) for k in KINDS]
    defs += sm.rests(unnamed=((0, 0, 0), (1, 0, 0), (0, 0, 1)), declared=[None, ("Flag", 0), ("Val", 1), ("NAOptVec", 1)])
    defs += sm.wides() + sm.many((5, 17, 33, 66), KINDS if THOROUGH else REPS, ("", "rest")) + sm.long_lists()
    p = ["single=dups:0,0", "single=dfs:core,core,core", "pair=dups:1,1", "rest=dups:1,1", "wide=perm"]
    if THOROUGH:
        defs += sm.pairs("pairx") + sm.nested("nest")
        p = ["single=dups:0,0", "single=dfs:core,core,core", "pair=dups:2,1", "rest=dups:2,0", "rest=dups:1,1", "wide=perm",
             "pairx=dups:2,1", "nest=dups:1,0", "nest=dups:0,1"]
    p += ["many=many", "long=grow:257"]
    defs += sm.filtered(defs, 4) + sm.odd_names("odd")
    sm.explore(res, "C04", defs, p + ["odd=dups:1,0"], "sem")


def unnamed_defs(maxr=3, maxo=3, fam="un"):
    out = []
    for r in range(maxr + 1):
        for o in range(maxo + 1):
            for v in (0, 1):
                u = unnamed_shape(r, o, v)
                if not u:
                    continue
                out.append(D(fam, u, tuple=True))
                out.append(D(fam, u))
                out.append(D(fam, unnamed_shape(r, o, v, ("Int", "Str")), tuple=True))
                out.append(D(fam, unnamed_shape(r, o, v, ("Expr",)), tuple=True))
                if len(u) <= 4:
                    for m in ([F("named", "Val", 1, "Int", "va")], [F("named", "Flag", 0, "Int", "fl")],
                              [F("rest", "Val")], [F("rest", "NAOpt"), F("named", "Flag", 0, "Int", "fl")]):
                        for fs in sm.interleave(u, m):
                            out.append(D(fam, fs))
    return out


@check
def C05(res):
    defs = unnamed_defs(4 if THOROUGH else 3, 4 if THOROUGH else 3) + sm.long_lists()
    for r, o, v in ((9, 0, 0), (0, 9, 0), (0, 17, 1), (17, 17, 1), (33, 1, 1), (66, 0, 0), (0, 66, 1), (40, 40, 1)):
        for m in ([], [F("named", "Flag", 0, "Int", "fl"), F("named", "Val", 1, "Int", "va")]):
            defs.append(D("un", unnamed_shape(r, o, v, ("Int", "Str")) + m))
    p = ["un=fill:3", "long=grow:257"] + (["un=dfs:core,core,core"] if THOROUGH else ["un=dfs:min,min,min"])
    defs += sm.filtered(defs, 3)
    sm.explore(res, "C05", defs, p, "sem")


@check
def C06(res):
    shapes = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)]
    defs = []
    comps = [[], [F("named", "Flag", 0, "Int", "fl")], [F("named", "Val", 1, "Int", "va")],
             [F("named", "NAVec", 1, "Int", "na")], [F("rest", "Val")],
             [F("named", "Val", 1, "Expr", "va"), F("named", "NAOpt", 1, "Expr", "na")]]
    for s in shapes:
        for c in comps:
            for leaf in ("Int", "Expr"):
                defs.append(D("sep", unnamed_shape(*s, (leaf,)) + c, extra=["{ 1 }"] + [f"{x.name} = {{ 1 }}" for x in c if x.leaf == "Expr"] if leaf == "Expr" else []))
    defs += [D("list", named([k], [l])) for k in KINDS for l in ("Int", "Expr", "Type") if k[0] not in ("Bool", "Flag")]
    # what name_filter leaves out is unnamed: it may not follow a named argument either
    for s in shapes[1:]:
        for c in comps[1:]:
            for leaf in ("Ident", "Expr", "Type"):
                defs.append(D("filt", unnamed_shape(*s, (leaf,)) + c, filter=True, extra=["Q", "aB", "Q::r", "q"] + (["Q = 1", "Q(1)"] if leaf == "Expr" else [])))
    defs += sm.nested() + sm.tokens("list")
    depth = 4 if THOROUGH else 3
    p = ["filt=dfs:core,min,min" if THOROUGH else "filt=dfs:min,min,min", "filt=seps:min,2", f"sep=seps:min,{depth}" if not THOROUGH else "sep=seps:min,3", "sep=dfs:core,core,min", "list=dfs:full,full" if THOROUGH else "list=dfs:full",
         "nest=dfs:core,core" if THOROUGH else "nest=dfs:min,min", "nest=seps:min,2", "list=seps:min,2",
         f"sep=soup:{bound(4, 5)}", f"list=soup:{bound(5, 6)}", f"nest=soup:{bound(4, 5)}"]
    sm.explore(res, "C06", defs, p, "sem")


@check
def C07(res):
    defs = sm.rests()
    defs += sm.many((2, 3, 5, 9, 17), REPS, ("every",)) + sm.long_lists()
    p = ["rest=dfs:core,core", "long=grow:257", "many=dfs:min", "many=many"]
    if THOROUGH:
        defs += sm.rests(unnamed=((1, 1, 0), (0, 1, 1), (2, 0, 1)), leaf="Expr", dleaf="Str")
        defs += [D("rest2", named([a, b]) + [F("rest", s)]) for a in KINDS for b in KINDS for s in REST]
        p += ["rest=dfs:full,core", "rest=dfs:core,core,min", "rest2=dfs:core,min"]
    # unusual names are collected as written
    for s in REST:
        ex = [f"{n}{v}" for n in WORDS for v in ("", " = 1", "(1)", "()")]
        defs.append(D("odd", [F("rest", s)], extra=ex))
        defs.append(D("odd", [F("rest", s), F("named", "Flag", 0, "Int", "type", field="r#type")], extra=ex))
        defs.append(D("odd", [F("rest", s)], filter=True, extra=ex))
        # the map anywhere among several fields
        for k in range(4):
            fs = [F("named", "Val", 1, "Int", "abc"), F("named", "Flag", 0, "Int", "fl"), F("named", "NA", 1, "Int", "na")]
            fs.insert(k, F("rest", s))
            defs.append(D("some", fs))
    defs += sm.filtered(defs, 3)
    sm.explore(res, "C07", defs + sm.odd_names("oddn"), p + ["oddn=dfs:core", "odd=dfs:min,min", "some=dfs:valid,valid,min" if THOROUGH else "some=dfs:valid,min"], "sem")


# every word of the language, and names of other sorts
WORDS = ("abstract as async auto await become box break const continue crate default do dyn else enum extern false final fn for gen if "
         "impl in let loop macro macro_rules match mod move mut override priv pub raw ref return safe self Self static struct super trait "
         "true try type typeof union unsafe unsized use virtual where while yield _ __ _0 _z A Zz é1 変数 r#type r#zz r#_0 r#gen").split()
IDENTS = ["Q", "qQ", "q1", "_q", "_", "__", "é", "r#fn", "fn", "self", "Self", "r#Q", "true", "q_1", "aA", "ＺＺ", "q_", "q__q", "_1", "z9_z", "a_rather_long_name_of_more_than_thirty_two_characters"]


@check
def C08(res):
    defs = []
    form = {"f": ("Flag", 0), "v": ("Val", 1), "a": ("NA", 1)}
    shapes = [(0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (1, 0, 0), (0, 0, 0), (0, 1, 1)]
    for n in range(4):
        for sub in combinations("fva", n):
            fs = [F("named", *form[c], "Expr", "x" + c) for c in sub]
            for rest in [None] + REST:
                if rest is not None and n > 1 and not THOROUGH:
                    continue
                for s in shapes:
                    for filt in (False, True):
                        r = [F("rest", rest, leaf="Expr")] if rest else []
                        defs.append(D("like", unnamed_shape(*s, ("Expr",)) + fs + r, filter=filt))
                        if s in ((0, 1, 0), (1, 0, 1), (0, 0, 0)) and (rest is None or rest in ("Val", "NVOpt", "NAOpt")):
                            ex = [i + v for i in IDENTS for v in ("", " = 1", "(1)", " == 1", "=-1", ".f", "::g", " + 1")]
                            defs.append(D("ids", unnamed_shape(*s, ("Expr",)) + fs + r, filter=filt, extra=ex))
    # other leaf types; kinds that take the bare name besides another form
    for k in KINDS:
        for leaf in ("Ident", "Type", "Int"):
            for filt in (False, True):
                defs.append(D("like2", [F("opt", leaf=leaf)] + named([k], ["Expr"]), filter=filt))
                defs.append(D("like2", [F("req", leaf=leaf), F("var", leaf=leaf)] + named([k], ["Expr"]), filter=filt))
    # every word, as a name nobody asked for and as a value
    ex = [i + v for i in WORDS for v in ("", " = 1", "(1)")]
    for leaf in ("Ident", "Expr", "Type"):
        for shape in ((0, 1, 0), (0, 0, 1), (0, 0, 0)):
            for rest in (None, "NVOpt"):
                for filt in (False, True):
                    r = [F("rest", rest, leaf="Expr")] if rest else []
                    defs.append(D("words", unnamed_shape(*shape, (leaf,)) + [F("named", "Val", 1, "Expr", "xv")] + r, filter=filt, extra=ex))
    p = ["like=dfs:like", "like=dfs:min,like", "ids=dfs:min", "ids=idents:a_9Aé,3", "like2=dfs:like,min", "like=soup:3", "like2=soup:4", "words=dfs:min"]
    if THOROUGH:
        p = ["like=dfs:like,like", "ids=dfs:min,min", "ids=idents:a_9Aé,4", "like2=dfs:like,like", "like=soup:4", "like2=soup:5", "words=dfs:min"]
    sm.explore(res, "C08", defs, p, "sem")


LENGTHS = (8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257)


def long_name(n):
    """A name of n characters without repeated parts next to each other."""
    return "".join("abcdefgh"[(i * i + i // 8) % 8] if i % 16 != 7 else "_" for i in range(n))


@check
def C09(res):
    defs = []
    N = lambda name, field=None, k=("Val", 1), attrs=None, leaf="Int": F(
        "named", k[0], k[1], leaf, name, field=field, attrs=attrs if attrs is not None else [])
    ren = lambda n: [f'name = "{n}"']
    raw = {"type", "fn", "match", "async", "dyn", "loop"}
    plain = ["abc", "Abc", "aBc", "_abc", "abc_", "a_b", "a__b", "é", "x1", "input", "span", "name", "index",
             "unnamed_index", "named_used", "is_next", "content", "_value_0", "value", "fork", "tokens", "x"]
    odd_names = ["type", "self", "Self", "super", "crate", "fn", "r#fn", "r#abc", "abc", "Abc", "ABC", "a_b", "é", "true",
                 "async", "union", "static", "ab", "abcd"]
    forms = lambda n: [n, f"{n} = 10", f"{n}(10)"]
    for n in plain:
        for k in (("Val", 1), ("Bool", 0), ("NA", 1)):
            defs.append(D("n", [N(n, k=k)]))
    for n in sorted(raw):
        for k in (("Val", 1), ("Flag", 0), ("NAOpt", 1)):
            defs.append(D("n", [N(n, "r#" + n, k=k)], extra=forms("r#" + n)))
    for n in odd_names:
        for k in KINDS:
            defs.append(D("n", [N(n, "fld", k, ren(n))], extra=forms("fld")))
            defs.append(D("n", [N(n, None, k, [])], tuple=True, extra=forms("_0") ))
        defs.append(D("n", [N(n, "r#fn", ("Val", 1), ren(n))], extra=forms("fn") + forms("r#fn")))
    for i, n in enumerate(WORDS):
        if n not in odd_names:
            for k in KINDS[i % 3::3]:
                defs.append(D("n", [N(n, "fld", k, ren(n))], extra=forms("fld")))
    for n in map(long_name, LENGTHS):
        for k in (("Val", 1), ("Flag", 0), ("NAOpt", 1)):
            defs.append(D("n", [N(n, k=k)]))
            defs.append(D("n", [N(n, "fld", k, ren(n))], extra=forms("fld")))
        # names that differ in one character only, or in length
        for m in (n[:-1] + "z", "z" + n[1:], n[:-1], n + "z", n[:len(n) // 2] + "z" + n[len(n) // 2 + 1:]):
            defs.append(D("l", [N(n), N(m, k=("Val", 0))]))
            defs.append(D("l", [N(m, k=("NA", 1)), N(n, k=("Flag", 0)), F("rest", "NA")]))
    # exchanged names, names of neighbours
    for a, b in permutations(["abc", "ab", "abd", "Abc", "type", "bca"], 2):
        fa, fb = a if a != "type" else "r#type", b if b != "type" else "r#type"
        defs.append(D("m", [N(b, fa, attrs=ren(b)), N(a, fb, ("Val", 0), attrs=ren(a), leaf="Int")]))
        defs.append(D("m", [N(a, fa), N(b, fb)]))
        defs.append(D("m", [N(b, "zz1", attrs=ren(b)), N(a, fa)]))
        defs.append(D("m", [F("req"), N(a, fa, attrs=ren(a)), F("opt")]))
        defs.append(D("m", [N(a), N(b, k=("Flag", 0))], tuple=True))
        # a field that is renamed, and another one that takes its name away
        defs.append(D("m", [N("other", fa, attrs=ren("other")), N(a, "zz1", attrs=ren(a))], extra=forms("zz1")))
    # unnamed on record fields, named on tuple fields, in every position
    for mask in product((0, 1), repeat=3):
        fs = [F("opt", field=n, attrs=["unnamed"]) if m else N(n) for m, n in zip(mask, ("abc", "ab", "xy"))]
        defs.append(D("u", fs, extra=forms("abc") + forms("ab") + forms("xy")))
        fs = [F("opt") if m else N(n) for m, n in zip(mask, ("abc", "ab", "xy"))]
        defs.append(D("u", fs, tuple=True, extra=forms("abc") + forms("ab") + forms("xy")))
    for ty, kind in (("Int", "req"), ("Int", "opt"), ("Int", "var")):
        for n in plain[:6]:
            defs.append(D("u", [F(kind, field=n, attrs=["unnamed"]), F("named", "Flag", 0, "Int", "fl")], extra=forms(n)))
    # attribute spellings
    for a in (['name = "q",'], ["", 'name = "q"'], ['name = r"q"'], ["name=\"q\""], ['name = "q"', ""], ["", 'name = "q"', ""],
              ['name = "q"', "", ""], ["#[doc = \"x\"]", 'name = "q"', "#[allow(unused)]", ""], ["#[cfg_attr(all(), struct_meta(name = \"q\"))]"]):
        defs.append(D("n", [N("q", "fld", attrs=a)], extra=forms("fld")))
    # both: unnamed wins; the last of several names
    for a in (['unnamed, name = "q"'], ['name = "q", unnamed'], ["unnamed", 'name = "q"'], ['name = "q"', "unnamed"], ['unnamed, name = "fld"'], ["unnamed", "", 'name = "q"', ""], ['name = "q", unnamed, name = "q"']):
        for kind in ("req", "opt", "var"):
            for tup in (False, True):
                defs.append(D("u", [F(kind, field=None if tup else "fld", attrs=a), N("abc", k=("Val", 1), attrs=ren("abc") if tup else None)], tuple=tup, extra=forms("fld") + forms("q")))
    for a in (['name = "p", name = "q"'], ['name = "p"', 'name = "q"'], ['name = "fld"', "", 'name = "q"']):
        for k in (("Val", 1), ("Flag", 0), ("NA", 1)):
            defs.append(D("n", [N("q", "fld", k, a)], extra=forms("fld") + forms("p")))
    for a in (["unnamed,"], ["", "unnamed"], ["unnamed", ""], ["", "unnamed", ""], ["unnamed", "unnamed"], ["unnamed, unnamed"],
              ["#[doc = \"x\"]", "unnamed", "#[allow(unused)]", ""]):
        defs.append(D("u", [F("req", field="fld", attrs=a)], extra=forms("fld")))
    # a name makes a named parameter, of a type that would otherwise be the map, too
    own = ("pub struct HashMap<K, V>(pub syn::LitInt, pub std::marker::PhantomData<fn() -> (K, V)>);\n"
           "impl<K, V> syn::parse::Parse for HashMap<K, V> { fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> { ::std::result::Result::Ok(HashMap(i.parse()?, std::marker::PhantomData)) } }\n"
           "impl<K, V> {S}::Canon for HashMap<K, V> { fn canon(&self) -> String { self.0.canon() } }\n")
    for pre, t in ((own.replace("{S}", "super"), "HashMap<String, LitInt>"),
                   ("pub mod collections {\n" + own.replace("{S}", "super::super") + "}", "collections::HashMap<String, NameArgs<LitInt>>")):
        for tup in (False, True):
            for a in (["name = \"m\""], ["", "name = \"m\""], ["name = \"m\"", ""]):
                for f in ((None,) if tup else ("fld", "m", "r#fn")):
                    for sty, o, ty in (("Val", 0, t), ("Val", 1, f"Option<{t}>"), ("Vec", 0, f"Vec<{t}>"), ("NV", 0, f"NameValue<{t}>"), ("NA", 0, f"NameArgs<{t}>")):
                        x = F("named", sty, o, "Int", "m", field=f, attrs=a, ty=ty)
                        defs.append(D("n", [x], prelude=pre, tuple=tup, extra=forms("fld") + forms("fn")))
                        defs.append(D("m", [F("req"), x, N("abc", k=("Flag", 0), attrs=ren("abc") if tup else None)], prelude=pre, tuple=tup))
    sm.explore(res, "C09", defs, ["n=dfs:names", "l=dfs:names,valid", "m=dfs:names,valid", "u=dfs:core,core,min"]
               + (["n=dfs:names,names", "m=dfs:names,names"] if THOROUGH else []), "sem")


@check
def C10(res):
    defs = sm.singles(leaves=("Int", "Expr")) + sm.tokens("single") + one_with_company() + sm.rests(unnamed=((0, 0, 0), (0, 1, 0)),
        declared=[None] + REPS) + unnamed_defs(2, 1) + sm.nested()
    defs += [D("pair", named(k)) for k in product(REPS, REPS)] + sm.recursive()
    p = ["rec=dfs:core", "rec=depth:16", "single=dfs:full", "single=dfs:core,core", "co=dfs:full", "cou=dfs:full", "rest=dfs:core,core", "rest=dfs:names", "un=fill:1",
         "nest=dfs:min,min", "pair=dfs:valid,core", "soup:4"]
    if THOROUGH:
        p = ["rec=dfs:core,min", "rec=depth:40", "single=dfs:full,full", "co=dfs:valid,full", "cou=dfs:valid,full", "rest=dfs:core,full", "rest=dfs:names", "un=fill:3",
             "un=dfs:core,core,core", "nest=dfs:core,core", "pair=dfs:valid,full", "pair=dfs:core,core", "soup:5"]
    defs += sm.filtered(defs, 4)
    sm.explore(res, "C10", defs + sm.odd_names("odd"), p + ["odd=dfs:core", "odd=dups:1,0"], "place,msg")


# names near each other
NEAR = [["abcd", "bacd", "abce", "acbd"], ["abcd", "abdc"], ["abcd", "abce"], ["abcd", "bacd"], ["color", "colour"],
        ["value", "values", "valve"], ["minimum", "maximum"], ["abcdef", "abdcef", "abcfe", "abcdeg"], ["a", "b", "ab", "ba"],
        ["abc", "abd", "bac", "acb"], ["aaaa", "aaa", "aa"], ["foo_bar", "foobar", "fo_bar"], ["Abc", "abc", "aBc"],
        ["abcde", "abced", "abdce", "acbde", "bacde"], ["größe"], ["größe", "grüße", "grösse"], ["é", "e", "è"], ["naïve", "naive"], ["日本", "日本語", "本日"], ["aé", "éa"],
        ["ab", "abcd"], ["abc"], ["a"], ["item", "items", "itmes", "tiems"]]


@check
def C11(res):
    words = [""]
    for _ in range(3):
        words += [w + c for w in words if len(w) == max(map(len, words)) for c in "ab"]
    words = sorted({w for w in words if w})
    cyc = [("Flag", 0), ("Val", 1), ("NA", 1), ("NAOpt", 1), ("NVOpt", 1)]
    defs = []
    N = lambda n, i: F("named", *cyc[i % len(cyc)], "Int", n)
    sets = [s for k in (1, 2, 3) for s in combinations(words, k)]
    if THOROUGH:
        sets += list(combinations(words, 4))
    for j, s in enumerate(sets):
        # the style decides in which of the three lists a name stands, so the styles rotate
        for r in range(3 if len(s) > 1 else 1):
            defs.append(D("ab", [N(n, i + r + j) for i, n in enumerate(s)]))
    long = NEAR
    for s in long:
        for perm in list(permutations(range(5), min(len(s), 3)))[: (60 if THOROUGH else 12)]:
            styles = list(perm) + [0] * 9
            defs.append(D("long", [F("named", *cyc[styles[i]], "Int", n) for i, n in enumerate(s)]))
    # long names, and many
    for n in (12, 16, 17, 24, 32, 33, 64, 65, 129) + ((31, 63, 127, 128, 255, 257) if THOROUGH else ()):
        w = ("aab" * n)[:n]
        for s in ([w], [w, "b" + w[1:]], [w, w[:-1]], [w + "a", w + "b"], [w, w[:n // 2] + "b" + w[n // 2:]], [w, w[:-2] + w[-1] + w[-2]]):
            if len(set(s)) == len(s):
                defs.append(D("long", [N(m, i) for i, m in enumerate(s)]))
    code = ["".join(c) for c in product("ab", repeat=8)]
    far = []
    for c in code:
        if all(sum(x != y for x, y in zip(c, f)) >= 3 for f in far):
            far.append(c)
    for count in (5, 9, 17, 33):
        names = (far + [f[:-1] + "cc" for f in far] + ["c" + f for f in far])[:count]
        for r in range(3):
            defs.append(D("long", [N(m, i + r) for i, m in enumerate(names)]))
    # with other parameters around: the rest map, unnamed ones
    for s in long[:6]:
        defs.append(D("long", [F("opt")] + [N(n, i) for i, n in enumerate(s)]))
        defs.append(D("long", [N(n, i) for i, n in enumerate(s)] + [F("rest", "NA")]))
        defs.append(D("long", [F("req")] + [N(n, i) for i, n in enumerate(s)], extra=["1, abcf = 1", "1, abcf"]))
    sm.explore(res, "C11", defs, ["ab=idents:abc,4", "long=edits"], "hint")


@check
def C12(res):
    defs = sm.pairs() + sm.wides() + sm.rests() + sm.nested() + sm.singles(fam="single") + sm.tokens("single") + unnamed_defs(2, 2) + sm.recursive()
    if THOROUGH:
        defs += sm.triples() + sm.nested2("nest")
    p = ["pair=dfs:valid,valid", "wide=perm", "rest=dfs:valid,valid", "nest=dfs:min,min", "single=dfs:full", "un=fill:1", "rec=dfs:core", "rec=depth:16", "rest=grow:17", "un=grow:17"]
    if THOROUGH:
        p += ["rec=depth:40", "rest=grow:129", "un=grow:129", "triple=dfs:valid,valid,valid", "nest=dfs:valid,valid"]
    defs += sm.filtered(defs, 5)
    sm.explore(res, "C12", defs + sm.odd_names("odd"), p + ["odd=dfs:valid,valid"], "span")
    # the same when the arguments come from macro fragments
    defs = sm.singles(leaves=("Int", "Expr")) + sm.rests(fam="single") + unnamed_defs(1, 1, "single")[::5]
    defs += [D("pair", named(k)) for k in product(REPS, REPS)] + sm.filtered(defs, 6)
    sm.explore(res, "C12group", defs, ["single=dfs:core", "pair=dfs:valid,min"], "span,none")


@check
def C13(res):
    sm.explore(res, "C13", spelling_defs(), ["sp=dfs:core,core", "ru=fill:1"] + (["sp=dfs:full,core"] if THOROUGH else []), "sem")


@check
def C15(res):
    defs = sm.nested() + sm.nested2() + sm.recursive()
    p = ["nest=dfs:core,core", "nest=dfs:full,min", "nest2=dfs:core,min", "rec=dfs:core", "rec=dfs:valid,min", "rec=depth:24"]
    if THOROUGH:
        p = ["nest=dfs:full,core", "nest2=dfs:full,min", "nest2=dfs:core,core", "rec=dfs:core,core", "rec=dfs:full,min", "rec=dfs:valid,valid", "rec=depth:40"]
    defs += sm.filtered(defs, 3) + sm.made()
    p += ["made=dfs:full", "made=dfs:valid,min", "made2=dfs:min,min", f"made=soup:{bound(3, 4)}"] + (["made=dfs:min,min"] if THOROUGH else [])
    sm.explore(res, "C15", defs, p, "sem")


# ---------------------------------------------------------------------------------------------
# C13: spellings of the recognised types

def spelling_defs():
    opt = ["Option<{}>", "option::Option<{}>", "std::option::Option<{}>", "core::option::Option<{}>",
           "::std::option::Option<{}>", "::core::option::Option<{}>", "Option::<{}>", "::std::option::Option::<{},>"]
    vec = ["Vec<{}>", "vec::Vec<{}>", "std::vec::Vec<{}>", "alloc::vec::Vec<{}>", "::std::vec::Vec<{}>", "::alloc::vec::Vec<{}>", "Vec<{},>", "vec::Vec::<{}>"]
    nv = ["NameValue<{}>", "structmeta::NameValue<{}>", "::structmeta::NameValue<{}>", "NameValue::<{}>"]
    na = ["NameArgs<{}>", "structmeta::NameArgs<{}>", "::structmeta::NameArgs<{}>", "structmeta::NameArgs::<{},>"]
    fl = ["Flag", "structmeta::Flag", "::structmeta::Flag"]
    bo = ["bool", "primitive::bool", "std::primitive::bool", "core::primitive::bool", "::std::primitive::bool", "::core::primitive::bool"]
    st = ["String", "string::String", "std::string::String", "::std::string::String", "alloc::string::String"]
    hm = ["HashMap<{}, {}>", "collections::HashMap<{}, {}>", "std::collections::HashMap<{}, {}>", "::std::collections::HashMap<{}, {}>",
          "hash_map::HashMap<{}, {}>", "collections::hash_map::HashMap<{}, {}>", "std::collections::hash_map::HashMap<{}, {}>",
          "::std::collections::hash_map::HashMap<{}, {}>", "HashMap::<{}, {}>", "collections::HashMap<{}, {},>"]
    out = []

    def types(sty, o, leaf):
        """All spellings of one style: the outermost part that has several varies over all of them, with
        the inner parts varied together."""
        parts = {"Bool": [bo], "Flag": [fl], "Val": [], "Vec": [vec], "NV": [nv], "NVOpt": [nv, opt], "NA": [na],
                 "NAOpt": [na, opt], "NAVec": [na, vec], "NAOptVec": [na, opt, vec]}[sty]
        if o:
            parts = [opt] + parts
        if not parts:
            return [leaf]
        r = []
        if len(parts) <= 2 or THOROUGH:
            combos = product(*parts)
        else:
            combos = [tuple(p[i % len(p)] for p in parts) for i in range(6)]
            combos += [tuple(p[(i + j * 2 + 1) % len(p)] for j, p in enumerate(parts)) for i in range(6)]
        for c in combos:
            t = leaf
            for p in reversed(c):
                t = p.format(t) if "{}" in p else p
            r.append(t)
        return list(dict.fromkeys(r))

    def fragments(name, t, field_head):
        """The same type through macro_rules fragments."""
        def wrap1(d, s, t=t, f=field_head):
            return (f"macro_rules! mk{name} {{ ($n:ident, $t:ty) => {{ #[derive(StructMeta)] pub struct $n {{ {f} $t }} }} }}\n"
                    f"mk{name}!(A, {t});")

        def wrap2(d, s, t=t, f=field_head):
            return (f"macro_rules! mk{name} {{ ($n:ident, $t:ty) => {{ mk{name}!(@ $n, $t); }}; (@ $n:ident, $t:ty) => {{ "
                    f"#[derive(StructMeta)] pub struct $n {{ {f} $t }} }} }}\nmk{name}!(A, {t});")

        def wrap4(d, s, t=t, f=field_head):
            return (f"macro_rules! mk{name} {{ ($n:ident, $($t:tt)*) => {{ #[derive(StructMeta)] pub struct $n {{ {f} $($t)* }} }} }}\n"
                    f"mk{name}!(A, {t});")
        r = [wrap1, wrap2, wrap4]
        if "<" in t:
            head, inner = t.split("<", 1)
            inner = inner[:-1].rstrip(",")

            def wrap3(d, s, f=field_head):
                return (f"macro_rules! mk{name} {{ ($n:ident, $t:ty) => {{ #[derive(StructMeta)] pub struct $n {{ {f} {head}<$t> }} }} }}\n"
                        f"mk{name}!(A, {inner});")
            if ", " not in inner:
                r.append(wrap3)
                if "<" in inner:
                    h2, i2 = inner.split("<", 1)

                    def wrap5(d, s, f=field_head):
                        return (f"macro_rules! mk{name} {{ ($n:ident, $t:ty) => {{ #[derive(StructMeta)] pub struct $n {{ {f} {head}<{h2}<$t>> }} }} }}\n"
                                f"mk{name}!(A, {i2[:-1].rstrip(',')});")
                    r.append(wrap5)
            else:
                k, v = inner.split(", ", 1)

                def wrap6(d, s, f=field_head):
                    return (f"macro_rules! mk{name} {{ ($n:ident, $k:ty, $t:ty) => {{ #[derive(StructMeta)] pub struct $n {{ {f} {head}<$k, $t> }} }} }}\n"
                            f"mk{name}!(A, {k}, {v});")
                r.append(wrap6)
        return r

    n = 0
    for s, o in KINDS:
        for t in types(s, o, "LitInt"):
            out.append(D("sp", [F("named", s, o, "Int", "abc", ty=t)], extra=["zz = 1", "1"]))
        for t in types(s, o, "LitInt")[:: (1 if THOROUGH else 5)]:
            for w in fragments(str(n), t, "abc:"):
                n += 1
                out.append(D("sp", [F("named", s, o, "Int", "abc", ty=t)], wrap=w))
    for s in REST:
        inner = types(s, 0, "LitInt")
        for i, h in enumerate(hm):
            for j, k in enumerate(st):
                if not THOROUGH and (i + j) % 3:
                    continue
                t = h.format(k, inner[(i + j) % len(inner)])
                out.append(D("sp", [F("rest", s, leaf="Int", ty=t, field="rest")]))
        for t in (hm[0].format("String", inner[0]), hm[2].format("std::string::String", inner[-1])):
            for w in fragments(str(n), t, "rest:"):
                n += 1
                out.append(D("sp", [F("rest", s, leaf="Int", ty=t, field="rest")], wrap=w))
    for t in opt:
        t = t.format("LitInt")
        out.append(D("ru", [F("req"), F("opt", ty=t)], tuple=True))
        for w in fragments(str(n), t, "#[struct_meta(unnamed)] u0:"):
            n += 1
            out.append(D("ru", [F("opt", ty=t)], wrap=w))
    for t in vec:
        t = t.format("LitInt")
        out.append(D("ru", [F("req"), F("var", ty=t)], tuple=True))
        for w in fragments(str(n), t, "#[struct_meta(unnamed)] u0:"):
            n += 1
            out.append(D("ru", [F("var", ty=t)], wrap=w))
    # look-alikes: same last name, another module, or reached through a trait: an ordinary value type
    lk = lambda name, g: (f"pub struct {name}{g}(pub syn::LitInt, pub std::marker::PhantomData<fn() -> {g or '()'}>);\n".replace("fn() -> <K, T>", "fn() -> (K, T)").replace("fn() -> <T>", "fn() -> T")
        + f"impl{g} syn::parse::Parse for {name}{g} {{ fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {{ Ok({name}(i.parse()?, std::marker::PhantomData)) }} }}\n"
        + f"impl{g} super::Canon for {name}{g} {{ fn canon(&self) -> String {{ self.0.canon() }} }}\n")
    looks = [("Option", "<T>", "<LitInt>"), ("Vec", "<T>", "<LitInt>"), ("NameValue", "<T>", "<LitInt>"), ("NameArgs", "<T>", "<LitInt>"),
             ("Flag", "", ""), ("bool", "", ""), ("HashMap", "<K, T>", "<String, LitInt>")]
    mods = [("other", ["other"]), ("my::option", ["my", "option"]), ("my::vec", ["my", "vec"]), ("my::structmeta", ["my", "structmeta"]),
            ("my::primitive", ["my", "primitive"]), ("my::collections", ["my", "collections"]), ("my::std::option", ["my", "std", "option"]), ("option", ["option"]),
            ("core::option", ["core", "option"]), ("my::alloc::vec", ["my", "alloc", "vec"]),
            ("self::structmeta2", ["structmeta2"]), ("opts", ["opts"]), ("my::collections::hash_map", ["my", "collections", "hash_map"])]
    for name, g, a in looks:
        for path, ms in mods:
            body = lk(name, g)
            for k, m in enumerate(reversed(ms)):
                body = body.replace("super::Canon", "super::super::Canon") if k else body
                body = f"pub mod {m} {{\n{body}}}"
            for h, t in enumerate(head + f"{path}::{name}{a}" for head in ("", "self::", "crate::HERE::")):
                if h and path.startswith("self::"):
                    continue
                if not h and path in ("core::option", "option"):
                    continue
                for k, (sty, o, ty) in enumerate([("Val", 0, t), ("Val", 1, f"Option<{t}>"), ("Vec", 0, f"Vec<{t}>"),
                                                  ("NV", 0, f"NameValue<{t}>"), ("NA", 0, f"NameArgs<{t}>"),
                                                  ("NAOpt", 0, f"NameArgs<Option<{t}>>")]):
                    if not h or k < 2 or THOROUGH:
                        out.append(D("sp", [F("named", sty, o, "Int", "abc", ty=ty)], prelude=body))
                out.append(D("sp", [F("rest", "Val", leaf="Int", ty=f"HashMap<String, {t}>")], prelude=body))
                out.append(D("ru", [F("req", ty=t), F("opt", ty=f"Option<{t}>"), F("var", ty=f"Vec<{t}>")], prelude=body, tuple=True))
        # other numbers of type arguments, or another key
        for gs, t in {"Option": [("", "Option"), ("<T, U>", "Option<LitInt, u8>"), ("<const N: usize>", "Option<1>")],
                     "Vec": [("", "Vec"), ("<T, U>", "Vec<LitInt, u8>"), ("<const N: usize>", "Vec<1>")],
                     "NameValue": [("", "NameValue"), ("<T, U>", "NameValue<LitInt, u8>")], "NameArgs": [("", "NameArgs"), ("<T, U>", "NameArgs<LitInt, u8>")],
                     "Flag": [("<T>", "Flag<LitInt>")], "bool": [("<T>", "bool<LitInt>")],
                     "HashMap": [("", "HashMap"), ("<T>", "HashMap<LitInt>"), ("<K, V>", "HashMap<LitStr, LitInt>"), ("<K, V, S>", "HashMap<String, LitInt, u8>")]}[name]:
            args = [x.strip() for x in gs[1:-1].split(",")] if gs else []
            use = ", ".join(x.split(":")[0].replace("const ", "") for x in args)
            tys = [x for x in args if not x.startswith("const")]
            body = (f"pub mod other {{ pub struct {name}{gs}(pub syn::LitInt, pub std::marker::PhantomData<fn() -> ({''.join(x + ', ' for x in tys)})>);\n"
                    f"impl{gs} syn::parse::Parse for {name}<{use}> {{ fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {{ ::std::result::Result::Ok({name}(i.parse()?, std::marker::PhantomData)) }} }}\n"
                    f"impl{gs} super::super::Canon for {name}<{use}> {{ fn canon(&self) -> String {{ self.0.canon() }} }} }}\nuse other::{name};\n")
            out.append(D("sp", [F("named", "Val", 0, "Int", "abc", ty=t)], prelude=body))
            out.append(D("ru", [F("req", ty=t)], prelude=body, tuple=True))
            if name != "Option":
                out.append(D("sp", [F("named", "Val", 1, "Int", "abc", ty=f"Option<{t}>")], prelude=body))
            if name != "Vec":
                out.append(D("sp", [F("named", "Vec", 0, "Int", "abc", ty=f"Vec<{t}>")], prelude=body))
        body = f"pub trait Tr {{ type {name}; }}\nimpl Tr for () {{ type {name} = syn::LitInt; }}"
        out.append(D("sp", [F("named", "Val", 0, "Int", "abc", ty=f"<() as Tr>::{name}")], prelude=body))
        out.append(D("ru", [F("req", ty=f"<() as Tr>::{name}")], prelude=body, tuple=True))
        # a trait where the module of the type would be
        tr = {"Option": "core::option", "Vec": "alloc::vec", "NameValue": "structmeta", "NameArgs": "structmeta", "Flag": "structmeta",
              "bool": "core::primitive", "HashMap": "std::collections"}[name]
        m, _, t = tr.rpartition("::")
        ts = "".join(x for x in g if x in "KT,<>")
        body = f"pub trait {t} {{ type {name}{ts}; }}\nimpl {t} for () {{ type {name}{ts} = syn::LitInt; }}"
        body = f"pub mod {m} {{ {body} }}" if m else body
        t = f"<() as {tr}>::{name}{a}"
        out.append(D("sp", [F("named", "Val", 0, "Int", "abc", ty=t)], prelude=body))
        out.append(D("sp", [F("named", "Val", 1, "Int", "abc", ty=f"Option<{t}>")], prelude=body))
        out.append(D("sp", [F("named", "NA", 0, "Int", "abc", ty=f"NameArgs<{t}>")], prelude=body))
        out.append(D("ru", [F("req", ty=t)], prelude=body, tuple=True))
        # a type that belongs to a type parameter
        ts = "".join(x for x in g if x in "KT,<>").replace("T", "U")
        body = f"pub trait Tr {{ type {name}{ts}: syn::parse::Parse; }}\nimpl Tr for () {{ type {name}{ts} = syn::LitInt; }}"
        for t in (f"T::{name}{a}", f"<T>::{name}{a}", f"<T as Tr>::{name}{a}"):
            for sty, o, ty in (("Val", 0, t), ("Val", 1, f"Option<{t}>"), ("Vec", 0, f"Vec<{t}>"), ("NA", 0, f"NameArgs<{t}>")):
                out.append(D("sp", [F("named", sty, o, "Int", "abc", ty=ty)], prelude=body,
                             wrap=lambda d, s, ty=ty: f"#[derive(StructMeta)] pub struct G<T: Tr> {{ pub abc: {ty} }}\npub type A = G<()>;"))
    # same-name type with other generics, other key types
    for t, name, g in (("other::HashMap<Ident, LitInt>", "HashMap", "<K, T>"),):
        out.append(D("sp", [F("named", "Val", 0, "Int", "abc", ty=t)], prelude=f"pub mod other {{\n{lk(name, g)}}}"))
    return out


# ---------------------------------------------------------------------------------------------
# Parse and ToTokens

LEAF4 = ("Int", "Ident", "Eq", "Str")


def mark_scripts(n3=True):
    """All mark scripts: up to 3 fields with all delimiters, 4 fields with two."""
    out = []
    for n in range(4 if n3 else 3):
        out += list(sn.shapes(n))
    out += list(sn.shapes(2, leaves=LEAF4))
    out += list(sn.shapes(3, delims=("Paren", "Macro"), leaves=("Ident", "Int", "Eq"), macro_mark="["))
    out += list(sn.shapes(4, delims=("Bracket",), leaves=("Int", "Ident"), after=THOROUGH))
    if THOROUGH:
        out += list(sn.shapes(4, delims=("Paren", "Brace"), leaves=("Int",), after=False))
    return out


def inner_nodes(derives):
    f = sn.Fd
    return [lambda: sn.S([f("Int"), f("OptEq")], derives=derives),
            lambda: sn.S([f("Paren", opens=True), f("Ident"), f("Int", closes=1)], "record", derives),
            lambda: sn.SD([sn.Vr([f("Int"), f("Eq")], name="X"), sn.Vr([f("Ident")], "record", name="Y"), sn.Vr([], name="Z")], True, derives=derives),
            lambda: sn.S([], derives=derives),
            # enums that match nothing at an end
            lambda: sn.SD([sn.Vr([f("Int"), f("Eq")], name="X"), sn.Vr([f("Ident", peek=True)], "record", name="Y")], True, derives=derives),
            lambda: sn.SD([sn.Vr([f("Int", peek=True), f("Int")], name="X"), sn.Vr([f("Str"), f("Int")], name="Y"), sn.Vr([f("Paren", opens=True), f("Ident")], name="Z"), sn.Vr([f("Eq", peek=True)], name="W")], True, derives=derives)]


def node_defs(derives, fam="n"):
    """Structs and enums that contain other derived types, boxed and in lists, inside groups and outside."""
    f, out = sn.Fd, []
    for k, mk in enumerate(inner_nodes(derives)):
        for shape in range(8):
            i = mk()
            nd = lambda **kw: f(("Node", i), **kw)
            fs = [[nd()], [f("Int"), nd(), f("Ident")], [f("Paren", opens=True), nd()],
                  [f("Brace", opens=True), nd(), f("Int", closes=1)], [nd(), nd()],
                  [f("Macro", opens=True, mark="{"), f("Ident"), nd(closes=1)],
                  [f("Bracket", opens=True), f(("Nodes", i)), f("Eq", closes=1)], [f("Eq"), f(("Nodes", i))]][shape]
            if shape >= 6 and k == 3:
                continue
            if shape in (1, 3):
                for x in fs:
                    if isinstance(x.ty, tuple):
                        x.box = True
            out.append(sn.SD([sn.Vr(fs, ("tuple", "record")[shape % 2])], fam=fam, derives=derives, inner=[i], style=shape))
    return out


def punct_defs(derives, fam="p"):
    """any and terminated in every place."""
    f, out = sn.Fd, []
    L = lambda t, **k: f(t, **k)
    rows = []
    for a in (False, True):
        for b in (False, True):
            rows += [[L("Ident", any=a)], [L("Ident", any=a), L("Ident", any=b)], [L("Ident", any=a), L("Idents", any=b)],
                     [L("Paren", opens=True), L("Idents", any=a), L("Ident", closes=1, any=b)],
                     [L("Macro", opens=True), L("Ident", any=a), L("Idents", any=b)],
                     [L("Bracket", opens=True), L("Ident", any=a), L("Idents", any=b, closes=1)],
                     [L("Brace", opens=True), L("Idents", any=a), L("Paren", opens=True, closes=1), L("Idents", any=b)]]
        rows += [[L("Idents", any=a)], [L("Int"), L("Idents", any=a)], [L("Paren", opens=True), L("Ints"), L("Idents", any=a, closes=1)],
                 [L("Bracket", opens=True), L("Ident", any=a)], [L("Ident", any=a), L("OptEq"), L("Ints")]]
    rows += [[L("Ints")], [L("Eq"), L("Ints")], [L("Paren", opens=True), L("Ints")], [L("Paren", opens=True), L("Int"), L("Ints")],
             [L("Paren", opens=True), L("Ints"), L("Int", closes=1)], [L("Brace", opens=True, after=1), L("Ints")],
             [L("Paren", opens=True), L("Rest")], [L("Macro", opens=True), L("Rest"), L("Int", closes=1)], [L("Rest")], [L("Int"), L("Rest")]]
    for k, r in enumerate(rows):
        for kind in ("tuple", "record"):
            for style in range(4):
                if style and not (any(x.any and x.term for x in r) or any(x.closes and (x.any or x.term) for x in r)):
                    continue
                out.append(sn.SD([sn.Vr([x.copy() for x in r], kind)], fam=fam, derives=derives, style=style + (0 if kind == "tuple" else 1)))
    return out


def any_peek_enums(derives, fam="pe"):
    f, out = sn.Fd, []
    for a in (False, True):
        for b in (False, True):
            for style in range(4):
                vs = [sn.Vr([f("Ident", peek=True, any=a), f("Ident", any=b)], name="A"),
                      sn.Vr([f("Ident", any=b), f("Int")], "record", name="B"),
                      sn.Vr([f("Paren", opens=True, peek=True), f("Idents", any=a), f("Ident", closes=1, any=b, peek=True)], name="C"),
                      sn.Vr([f("Bracket", opens=True), f("Idents", any=b)], name="D"),
                      sn.Vr([f("Ints")], name="E")]
                for rot in range(3):
                    vv = vs[rot:] + vs[:rot]
                    out.append(sn.SD(vv, True, fam, derives, style=style))
    # `any` on some of up to three peeked fields: the others keep rejecting keywords
    for n in (1, 2, 3):
        for m in product((False, True), repeat=n):
            for extra in ([], [f("Ident", any=True)], [f("Ident")]):
                v = sn.Vr([f("Ident", peek=True, any=a) for a in m] + [x.copy() for x in extra], "tuple", name="A")
                out.append(sn.SD([v, sn.Vr([f("Idents", any=True)], name="B")], True, fam, derives))
                out.append(sn.SD([sn.Vr([f("Int", peek=True), f("Int")], name="Z"), v, sn.Vr([f("Ident", any=True)] * 2, name="B")], True, fam, derives))
    for a, b in product((False, True), repeat=2):
        v = sn.Vr([f("Ident", peek=True, any=a), f("Paren", opens=True, peek=True), f("Ident", any=b), f("Ident", closes=1, peek=True, any=not a)], "record", name="A")
        out.append(sn.SD([v, sn.Vr([f("Ident", any=True), f("Macro", opens=True), f("Idents", any=True), f("Ident", closes=1, any=True)], name="B")], True, fam, derives))
    return out


def spelled(derives, fam="sp"):
    """The types of delimiters, tokens, identifiers and lists in all their spellings, renamed, aliased, from macro fragments."""
    f, out = sn.Fd, []
    tok = dict(Eq="Eq", Plus="Plus", Paren="Paren", Bracket="Bracket", Brace="Brace")

    def ways(ty, peek):
        """(text, items before, macro)"""
        path = {"Int": "syn::LitInt", "Ident": "syn::Ident", "Macro": "syn::MacroDelimiter", "Ints": "syn::punctuated::Punctuated<syn::LitInt, syn::token::Comma>",
                "Idents": "syn::punctuated::Punctuated<syn::Ident, syn::token::Semi>"}.get(ty) or "syn::token::" + tok[ty]
        last = path.split("<")[0].split("::")[-1]
        w = [(path, "", None), ("::" + path, "", None)]
        if ty == "Ident":
            w += [("proc_macro2::Ident", "", None)] * (not peek)
        if ty in ("Eq", "Plus"):
            w += [(f"syn::Token![{'=' if ty == 'Eq' else '+'}]", "", None), (f"token::{last}", "use syn::token;", None)]
        if ty in ("Paren", "Bracket", "Brace"):
            w += [(f"token::{last}", "use syn::token;", None), (f"other::MacroDelimiter", f"pub mod other {{ pub use {path} as MacroDelimiter; }}", None)]
        if ty != "Macro":
            generics = path[len(path.split("<")[0]):]
            w += [("Renamed" + generics, f"use {path.split('<')[0]} as Renamed;", None), ("self::own::Thing" + generics, f"pub mod own {{ pub use {path.split('<')[0]} as Thing; }}", None)]
            if not peek:
                w += [("Alias", f"type Alias = {path};", None), (f"<() as Tr>::{last}", f"pub trait Tr {{ type {last}; }} impl Tr for () {{ type {last} = {path}; }}", None)]
        if not peek:
            w += [("$t", "", ("$t:ty", path)), ("$t", "", ("$t:ty", sn.RUST[ty])), ("$($t)*", "", ("$($t:tt)*", path))]
        w += [("$t", "", ("$t:path", path)), ("$t", "", ("$t:ident", last)) if "<" not in path and last != "Eq" and last != "Plus" else ("$m::" + path.split("::", 1)[1], "", ("$m:ident", "syn"))]
        return w
    rows = [("Paren", [f("Paren", opens=True), f("Int")]), ("Bracket", [f("Int"), f("Bracket", opens=True), f("Int"), f("Ident", closes=1)]),
            ("Brace", [f("Brace", opens=True, after=1), f("Int")]), ("Macro", [f("Macro", opens=True), f("Int"), f("Eq", closes=1)]),
            ("Macro", [f("Ident"), f("Macro", opens=True, mark="{", after=1)]), ("Macro", [f("Paren", opens=True), f("Macro", opens=True, mark="["), f("Int", closes=2)]),
            ("Ident", [f("Ident", any=True), f("Int")]), ("Ident", [f("Ident"), f("Ident", any=True)]), ("Ints", [f("Paren", opens=True), f("Ints")]),
            ("Idents", [f("Idents", any=True)]), ("Idents", [f("Ident"), f("Idents")]), ("Eq", [f("Ident"), f("Eq")]), ("Int", [f("Int"), f("Plus")])]
    for ty, r in rows:
        for j, (text, pre, mac) in enumerate(ways(ty, False)):
            for kind in ("tuple", "record"):
                d = sn.SD([sn.Vr([x.copy(text=text) if x.ty == ty else x.copy() for x in r], kind)], fam=fam, derives=derives, style=j)
                d.prelude, d.macro = pre, mac
                out.append(d)
    rows = [("Ident", [[f("Ident", peek=True), f("Int")], [f("Ident", any=True, peek=True)]]), ("Int", [[f("Int", peek=True), f("Eq", peek=True)], [f("Int")]]),
            ("Eq", [[f("Int", peek=True), f("Eq", peek=True)], [f("Int"), f("Int")]]), ("Paren", [[f("Ident", peek=True), f("Paren", opens=True, peek=True), f("Int")], [f("Ident")]]),
            ("Bracket", [[f("Bracket", opens=True, peek=True), f("Int")], [f("Bracket", opens=True)], [f("Int")]]), ("Brace", [[f("Brace", opens=True, peek=True, after=1), f("Int", peek=True)], [f("Brace", opens=True)]])]
    for ty, vs in rows:
        for j, (text, pre, mac) in enumerate(ways(ty, True)):
            d = sn.SD([sn.Vr([x.copy(text=text) if x.ty == ty else x.copy() for x in v], ("tuple", "record")[(i + j) % 2], name=f"V{i}") for i, v in enumerate(vs)], True, fam=fam, derives=derives, style=j)
            d.prelude, d.macro = pre, mac
            out.append(d)
    return out


@check
def P01(res):
    D1 = ("ToTokens",)
    sc = mark_scripts()
    defs = sn.struct_defs(sc, D1, both=True) + node_defs(D1) + punct_defs(D1) + sn.deep(D1, (4, 9, 17, 33)) + sn.broad(D1, (12, 40, 130)) + spelled(D1) + sn.odd_names(D1)
    # the macro delimiters multiply the values: at most 3 of them
    defs = [d for d in defs if sum(f.ty == "Macro" for v in d.variants for f in v.fields) <= 3]
    defs = [d for d in defs if not any(isinstance(f.ty, tuple) and f.ty[0] == "Nodes" for v in d.variants for f in v.fields)]
    # enums: every script as a variant among others
    two = list(sn.shapes(2, delims=("Paren", "Bracket"), leaves=("Int", "Ident"))) + list(sn.shapes(1))
    for k in range(0, len(two), 3):
        vs = [sn.Vr([f.copy() for f in fs], ("tuple", "record")[i % 2], name=f"W{i}") for i, fs in enumerate(two[k:k + 3])]
        defs.append(sn.SD(vs + [sn.Vr([], name="U"), sn.Vr([], "record", name="E")], True, derives=D1, style=k))
    pool = sn.pool_plain(D1) + sn.pool_peek(D1)
    for k in range(len(pool)):
        defs.append(sn.enum_of([pool[(k + j * 5) % len(pool)] for j in range(3)], D1, "e", k))
    sn.explore(res, "P01", defs, [], emit=True)


def bound(quick, thorough):
    return thorough if THOROUGH else quick


@check
def P02(res):
    D1 = ("Parse",)
    defs = sn.struct_defs(mark_scripts(), D1) + node_defs(D1)
    small = sn.struct_defs([s for n in (0, 1, 2) for s in sn.shapes(n)], D1, fam="t", both=True)
    big = sn.deep(D1, (4, 5, 9) if not THOROUGH else (4, 5, 6, 9, 17)) + sn.broad(D1, (12, 40, 130))
    big = [d for d in big if not d.is_enum and sum(f.ty == "Macro" for f in d.variants[0].fields) <= 2]
    rec = [d for d in sn.recursive(D1)]
    nm = [d for d in sn.odd_names(D1) if not d.is_enum]
    sn.explore(res, "P02", defs + small + big + rec + spelled(D1) + nm, ["nm=edits:1", "nm=forest:3", "sp=edits:2", "t=words:1", "rec=grow:24", f"n=grow:{bound(40, 130)}", f"rec=forest:{bound(4, 5)}", f"rec=edits:{bound(1, 2)}", "d=edits:1", "w=edits:1", f"s=edits:{bound(1, 2)}", f"n=edits:{bound(1, 2)}", f"n=forest:{bound(3, 4)}",
                                          f"t=forest:{bound(4, 5)}", f"s=forest:{bound(2, 3)}", "t=edits:2"])


@check
def P03(res):
    D2 = ("Parse", "ToTokens")
    defs = sn.struct_defs(mark_scripts(), D2) + node_defs(D2) + punct_defs(D2) + any_peek_enums(D2)
    pool = sn.pool_plain(D2) + sn.pool_peek(D2)
    for a, b in permutations(range(len(pool)), 2):
        if THOROUGH or (a + 2 * b) % 4 == 0:
            defs.append(sn.enum_of([pool[a], pool[b]], D2, "e", a))
    big = sn.deep(D2, (4, 5, 9)) + sn.broad(D2, (12, 40, 130))
    defs += [d for d in big if sum(f.ty == "Macro" for v in d.variants for f in v.fields) <= 2]
    defs += sn.recursive(D2) + spelled(D2) + sn.odd_names(D2)
    n = bound(1, 2)
    sn.explore(res, "P03", defs, ["nm=edits:1", "sp=edits:1", "p=words:1", "rec=grow:24", f"n=grow:{bound(20, 66)}", f"p=grow:{bound(40, 130)}", f"rec=forest:{bound(4, 5)}", f"rec=edits:{n}", "d=edits:1", "w=edits:1", f"s=edits:{n}", f"n=edits:{n}", f"p=edits:{n}", f"pe=edits:{n}", f"e=edits:{n}",
                                  f"p=forest:{bound(3, 4)}", f"n=forest:{bound(3, 4)}"])


@check
def P04(res):
    D1 = ("Parse",)
    pool = sn.pool_plain(D1)
    defs = [sn.enum_of([p], D1, "e1") for p in pool]
    defs += [sn.enum_of(p, D1, "e2", k) for k, p in enumerate(permutations(pool, 2))]
    three = list(permutations(pool, 3))
    defs += [sn.enum_of(p, D1, "e3", k) for k, p in enumerate(three) if THOROUGH or k % 7 == 0]
    defs += sn.with_fallback([x for n in (1, 2) for x in sn.shapes(n)], D1)
    defs += sn.with_fallback([x for k, x in enumerate(sn.shapes(3, leaves=("Int", "Ident"), delims=("Paren", "Macro")))], D1)
    defs += [d for d in sn.broad(D1, (16, 40, 130)) if d.is_enum and not any(f.peek for v in d.variants for f in v.fields)]
    defs += [d for d in sn.recursive(D1) if d.is_enum and not any(f.peek for v in d.variants for f in v.fields)]
    defs += sn.twins(D1, False) + sn.prefixes(D1, triples=THOROUGH) + [d for d in sn.odd_names(D1, peek=False) if d.is_enum]
    sn.explore(res, "P04", defs, ["nm=edits:1", "nm=forest:3", "px=edits:1", f"px=forest:{bound(3, 4)}", "tw=edits:1", "tw=forest:3", "e1=words:1", "fb=words:1", f"rec=grow:{bound(16, 24)}", f"rec=forest:{bound(4, 5)}", f"rec=edits:{bound(1, 2)}", "w=edits:1", f"fb=edits:{bound(1, 2)}", f"fb=forest:{bound(3, 4)}", f"e1=forest:{bound(4, 5)}", "e1=edits:2", f"e2=forest:{bound(3, 4)}", f"e2=edits:{bound(1, 2)}",
                                  f"e3=forest:{bound(2, 3)}", "e3=edits:1"])


@check
def P05(res):
    D1 = ("Parse",)
    pk, pl = sn.pool_peek(D1), sn.pool_plain(D1)
    defs = [sn.enum_of([p], D1, "e1") for p in pk]
    defs += [sn.enum_of(p, D1, "e2", k) for k, p in enumerate(permutations(pk, 2))]
    defs += [sn.enum_of(o, D1, "e2", k) for k, (p, q) in enumerate(product(pk, pl)) for o in ((p, q), (q, p))]
    three = list(permutations(pk, 3))
    defs += [sn.enum_of(p, D1, "e3", k) for k, p in enumerate(three) if THOROUGH or k % 11 == 0]
    mixed = [(q, p, r) for p in pk for q in pl[1:6] for r in pl[:6]]
    defs += [sn.enum_of(p, D1, "e3", k) for k, p in enumerate(mixed) if THOROUGH or k % 3 == 0]
    defs += [d for d in sn.broad(D1, (16, 40, 130)) if d.is_enum and any(f.peek for v in d.variants for f in v.fields)]
    defs += [d for d in sn.recursive(D1) + spelled(D1) if d.is_enum and any(f.peek for v in d.variants for f in v.fields)]
    defs += sn.twins(D1, True) + [d for d in sn.odd_names(D1) if d.is_enum]
    sn.explore(res, "P05", defs, ["nm=edits:1", "nm=forest:3", "tw=edits:1", "tw=forest:3", "e1=words:2", "e2=words:1", "sp=edits:2", f"rec=grow:{bound(16, 24)}", f"rec=forest:{bound(4, 5)}", f"rec=edits:{bound(1, 2)}", "w=edits:1", f"e1=forest:{bound(4, 5)}", "e1=edits:2", f"e2=forest:{bound(3, 4)}", f"e2=edits:{bound(1, 2)}",
                                  f"e3=forest:{bound(2, 3)}", "e3=edits:1"])


@check
def P06(res):
    D1 = ("Parse",)
    defs = punct_defs(D1) + any_peek_enums(D1) + sn.lists_inside(D1)
    sn.explore(res, "P06", defs, ["words:2", "pd=edits:1", f"p=grow:{bound(70, 300)}", f"pe=grow:{bound(40, 130)}", f"p=forest:{bound(4, 5)}", "p=edits:2", f"pe=forest:{bound(4, 5)}", f"pe=edits:{bound(1, 2)}"])


@check
def C17(res):
    defs = sm.singles(leaves=("Int", "Str", "Expr", "Ident", "Type"))
    defs += sm.pairs("pair")
    defs += sm.rests(unnamed=((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)), declared=[None, ("Flag", 0), ("Val", 1), ("NAVec", 0)])
    defs += [D("un", unnamed_shape(r, o, v, (l,)) + m, filter=fl) for r in range(3) for o in range(3) for v in (0, 1) for l in ("Int", "Expr", "Ident")
             for m in ([], [F("named", "Val", 1, "Int", "va"), F("named", "Flag", 0, "Int", "fl")]) for fl in (0, 1) if r + o + v]
    defs += sm.nested("nest")
    p = ["single=dfs:core,core", "pair=dfs:valid,min", "rest=dfs:core,min", "un=dfs:min,min,min", "nest=dfs:valid,min"]
    if THOROUGH:
        defs += sm.triples()
        p = ["single=dfs:full,core", "pair=dfs:core,valid", "rest=dfs:core,core", "un=dfs:core,core,min", "nest=dfs:valid,valid", "triple=dfs:valid,valid,valid"]
    sm.explore(res, "C17", defs + sm.odd_names("odd", step=3), p + ["odd=dfs:core"], "sem,none")


@check
def C18(res):
    defs = sm.singles(leaves=("Int", "Expr")) + sm.tokens("single") + one_with_company() + sm.rests(unnamed=((0, 0, 0), (0, 1, 0)), declared=[None, ("Flag", 0), ("NAVec", 0)])
    defs += [D("un", unnamed_shape(r, o, v, (l,)) + m, filter=fl) for r in range(3) for o in range(3) for v in (0, 1) for l in ("Int", "Type")
             for m in ([], [F("named", "Val", 1, "Str", "va"), F("named", "NAOptVec", 0, "Ident", "na")]) for fl in (0, 1)]
    defs += sm.nested()
    # values of every sort, also such as are read from nothing, or from all that is left
    for l in list(sm.OTHER) + ["Tokens"]:
        defs += [D("other", [F(k, leaf=l) for k in ks] + m) for ks in (("req",), ("req", "opt"), ("opt", "var"), ("req", "var"), ("opt",), ("var",))
                 for m in ([], [F("named", "Val", 1, l, "va"), F("named", "NAVec", 1, l, "na")])]
        defs += [D("other", [F("named", s, 0, l, "va"), F("rest", r, leaf=l)]) for s, r in (("Val", "NAVec"), ("NVOpt", "NA"), ("NAOpt", "Val"), ("NAVec", "NVOpt"))]
    defs += sm.recursive() + sm.long_lists()
    # names near one declared or several
    cyc = [("Flag", 0), ("Val", 1), ("NA", 1), ("NAOpt", 1), ("NVOpt", 1)]
    near = [D("near", [F("named", *cyc[(i + r) % 5], "Int", n) for i, n in enumerate(s)] + m) for s in NEAR for r in (0, 3) for m in ([], [F("opt")])]
    near += [D("nab", [F("named", *cyc[(i + j) % 5], "Int", n) for i, n in enumerate(s)]) for k in (1, 2, 3) for j, s in enumerate(combinations(["".join(c) for n in (1, 2, 3) for c in product("ab", repeat=n)], k)) if k < 3 or j % 4 == 0]
    near += [D("near", [F("named", *cyc[i % 5], "Int", long_name(n)[:-1] + c) for i, c in enumerate("az")]) for n in LENGTHS[:12]]
    defs += near
    sm.explore(res, "C18", defs + sm.odd_names("odd", step=7), ["odd=chaos:2", "near=edits", f"nab=idents:abc,{bound(3, 4)}", "chaos:3", "long=grow:65", f"rec=deep:{bound(48, 96)}"] + (["single=chaos:4"] if THOROUGH else []), "sem")


@check
def C16(res):
    p = core.Program("C16")
    p.add_bin("b0", open(core.VERIF + "/gen/rs/c16.rs").read(), [], "")
    errors = p.build()
    if errors:
        res.violations.append(core.Violation("the operators do not compile", "structmeta::{Flag, NameValue, NameArgs}", "", "compiles", errors[0][2]))
        return
    for r in p.run([str(bound(3, 4))]):
        res.merge(r)


@check
def C14(res):
    verdict.decide(res, "C14", verdict.c14_cases(THOROUGH))


@check
def P08(res):
    D1 = ("Parse",)
    defs = sn.struct_defs(mark_scripts(), D1) + node_defs(D1) + punct_defs(D1)
    pk, pl = sn.pool_peek(D1), sn.pool_plain(D1)
    defs += [sn.enum_of([p], D1, "e1") for p in pk + pl]
    defs += [sn.enum_of(p, D1, "e2", k) for k, p in enumerate(permutations(pk + pl, 2)) if k % 5 == 0 or THOROUGH]
    if THOROUGH:
        defs += sn.with_fallback([x for n in (1, 2) for x in sn.shapes(n)], D1) + [d for d in sn.deep(D1, (4, 5)) if sum(f.ty == "Macro" for f in d.variants[0].fields) <= 2]
    sn.explore(res, "P08", defs, ["none:1", "e1=none:2", "p=none:2"] + (["s=none:2", "n=none:2", "e2=none:2"] if THOROUGH else []))


@check
def P09(res):
    D1 = ("Parse",)
    defs = sn.struct_defs(mark_scripts(), D1) + node_defs(D1) + punct_defs(D1) + any_peek_enums(D1)
    pk, pl = sn.pool_peek(D1), sn.pool_plain(D1)
    defs += [sn.enum_of([p], D1, "e1") for p in pk + pl]
    defs += [sn.enum_of(p, D1, "e2", k) for k, p in enumerate(permutations(pk + pl, 2)) if k % 3 == 0 or THOROUGH]
    defs += [d for d in sn.deep(D1, (4, 5, 9)) + sn.broad(D1, (12, 40)) if sum(f.ty == "Macro" for v in d.variants for f in v.fields) <= 2]
    # groups in groups: two places that do not fit
    two = [x for x in sn.shapes(3, delims=("Paren",)) if sum(f.opens for f in x) > 1] + [x for x in sn.shapes(4, delims=("Bracket",), after=False) if sum(f.opens for f in x) > 2]
    defs += sn.struct_defs(two, D1, fam="ss")
    sn.explore(res, "P09", defs, ["place", f"ss=edits:{bound(2, 3)}", f"s=edits:{bound(1, 2)}", f"n=edits:{bound(1, 2)}", "d=edits:1", "w=edits:1", f"p=edits:{bound(1, 2)}", f"pe=edits:{bound(1, 2)}",
                                  f"e1=forest:{bound(4, 5)}", f"e2=edits:{bound(1, 2)}", f"e2=forest:{bound(2, 3)}", f"p=forest:{bound(3, 4)}", f"s=forest:{bound(2, 3)}"])


@check
def P10(res):
    D2 = ("Parse", "ToTokens")
    defs = sn.struct_defs(mark_scripts()[::3], D2) + node_defs(D2) + punct_defs(D2) + any_peek_enums(D2)
    pk, pl = sn.pool_peek(D2), sn.pool_plain(D2)
    defs += [sn.enum_of([p], D2, "e1") for p in pk + pl]
    defs += [sn.enum_of(p, D2, "e2", k) for k, p in enumerate(permutations(pk + pl, 2)) if k % 5 == 0 or THOROUGH]
    # fields of every sort, also such as are read from nothing or from all that is left
    for text in ("syn::Visibility", "syn::Type", "syn::Expr", "syn::Meta", "syn::Item", "syn::Stmt", "Option<Token![=]>", "TokenStream", "syn::parse::Nothing", "syn::Generics",
                 "syn::ReturnType", "syn::Path", "syn::Member", "Option<syn::Token![+]>", "syn::Lit"):
        X = lambda **k: sn.Fd("Rest", **k).copy(text=text)
        I, P, E = (lambda t: lambda **k: sn.Fd(t, **k))("Int"), (lambda t: lambda **k: sn.Fd(t, **k))("Paren"), (lambda t: lambda **k: sn.Fd(t, **k))("Eq")
        rows = [[X()], [X(), I()], [X(), X()], [P(opens=True), X()], [P(opens=True), X(), E(closes=1)], [E(), X()], [P(opens=True), X(), X(closes=1)]]
        defs += [sn.SD([sn.Vr(r, "tuple")], fam="other", derives=D2) for r in rows]
        V = lambda *rs: [sn.Vr([f.copy() for f in r], ("tuple", "record")[i % 2], name=f"V{i}") for i, r in enumerate(rs)]
        for i, r in enumerate(rows):
            defs += [sn.SD(V(r, rows[(i + 1) % len(rows)]), True, fam="other", derives=D2), sn.SD(V(r, [I()], r + [E()]), True, fam="other", derives=D2),
                     sn.SD(V([E(peek=True)] + r, r), True, fam="other", derives=D2)]
    defs += sn.recursive(D2)
    sn.explore(res, "P10", defs, [f"rec=deep:{bound(40, 96)}", "n=grow:65", f"chaos:{bound(2, 3)}", f"e1=chaos:{bound(3, 4)}", f"p=chaos:3"])


@check
def P07(res):
    verdict.decide(res, "P07", verdict.p07_cases(THOROUGH))


@check
def G01(res):
    generics.explore(res, THOROUGH)


@check
def G02(res):
    scope.explore(res, THOROUGH, ("2018", "2021", "2024") if THOROUGH else ("2018", "2024"))


@check
def G03(res):
    dump.explore(res, THOROUGH)


@check
def G04(res):
    D2 = ("Parse", "ToTokens")
    defs = sm.singles(leaves=("Int", "Expr")) + [D("one", [F("named", "Val", 1, l, "abc")]) for l in ("Str", "Ident", "Type", "Bool")]
    defs += [D("pair", named(k)) for k in product(sm.SIX, sm.SIX)]
    defs += sm.rests(unnamed=((0, 0, 0), (1, 1, 0)), declared=[None, ("Val", 1)])
    defs += [D("un", unnamed_shape(*u, ("Expr", "Int"))) for u in ((1, 0, 0), (1, 1, 1), (0, 2, 0), (0, 0, 1))]
    defs += [D("un", unnamed_shape(*u, ("Expr", "Int")) + m, filter=1) for u in ((0, 1, 0), (0, 0, 1), (1, 1, 0))
             for m in ([F("named", "Val", 1, "Int", "va"), F("named", "Flag", 0, "Int", "fl")], [F("rest", "NVOpt")])]
    nest = sm.nested()
    defs += nest if THOROUGH else nest[::3]
    st = sn.struct_defs(mark_scripts(), D2)
    defs += st if THOROUGH else st[::4]
    defs += node_defs(D2) + punct_defs(D2) + any_peek_enums(D2)
    pk, pl = sn.pool_peek(D2), sn.pool_plain(D2)
    defs += [sn.enum_of([p], D2, "e1") for p in pk + pl]
    defs += [sn.enum_of(p, D2, "e2", k) for k, p in enumerate(permutations(pk + pl, 2)) if k % (5 if THOROUGH else 29) == 0]
    sm_fams = [("single", "full"), ("one", "full"), ("pair", "valid,valid"), ("rest", bound("core", "core,core")),
               ("un", bound("valid,valid", "core,core")), ("nest", bound("core", "core,min"))]
    passes = [f"{f}=dfs:{a}" for f, a in sm_fams] + ["s=edits:1", "n=edits:1", "p=edits:1", "pe=edits:1", "e1=edits:1", "e2=edits:1"]
    real.explore(res, defs, passes, ("2018", "2021", "2024") if THOROUGH else ("2021",), (0, 1, 2) if THOROUGH else ("each",))


@check
def D01(res):
    expand.explore(res, THOROUGH)


# ---------------------------------------------------------------------------------------------
_A = ("Within the stated bounds (field kinds, alphabets and depths reported in the evidence) every definition and every "
      "argument list is explored, none sampled. Trusted: the reference model in mc/src/sm.rs, rustc, and syn for what a single value looks like. ")
_B = ("Within the stated bounds (mark scripts, variant pools, token alphabets and forest sizes reported in the evidence) every definition and "
      "every token forest is explored, none sampled. Trusted: the reference model in mc/src/sn.rs, rustc, and syn for single tokens. ")
NOTES = {
    "C01": ("A", _A + "All ordered pairs of the 18 named kinds, triples of 6 kinds, up to 66 (thorough: 129) parameters in systematic orders."),
    "C02": ("A", _A + "18 kinds x 6 value types x about 50 argument forms, followed by one more argument."),
    "C03": ("A", _A + "Every subset of given arguments for all pairs, triples, rest and unnamed fields."),
    "C04": ("A", _A + "Every pair of accepted forms of one name with up to one other argument between and after."),
    "C05": ("A", _A + "Up to 3 required, 3 optional and a variadic field in all interleavings with named and rest fields."),
    "C06": ("A", _A + "Separator placements over up to 3 arguments (also after values that end in a block), lists inside arguments, and all token forests up to 4-5 (thorough: 5-6) trees."),
    "C07": ("A", _A + "8 rest styles x 19 declared kinds x 4 unnamed shapes, two arguments deep."),
    "C08": ("A", _A + "All subsets of declared forms x rest x unnamed shapes x name_filter over identifier-led arguments."),
    "C09": ("A", _A + "Names x attributes (also `name` and `unnamed` together and `name` repeated) x record/tuple with all near misses of every declared name."),
    "C10": ("A", _A + "Position and content of the error are compared for every rejected trace; an argument that is wrong in two ways may be reported either way."),
    "C11": ("A", _A + "All sets of up to 3 names over {a,b} up to length 3, all identifiers over {a,b,c} up to length 4, and all two-edit neighbours of longer names (up to 129, thorough 257, characters)."),
    "C12": ("A", _A + "Positions of every token and name of every accepted trace are compared, with invisible groups too. Positions come from proc-macro2's fallback (span-locations)."),
    "C13": ("A", _A + "Every spelling of every recognised type, macro_rules fragments at every nesting position, look-alike types in other modules."),
    "C15": ("A", _A + "8 inner structs x 9 outer structs, two levels of nesting, structs containing themselves, and derived Parse enums and StructMeta structs inside each other (against a hand-written parser)."),
    "C17": ("A", _A + "Every argument, value and list item of every explored list in an invisible group: each alone, nested twice, every two, all arguments, everything at once."),
    "C18": ("A", _A.replace("argument list", "token forest") + "All token forests of up to 3 trees (4 for single-parameter structs: thorough) over 20 tokens of every sort, the declared names, names near them and 4 kinds of groups; also for value types that the model knows nothing of. No answer within 40 s, or 2.5 GB, counts as a hang; stack overflows and aborts are caught."),
    "P10": ("B", _B + "All token forests of up to 2-3 (thorough: 3-4) trees over 20 tokens of every sort, the definition's own and 4 kinds of groups; fields of 15 further types too. No answer within 40 s, or 2.5 GB, counts as a hang."),
    "P08": ("B", _B + "Every run of neighbouring trees, at every depth, of every valid input and everything one edit away in an invisible group (two groups at once for single variants; thorough: for more)."),
    "P09": ("B", _B + "As P02-P06; for every rejected input the place of the error is compared with the set of places the model allows."),
    "P01": ("B", _B + "All mark scripts of up to 3 fields over 4 delimiters (4 fields over one), tuple and record, enums, nested types."),
    "P02": ("B", _B + "All mark scripts; every token forest up to 4 tokens, and the one- or two-edit neighbourhood of every accepted forest."),
    "P03": ("B", _B + "Positions come from proc-macro2's fallback (span-locations); parse, emit, parse again for every accepted forest."),
    "P04": ("B", _B + "All ordered pairs of 14 variant shapes and a fixed share (thorough: all) of the triples; variants that begin alike, up to 131 variants; with tokens following the enum."),
    "P05": ("B", _B + "All ordered pairs of 13 peeking variants, and with 14 plain ones, in both orders; share (thorough: all) of the triples."),
    "P06": ("B", _B + "any and terminated in every position of groups (nested ones too), structs and variants, in all spellings of the attribute."),
    "C16": ("V", "All values x spans pairwise (also values that differ from themselves and every relation on three values as ==), and all sequences of up to 3 (thorough: 4) `|`/`|=` operations. Trusted: == of the value types."),
    "C14": ("C", "All field lists up to length 3 (thorough: 4) over an alphabet of field styles and attributes, all settings of the type and their combinations, every token sequence of up to 4 (thorough: 6) tokens as settings; rustc's verdict, message, place and the absence of other errors are compared."),
    "P07": ("C", "All mark scripts up to 3 fields including ill-formed ones, every attribute on every kind of field, peek placements with and without any and terminated, settings of the type, every token sequence of up to 3-4 (thorough: 5) tokens as marks; verdict and place are compared."),
    "G01": ("G", "All forms of up to 2 parameters (lifetime, type, const; bounds; where clauses, among them predicates that nothing else proves), some of up to 9, x type shapes x the three derives; the use of every type is compiled and run. Includes that a missing bound is still an error at the use."),
    "G02": ("G", "Name alphabet (prelude names, crate names, generated identifiers) x scopes (module, function body, generics, macro_rules, editions 2015-2024) under deny(warnings). Blanket traits with by-reference methods and lower-case unit structs are excluded, see DESIGN.md."),
    "G03": ("G", "Definitions (with up to 300 fields, parameters or variants) x dump placements; the shown code is pasted in place of the derive and compared with it on the same traces."),
    "G04": ("R", "Every argument list and token forest within the bounds is given as text, with the spans of its tokens replaced in three ways, in an attribute, and by rustc to a procedural macro (call, attribute, attribute of a derive), and with each possible part as a macro_rules fragment. Trusted: rustc and proc-macro2 hand over the tokens written; the outcome on text, which the other properties decide."),
    "D01": ("D", "Histories up to 3 (thorough: 4) expansions over 10 definitions, pairs with 10 larger or faulty ones, repetitions; 256 (thorough: 1248) constant or period-2 answers of the random source, which are probed to reach every order of a HashMap of up to 4 keys; places. Addresses are not controlled (ASLR is left as it is)."),
}
