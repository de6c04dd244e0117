"""Definitions whose observable is the compiler's verdict: every one is judged by rustc."""
import re
from . import core

HEADER = """#![allow(dead_code, unused, non_snake_case, non_camel_case_types, mixed_script_confusables, uncommon_codepoints)]
use std::collections::HashMap;
use structmeta::{Flag, NameArgs, NameValue, Parse, StructMeta, ToTokens};
use proc_macro2::TokenStream;
use syn::punctuated::Punctuated;
use syn::token::{Brace, Bracket, Paren};
use syn::{Expr, Ident, LitInt, LitStr, MacroDelimiter, Token, Type};"""


class Case:
    """label groups cases in the evidence; ok: the definition must compile; own: the derive itself must say what is
    wrong, at the place, and nothing else must be reported ("any place": it may point at the derive). The text may
    mark the parts «that the error may point at»."""

    def __init__(self, text, ok, label, own=False):
        self.where, parts, n = [], [], 0
        for i, part in enumerate(re.split("[«»]", text)):
            if i % 2:
                self.where.append((n, n + len(part)))
            parts.append(part)
            n += len(part)
        self.text, self.ok, self.label, self.own = "".join(parts), ok, label, own and not ok and own

    def points_at(self, line, column):
        """whether a place (line of the text, column, from 0) is in a part that is concerned"""
        n = sum(len(l) + 1 for l in self.text.split("\n")[:line]) + column
        return not self.where or any(a <= n < b for a, b in self.where)


def module(k, text):
    return f"pub mod d{k} {{ use super::*;\n{text}\n}}"


def program(name, cases, header=HEADER):
    p = core.Program(name)
    for b, part in enumerate(core.spread(list(enumerate(cases)), core.JOBS)):
        p.add_bin(f"b{b}", header, [(module(k, c.text), c) for k, c in part], "fn main() {}")
    return p


def is_panic(message):
    t = message["message"] + " " + " ".join(c["message"] for c in message["children"])
    return "panicked" in t


CHUNK = 6000  # definitions per compiler run (rustc keeps all diagnostics in memory)


def accept(res, name, good, header):
    seen, stray = set(), None
    for b, c, text, m in program(name + "_ok", good, header).build("check"):
        if c is None:
            stray = (b, text)
            continue
        if c not in seen:
            seen.add(c)
            what = "macro panic on a valid definition" if is_panic(m) else "a valid definition does not compile"
            res.violations.append(core.Violation(what, c.text, c.label, "compiles", text))
    if stray and not seen:
        raise core.CheckError(f"{stray[0]}: harness does not compile:\n{stray[1]}")


def reject(res, name, left, header):
    rounds, faulty, near, every = 0, set(), set(), left
    while left:
        rounds += 1
        p = program(name + "_err", left, header)
        errors = p.build("check")
        hit = set()
        for b, c, text, m in errors:
            if c is None:
                continue
            if is_panic(m) and c not in hit:
                res.violations.append(core.Violation("macro panic instead of an error", c.text, c.label, "an ordinary error", text))
            hit.add(c)
            span = [x for x in m["spans"] if x["is_primary"]][0]
            if c.where and not c.own and c.points_at(span["line_start"] - p.line_of(b, c) - 1, span["column_start"] - 1):
                near.add(c)
            if c.own and not is_panic(m):
                span = [x for x in m["spans"] if x["is_primary"]][0]
                line = span["text"][0]["text"] if span["text"] else ""
                a, col = line.find("#[derive("), span["column_start"] - 1
                if m["code"]:
                    what = "an error in the generated code instead of one of the derive"
                elif c.own != "any place" and a >= 0 and a <= col < line.find(")]", a):
                    what = "the error points at the derive, not at what is wrong"
                elif c.own != "any place" and not c.points_at(span["line_start"] - p.line_of(b, c) - 1, col):
                    what = "the error points at something else"
                else:
                    continue
                if c not in faulty:
                    faulty.add(c)
                    res.violations.append(core.Violation(what, c.text, c.label, "an error of the derive at the field or setting", text))
        if not hit:
            for c in left:
                if errors:
                    res.violations.append(core.Violation("the error is not located in the definition", c.text, c.label,
                                                         "an error inside the definition", errors[0][2]))
                else:
                    res.violations.append(core.Violation("an invalid definition is accepted", c.text, c.label,
                                                         "a compile error", "compiles"))
            break
        left = [c for c in left if c not in hit]
    for c in every:
        if c.where and not c.own and c not in left and c not in near:
            res.violations.append(core.Violation("no error points at what is wrong", c.text, c.label, "an error at the field", ""))
    res.notes["rejection_rounds"] = res.notes.get("rejection_rounds", 0) + rounds


def decide(res, name, cases, header=HEADER):
    """Valid definitions must compile; each invalid one must get an error of its own, inside itself."""
    seen, uniq = set(), []
    for c in cases:
        if c.text not in seen:
            seen.add(c.text)
            uniq.append(c)
    cov = res.coverage
    labels = cov.setdefault("definitions_by_kind", {})
    for c in uniq:
        k = ("valid: " if c.ok else "invalid: ") + c.label
        labels[k] = labels.get(k, 0) + 1
    cov["states"] += len(uniq)
    cov["transitions"] += len(uniq)
    cov["traces_validated_against_impl"] += len(uniq)
    cov["definitions"] = cov.get("definitions", 0) + len(uniq)
    for want in (True, False):
        some = [c for c in uniq if c.ok == want]
        for c in some[:: max(1, len(some) // 4)][:4]:
            cov["samples"].append(dict(definition=c.text, input=c.label, outcome="compiles" if want else "rejected in place"))

    good = [c for c in uniq if c.ok]
    bad = [c for c in uniq if not c.ok]
    for i in range(0, len(good), CHUNK):
        accept(res, name, good[i:i + CHUNK], header)
    for i in range(0, len(bad), CHUNK):
        reject(res, name, bad[i:i + CHUNK], header)
    return uniq


# ---------------------------------------------------------------------------------------------
# StructMeta definitions

# type, what it is without a name attribute: value option vec flagish named-only map bad
SORTS = {
    "LitInt": "value", "Expr": "value", "Option<LitInt>": "option", "Vec<LitInt>": "vec", "bool": "named", "Flag": "named",
    "NameValue<LitInt>": "named", "NameValue<Option<LitInt>>": "named", "NameArgs<LitInt>": "named", "NameArgs<Vec<LitInt>>": "named",
    "NameArgs<Option<Vec<LitInt>>>": "named", "NameArgs<Option<LitInt>>": "named",
    "Option<NameValue<LitInt>>": "named", "Option<NameArgs<Vec<LitInt>>>": "named", "Option<Vec<LitInt>>": "named",
    "HashMap<String, LitInt>": "map", "HashMap<String, Vec<LitInt>>": "map", "HashMap<String, NameArgs<Option<LitInt>>>": "map",
    "Option<bool>": "bad", "Option<Flag>": "bad", "HashMap<String, bool>": "bad map", "HashMap<String, Flag>": "bad map", "u8": "bad",
    "String": "bad", "Vec<bool>": "bad", "Vec<u8>": "bad", "NameValue<bool>": "bad", "NameArgs<Flag>": "bad", "Option<u8>": "bad",
    "NameArgs<Vec<u8>>": "bad", "HashMap<u8, LitInt>": "bad", "HashMap<String, u8>": "bad map", "NameArgs<Option<u8>>": "bad",
    "Option<Option<Expr>>": "bad", "Vec<Option<Expr>>": "bad", "()": "bad", "(LitInt, LitInt)": "bad", "[LitInt; 2]": "bad",
    "Option<HashMap<String, LitInt>>": "bad", "&'static str": "bad",
}
SMALL = ["LitInt", "Option<LitInt>", "Vec<LitInt>", "Flag", "NameArgs<LitInt>", "HashMap<String, LitInt>"]


def sm_faults(fields, tuple_):
    """The rules of the documentation. fields: (type, attribute, field name). Gives the fields that are concerned: the
    later ones of those that do not go together, or both where neither is more at fault."""
    names, variadic, optional, map_, at = {}, None, None, None, set()
    for i, (ty, attr, fname) in enumerate(fields):
        s = SORTS[ty]
        if "bad" in s:
            at.add(i)
            continue
        if s == "map":
            if attr:
                at.add(i)  # name = "..": the map is then a value type, which cannot be parsed
            elif map_ is not None:
                at |= {map_, i}
            else:
                map_ = i
            continue
        name = attr[8:-1] if attr.startswith("name") else None if (attr == "unnamed" or tuple_) else fname
        if name is not None:
            if name in names:
                at |= {names[name], i}
            names[name] = i
            continue
        if s == "named":
            at.add(i)
            continue
        if variadic is not None:
            at |= {variadic, i}
        if s == "vec":
            variadic = i
        elif s == "option":
            optional = i
        elif optional is not None:
            at |= {optional, i}
    return at


def sm_struct(fields, tuple_, sattr="", at=()):
    fs = []
    for i, (ty, attr, fname) in enumerate(fields):
        a = f"#[struct_meta({attr})] " if attr else ""
        fs.append(f"{a}pub {ty}" if tuple_ else f"{a}pub {fname}: {ty}")
        if i in at:
            fs[-1] = f"«{fs[-1]}»"
    head = f"#[derive(StructMeta)] {sattr}pub struct A"
    return head + (f"({', '.join(fs)});" if tuple_ else f" {{ {', '.join(fs)} }}")


def sm_lists(sorts, attrs, n, tuple_, label):
    """All lists of n fields over sorts x attrs."""
    from itertools import product
    alpha = [(t, a) for t in sorts for a in attrs if not (a == "unnamed" and "map" in SORTS[t])]
    out = []
    for c in product(alpha, repeat=n):
        fields = [(t, a, f"f{i}") for i, (t, a) in enumerate(c)]
        own = not any("bad" in SORTS[t] or SORTS[t] == "map" and a for t, a in c)
        at = sm_faults(fields, tuple_)
        out.append(Case(sm_struct(fields, tuple_, at=at if own or n == 1 else range(n) if at else ()), not at, label, own))
    return out


def sm_wide(sizes, label):
    """Many fields, of which one or two are wrong, in every place."""
    from itertools import combinations
    out = []
    calm = ["LitInt", "Flag", "Option<LitInt>", "NameArgs<LitInt>", "Option<NameValue<LitInt>>", "bool", "Vec<LitInt>"]
    for n in sizes:
        ends = [i for i in range(n) if n < 10 or i in (0, 1, 7, 8, 15, 16, n // 2, n - 2, n - 1)]

        def case(change, tuple_):
            fields = [(calm[i % 7], f'name = "f{i}"' if tuple_ else "", f"f{i}") for i in range(n)]
            for i, (t, a) in change.items():
                fields[i] = (t, a, f"f{i}")
            at = sm_faults(fields, tuple_)
            own = not any("bad" in SORTS[t] for t, _, _ in fields)
            out.append(Case(sm_struct(fields, tuple_, at=at), not at, label, own))
        un = lambda t, tuple_: (t, "" if tuple_ else "unnamed")
        for tuple_ in (True, False):
            case({}, tuple_)
            for i in ends:
                case({i: un("Option<Vec<LitInt>>", tuple_)}, tuple_)
                case({i: ("u8", f'name = "f{i}"')}, tuple_)
                case({i: ("HashMap<String, LitInt>", "")}, tuple_)
            for i, j in combinations(ends, 2):
                case({j: ("LitInt", f'name = "f{i}"')}, tuple_)
                case({i: ("Flag", f'name = "f{j}"')}, tuple_)
                case({i: ("Flag", f'name = "f{j}"'), j: ("LitInt", f'name = "f{i}"')}, tuple_)
                case({i: ("HashMap<String, LitInt>", ""), j: ("HashMap<String, Vec<LitInt>>", "")}, tuple_)
                for a in ("LitInt", "Option<LitInt>", "Vec<LitInt>"):
                    for b in ("LitInt", "Option<LitInt>", "Vec<LitInt>"):
                        case({i: un(a, tuple_), j: un(b, tuple_)}, tuple_)
            # all unnamed
            for i in ends:
                for t in ("LitInt", "Option<LitInt>", "Vec<LitInt>"):
                    for b in ("LitInt", "Option<LitInt>"):
                        case({j: un(t if j == i else b, tuple_) for j in range(n)}, tuple_)
    return out


def c14_cases(thorough):
    out = []
    T, R = ["", 'name = "p"', 'name = "q"'], ["", "unnamed", 'name = "p"', 'name = "f0"', 'name = "f1"']
    allsorts = list(SORTS)
    out += [Case(sm_struct([], True), True, "no fields"), Case(sm_struct([], False), True, "no fields"),
            Case("#[derive(StructMeta)] pub struct A;", True, "no fields")]
    out += sm_lists(allsorts, T, 1, True, "1 field, tuple") + sm_lists(allsorts, R, 1, False, "1 field, record")
    valid_sorts = [s for s in allsorts if "bad" not in SORTS[s]]
    mid = ["LitInt", "Option<LitInt>", "Vec<LitInt>", "bool", "NameValue<LitInt>", "NameArgs<Option<Vec<LitInt>>>",
           "Option<NameValue<LitInt>>", "Option<Vec<LitInt>>", "HashMap<String, LitInt>", "HashMap<String, NameArgs<Option<LitInt>>>",
           "u8", "Option<bool>", "HashMap<String, Flag>"]
    two = allsorts if thorough else mid
    out += sm_lists(two, T, 2, True, "2 fields, tuple") + sm_lists(two, R, 2, False, "2 fields, record")
    out += sm_lists(SMALL, T[:2], 3, True, "3 fields, tuple")
    out += sm_lists(["LitInt", "Option<LitInt>", "Vec<LitInt>", "HashMap<String, LitInt>"], ["", "unnamed", 'name = "f0"'], 3, False, "3 fields, record")
    out += sm_lists(["LitInt", "Option<LitInt>", "Vec<LitInt>", "HashMap<String, LitInt>"] if thorough else SMALL[:3], [""] if not thorough else ["", 'name = "p"'],
                    4, True, "4 fields, tuple")
    if thorough:
        out += sm_lists(valid_sorts[:8], R[:4], 3, False, "3 fields, record")
        out += sm_lists(["LitInt", "Option<LitInt>", "Vec<LitInt>", "Flag"], ["", "unnamed", 'name = "f0"'], 4, False, "4 fields, record")
        out += sm_lists(SMALL[:3], [""], 6, True, "6 fields, tuple")
    out += sm_wide((5, 9, 17) if not thorough else (5, 9, 17, 33, 65), "many fields")
    # the names that matter for duplicates: raw and plain, renamed over each other
    dup = [("r#type: LitInt", '#[struct_meta(name = "type")] b: LitInt', False), ("r#type: LitInt", '#[struct_meta(name = "r#type")] b: LitInt', True),
           ('#[struct_meta(name = "b")] a: LitInt', "b: LitInt", False), ('#[struct_meta(name = "b")] a: LitInt', '#[struct_meta(name = "a")] b: LitInt', True),
           ('#[struct_meta(name = "x")] a: Flag', '#[struct_meta(name = "x")] b: NameArgs<LitInt>', False),
           ('#[struct_meta(name = "x")] a: Option<LitInt>', '#[struct_meta(name = "X")] b: LitInt', True),
           ('#[struct_meta(name = "b")] a: LitInt', "#[struct_meta(unnamed)] b: LitInt", True),
           ("#[struct_meta(unnamed)] a: LitInt", '#[struct_meta(name = "a")] b: LitInt', True),
           ('#[struct_meta(name = "é")] a: bool', '#[struct_meta(name = "é")] b: bool', False),
           ("a: HashMap<String, LitInt>", '#[struct_meta(name = "a")] b: LitInt', True)]
    extra = ["", "z: bool", "#[struct_meta(unnamed)] z: LitInt", "z: HashMap<String, LitInt>"]
    for a, b, ok in dup:
        for z in extra:
            if "HashMap" in a and "HashMap" in z:
                continue
            for fs in ([a, b, z], [b, a, z], [z, a, b], [a, z, b], [b, z, a]):
                mark = lambda f: f"«{f}»" if f in (a, b) else f
                out.append(Case("#[derive(StructMeta)] pub struct A { " + ", ".join(mark("pub " * (not f.startswith("#")) + f) if f not in (a, b) else "pub " * (not f.startswith("#")) + mark(f)
                                                                                    for f in fs if f) + " }", ok, "names", True))
    # settings of the struct
    S = [("#[struct_meta()]", True), ('#[struct_meta(name_filter = "snake_case")]', True), ('#[struct_meta(name_filter = "snake_case",)]', True),
         ('#[struct_meta(name_filter = r"snake_case")]', True), ('#[struct_meta()] #[struct_meta(name_filter = "snake_case")]', True),
         ('#[struct_meta{name_filter = "snake_case"}]', True), ('#[struct_meta[name_filter = "snake_case"]]', True)]
    bad = ['name_filter = "x"', 'name_filter = ""', 'name_filter = "Snake_case"', 'name_filter = "snake_case "', 'name_filter = "camelCase"', "name_filter",
           "name_filter = 1", "name_filter = snake_case", 'name_filter("snake_case")', 'name_filter = "snake_case", name_filter = "snake_case"',
           'name_filter: "snake_case"', 'name_filter == "snake_case"', "unknown", "unknown = 1", 'name = "p"', "unnamed", ",", "1", '"snake_case"',
           'name_filter = "snake_case" unknown', 'name_filter = "snake_case";', "dumps", "Dump", 'filter = "snake_case"', 'name_filter = b"snake_case"',
           'name_filter = "snake_case", unknown', 'unknown, name_filter = "snake_case"', 'name_filter = "snake_case",,']
    S += [(f"#[struct_meta({x})]", False) for x in bad]
    S += [("#[struct_meta]", False), ('#[struct_meta = "x"]', False), ('#[struct_meta(name_filter = "snake_case")] #[struct_meta(name_filter = "snake_case")]', False),
          ('#[struct_meta()] #[struct_meta(unknown)]', False), ('#[struct_meta(unknown)] #[struct_meta()]', False)]
    bodies = ["{ pub a: LitInt }", "(pub LitInt);", "{ pub a: HashMap<String, LitInt> }", "(#[struct_meta(name = \"a\")] pub bool, pub Vec<LitInt>);", ";", "{}"]
    for s, ok in S:
        s = f"«{s}»"
        for b in bodies:
            b2 = b.replace("(#", "(pub LitInt, #") if b.startswith("(#") else b
            b2 = b2.replace("pub LitInt, #[struct_meta(name = \"a\")] pub bool, pub Vec", "pub LitInt, #[struct_meta(name = \"a\")] pub bool, pub Vec")
            out.append(Case(f"#[derive(StructMeta)] {s} pub struct A{' ' if b2[0] == '{' else ''}{b2}", ok, "struct settings", True))
            out.append(Case(f"{s} #[derive(StructMeta)] pub struct A{' ' if b2[0] == '{' else ''}{b2}", ok, "struct settings") if False else
                       Case(f"#[derive(StructMeta)] #[doc = \"d\"] {s} #[allow(dead_code)] pub struct A{' ' if b2[0] == '{' else ''}{b2}", ok, "struct settings", True))
    # settings of a field, in every position
    G = ["", "#[struct_meta()] ", '#[struct_meta(name = "p")] ', '#[struct_meta(name = "p",)] ', '#[struct_meta(name = r"p")] ', '#[struct_meta()] #[struct_meta(name = "p")] ',
         "#[doc = \"d\"] ", '#[doc = "d"] #[struct_meta(name = "p")] #[allow(dead_code)] ']
    GU = ["#[struct_meta(unnamed)] ", "#[struct_meta(unnamed,)] ", "#[struct_meta(unnamed)] #[struct_meta()] "]
    fbad = ["name", "name = 1", "name = p", 'name("p")', 'name: "p"', 'name == "p"', "name =", 'name "p"', "unnamed = true", 'unnamed = "p"', "unnamed()", "unknown",
            "unknown = 1", "dump", 'name_filter = "snake_case"', ",", '"p"', 'name = "p" unnamed', 'name = "p"; unnamed', "rename", 'Name = "p"', "Unnamed", "name = b\"p\"",
            'name = "p", unknown', 'unknown, name = "p"', "unnamed, unknown", "unknown, unnamed", "default", "skip", 'name = "p",,', "name = 'p'"]
    B = [f"#[struct_meta({x})] " for x in fbad] + ["#[struct_meta] ", '#[struct_meta = "p"] ', '#[struct_meta(name = "p")] #[struct_meta(unknown)] ',
                                                     "#[struct_meta(unknown)] #[struct_meta(unnamed)] "]
    for attrs, ok in ((G, True), (GU, True), (B, False)):
        for a in attrs:
            for pos in range(3):
                rec = ["pub a: LitInt", "pub b: Option<LitInt>", "pub c: bool"]
                rec.insert(pos, f"«{a}pub x: LitInt»")
                out.append(Case("#[derive(StructMeta)] pub struct A { " + ", ".join(rec) + " }", ok, "field settings", True))
                tup = ["pub LitInt", '#[struct_meta(name = "z")] pub Flag', "pub LitInt"]
                tup.insert(pos, f"«{a}pub LitInt»")
                out.append(Case("#[derive(StructMeta)] pub struct A(" + ", ".join(tup) + ");", ok, "field settings", True))
            out.append(Case(f"#[derive(StructMeta)] pub struct A {{ pub a: LitInt, «{a}pub x: HashMap<String, LitInt>» }}",
                            ok and "name =" not in a, "field settings", not ok)) if a not in GU else None
    # not a struct
    for t in ["enum A {}", "enum A { X }", "enum A { X, Y }", "enum A { X(LitInt) }", "enum A { X { a: LitInt } }", "enum A { X(LitInt), Y { b: bool }, Z }",
              "enum A { X(#[struct_meta(unnamed)] LitInt) }", "union A { a: u8 }", "union A { a: u8, b: u16 }", "union A { a: std::mem::ManuallyDrop<LitInt> }"]:
        for s in ("", '#[struct_meta(name_filter = "snake_case")] '):
            out.append(Case(f"#[derive(StructMeta)] {s}pub {t}", False, "not a struct", "any place"))
    return out + sm_soups(thorough)


# ---------------------------------------------------------------------------------------------
# the settings as token sequences: every sequence up to a length, judged by a grammar of comma separated items

def soup_items(tokens):
    """the items between the commas (one comma may follow the last), or None if an item is empty"""
    if not tokens:
        return []
    items, cur = [], []
    for t in tokens:
        if t == ",":
            items.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        items.append(cur)
    return None if [] in items else items


def sm_soups(thorough):
    from itertools import product
    out = []
    for n in range((6 if thorough else 4) + 1):
        for ts in product(["name_filter", "=", '"snake_case"', '"x"', ",", "unnamed"][: 5 if n > 4 else 6], repeat=n):
            if n > 4 and ts.count("name_filter") < 1:
                continue
            it = soup_items(ts)
            ok = it is not None and len(it) < 2 and all(i == ["name_filter", "=", '"snake_case"'] for i in it)
            out.append(Case(f"#[derive(StructMeta)] «#[struct_meta({' '.join(ts)})]» pub struct A {{ pub a: LitInt }}", ok, "token sequences as settings of the type", True))
    for n in range((6 if thorough else 4) + 1):
        for ts in product(["name", "=", '"p"', ",", "unnamed", "x"][: 5 if n > 4 else 6], repeat=n):
            it = soup_items(ts)
            forms = it is not None and all(i in (["unnamed"], ["name", "=", '"p"']) for i in it)
            if forms and len(it) > 1:
                continue  # several settings of one field: not documented
            out.append(Case(f"#[derive(StructMeta)] pub struct A {{ «#[struct_meta({' '.join(ts)})] pub a: LitInt», pub b: bool }}", forms, "token sequences as settings of a field", True))
    return out


def mark_soups(thorough):
    from itertools import product
    out = []
    for n in range((5 if thorough else 4) + 1):
        for ts in product(["any", "peek", "terminated", ",", "=", "x"][: 5 if n > 4 else 6], repeat=n):
            it = soup_items(ts)
            forms = it is not None and all(i in (["any"], ["peek"], ["terminated"]) for i in it)
            if forms and len({i[0] for i in it}) < len(it):
                continue  # the same mark twice: not documented
            term = forms and ["terminated"] in it
            if term and ["peek"] in it:
                continue  # a list cannot be peeked: among the peek types
            ty = "Punctuated<Ident, Token![,]>" if term else "Ident"
            out.append(Case(f"#[derive(Parse)] pub enum A {{ X {{ «#[parse({' '.join(ts)})] a: {ty}» }}, Y }}", forms, "token sequences as marks", True))
    for der in ("Parse", "ToTokens"):
        for n in range((5 if thorough else 3) + 1):
            for ts in product(['"("', '")"', '""', ",", "=", "x"][: 5 if n > 4 else 6], repeat=n):
                it = soup_items(ts)
                forms = it is not None and all(len(i) == 1 and i[0][0] == '"' for i in it)
                marks = "".join(i[0].strip('"') for i in it) if forms else ""
                ty = "Paren" if "(" in marks else "LitInt"
                ok = forms and marks_valid([("", "LitInt"), (marks, ty)])
                if ok is not None:
                    out.append(Case(f"#[derive({der})] pub struct A(pub LitInt, «#[to_tokens({' '.join(ts)})] pub {ty}»);", ok, "token sequences as marks", True))
    return out


# ---------------------------------------------------------------------------------------------
# Parse and ToTokens definitions

OPENS = {"(": "Paren", "[": "Bracket", "{": "Brace"}
CLOSES = {")": "(", "]": "[", "}": "{"}


def marks_valid(fields):
    """fields: (marks, type). None: the documentation does not say (several groups opened by one field)."""
    stack = []
    for marks, ty in fields:
        opened = 0
        for c in marks:
            if c in OPENS:
                opened += 1
                if ty != "MacroDelimiter" and ty != OPENS[c]:
                    return False
                stack.append(c)
            elif c in CLOSES:
                if not stack or stack.pop() != CLOSES[c]:
                    return False
            else:
                return False
        if opened > 1:
            return None
        if opened == 0 and ty in ("Paren", "Bracket", "Brace", "MacroDelimiter"):
            return False  # a delimiter token by itself can neither be parsed nor emitted
    return True


def marks_fault(fields):
    """The fields concerned when marks do not close what they open, whatever the types are."""
    stack = []
    for i, (marks, _) in enumerate(fields):
        for c in marks:
            if c in OPENS:
                stack.append((c, i))
                continue
            if c not in CLOSES or not stack:
                return {i}
            o, j = stack.pop()
            if o != CLOSES[c]:
                return {i, j}
    return set()


def mark_def(fields, derives, style, kind, enum):
    fs, at = [], marks_fault(fields)
    for i, (marks, ty) in enumerate(fields):
        if not marks:
            a = ""
        elif style == 0:
            a = f'#[to_tokens("{marks}")] '
        elif style == 1:
            a = "#[to_tokens(" + ", ".join(f'"{c}"' for c in marks) + ")] "
        else:
            a = "".join(f'#[to_tokens("{c}")] ' for c in marks)
        p = "" if enum else "pub "
        fs.append(f"{a}{p}{ty}" if kind else f"{a}{p}f{i}: {ty}")
        if i in at:
            fs[-1] = f"«{fs[-1]}»"
    body = f"({', '.join(fs)})" if kind else f" {{ {', '.join(fs)} }}"
    if enum:
        return f"#[derive({derives})] pub enum A {{ X, Y{body}, Z(LitInt) }}"
    return f"#[derive({derives})] pub struct A{body}" + (";" if kind else "")


def mark_cases(alphabets, label):
    from itertools import product
    out = []
    for k, c in enumerate(product(*alphabets)):
        ok = marks_valid(c)
        if ok is None:
            continue
        for j, der in enumerate(("Parse", "ToTokens")):
            n = k + j
            out.append(Case(mark_def(c, der, n % 3, (n // 3) % 2, (n // 6) % 3 == 0), ok, label, bool(marks_fault(c))))
    return out


def mark_wide(sizes):
    """Many fields, many groups, many variants, of which one is wrong, in every place."""
    out = []
    op, ty = "([{", ("Paren", "Bracket", "Brace")

    def both(fields, n):
        for j, der in enumerate(("Parse", "ToTokens")):
            ok = marks_valid(fields)
            if ok is not None:
                out.append(Case(mark_def(fields, der, n % 3, (n + j) % 2, (n // 2) % 2 == 0), ok, "many fields", bool(marks_fault(fields))))
    for n in sizes:
        ends = [i for i in range(n) if n < 10 or i in (0, 1, 7, 8, 15, 16, n // 2, n - 2, n - 1)]
        row = [("", "LitInt")] * n                                                            # no groups
        pairs = [(op[i // 2 % 3], ty[i // 2 % 3]) if i % 2 == 0 else (")]}"[i // 2 % 3], "LitInt") for i in range(n)]   # one after the other
        if n % 2:
            pairs[-1] = ("", "LitInt")
        nest = [(op[i % 3], ty[i % 3]) for i in range(n // 2)] + [(")]}"[(n // 2 - 1 - i) % 3], "LitInt") for i in range(n // 2)]
        for fields in (row, pairs, nest, nest[:n // 2] + [("".join(m for m, _ in nest[n // 2:]), "Ident")]):
            both(fields, n)
            for i in ends:
                if i >= len(fields):
                    continue
                for m in (")", "]", "}", "x", "(", "["):
                    f = list(fields)
                    f[i] = (m, f[i][1])
                    both(f, i)
                if fields[i][0] and fields[i][0] in op:
                    for t in ("LitInt", "Paren", "Bracket", "MacroDelimiter"):
                        f = list(fields)
                        f[i] = (f[i][0], t)
                        both(f, i)
        # variants
        for der in ("Parse", "ToTokens"):
            for i in ends:
                for wrong, ok in (('«#[to_tokens(")")] LitInt»', False), ('#[to_tokens("(")] Paren, LitInt', True), ('#[to_tokens("(")] Paren, «#[to_tokens("]")] LitInt»', False),
                                  ('«#[to_tokens(x)] LitInt»', False)) + ((("«#[parse(x)] LitInt»", False), ('#[to_tokens("(")] Paren, «#[parse(peek)] LitInt»', False),
                                                                          ("LitInt, «#[parse(peek)] Ident»", False)) if der == "Parse" else ()):
                    vs = [f"V{k}(LitInt)" if k % 3 == 0 else f"V{k} {{ a: Ident }}" if k % 3 == 1 else f"V{k}" for k in range(n)]
                    vs[i] = f"W({wrong})"
                    out.append(Case(f"#[derive({der})] pub enum A {{ {', '.join(vs)} }}", ok, "many variants", not ok))
    return out


def p07_cases(thorough):
    from itertools import product
    out = []
    strs = lambda chars, n: [""] + ["".join(c) for k in range(1, n + 1) for c in product(chars, repeat=k)]
    types = ["LitInt", "Paren", "Bracket", "Brace", "MacroDelimiter"]
    one = list(product(strs("()[]{}", 2) + ["()(", "())", "([)]", "())("], types))
    out += mark_cases([one], "1 field")
    for der in ("Parse", "ToTokens", "Parse, ToTokens"):
        for c in one:
            if marks_valid([c]) is not None:
                for kind in (0, 1):
                    for enum in (False, True):
                        out.append(Case(mark_def([c], der, 0, kind, enum), marks_valid([c]), "1 field", bool(marks_fault([c]))))
    out += mark_cases([list(product(strs("()[]{}", 1), types))] * 2, "2 fields")
    out += mark_cases([list(product(strs("([{", 1)[1:], types[1:])), list(product(strs(")]}([{", 2), ["LitInt", "Paren", "MacroDelimiter"]))], "2 fields")
    t3 = ["LitInt", "Paren", "MacroDelimiter"] if thorough else ["LitInt", "Paren"]
    out += mark_cases([list(product(strs("()[]", 1), t3))] * 3, "3 fields")
    fit = [("(", "Paren"), ("[", "Bracket"), ("{", "MacroDelimiter")]
    out += mark_cases([fit, fit + [("", "LitInt")], [(s, "LitInt") for s in strs(")]}", 3 if thorough else 2)]], "closing two groups")
    if thorough:
        out += mark_cases([fit, fit, fit, [(s, "LitInt") for s in strs(")]}", 3)]], "closing three groups")
        out += mark_cases([fit, [(s, "LitInt") for s in strs(")]}", 1)], fit + [(")(", "Paren"), ("](", "Paren"), ("}[", "Bracket")], [(s, "LitInt") for s in strs(")]}", 2)]], "4 fields")
    # marks that are no delimiters, malformed marks
    for der in ("Parse", "ToTokens", "Parse, ToTokens"):
        bad = ['"x"', '"<"', '"("', '" "', '"( "', '"é"', '"（"', "'('", "1", "unknown", 'dumps', '"(" ")"', '"(";', ",", '=', "()", '"(", unknown', 'b"("', '"," ']
        for m in bad:
            for pos in range(3):
                fs = ["LitInt", "LitInt", "LitInt"]
                fs[pos] = f"#[to_tokens({m})] LitInt" if m == '"("' else f"«#[to_tokens({m})] LitInt»"
                out.append(Case(f"#[derive({der})] pub struct A({', '.join('pub LitInt' if f == 'LitInt' else f for f in fs)});", False, "malformed marks", m != '"("'))
                out.append(Case(f"#[derive({der})] pub enum A {{ X({', '.join(fs)}), Y }}", False, "malformed marks", m != '"("'))
                out.append(Case(f"#[derive({der})] pub enum A {{ Y, X {{ {', '.join(f.replace('LitInt', f'f{i}: LitInt') for i, f in enumerate(fs))} }} }}", False, "malformed marks", m != '"("'))
        for m in ("#[to_tokens]", '#[to_tokens = "("]'):
            out.append(Case(f"#[derive({der})] pub struct A(«{m} pub Paren»);", False, "malformed marks", True))
            out.append(Case(f"#[derive({der})] pub enum A {{ X(LitInt), Y(«{m} Paren») }}", False, "malformed marks", True))
            if "ToTokens" in der:
                out.append(Case(f"#[derive({der})] {m} pub struct A(pub LitInt);", False, "malformed marks", True))
        for m in ("unknown", "1", "dump = 1", "unknown, unknown"):
            out.append(Case(f"#[derive({der})] «#[to_tokens({m})]» pub struct A(pub LitInt);", "ToTokens" not in der, "settings of the type", True)) if "ToTokens" in der else None
        for m in ('#[to_tokens()]', '#[to_tokens("")]', '#[to_tokens()] #[to_tokens("")]', '#[doc = "d"]', "#[allow(dead_code)]"):
            out.append(Case(f"#[derive({der})] pub struct A({m} pub LitInt, pub Ident);", True, "settings"))
            out.append(Case(f"#[derive({der})] pub enum A {{ X({m} LitInt), Y {{ {m} a: LitInt }} }}", True, "settings"))
        for u in ("union A { a: u8 }", "union A { a: std::mem::ManuallyDrop<LitInt> }", "union A { a: u8, b: u16 }"):
            out.append(Case(f"#[derive({der})] pub {u}", False, "unions", "any place"))
        for t in ("struct A;", "struct A();", "struct A {}", "enum A { X }", "enum A { X, Y }", "enum A { X(), Y {}, Z }"):
            out.append(Case(f"#[derive({der})] pub {t}", True, "no fields"))
        # fields that cannot be parsed or emitted
        for ty in (["TokenStream2", "Punctuated<LitInt, Token![,]>", "()"] if "Parse" in der else ["()", "HashMap<String, LitInt>", "Vec<LitInt>"]):
            out.append(Case(f"#[derive({der})] pub struct A(pub LitInt, pub {ty});", False, "field types"))
            out.append(Case(f"#[derive({der})] pub enum A {{ X(LitInt), Y(LitInt, {ty}) }}", False, "field types"))
    out.append(Case("#[derive(ToTokens)] pub enum A {}", True, "no fields"))
    out.append(Case("#[derive(Parse)] pub enum A {}", True, "no fields"))

    # settings of derive(Parse) fields
    good = [("any", "Ident"), ("terminated", "Punctuated<LitInt, Token![,]>"), ("any, terminated", "Punctuated<Ident, Token![,]>"),
            ("terminated, any", "Punctuated<Ident, Token![,]>"), ("any,", "Ident"), ("", "LitInt"), ("any, any", "Ident"),
            ("terminated,", "Punctuated<LitInt, Token![,]>")]
    bad = [("unknown", "LitInt"), ("any = 1", "Ident"), ("any()", "Ident"), ("peek = 1", "LitInt"), ("peek()", "LitInt"), ("any terminated", "Punctuated<Ident, Token![,]>"),
           (",", "LitInt"), ('"any"', "Ident"), ("1", "LitInt"), ("Any", "Ident"), ("terminate", "Punctuated<LitInt, Token![,]>"), ("any,,", "Ident"),
           ("any; peek", "Ident"), ("any, unknown", "Ident"), ("unknown, any", "Ident"), ("peeks", "LitInt"), ("any", "LitInt"), ("any", "Expr"),
           ("terminated", "LitInt"), ("terminated", "Vec<LitInt>"), ("terminated, any", "Punctuated<LitInt, Token![,]>"), ("any", "Punctuated<Ident, Token![,]>"),
           ("terminated, any", "Ident"), ("r#any", "Ident")]
    raw = [("#[parse]", "Ident"), ('#[parse = "any"]', "Ident"), ("#[parse(any)] #[parse(unknown)]", "Ident"), ("#[parse(unknown)] #[parse(any)]", "Ident")]
    for settings, ok in (([(f"#[parse({m})]" if m or True else "", t) for m, t in good], True), ([(f"#[parse({m})]", t) for m, t in bad], False), (raw, False)):
        for a, ty in settings:
            if a == "#[parse(r#any)]":
                continue
            own = a[8:-2] not in ("any", "terminated", "terminated, any")
            for pos in range(3):
                fs = ["LitInt", "Token![=]", "LitInt"]
                fs.insert(pos, f"{a} {ty}")
                if own:
                    fs[pos] = f"«{fs[pos]}»"
                out.append(Case(f"#[derive(Parse)] pub struct A({', '.join(fs)});", ok, "parse settings", own))
                rec = [f"«{a} f{i}: {ty}»" if "«" in f else f"{a} f{i}: {ty}" if f.startswith("#") else f"f{i}: {f}" for i, f in enumerate(fs)]
                out.append(Case(f"#[derive(Parse)] pub struct A {{ {', '.join(rec)} }}", ok, "parse settings", own))
                out.append(Case(f"#[derive(Parse)] pub enum A {{ X, Y({', '.join(fs)}), Z {{ {', '.join(rec)} }} }}", ok, "parse settings", own))
    for m in ("unknown", "1", "dump = 1", "any = 1"):
        out.append(Case(f"#[derive(Parse)] «#[parse({m})]» pub struct A(pub LitInt);", False, "settings of the type", True))
        out.append(Case(f"#[derive(Parse)] «#[parse({m})]» pub enum A {{ X(LitInt) }}", False, "settings of the type", True))
    # peek: every mask over every shape
    out += peek_cases(thorough)
    out += mark_soups(thorough) + mark_wide((5, 9, 17) if not thorough else (5, 9, 17, 33, 65))
    for ty, ok in (("LitInt", True), ("Ident", True), ("Token![=]", True), ("Token![type]", True), ("LitStr", True), ("syn::Lifetime", True),
                   ("proc_macro2::Ident", False), ("Option<LitInt>", False), ("Expr", False), ("Type", False), ("Box<LitInt>", False),
                   ("Punctuated<LitInt, Token![,]>", False), ("B", False)):
        if ty == "proc_macro2::Ident":
            pass
        pre = "#[derive(Parse)] pub struct B(pub LitInt);\n" if ty == "B" else ""
        for e in (f"X(#[parse(peek)] {ty}), Y", f"Y, X {{ #[parse(peek)] a: {ty}, b: LitInt }}", f"X(#[parse(peek)] LitInt, #[parse(peek)] {ty})"):
            out.append(Case(f"{pre}#[derive(Parse)] pub enum A {{ {e} }}", ok, "peek types"))
    for m, ty, ok in (("peek, any", "Ident", True), ("any, peek", "Ident", True), ("peek, any", "LitInt", False), ("peek, terminated", "Punctuated<LitInt, Token![,]>", False)):
        out.append(Case(f"#[derive(Parse)] pub enum A {{ X(#[parse({m})] {ty}), Y }}", ok, "peek types"))
    for o, ty, ok in (("(", "Paren", True), ("[", "Bracket", True), ("{", "Brace", True), ("{", "MacroDelimiter", False)):
        out.append(Case(f'#[derive(Parse)] pub enum A {{ X(#[to_tokens("{o}")] #[parse(peek)] {ty}, LitInt), Y }}', ok, "peek types"))
        out.append(Case(f'#[derive(Parse)] pub enum A {{ Y, X {{ #[parse(peek)] #[to_tokens("{o}")] a: {ty}, b: LitInt }} }}', ok, "peek types"))
    return out


def peek_cases(thorough):
    from itertools import product
    from . import sn
    out = []
    leaf = ["LitInt", "Ident", "Token![=]", "LitStr", "LitInt", "Ident"]
    shapes = [s for n in range(1, 5) for s in sn.shapes(n, delims=("Paren",), after=n < 4)]
    shapes += list(sn.shapes(5, delims=(), after=False))
    if thorough:
        shapes += list(sn.shapes(4, delims=("Paren",), after=True)) + list(sn.shapes(5, delims=("Paren",), after=False)) + list(sn.shapes(6, delims=(), after=False))
    for k, s in enumerate(shapes):
        for mask, style in product(product((0, 1), repeat=len(s)), range(3)):
            # style 0: plain fields; 1: names marked any; 2: lists marked terminated where nothing is peeked
            if not any(mask) or style and len(s) > 4 and not thorough or style == 2 and all(mask):
                continue
            depth, ok, peeks, gap, fs, at = 0, True, 0, False, [], set()
            for i, (f, p) in enumerate(zip(s, mask)):
                depth -= f.closes
                root = depth == 0
                m = ")" * f.closes + ("(" if f.opens else "") + ")" * f.after
                depth += (1 if f.opens else 0) - f.after
                # a field after whose marks the group is closed again stands outside
                root = root or (f.after > 0 and depth == 0)
                if p:
                    peeks += 1
                    if not root or gap or peeks > 3:
                        ok = False
                elif root:
                    gap = True
                a = f'#[to_tokens("{m}")] ' if m else ""
                ty, marks = "Paren" if f.opens else leaf[i], ["peek"] * p
                if style == 1 and not f.opens:
                    ty = "Ident"
                    marks.insert((k + i) % 2, "any")
                elif style == 2 and not f.opens and not p:
                    ty, marks = ("Punctuated<Ident, Token![,]>", ["any", "terminated"]) if (k + i) % 2 else ("Punctuated<LitInt, Token![,]>", ["terminated"])
                b = f"#[parse({', '.join(marks)})] " if k % 2 and marks else "".join(f"#[parse({m})] " for m in marks)
                a = b + a if (k + i) % 2 else a + b
                fs.append((a, ty))
                if p and (not root or gap or peeks > 3):
                    at.add(i)
            if any(f.after > 1 for f in s):
                continue  # a token of an inner group whose marks leave it: not something one can peek at or not
            kind = (k + sum(mask)) % 2
            text = [a + t if kind else f"{a}f{i}: {t}" for i, (a, t) in enumerate(fs)]
            text = [f"«{t}»" if i in at else t for i, t in enumerate(text)]
            body = "(" + ", ".join(text) + ")" if kind else " { " + ", ".join(text) + " }"
            vs = [f"X{body}", "Y(LitInt)"]
            out.append(Case("#[derive(Parse)] pub enum A { " + ", ".join(vs if k % 3 else vs[::-1]) + " }", ok, "peek placement", True))
    return out
