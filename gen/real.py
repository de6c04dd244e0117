"""The same tokens from text, from a program, and from the compiler in a procedural macro (G04)."""
import json, os
from . import core, sm, sn

PM_TOML = """[package]
name = "{name}"
version = "0.0.0"
edition = "2024"
publish = false

[lib]
proc-macro = true

[dependencies]
mc = {{ path = "{verif}/mc" }}
structmeta = {{ path = "{repo}/structmeta" }}
syn = {{ version = "3.0.0", features = ["full", "extra-traits"] }}
quote = "1.0.35"
proc-macro2 = {{ version = "1.0.78", features = ["span-locations"] }}
"""
PM_TAIL = """
fn replay(i: proc_macro::TokenStream) -> proc_macro::TokenStream {{
    mc::real::replay(&all::table(), "::{name}::call", i.into()).into()
}}
/// In a call.
#[proc_macro]
pub fn call(i: proc_macro::TokenStream) -> proc_macro::TokenStream {{
    replay(i)
}}
/// In an attribute.
#[proc_macro_attribute]
pub fn attr(i: proc_macro::TokenStream, _: proc_macro::TokenStream) -> proc_macro::TokenStream {{
    replay(i)
}}
/// In an attribute of a derive.
#[proc_macro_derive(Helper, attributes(helper))]
pub fn helper(i: proc_macro::TokenStream) -> proc_macro::TokenStream {{
    let i: syn::DeriveInput = syn::parse(i).unwrap();
    let syn::Meta::List(l) = &i.attrs[0].meta else {{ panic!() }};
    replay(l.tokens.clone().into())
}}
"""


def header():
    """What definitions of both sorts need; the names that clash are imported per module."""
    return """#![allow(dead_code, unused_imports, non_snake_case, non_camel_case_types, mixed_script_confusables, uncommon_codepoints)]"""


def module(d, k):
    """A definition in a module of its own, with the imports of its sort."""
    head = (sm if isinstance(d, sm.D) else sn).HEADER.split("\n", 1)[1].replace("#[allow(unused_extern_crates)] extern crate alloc;", "")
    return f"mod w{k} {{\n{head}\n{d.code(k)}\n}}"


def entry(d, k):
    return f"mc::real::Def::{'Sm' if isinstance(d, sm.D) else 'Sn'}(&w{k}::d{k}::DEF)"


def explore(res, defs, passes, editions, modes):
    for k, d in enumerate(defs):
        if isinstance(d, sm.D):
            sm.spell(d, k)
    parts = core.spread(list(range(len(defs))), core.JOBS)
    p = core.Program("G04")
    for b, part in enumerate(parts):
        pieces = [(module(defs[k], k), defs[k].source()) for k in part]
        table = ",\n".join(f'("{defs[k].fam}", {entry(defs[k], k)}, {j})' for j, k in enumerate(part))
        p.add_bin(f"b{b}", header(), pieces, "fn main() { mc::real::main(&[" + table + "]) }")
    errors = p.build()
    if errors:
        res.compile_errors(errors)
        return
    lines = {b: os.path.join(p.dir, f"b{b}.lines") for b in range(len(parts))}
    for b in range(len(parts)):
        if os.path.exists(lines[b]):
            os.remove(lines[b])
    for r in p.run_each({f"b{b}": [lines[b], "every" if core.TIER == "thorough" else "accepted", *passes] for b in range(len(parts))}):
        res.merge(r)
    total, whats = 0, {}
    for ed in editions:
        u = core.Program("G04U" + ed, edition=ed)
        u.deps = []
        for b, part in enumerate(parts):
            name = f"g04pm{b}"
            d = os.path.join(u.dir, name)
            core.write_if_changed(os.path.join(d, "Cargo.toml"), PM_TOML.format(name=name, verif=core.VERIF, repo=core.REPO))
            text = header() + "\nmod all {\n" + "\n".join(module(defs[k], k) for k in part)
            text += "\npub fn table() -> Vec<mc::real::Def> { vec![" + ", ".join(entry(defs[k], k) for k in part) + "] }\n}\n"
            core.write_if_changed(os.path.join(d, "src", "lib.rs"), text + PM_TAIL.format(name=name))
            u.more_deps += f'{name} = {{ path = "{name}" }}\n'
            calls, frags, n, what = ([], [], []), [], 0, {}
            for line in open(lines[b]):
                j, inp, want, fs = json.loads(line)
                src, q = defs[part[j]].source(), rust_str(want)
                for mode in modes:
                    calls[n % 3 if mode == "each" else mode].append(f"{{{n} {j} {q} all\n{inp}\n}}")
                    what[n] = (src, inp)
                    n += 1
                for a, e, kind in fs:
                    frags.append((kind, inp[a:e], f"{{{n} {j} {q} no_place\n{inp[:a]} $x% {inp[e:]}\n}}"))
                    what[n] = (src, f"{inp}   (with `{inp[a:e]}` a macro fragment of kind {kind})")
                    n += 1
            text = ["#![allow(dead_code, unused_macros)]"]
            for i, c in enumerate(chunks(calls[0])):
                text.append(f"::{name}::call! {{{c}}}")
            for i, c in enumerate(chunks(calls[1])):
                text.append(f"#[::{name}::attr({c})] struct A{i};")
            for i, c in enumerate(chunks(calls[2])):
                text.append(f"#[derive(::{name}::Helper)] #[helper({c})] struct H{i};")
            for i in range(0, len(frags), 40):
                part_ = frags[i:i + 40]
                pat = "; ".join(f"$x{m}:{k}" for m, (k, _, _) in enumerate(part_))
                body = "\n".join(t.replace("$x%", f"$x{m}") for m, (_, _, t) in enumerate(part_))
                text.append(f"macro_rules! m{i} {{ ({pat}) => {{ ::{name}::call! {{{body}}} }} }}")
                text.append(f"m{i}! {{{'; '.join(p for _, p, _ in part_)}}}")
            total += n
            whats[f"b{b}"] = what
            u.add_bin(f"b{b}", "\n".join(text), [], "fn main() {}")
        for b, _, text, m in u.build("check"):
            m = m["message"]
            if "G04 {" not in m:
                raise core.CheckError("G04: " + text)
            r = json.loads(m[m.index("G04 {") + 4:m.rindex("} END") + 1])
            d = whats[b][r["n"]]
            res.violations.append(core.Violation(r["class"], d[0], d[1], r["expected"], r["got"], REPLAY))
        res.coverage["transitions"] += total
    res.notes["inputs_given_by_the_compiler"] = total


def chunks(l):
    for i in range(0, len(l), 200):
        yield "\n".join(l[i:i + 200])


def rust_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


REPLAY = """Put the definition into a procedural macro crate (dependencies: /repo's structmeta, syn with feature full) and have its
macro parse its input with the definition's type; then call the macro with the input. The expected outcome is the
one for the same input as text (`syn::parse_str`). For `spans` give every token another span before parsing.
"""
