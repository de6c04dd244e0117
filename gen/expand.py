"""D01: one definition expanded after every history of other expansions, under every answer of the random source, at every place."""
import itertools, json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core

USE = "#[allow(unused_imports)] use structmeta::helpers::exports::{syn::{self, *, token::*, parse::Parse}, quote::ToTokens, proc_macro2}; use structmeta::{Flag, NameArgs, NameValue}; use std::collections::HashMap;"
KIND = ["bool", "Flag", "LitInt", "Option<LitInt>", "Vec<LitInt>", "NameValue<LitStr>", "Option<NameValue<Option<LitStr>>>", "NameArgs<LitInt>", "Option<NameArgs<Option<Vec<LitStr>>>>"]


def wide(n, step=1):
    return ", ".join(f"p{(i * step) % n}: {KIND[i % len(KIND)]}" for i in range(n))


POOL = [
    ("wide", "#[derive(structmeta::StructMeta)] #[struct_meta(dump, name_filter = \"snake_case\")] pub struct A { #[struct_meta(unnamed)] u: LitStr, " + wide(12, 5)
     + ", rest: HashMap<String, NameArgs<Option<LitInt>>>, #[struct_meta(unnamed)] o: Option<LitStr>, #[struct_meta(unnamed)] v: Vec<LitStr> }"),
    ("tuple", "#[derive(structmeta::StructMeta)] #[struct_meta(dump)] pub struct A(LitInt, #[struct_meta(name = \"b\")] Flag, #[struct_meta(name = \"a\")] Option<LitStr>, Option<LitInt>);"),
    ("enum", "#[derive(structmeta::Parse)] #[parse(dump)] pub enum A { P { #[parse(peek)] a: Ident, #[parse(peek)] b: Token![=] }, Q(LitInt), #[allow(unused)] R { #[to_tokens(\"(\")] g: MacroDelimiter, #[parse(terminated)] x: syn::punctuated::Punctuated<LitInt, Token![,]> }, S }"),
    ("both", "#[derive(structmeta::Parse, structmeta::ToTokens)] #[parse(dump)] #[to_tokens(dump)] pub struct A { #[to_tokens(\"(\")] p: Paren, a: LitInt, #[to_tokens(\"[\")] q: Bracket, b: Ident, #[to_tokens(\"])\")] c: LitStr }"),
    ("generic", "#[derive(structmeta::ToTokens)] #[to_tokens(dump)] pub enum A<'a, T: ToTokens + 'a, const N: usize> where T: Sized { X(T, &'a LitInt), Y { #[to_tokens(\"{\")] b: Brace, t: T }, Z }"),
    ("invalid parameters", "#[derive(structmeta::StructMeta)] pub struct A { a: LitInt, #[struct_meta(name = \"a\")] b: LitInt, #[struct_meta(name = \"a\")] c: Flag }"),
    ("invalid marks", "#[derive(structmeta::ToTokens, structmeta::Parse)] pub struct A { #[to_tokens(\"(\")] a: Paren, #[to_tokens(\"]\")] b: LitInt }"),
    ("union", "#[derive(structmeta::Parse, structmeta::StructMeta)] pub union A { a: u8 }"),
    ("no dump", "#[derive(structmeta::StructMeta)] pub struct A { " + wide(12) + " }"),
    ("no dump, both", "#[derive(structmeta::Parse, structmeta::ToTokens)] pub enum A { X { a: LitInt, b: Ident }, Y(LitStr), Z }"),
]
_G = ", ".join
# definitions that are wrong in several ways: always the same error at the same place; and large ones
POOL2 = [
    ("several names twice", "#[derive(structmeta::StructMeta)] pub struct A { " + _G(f"n{i}: LitInt, #[struct_meta(name = \"n{i}\")] m{i}: Flag" for i in range(4)) + " }"),
    ("wrong in every way", "#[derive(structmeta::StructMeta)] #[struct_meta(nope)] #[struct_meta(neither)] pub struct A { #[struct_meta(unnamed)] a: Vec<LitInt>, #[struct_meta(unnamed)] b: LitInt, c: HashMap<String, LitInt>, d: HashMap<String, Flag>, #[struct_meta(name = \"e\")] f: Flag, e: bool }"),
    ("many unnamed", "#[derive(structmeta::StructMeta)] pub struct A(Option<LitInt>, LitInt, Vec<LitInt>, LitInt, Flag, NameValue<LitInt>);"),
    ("many maps", "#[derive(structmeta::StructMeta)] pub struct A { a: HashMap<String, LitInt>, b: HashMap<String, LitStr>, c: HashMap<String, bool> }"),
    ("settings twice", "#[derive(structmeta::StructMeta)] #[struct_meta(name_filter = \"snake_case\", name_filter = \"snake_case\")] pub struct A { a: LitInt }"),
    ("marks in several fields", "#[derive(structmeta::Parse, structmeta::ToTokens)] pub enum A { P { #[to_tokens(\"x\")] a: Paren, #[parse(nope)] b: LitInt }, Q(#[to_tokens(\")\")] LitInt, #[parse(peek, nope)] LitInt), R(LitInt, #[parse(peek)] LitInt) }"),
    ("one name too many", "#[derive(structmeta::StructMeta)] #[struct_meta(dump)] pub struct A { " + wide(60, 7) + ", rest: HashMap<String, LitInt> }"),
    ("many variants", "#[derive(structmeta::Parse, structmeta::ToTokens)] #[parse(dump)] #[to_tokens(dump)] pub enum A { " + _G(f"V{i} {{ #[to_tokens(\"(\")] p: Paren, a: LitInt, b: Ident }}" if i % 3 else f"V{i}(#[parse(peek)] LitInt, #[parse(peek)] Ident)" for i in range(24)) + " }"),
    ("many predicates", "#[derive(structmeta::Parse, structmeta::ToTokens)] #[parse(dump)] #[to_tokens(dump)] pub struct A<T: Parse + ToTokens, U, V> where T: Clone, U: Parse + ToTokens, V: Parse, V: ToTokens, Vec<T>: Sized, Vec<U>: Sized, Vec<V>: Sized { a: T, b: U, c: V }"),
]
ALL = POOL + POOL2
DIR = os.path.join(core.BUILD, "D01")


class Compiler:
    def __init__(self):
        p = core.Program("D01base")
        p.add_bin("b0", "use structmeta as _;", [], "fn main() {}")
        core.prepare_target()
        p.write()
        rc, msgs, err = core.cargo_json(["build", "--bins"], p.dir)
        if rc:
            text = [m["message"]["rendered"] for m in msgs if m.get("reason") == "compiler-message" and m["message"]["level"] == "error"]
            raise core.CheckError("does not build:\n" + "\n".join(text) + err[-2000:])
        lib = [f for m in msgs if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "structmeta" for f in m["filenames"] if f.endswith((".rlib", ".rmeta"))]
        self.lib = lib[0]
        # the compiler itself: the rustup proxy would react to the environments below
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=core.ENV, stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        self.rustc = os.path.join(sysroot, "bin", "rustc")
        if os.path.isdir(DIR):
            shutil.rmtree(DIR)
        os.makedirs(DIR)

    def expand(self, job):
        """(number, source, {env}, {module line: key}, edition) -> {key: messages}"""
        k, header, mods, env, edition = job
        d = os.path.join(DIR, str(k))
        os.makedirs(d)
        lines = header.count("\n")
        src = header + "".join(f"pub mod d{i} {{ {USE}\n{t}\n}}\n" for i, t in enumerate(mods))
        f = os.path.join(d, "lib.rs")
        open(f, "w").write(src)
        e = dict(core.ENV)
        e["TMPDIR"] = d
        e.update(env)
        p = subprocess.run([self.rustc, "--edition", edition, "--crate-type", "lib", "--crate-name", "x", "--emit", "metadata", "--error-format", "json", "--extern", f"structmeta={self.lib}",
                            "-L", "dependency=" + os.path.join(core.ENV["CARGO_TARGET_DIR"], "debug", "deps"), "--out-dir", d, f], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=300)
        shutil.rmtree(d)
        out = [[] for _ in mods]
        for l in p.stderr.splitlines():
            if not l.startswith("{"):
                if l.strip():
                    raise core.CheckError("rustc: " + p.stderr[-2000:])
                continue
            m = json.loads(l)
            for s in m.get("spans", []):
                i = (s["line_start"] - 1 - lines) // 3
                if s["file_name"] == f and 0 <= i < len(mods):
                    t = mods[i]
                    col = s["column_start"] - (len(t) - len(t.lstrip(" ")) if (s["line_start"] - 1 - lines) % 3 == 1 else 0)
                    out[i].append("\n".join([f"column {col}: " + m["level"] + ": " + m["message"]] + [c["message"] for c in m["children"]]))
                    break
        return [sorted(o) for o in out]


def explore(res, thorough):
    c = Compiler()
    cov = res.coverage
    texts = [t for _, t in POOL]
    more = [t for _, t in POOL2]
    head = "#![allow(warnings)]\n"
    alone = []
    with ThreadPoolExecutor(core.JOBS) as ex:
        alone = [r[0] for r in ex.map(c.expand, [(f"alone{i}", head, [t], {}, "2024") for i, t in enumerate(texts + more)])]
    for (n, t), a in zip(POOL + POOL2, alone):
        if not n.startswith("no dump") and not a:
            raise core.CheckError(f"`{n}`: nothing of the expansion can be observed")
    outcomes = {json.dumps(a) for a in alone}

    def run(label, jobs, indices):
        """jobs, and for each the pool indices of its modules"""
        runs = seen = 0
        with ThreadPoolExecutor(core.JOBS) as ex:
            for job, idx, got in zip(jobs, indices, ex.map(c.expand, jobs)):
                runs += 1
                for pos, i in enumerate(idx):
                    seen += 1
                    outcomes.add(json.dumps(got[pos]))
                    if got[pos] != alone[i]:
                        before = ", ".join(ALL[j][0] for j in idx[:pos]) or "nothing"
                        res.violations.append(core.Violation("the same definition expands differently", ALL[i][1], f"{label}: after {before}; {job[3]} edition {job[4]}",
                                                             "\n".join(alone[i]), "\n".join(got[pos]),
                                                             replay="Compile the definition alone and in the stated situation and compare what `dump` shows.\n"))
        cov["states"] += runs
        cov["transitions"] += seen
        cov["traces_validated_against_impl"] += seen
        cov[label] = runs
    # every history of up to n expansions in one compiler process
    n = 4 if thorough else 3
    jobs, idx = [], []
    for k in range(2, n + 1):
        for s in itertools.product(range(len(POOL)), repeat=k):
            idx.append(s)
            jobs.append((len(jobs), head, [texts[i] for i in s], {}, "2024"))
    run("histories", jobs, idx)
    texts += more
    # the larger and the more faulty ones beside each other definition
    jobs, idx = [], []
    for s in itertools.product(range(len(texts)), repeat=2):
        if max(s) >= len(POOL):
            idx.append(s)
            jobs.append((f"m{len(jobs)}", head, [texts[i] for i in s], {}, "2024"))
    run("pairs_of_more", jobs, idx)
    # repetition
    jobs, idx = [], []
    for i in range(len(texts)):
        for times in (10, 100) if thorough else (40,):
            idx.append((i,) * times)
            jobs.append((f"r{len(jobs)}", head, [texts[i]] * times, {}, "2024"))
    run("repetitions", jobs, idx)
    # every answer of the random source
    so, order = os.path.join(DIR, "entropy.so"), os.path.join(DIR, "order")
    here = os.path.join(core.VERIF, "gen", "rs")
    subprocess.run(["cc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(here, "entropy.c")], check=True)
    subprocess.run(["rustc", "--edition", "2021", "-O", "-o", order, os.path.join(here, "order.rs")], check=True, env=core.ENV)
    pats = [f"{b:02x}" for b in range(256)]
    if thorough:
        pats += [f"{a:02x}{b:02x}" for a in range(0, 256, 8) for b in range(0, 256, 8) if a != b]
    orders = [set() for _ in range(12)]
    for p in pats:
        o = subprocess.run([order], env=dict(os.environ, LD_PRELOAD=so, ENTROPY=p), stdout=subprocess.PIPE, text=True, check=True).stdout.split()
        for k, x in enumerate(o):
            orders[k].add(x)
    reached = [len(o) for o in orders]
    cov["hashmap_orders_reached"] = {"2 keys": reached[0:4], "3 keys": reached[4:8], "4 keys": reached[8:12]}
    if min(reached[0:4]) < 2 or min(reached[4:8]) < 6 or min(reached[8:12]) < 24:
        raise core.CheckError(f"the answers of the random source do not reach every order of a small HashMap: {reached}")
    every = tuple(range(len(ALL)))
    run("random_source_answers", [(f"e{p}", head, texts, {"LD_PRELOAD": so, "ENTROPY": p}, "2024") for p in pats], [every] * len(pats))
    # places: position in the file, edition, environment
    jobs = []
    for ed in ("2018", "2021", "2024"):
        for lines in range(0, 6):
            for col in (0, 1, 40):
                jobs.append((f"p{len(jobs)}", head + "\n" * lines, [" " * col + t for t in texts], {}, ed))
    for k, env in enumerate(({"CARGO_PKG_NAME": "x", "CARGO_MANIFEST_DIR": "/x", "CARGO_CRATE_NAME": "x"}, {"HOME": "/"}, {"LANG": "C"}, {"LANG": "de_DE.UTF-8", "LC_ALL": "C"}, {"TZ": "Asia/Tokyo"},
                             {"RUST_BACKTRACE": "1"}, {"SOURCE_DATE_EPOCH": "0"}, {"PROFILE": "release", "OUT_DIR": "/x"})):
        jobs.append((f"q{k}", head, texts, env, "2024"))
    run("places", jobs, [every] * len(jobs))
    cov["definitions"] = len(ALL)
    cov["distinct_outcomes"] = len(outcomes)
