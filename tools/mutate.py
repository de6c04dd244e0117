#!/usr/bin/env python3
"""Systematic mutants of structmeta that its own tests do not notice, and which checks notice them.
usage: mutate.py DIR gen        list all mutants in DIR/mutants.jsonl
       mutate.py DIR filter     keep those that compile and pass the stable tests (DIR/alive.jsonl)
       mutate.py DIR hunt K N   run the checks (from a copy of the committed /verif) on every N-th from the K-th of those in DIR/todo.jsonl
                                (chosen by hand from the survivors: exchanges of declarations and the like left out), results in DIR/hunt.jsonl
DIR is a scratch folder outside /repo and /verif."""
import concurrent.futures, json, os, re, shutil, subprocess, sys
top, what = os.path.abspath(sys.argv[1]), sys.argv[2]
FILES = ["structmeta-derive/src/" + f for f in ("lib.rs", "parse.rs", "struct_meta.rs", "syn_utils.rs", "to_tokens.rs", "to_tokens_attribute.rs")] \
    + ["structmeta/src/helpers.rs", "structmeta/src/arg_types.rs"]
SUBS = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "), (r" < ", " > "), (r"&&", "||"), (r"\|\|", "&&"), (r"!(?=[a-z(])", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r" \+ ", " - "), (r" - ", " + "), (r"\+= 1", "+= 2"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
        (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.rev\(\)", ""), (r"\.unraw\(\)", ""), (r"\.is_ok\(\)", ".is_err()"),
        (r"is_empty\(\)", "is_empty() == false"), (r"\bSome\((\w+)\)(?=[;,)])", "None"), (r"\.or\(", ".and("), (r"\.take\(\)", ".clone()"), (r"\bFlag\b", "NameValue"), (r"\bNameValue\b", "NameArgs"),
        (r"\bNameArgs\b", "Flag"), (r"\bcontinue\b", "break"), (r"\bmax\(", "min("), (r"\|= ", "= "), (r"skip\(1\)", "skip(0)"), (r"quote_spanned!\([^=]*=>", "quote!("), (r"\.span\(\)", ".span().resolved_at(proc_macro2::Span::call_site())"),
        (r", span = [^)]*\)", ")"), (r"peek2", "peek"), (r"Paren\b", "Bracket"), (r"Bracket\b", "Brace"), (r"Brace\b", "Paren"), (r"\.clone\(\)", ""), (r"'\('", "'['"), (r"'\['", "'{'"), (r"::parse_any", "::parse"),
        (r"name_span", "Span::call_site()"), (r"\belse if (?!let)(.*) \{", "else if false {"), (r"\bif (?!let)(?!.*else)(.*) \{$", "if true {"), (r"\bif (?!let)(?!.*else)(.*) \{$", "if false {"),
        (r"\)\?;$", ").ok();"), (r"\.sort\w*\(.*\);$", ";"), (r"\bReq\b", "Opt"), (r"\bis_", "!is_"), (r"#\[deny\(.*", ""), (r"#\[allow\(.*", ""), (r"\bSelf\b", "::Self"), (r"\.unwrap_or\(([^)]*)\)", ".unwrap()")]


def code_lines(text):
    lines = text.split("\n")
    test = False
    for i, l in enumerate(lines):
        if "#[test]" in l:
            test = True
        if test:
            if l == "}":
                test = False
            continue
        s = l.strip()
        if s and not s.startswith("//") and not s.startswith("use ") and s not in ("{", "}", ");", "};", "});"):
            yield i, l


def gen():
    out, seen = [], set()
    for f in FILES:
        text = open("/repo/" + f).read()
        lines = text.split("\n")
        for i, l in code_lines(text):
            new = []
            for a, b in SUBS:
                for m in re.finditer(a, l):
                    new.append(l[:m.start()] + m.expand(b.replace("\\", "\\\\")) + l[m.end():])
            if l.strip().endswith(";") or l.strip().endswith(",") or l.strip().startswith(("#[", ".")):
                new.append("")
            for n in new:
                key = (f, i, n)
                if n != l and key not in seen:
                    seen.add(key)
                    out.append(dict(id=len(out), file=f, line=i + 1, old=l, new=n))
        # two neighbouring statements or arms exchanged
        for i in range(len(lines) - 1):
            a, b = lines[i], lines[i + 1]
            if a.strip().endswith((";", ",")) and b.strip().endswith((";", ",")) and a != b and len(a) - len(a.lstrip()) == len(b) - len(b.lstrip()) and not a.strip().startswith(("//", "use ")):
                out.append(dict(id=len(out), file=f, line=i + 1, old=a + "\n" + b, new=b + "\n" + a))
    with open(top + "/mutants.jsonl", "w") as o:
        for m in out:
            o.write(json.dumps(m) + "\n")
    print(len(out), "mutants")


def load(name):
    p = f"{top}/{name}.jsonl"
    return [json.loads(l) for l in open(p)] if os.path.exists(p) else []


def apply(repo, m):
    p = f"{repo}/{m['file']}"
    lines = open("/repo/" + m["file"]).read().split("\n")
    n = m["old"].count("\n") + 1
    lines[m["line"] - 1:m["line"] - 1 + n] = [m["new"]]
    open(p, "w").write("\n".join(lines))


def restore(repo, m):
    shutil.copy("/repo/" + m["file"], f"{repo}/{m['file']}")


ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.98.1-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")


def worker(k, ms):
    base = f"{top}/w{k}"
    repo = base + "/repo"
    if not os.path.exists(repo):
        os.makedirs(base)
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        open(base + "/env.sh", "w").write(open("/opt/vp/env.sh").read().replace("cd /repo", "cd " + repo))
        open(base + "/test.sh", "w").write(open("/opt/vp/test.sh").read().replace(". /opt/vp/env.sh", f". {base}/env.sh"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for m in ms:
        apply(repo, m)
        r = "build"
        c = subprocess.run(f". {base}/env.sh; cargo test --workspace --no-run --offline", shell=True, executable="/bin/bash", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if c.returncode == 0:
            r = "tests"
            try:
                subprocess.run(["bash", base + "/test.sh", base + "/o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
                if os.path.exists(base + "/o.json") and stable <= set(json.load(open(base + "/o.json"))["passed"]):
                    r = "alive"
                os.path.exists(base + "/o.json") and os.remove(base + "/o.json")
            except subprocess.TimeoutExpired:
                r = "timeout"
        restore(repo, m)
        with open(top + "/filter.jsonl", "a") as o:
            o.write(json.dumps(dict(m, result=r)) + "\n")


def filt():
    done = {m["id"] for m in load("filter")}
    ms = [m for m in load("mutants") if m["id"] not in done]
    n = 6
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        list(ex.map(lambda k: worker(k, ms[k::n]), range(n)))
    from collections import Counter
    print(Counter(m["result"] for m in load("filter")))


def hunt():
    k, n = int(sys.argv[3]), int(sys.argv[4])
    v, repo = f"{top}/h{k}/verif", f"{top}/h{k}/repo"
    os.makedirs(f"{top}/h{k}", exist_ok=True)
    for p in (v, repo):
        os.path.exists(p) and shutil.rmtree(p)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    subprocess.run(["git", "clone", "-q", "/verif", v], check=True)
    toml = v + "/mc/Cargo.toml"
    text = open(toml).read().replace('"/repo/', f'"{repo}/')
    open(toml, "w").write(text)
    env = dict(ENV, VERIF_REPO=repo, VERIF_TIER="quick")
    subprocess.run(["python3", v + "/tools/setup.py"], env=env)
    props = [json.loads(l)["id"] for l in open(v + "/properties.jsonl")]
    done = {m["id"] for m in load("hunt")}
    hits = {p: 0 for p in props}
    for m in load("todo")[k::n]:
        if m["id"] in done:
            continue
        apply(repo, m)
        by, err = None, []
        derive = m["file"].split("/")[-1]
        mine = {"parse.rs": "PG", "to_tokens.rs": "PG", "to_tokens_attribute.rs": "PG", "struct_meta.rs": "CG", "arg_types.rs": "C"}.get(derive, "CPG")
        first = ["G03"] if "dump" in m["old"].lower() else [p for p in ("C14", "P07") if p[0] in mine]
        if derive == "helpers.rs":
            first = ["C18", "C11", "C10", "C17"]
        order = first + sorted((p for p in props if p[0] in mine and p not in first), key=lambda p: (p[0] == "G", -hits[p]))
        for p in order:
            r = subprocess.run(["python3", v + "/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                by = p
                hits[p] += 1
                break
            if r.returncode:
                err.append((p, r.stdout[-300:]))
                if len(err) > 2:
                    break
        restore(repo, m)
        with open(top + "/hunt.jsonl", "a") as o:
            o.write(json.dumps(dict(m, by=by, errors=err)) + "\n")


{"gen": gen, "filter": filt, "hunt": hunt}[what]()
