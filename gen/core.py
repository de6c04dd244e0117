"""Builds generated explorer programs against /repo's working tree, runs them, merges their reports."""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = os.cpu_count() or 8
TOOLCHAIN = "1.98.1-x86_64-unknown-linux-gnu"

ENV = dict(os.environ)
ENV.update(
    RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
    CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
)
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_PROFILE_DEV_DEBUG", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)

CARGO_TOML = """[package]
name = "{name}"
version = "0.0.0"
edition = "{edition}"
publish = false
autobins = false

[workspace]

[dependencies]
mc = {{ path = "{verif}/mc" }}
structmeta = {{ path = "{repo}/structmeta" }}
syn = {{ version = "3.0.0", features = ["full", "extra-traits"] }}
quote = "1.0.35"
proc-macro2 = {{ version = "1.0.78", features = ["span-locations"] }}

[profile.dev]
debug = 0
incremental = false
opt-level = 0
[profile.dev.package."*"]
opt-level = 1
[profile.dev.package.mc]
opt-level = 1
"""


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


class Violation:
    def __init__(self, what, definition, inp, expected, got, replay=""):
        self.what, self.definition, self.inp = what, definition, inp
        self.expected, self.got, self.replay = expected, got, replay

    def key(self):
        return f"{self.what} | {self.definition} | {self.inp}"


def repo_hash():
    h = hashlib.sha256()
    for sub in ("structmeta", "structmeta-derive", "Cargo.toml"):
        p = os.path.join(REPO, sub)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if f.endswith((".rs", ".toml", ".md")))
        for f in files:
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def prepare_target():
    """Cargo decides by mtime; make it decide by content."""
    t = ENV["CARGO_TARGET_DIR"]
    os.makedirs(t, exist_ok=True)
    mark = os.path.join(t, "repo-hash")
    h = repo_hash()
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != h:
        fp = os.path.join(t, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("structmeta"):
                    shutil.rmtree(os.path.join(fp, d))
        open(mark, "w").write(h)


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)


def cargo_json(args, cwd, timeout=800):
    """Exit code, messages and the end of what it wrote on stderr. What does not end in time is ended."""
    msgs, start = [], time.time()
    with tempfile.TemporaryFile("w+", errors="replace") as err:
        p = subprocess.Popen(["cargo", *args, "--offline", "--message-format=json"], cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                             stderr=err, text=True, start_new_session=True)
        late = threading.Timer(timeout, lambda: os.killpg(p.pid, signal.SIGKILL))
        late.start()
        try:
            for line in p.stdout:
                if line.startswith("{"):
                    try:
                        m = json.loads(line)
                    except ValueError:
                        continue
                    slim(m.get("message"))
                    msgs.append(m)
            p.wait()
        finally:
            late.cancel()
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        if time.time() - start >= timeout:
            raise subprocess.TimeoutExpired(p.args, timeout)
        err.seek(max(0, err.seek(0, 2) - 200000))
        return p.returncode, msgs, err.read()


def slim(m):
    """Without the copies of the source text, which macro calls make large."""
    if not isinstance(m, dict):
        return
    if len(m.get("rendered") or "") > 20000:
        m["rendered"] = m["rendered"][:20000] + "\n..."
    for sp in m.get("spans", []):
        while sp:
            sp["text"] = [t for t in sp.get("text", [])[:1] if len(t["text"]) < 20000]
            sp = (sp.get("expansion") or {}).get("span")
    for c in m.get("children", []):
        slim(c)


class Program:
    """A generated package with several binaries. Every definition's code is kept on known lines."""

    def __init__(self, name, toml_extra="", edition="2024"):
        self.name = name
        self.dir = os.path.join(BUILD, "gen-" + name)
        self.bins = {}   # bin -> text
        self.lines = {}  # bin -> list of (first line, last line, definition)
        self.toml_extra = toml_extra
        self.edition = edition
        self.deps = None  # names of the only dependencies to declare
        self.more_deps = ""

    def add_bin(self, name, header, pieces, footer):
        """pieces: list of (source text, definition or None)"""
        out, n, spans = [header], header.count("\n") + 2, []
        for text, d in pieces:
            k = text.count("\n")
            if d is not None:
                spans.append((n, n + k, d))
            out.append(text)
            n += k + 1
        out.append(footer)
        self.bins[name] = "\n".join(out) + "\n"
        self.lines[name] = spans

    def locate(self, bin_name, line):
        for a, b, d in self.lines.get(bin_name, []):
            if a <= line <= b:
                return d
        return None

    def line_of(self, bin_name, d):
        """The first line of a definition."""
        return next(a for a, _, x in self.lines[bin_name] if x is d)

    def write(self):
        toml = CARGO_TOML.format(name="gen-" + self.name.lower(), verif=VERIF, repo=REPO, edition=self.edition)
        if self.deps is not None:
            head, tail = toml.split("[dependencies]\n")
            deps, tail = tail.split("\n\n", 1)
            deps = "\n".join(l for l in deps.split("\n") if l.split(" = ")[0] in self.deps)
            toml = head + "[dependencies]\n" + deps + self.more_deps + "\n\n" + tail.replace("[profile.dev.package.mc]\nopt-level = 1\n", "")
        toml += self.toml_extra
        for b in self.bins:
            toml += f'\n[[bin]]\nname = "{self.name}_{b}"\npath = "src/{b}.rs"\n'
            if os.path.exists(os.path.join(self.dir, f"src/{b}.rs")) is False:
                pass
        write_if_changed(os.path.join(self.dir, "Cargo.toml"), toml)
        lock = os.path.join(self.dir, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(VERIF, "mc", "Cargo.lock"), lock)
        src = os.path.join(self.dir, "src")
        os.makedirs(src, exist_ok=True)
        for f in os.listdir(src):
            if f[:-3] not in self.bins:
                os.remove(os.path.join(src, f))
        for b, text in self.bins.items():
            write_if_changed(os.path.join(src, b + ".rs"), text)

    def build(self, cmd="build", keep_going=True):
        """Returns list of (bin, definition, message text) for compile errors in generated code.
        Raises CheckError when something else does not build."""
        prepare_target()
        self.write()
        args = [cmd, "--bins"] + (["--keep-going"] if keep_going else [])
        rc, msgs, err = cargo_json(args, self.dir)
        errors = []
        for m in msgs:
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            target = m["target"]
            text = m["message"]["rendered"] or m["message"]["message"]
            if "gen-" + self.name.lower() not in m["package_id"]:
                raise CheckError("does not build:\n" + text)
            b = target["name"][len(self.name) + 1:]
            if not m["message"]["spans"]:
                if "aborting due to" in m["message"]["message"]:
                    continue
            d = None
            for s in sorted(m["message"]["spans"], key=lambda s: not s["is_primary"]):
                # follow macro expansions back to the generated file
                e = s
                while e is not None:
                    if e["file_name"].endswith(f"src/{b}.rs"):
                        d = self.locate(b, e["line_start"])
                        if d is not None:
                            break
                    e = e["expansion"]["span"] if e.get("expansion") else None
                if d is not None:
                    break
            errors.append((b, d, text, m["message"]))
        if rc != 0 and not errors:
            raise CheckError("cargo failed:\n" + err[-4000:])
        return errors

    def exe(self, b):
        return os.path.join(ENV["CARGO_TARGET_DIR"], "debug", f"{self.name}_{b}")

    def run(self, argv, timeout=800):
        """Runs every binary as `bin OUT argv...`; returns the parsed reports."""
        return self.run_each({b: argv for b in self.bins}, timeout)

    def run_each(self, argvs, timeout=800):
        def one(b):
            argv = argvs[b]
            out = os.path.join(self.dir, b + ".json")
            if os.path.exists(out):
                os.remove(out)
            try:
                p = subprocess.run([self.exe(b), out, *argv], env=ENV, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError(f"{b}: timed out")
            if p.returncode < 0:
                # killed by a signal (stack overflow, abort): once more, noting each trace
                trace = os.path.join(self.dir, b + ".trace")
                q = subprocess.run([self.exe(b), out, *argv], env=dict(ENV, MC_TRACE=trace), stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL, timeout=timeout)
                if q.returncode < 0 and os.path.exists(trace) and os.path.getsize(trace):
                    return json.load(open(trace))
            if p.returncode != 0 or not os.path.exists(out):
                raise CheckError(f"{b}: exit {p.returncode}\n{p.stdout[-3000:]}")
            return json.load(open(out))
        with ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(one, argvs))


def spread(items, n):
    """Deal items onto n lists, each round in another order, so that no list gets all of one sort."""
    out = [[] for _ in range(n)]
    for i, x in enumerate(items):
        out[(i + ((i // n + 1) * 2654435761 >> 7)) % n].append(x)
    return [o for o in out if o]


# ---------------------------------------------------------------------------------------------
# Known findings and results

def known_findings(prop):
    """Lines `finding: property=<id> key=<violation key>`; `fixed:` lines suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"finding: property={prop} key="):
                key, _, text = line.split(" key=", 1)[1].rstrip("\n").partition(" :: ")
                out[key] = text
    return out


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.violations = []
        self.coverage = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                             exhaustive=True)
        self.assumptions = []
        self.notes = {}

    def merge(self, rep, part=None):
        c = self.coverage
        c["states"] += rep["states"]
        c["transitions"] += rep["transitions"]
        c["traces_validated_against_impl"] += rep["traces"]
        for k in ("defs", "accepted", "rejected", "outcomes"):
            name = {"defs": "definitions", "accepted": "traces_accepted",
                    "rejected": "traces_rejected", "outcomes": "distinct_outcomes_per_process"}[k]
            c[name] = c.get(name, 0) + rep[k]
        if len(c["samples"]) < 8:
            c["samples"] += rep["samples"][:2]
        for v in rep["violations"]:
            self.violations.append(Violation(v["class"], v["src"], v["input"], v["expected"], v["got"]))
        c["mismatches"] = c.get("mismatches", 0) + rep["violation_count"]

    def compile_errors(self, errors, what="a definition that must compile does not compile"):
        seen = set()
        for b, d, text, m in errors:
            if d is None:
                # an error outside any definition: the harness' own code
                if any(x[1] is not None for x in errors):
                    continue
                raise CheckError(f"{b}: harness does not compile:\n{text}")
            if d in seen:
                continue
            seen.add(d)
            self.violations.append(Violation(what, d, "", "compiles", text))

    def finish(self, level="model_checking"):
        prop = self.prop
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(prop + "-"):
                os.remove(os.path.join(rdir, f))
        known = known_findings(prop)
        new, hit = [], {}
        for v in self.violations:
            k = v.key().replace("\n", " ")
            if k in known:
                hit[k] = known[k]
            else:
                new.append(v)
        ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=self.coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        ev["coverage"].update(self.notes)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k, text in hit.items():
            print(f"KNOWN-FINDING: property={prop} {text or k}")
        c = self.coverage
        print(f"{prop} {TIER}: " + " ".join(f"{k}={v}" for k, v in c.items() if isinstance(v, int)
                                             and not isinstance(v, bool))
              + f" wall={ev['wall_s']}s")
        if not new:
            return 0
        new.sort(key=lambda v: (len(v.inp), len(v.definition)))
        for i, v in enumerate(new[:5]):
            path = os.path.join(rdir, f"{prop}-{i}.txt")
            with open(path, "w") as f:
                f.write(f"property {prop}: {v.what}\n\n--- definition ---\n{v.definition}\n\n"
                        f"--- input ---\n{v.inp}\n\n--- expected ---\n{v.expected}\n\n"
                        f"--- got ---\n{v.got}\n\n--- how to replay ---\n"
                        + (v.replay or REPLAY))
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v.what}: {v.definition[:300]!r} input {v.inp[:200]!r} expected {v.expected[:200]!r} got {v.got[:300]!r}")
        if len(new) > 5:
            print(f"  ... {len(new)} violations in all")
        return 1


REPLAY = """Put the definition into a crate that depends on /repo's structmeta, syn (full) and proc-macro2, and
parse the input with it: `syn::parse::Parser::parse_str(<TypeName as syn::parse::Parse>::parse, INPUT)`
(for definitions of the enum/struct kind: the first type of the definition). Positions `tok@N` are columns.
"""
