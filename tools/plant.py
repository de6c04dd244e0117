#!/usr/bin/env python3
"""Turns planted-bug specifications into seeded/<id>/ after confirming them in a scratch copy of /repo.
usage: plant.py SPEC.py [id...]   (SPEC.py defines BUGS, a list of dict(id, prop, needs, breaks, edits, main | files))"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the derives behave as they should; anything else: they do not
here=$(cd "$(dirname "$0")" && pwd)
exec python3 "$here/demo.py"
'''
DEMO_PY = '''"""Builds the programs beside this file against the structmeta of the current directory and runs them."""
import glob, os, shutil, subprocess, sys, tempfile
here, repo = os.path.dirname(os.path.abspath(__file__)), os.getcwd()
env = dict(os.environ, RUSTUP_TOOLCHAIN="1.98.1-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
    env.pop(k, None)
with tempfile.TemporaryDirectory(prefix="demo-") as t:
    os.makedirs(t + "/src/bin")
    for f in glob.glob(here + "/*.rs"):
        shutil.copy(f, t + "/src/bin/")
    shutil.copy(repo + "/Cargo.lock", t)
    open(t + "/Cargo.toml", "w").write("""[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
structmeta = { path = "%s/structmeta" }
syn = { version = "3.0.0", features = ["full", "extra-traits"] }
quote = "1"
proc-macro2 = { version = "1", features = ["span-locations"] }
""" % repo)
    def cargo(*args):
        p = subprocess.run(["cargo", *args, "--offline", "-q"], cwd=t, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    rc, out = cargo("build", "--lib") if os.path.exists(t + "/src/lib.rs") else (0, "")
    bad = 0
    for f in sorted(os.listdir(t + "/src/bin")):
        name = f[:-3]
        if name.startswith("reject"):          # must not compile, with the message on its first line
            rc, out = cargo("check", "--bin", name)
            want = open(t + "/src/bin/" + f).readline()[2:].strip()
            ok = rc != 0 and want in out
        elif name.startswith("same"):          # all expansions shown by dump are the same
            rc, out = cargo("check", "--bin", name)
            shown = [" ".join(x.split("error: ")[0].split("warning: ")[0].replace("|", " ").split()) for x in out.split("macro result:")[1:]]
            shown = [x[:x.index("-->")] if "-->" in x else x for x in shown]
            ok = len(shown) > 1 and len(set(shown)) == 1
        elif name.startswith("errors"):        # every copy of the invalid definition has the same error
            rc, out = cargo("check", "--bin", name)
            errs = [l for l in out.splitlines() if l.startswith("error: ") and "could not compile" not in l and "aborting" not in l]
            ok = len(errs) > 1 and len(set(errs)) == 1
        else:
            rc, out = cargo("run", "--bin", name)
            ok = rc == 0
        if not ok:
            print(name, "fails:", out[-3000:])
            bad = 1
sys.exit(bad)
'''
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.98.1-x86_64-unknown-linux-gnu")


def sh(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    return p.returncode, p.stdout


def tests(repo):
    """the stable tests, in a copy"""
    top = os.path.dirname(repo)
    open(top + "/env.sh", "w").write(open("/opt/vp/env.sh").read().replace("cd /repo", "cd " + repo))
    open(top + "/test.sh", "w").write(open("/opt/vp/test.sh").read().replace(". /opt/vp/env.sh", f". {top}/env.sh"))
    rc, out = sh(f"bash {top}/test.sh {top}/o.json", repo)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(json.load(open(top + "/o.json"))["passed"]) if os.path.exists(top + "/o.json") else set()
    return [t for t in base if t not in passed], 0, out


def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    top = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    repo = os.path.join(top, "repo")
    shutil.copytree("/repo", repo, symlinks=True)
    try:
        for b in spec:
            if want and b["id"] not in want:
                continue
            out = os.path.join(V, "seeded", b["id"])
            if os.path.exists(out) and not want:
                continue
            sh("git checkout -q -- .", repo)
            for f, old, new in b["edits"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], f"EDIT does not apply ({s.count(old)} matches): {old[:60]!r}")
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                patch = sh("git diff", repo)[1]
                removed = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
                orig = "\n".join(sh(f"git show d9691f8:{f}", "/repo")[1] for f in {e[0] for e in b["edits"]}).splitlines()
                ours = [l for l in removed if l not in orig]
                if ours:
                    print(b["id"], "note: changes lines of our own:", ours)
                missing, rc, text = tests(repo)
                if missing or rc:
                    print(b["id"], "TESTS FAIL", rc, missing[:5], "" if missing else text[-1500:])
                    continue
                tmp = os.path.join(top, "demo")
                shutil.rmtree(tmp, ignore_errors=True)
                os.makedirs(tmp)
                files = dict(b.get("files") or {})
                if "main" in b:
                    files["main.rs"] = b["main"]
                for n, t in files.items():
                    open(os.path.join(tmp, n), "w").write(t.strip() + "\n")
                open(os.path.join(tmp, "demo.sh"), "w").write(DEMO)
                open(os.path.join(tmp, "demo.py"), "w").write(DEMO_PY)
                os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
                rc1, o1 = sh(f"bash {tmp}/demo.sh", repo)
                sh("git checkout -q -- .", repo)
                rc0, o0 = sh(f"bash {tmp}/demo.sh", repo)
                if rc0 or not rc1:
                    print(b["id"], "DEMO unpatched", rc0, o0[-1500:], "patched", rc1, o1[-800:])
                    continue
                open(os.path.join(tmp, "patch.diff"), "w").write(patch)
                json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(tmp, "meta.json"), "w"), indent=1)
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(tmp, out)
                print(b["id"], "ok:", o1.strip().splitlines()[-1][:150] if o1.strip() else "")
    finally:
        shutil.rmtree(top)


main()
