#!/usr/bin/env python3
"""Runs checks against planted bugs in /repo's working tree and writes which were caught.
usage: catch.py [--all] [--copy DIR] [id...]   (default: the check of the bug's own property; --all: every check;
--copy: in a copy of /repo and of the committed /verif made in DIR, so that /repo stays as it is)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
args = sys.argv[1:]
R, env, C = "/repo", dict(os.environ, VERIF_TIER="quick"), V
if "--copy" in args:
    k = args.index("--copy")
    top = os.path.abspath(args[k + 1])
    del args[k:k + 2]
    R, C = top + "/repo", top + "/verif"
    for p in (R, C):
        os.path.exists(p) and shutil.rmtree(p)
    os.makedirs(top, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    subprocess.run(["git", "clone", "-q", V, C], check=True)
    toml = C + "/mc/Cargo.toml"
    text = open(toml).read().replace('"/repo/', f'"{R}/')
    open(toml, "w").write(text)
    env["VERIF_REPO"] = R
    subprocess.run(["python3", C + "/tools/setup.py"], env=env, check=True)
every = "--all" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(S))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], stdout=subprocess.PIPE, text=True).stdout
for i in ids:
    m = json.load(open(os.path.join(S, i, "meta.json")))
    subprocess.run(["git", "-C", R, "apply", os.path.join(S, i, "patch.diff")], check=True)
    try:
        out = []
        for p in props if every else [m["property"]]:
            r = subprocess.run(["python3", os.path.join(C, "check.py"), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
            out.append(f"{p}:{'CAUGHT' if hit else 'missed' if r.returncode == 0 else 'ERROR'}")
            if r.returncode not in (0, 1):
                print(r.stdout[-800:])
        if every:
            out = [o for o in out if "missed" not in o]
        print(i, m["property"], *out, flush=True)
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
