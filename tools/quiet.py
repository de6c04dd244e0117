#!/usr/bin/env python3
"""Runs every quick check on refactored copies of /repo: edits that keep the behaviour have to leave all of them quiet.
usage: quiet.py DIR [--props P,..] [PATCH...]   (default: refactorings/*.diff)   DIR: a scratch folder outside /repo and /verif"""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
top = os.path.abspath(args.pop(0))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
if args and args[0] == "--props":
    props = args[1].split(",")
    args = args[2:]
patches = [os.path.abspath(a) for a in args] or sorted(glob.glob(V + "/refactorings/*.diff"))
v, repo = top + "/verif", top + "/repo"
os.makedirs(top, exist_ok=True)
for p in (v, repo):
    os.path.exists(p) and shutil.rmtree(p)
subprocess.run(["cp", "-a", "/repo", repo], check=True)
subprocess.run(["git", "clone", "-q", V, v], check=True)
toml = v + "/mc/Cargo.toml"
text = open(toml).read().replace('"/repo/', f'"{repo}/')
open(toml, "w").write(text)
env = dict(os.environ, RUSTUP_TOOLCHAIN="1.98.1-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", VERIF_REPO=repo, VERIF_TIER="quick")
bad = 0
for patch in patches:
    subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", repo, "apply", patch], check=True)
    subprocess.run(["python3", v + "/tools/setup.py"], env=env, stdout=subprocess.DEVNULL)
    for p in props:
        r = subprocess.run(["python3", v + "/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            bad += 1
            print(os.path.basename(patch), p, r.returncode, r.stdout[-1500:], flush=True)
    print(os.path.basename(patch), "done", flush=True)
sys.exit(bad > 0)
