#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks in gen/props.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from gen import props
NOTES = props.NOTES
NA = {}
TECH = {
    "A": "model checking: bounded exhaustive exploration of argument lists over all definitions of a bounded family; every trace replayed on the derived parser and compared with a reference transition system",
    "B": "model checking: bounded exhaustive exploration of token forests over all definitions of a bounded family; every trace replayed on the derived Parse/ToTokens and compared with a reference model",
    "C": "model checking: exhaustive enumeration of a bounded family of definitions; the compiler's verdict on each is compared with a reference model of validity",
    "G": "model checking: exhaustive enumeration of a bounded family of definitions and the scopes they stand in; each is compiled by rustc and its derived code replayed against the reference transition system",
    "R": "model checking: bounded exhaustive exploration of argument lists and token forests over all definitions of a bounded family; every trace is replayed from every source of tokens, in rustc's procedural macros too, and compared with the replay from text",
    "D": "model checking: exhaustive exploration of all histories of expansions up to a depth and of the answers of a fault-injected random source, each replayed in the real compiler process and compared with the expansion alone",
    "V": "model checking: exhaustive enumeration of all value x span states and operation sequences against a truth table",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        eng, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 check.py {i}",
                           thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                           evidence_file=f"evidence/{i}.json", technique=TECH[eng], level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the checks build against the public derives. known-findings.txt lists the repaired defects."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
