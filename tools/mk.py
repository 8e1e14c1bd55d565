#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode = True; sys.path[:0] = [H, H + "/tools"]
from props_text import T, NOT_APPLICABLE
from props import PROPS
T = [p for p in T if p["id"] in dict(NOT_APPLICABLE) or PROPS[p["id"]]["bounds"] != "x"]  # "x": still being built
TECH = "symbolic execution of the LLVM IR of /repo's current sources (own executor); path conditions and obligations decided by z3 (bit-vectors, exact real arithmetic) and exact rational-function normal forms; counterexamples replayed on a native build"
with open(f"{H}/properties.jsonl", "w") as f:
    for p in T:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
m = dict(version=1, setup_cmd="bash engine/build.sh", checks=[], not_applicable=[])
na = dict(NOT_APPLICABLE)
for p in T:
    i = p["id"]
    if i in na: m["not_applicable"].append(dict(property=i, reason=na[i])); continue
    assert i in PROPS, i; assert len(PROPS[i]["bounds"]) > 10, i
    m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough", technique=TECH, level="model_checking", level_note="bounded: " + PROPS[i]["bounds"]))
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable; unclaimed:", set(PROPS) - {p["id"] for p in T})
