#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = {
    "latke": "TLC explores the TLA+ specification of LATKE (all five key exchanges, three PAKEs, mocks; up to three sessions, any delivery order, edits and lying insiders) "
             "and TLC validates every recorded execution of the scenarios it generates, which the real code runs. "
             "Symbolic (free) cryptography in the specification; the real bytes are compared for equality. Bounded to the generated scenarios.",
    "ibke": "TLC explores the TLA+ specification of the five key exchanges and validates every recorded execution of the scenarios it generates from it against the real code. "
            "Symbolic cryptography; bounded to the generated scenarios.",
    "pake": "TLC explores the TLA+ specification of the three PAKEs and validates every recorded execution of the scenarios it generates from it against the real code. "
            "Symbolic cryptography; bounded to the generated scenarios.",
    "chip": "TLC explores the TLA+ specification of CHIP over the three PAKEs and validates every recorded execution of the scenarios it generates against the real code. "
            "Symbolic cryptography; bounded to the generated scenarios.",
    "all": "TLC explores the TLA+ specification of every layer and validates every recorded execution of the scenarios it generates against the real code. Bounded to the generated scenarios.",
}
LAYER = {**{f"C{n:02}": "latke" for n in range(1, 8)}, "C08": "ibke", "C09": "ibke", "C10": "ibke", "C11": "ibke",
         "C12": "pake", "C13": "pake", "C14": "all", "C15": "all", "C16": "chip", "C17": "latke"}
EXTRA = {}
try:
    from manifest_extra import EXTRA
except ImportError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    if i in LAYER:
        c = dict(technique="TLA+ specification, TLC model checking, TLC-generated scenarios replayed into the code, trace validation with TLC",
                 level="model_checking", level_note=NOTE[LAYER[i]])
    elif i in EXTRA:
        c = EXTRA[i]
    else:
        na.append(dict(property=i, reason="check under construction"))
        continue
    checks.append(dict(property=i, quick_cmd=f"./check.py {i} --tier quick", thorough_cmd=f"./check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", **c))
m = dict(version=1, setup_cmd="./build.sh",
         hooks=dict(guard="latke_verif", enable='RUSTFLAGS="--cfg latke_verif" cargo build (build.sh)', source_commits=["edac20d"]),
         checks=checks, not_applicable=na,
         notes="See DESIGN.md. known_findings.txt lists the defects found (all repaired).")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
