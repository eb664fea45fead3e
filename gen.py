#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta.py and props.py"""
import json, os
from meta import META, NOT_APPLICABLE
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for m in META:
        f.write(json.dumps(m, ensure_ascii=False) + "\n")
checks = []
for m in META:
    i = m["id"]
    if i not in PROPS:
        assert any(n["property"] == i for n in NOT_APPLICABLE), i
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
        technique="symbolic execution of the compiled crate's LLVM IR with an SMT solver (z3), against a reference semantics; counterexamples replayed natively",
        level="model_checking",
        level_note="Every path of the real crate's code within the stated bounds is explored with symbolic inputs and every assertion on it is decided for all values. Bounds: " + PROPS[i]["bounds"] + " Trusts rustc's lowering to IR, the executor (validated per run by native replay of sampled paths), z3, and the reference semantics in harness/src/refm.rs."))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=NOT_APPLICABLE,
    notes="No hooks in /repo: the harness drives the public API. Every check rebuilds IR and native replay binary from /repo's working tree. Repairs of genuine defects: see known_findings.txt."), open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
