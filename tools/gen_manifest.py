#!/usr/bin/env python3
"""Writes MANIFEST.json from harnesses.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from harnesses import PROPERTIES, HARNESSES
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
def tech(p):
    kinds = {HARNESSES[h]["kind"] for h in PROPERTIES[p]["harnesses"]}
    t = []
    if "conc" in kinds: t.append("stateless model checking of the compiled implementation: controlled scheduler enumerating every thread interleaving up to a preemption bound, with simulated sockets/files/clock and enumerated environment deviations")
    if "seq" in kinds: t.append("explicit enumeration of all operation sequences / inputs / faults within bounds on the compiled implementation, each execution compared with a reference model")
    return "; ".join(t)
m = dict(version=1, setup_cmd="python3 check.py all --build-only",
         checks=[dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                      evidence_file="evidence/%s.json" % p, technique=tech(p), level="model_checking",
                      level_note=PROPERTIES[p].get("note", "exhaustive within the stated bounds, on the real code; " + PROPERTIES[p]["rule"])) for p in props if p in PROPERTIES],
         not_applicable=[dict(property=p, reason=NA.get(p, "check under construction")) for p in props if p not in PROPERTIES])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
