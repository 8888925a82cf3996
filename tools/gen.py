#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import P, NA
with open(V + "/properties.jsonl", "w") as f:
    for pid in sorted(list(P) + list(NA)):
        p = P.get(pid) or NA[pid]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p.get("observe"):
            a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")
        assert len(p["title"]) <= 80, pid
m = dict(version=1, setup_cmd="bash symx/build.sh",
         hooks=dict(guard="SX_UNUSED", enable="no hooks are needed: the checks compile /repo's sources as they are", source_commits=[]),
         checks=[dict(property=pid, quick_cmd=f"python3 check.py {pid} quick", thorough_cmd=f"python3 check.py {pid} thorough",
                      technique="symbolic execution of the compiled IR of the real code, every path condition and assertion decided by an SMT solver (z3)",
                      level="model_checking",
                      level_note="All values within the stated bounds (see evidence: harnesses[].bound, outside_bounds); counterexamples are replayed on a native build."
                      + (" " + P[pid]["note"] if P[pid]["note"] else ""))
                 for pid in sorted(P)],
         not_applicable=[dict(property=pid, reason=NA[pid]["reason"]) for pid in sorted(NA)],
         notes="symx/ is the symbolic executor (LLVM IR -> z3); harness/ holds the scenarios; vlib.py builds, runs, replays and reports. See DESIGN.md.")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
