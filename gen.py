#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import P, NA
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i, p in sorted(P.items()):
        f.write(json.dumps({
            "id": i, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
checks = []
for i, p in sorted(P.items()):
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": p.get("technique", "symbolic execution of the crate's LLVM IR against a reference semantics, branches and assertions decided by Z3, counterexamples replayed natively"),
        "level": "model_checking",
        "level_note": "Bounded: " + p["bounds"] + ". Outside: " + p["outside"] + ". Trusts the engine's IR semantics (sampled paths are re-executed natively), Z3, and the reference semantics in harness/src.",
    })
json.dump({
    "version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
    "notes": "See DESIGN.md. No hooks: the harness uses the crate's public API only. known_findings.txt lists defects found (fixed in /repo or known).",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md: what is written by hand, then one section per property
with open(os.path.join(V, "DESIGN.md")) as f:
    d = f.read()
mark = "<!-- generated by gen.py from props.py -->\n"
d = d[:d.index(mark)] if mark in d else d + "\n"
d += mark + "\n## The properties\n\nAll are decided by symbolic execution as described above; per property: what is compared, within which bounds, and what lies outside.\n"
for i, p in sorted(P.items()):
    d += "\n### %s %s\n\n%s\n\n* **Compared**: %s, with the reference semantics, for %s.\n* **Bounds**: %s.\n* **Outside**: %s.\n* **Why tests do not settle it**: %s\n" % (
        i, p["title"], p["statement"], "; ".join(p["observe"]), p["text"], p["bounds"], p["outside"], p["why"])
    if i in NA:
        d += "* **Not applicable**: %s\n" % NA[i]
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(d)
