#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, subprocess
T = "TLA+ specification checked with TLC; traces of the real library validated against it"
CORE = "Every call and result of randomly generated scripts, run against the real library, must be a step of the TLA+ state machine (PoloDB.tla), which also keeps its invariants in every state; TLC finds all ways to explain a trace. Holds for the explored scripts. Trusts TLC, the specification and the recording harness (public API only)."
checks = {p: (T, "model_checking", CORE) for p in "C02 C03 C04 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16".split()}
EXTRA = {}
try:
    from manifest_extra import EXTRA
except ImportError: pass
checks.update(EXTRA)
from manifest_extra import HIST
for p, th in (("C02", "documents, collections"), ("C03", "counters, documents, collections"), ("C11", "unique values"), ("C15", "cursors")):
    t, l, n = checks[p]
    checks[p] = (t, l, n + HIST % th)
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na = [{"property": p, "reason": "the check is under construction"} for p in ids if p not in checks]
m = {"version": 1, "setup_cmd": "./check --setup",
     "checks": [{"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": c[0], "level": c[1], "level_note": c[2]} for p, c in sorted(checks.items())],
     "not_applicable": na,
     "notes": "See DESIGN.md. Defects found and repaired are in KNOWN_FINDINGS.txt."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
