#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed as soon as harness/<id> exists and is listed here."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the go/ssa form of the library with an SMT solver (z3) deciding every branch and assertion; counterexamples replayed natively"
NOTE = ("Bounded: every input within the bounds in the evidence file (sizes, counts, steps), none outside; see DESIGN.md. "
        "Trusts the engine's go/ssa semantics and its models of the standard library, which are checked on every run by replaying path witnesses on the natively compiled code.")
EXTRA = {
}
DONE = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20".split()
NA = {}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "bash ./setup.sh",
     "checks": [{"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                 "technique": TECH, "level": "model_checking", "level_note": NOTE + EXTRA.get(p, "")} for p in ids if p in DONE],
     "not_applicable": [{"property": p, "reason": NA.get(p, "No check yet: its harness is still being built.")} for p in ids if p not in DONE]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
