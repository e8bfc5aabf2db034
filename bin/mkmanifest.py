#!/usr/bin/env python3
"""Write MANIFEST.json from the table below."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drivers  # noqa: E402

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EDIT = ("TLC model checking of Editor/Screen + transition-cover replay and TLC trace validation of the real editor",
        "TLC explores the editor specification with small constants and checks the property's invariants on it; every explored transition "
        "(sampled above a cap) and seeded random walks are executed on the real code through its public API and each recorded event is "
        "compared by TLC with the specification. Trusted: the terminal model and the Unicode/width tables of the harness, TLC.")
TECH = {}


def main():
    ids = [json.loads(line)["id"] for line in open(os.path.join(BASE, "properties.jsonl"))]
    checks = []
    na = []
    for pid in ids:
        if pid in drivers.CHECKS:
            tech, note = drivers.TECH.get(pid, EDIT)
            checks.append({"property": pid, "quick_cmd": "bin/check %s" % pid, "thorough_cmd": "bin/check %s" % pid,
                           "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": "model_checking", "level_note": note})
        else:
            na.append({"property": pid, "reason": "its driver is not built yet"})
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
         "hooks": {"guard": "none", "enable": "the checks use the public API only; /repo carries no hooks", "source_commits": []},
         "not_applicable": na,
         "notes": "TLA+ with TLC; see DESIGN.md. known-findings.txt lists repaired defects."}
    with open(os.path.join(BASE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
