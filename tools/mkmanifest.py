#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROWS = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = ("explicit TLA+ specification model checked with TLC; every behaviour TLC enumerates is replayed into the library, "
        "and recorded runs of the library are validated against the specification by TLC")
NOTE = ("Exhaustive within the bounds of spec/MC_%s.tla, sampled (seeded) beyond them. The property is an invariant of the "
        "specification (%sInv in spec/PoProps.tla), checked in every reachable state; the implementation is bound to the "
        "specification by comparing every operation's outcome. Trusts TLC, the driver that performs the operations, and that "
        "behaviour within the bounds is representative.%s")
EXTRA = {
    "C03": " Finding F12 is modelled as it is.",
    "C05": " Finding F11 is modelled as it is.",
    "C06": " Finding F10 is modelled as it is.",
    "C18": " That what() terminates is observed with a time limit.",
    "C20": " The local encoding is that of the classic locale. Finding F14 is modelled as it is.",
    "C24": " A difference counts only if the outcome changes when the operations it does not depend on are left out.",
    "C23": " A difference counts only if the outcome changes when the same options are declared in one flat description.",
}
checks = []
for r in ROWS:
    p = r["id"]
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "python3 tools/check.py " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "model_checking",
                   "level_note": NOTE % (p, p, EXTRA.get(p, ""))})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface only", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "quick and thorough differ by VERIF_TIER only. Findings: findings/known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
