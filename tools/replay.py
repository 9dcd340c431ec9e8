#!/usr/bin/env python3
"""replay.py FILE: run the scenarios of a replay file on the library again and show the last one."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import po
d = json.load(open(sys.argv[1]))
r, note = po.replay(po.build_driver(), d["scenarios"], workers=1)[-1]
print("%s: %s" % (d["property"], d["why"]))
for i, op in enumerate(d["scenarios"][-1]["ops"]):
    print(json.dumps(op))
    got = r[i] if i < len(r) else None
    exp = d["expected"][i] if d["expected"] and i < len(d["expected"]) else None
    print("   ", json.dumps(got))
    if exp is not None and exp != got:
        print("    SPECIFICATION:", json.dumps(exp))
if note:
    print(note)
sys.exit(0 if d["expected"] == r else 1)
