#!/usr/bin/env python3
"""mkseed.py [ID...]: write /verif/seeded/<id>/ from tools/seeds.py and confirm each planted bug
in a scratch copy of /repo bound over /repo: it builds, the stable tests pass, and its
demonstration fails with the patch and passes without."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS, HEAD, DEMO_SH
OUT = "/verif/seeded"
W = "/tmp/seedwork"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def inside(cmd):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (W, cmd))


def stable(out):
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base["stable"]
    got = json.load(open(out))
    ok = set(got.get("passed", []))
    return [t for t in want if t not in ok]


def main(ids):
    if not os.path.exists(W):
        sh("cp -a /repo " + W)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -qf FETCH_HEAD" % (W, W))
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        d = os.path.join(OUT, s["id"])
        os.makedirs(d, exist_ok=True)
        sh("git -C %s checkout -qf ." % W)
        fail = None
        for f, old, new in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                fail = "%s: %d matches of %r" % (f, t.count(old), old[:60])
                break
            open(p, "w").write(t.replace(old, new))
        if fail:
            print(s["id"], "FAIL", fail)
            continue
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
        open(d + "/demo.cpp", "w").write(HEAD + s["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        sh("rm -f /tmp/seed.json")
        b = inside("bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed-test.log 2>&1; echo rc $?")
        if not os.path.exists("/tmp/seed.json"):
            print(s["id"], "BUILD FAILED", b.stdout, open("/tmp/seed-test.log").read()[-1500:])
            continue
        bad = stable("/tmp/seed.json")
        w = inside("bash %s/demo.sh; echo rc $?" % d).stdout
        o = sh("cd /repo && bash %s/demo.sh; echo rc $?" % d).stdout
        good = not bad and w.strip().endswith("rc 1") and o.strip().endswith("rc 0")
        blame = ""
        print(s["id"], s["property"], "ok" if good else "BAD", "tests failing: %s" % bad if bad else "", "" if good else
              "\n with: " + w[-600:] + "\n without: " + o[-600:], flush=True)
    sh("git -C %s checkout -qf ." % W)


main(sys.argv[1:])
