#!/usr/bin/env python3
"""check.py Cxx: decide property Cxx on /repo's working tree.

1. exploration: TLC enumerates every scenario of spec/MC_Cxx.tla, checks the property (and
   that no scenario gets stuck) in every state, and emits each scenario with the outcomes the
   specification demands; each is replayed into the library and compared.
2. trace validation: seeded random scenarios run on the library; TLC checks the recorded
   outcomes against the specification (spec/PoTrace.tla) and the property in every state.
3. the recorded findings are replayed.

Exit 0: held.  Exit 1 with "VIOLATION property=Cxx replay=...": broken.  Else: the check failed.
"""
import json, os, sys, tempfile, threading, time, traceback
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import po, gen, judge

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DEEP = TIER == "thorough"
EVIDENCE = os.path.join(po.VERIF, "evidence")
REPLAYS = os.path.join(po.VERIF, "replays")
FINDINGS = os.path.join(po.VERIF, "findings")
TLC_TIMEOUT = 600 if not DEEP else 3 * 3600
CHUNK = 8000
ENOUGH = 60          # mismatches looked at


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.exe = None
        self.hist = Counter()
        self.suspects = []            # (scenario, expected or None, got, note, op index, context)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.samples = []
        self.other = 0                # differences that do not concern this property
        self.lock = threading.Lock()

    def log(self, s):
        print("[%6.1f] %s" % (time.time() - self.t0, s), flush=True)

    def count(self, info):
        self.cov["states"] += info["distinct"]
        self.cov["transitions"] += info["states"]

    # -- exploration ----------------------------------------------------------------
    def explore(self, build):
        tables, pending, n = [], [], [0]
        jobs, slots = [], threading.Semaphore(4)
        pool = ThreadPoolExecutor(2)
        stop = threading.Event()

        def flush():
            if not pending:
                return
            batch = pending[:]
            del pending[:]
            slots.acquire()
            jobs.append(pool.submit(work, batch))

        def work(batch):
            try:
                if stop.is_set():
                    return
                exe = build.result()
                ss, exp = [], []
                for ln in batch:
                    s = json.loads(ln)
                    for o in s["ops"]:
                        if "ref" in o:
                            o["opts"] = tables[0][o.pop("ref") - 1]
                    exp.append(s.pop("o"))
                    ss.append(s)
                rs = po.replay(exe, ss)
                self.compare(ss, exp, rs, stop)
            finally:
                slots.release()

        def on_line(ln):
            if ln.startswith("S "):
                n[0] += 1
                pending.append(ln[2:])
                if len(pending) >= CHUNK:
                    flush()
            elif ln.startswith("D "):
                tables.append(json.loads(ln[2:]))
            return po.STOP if stop.is_set() else None

        info = po.run_tlc("MC_" + self.prop,
                          'CONSTANT Deref <- DerefId\nCONSTANT Deep = %d\nCONSTANT Checked = {"%s"}\n'
                          'INIT MCInit\nNEXT Next\nVIEW MCView\nINVARIANT PropertiesHold\nINVARIANT Emit\n'
                          % (DEEP, self.prop), on_line, timeout=TLC_TIMEOUT, heap="12g" if DEEP else "6g")
        flush()
        pool.shutdown()
        for j in jobs:
            j.result()
        self.count(info)
        self.cov["scenarios_enumerated"] = n[0]
        if not info["stopped"]:
            if info["timeout"]:
                self.cov["exhaustive"] = False
                if not DEEP:
                    raise po.CheckError("TLC did not finish")
            elif not info["ok"]:
                raise po.CheckError("TLC: the specification itself fails:\n" + po.tail(info, 60))
            else:
                self.cov["exhaustive"] = True
        if n[0] == 0:
            raise po.CheckError("nothing was explored:\n" + po.tail(info))
        self.log("explored %d scenarios, %d states (TLC %.1f s)" % (n[0], info["distinct"], info["wall"]))

    def compare(self, ss, exp, rs, stop):
        hist = Counter()
        bad = []
        for i, (s, e, (r, note)) in enumerate(zip(ss, exp, rs)):
            if r is None:
                continue
            for o, x in zip(s["ops"], e):
                hist[o["op"], x["r"], x["e"]] += 1
            if r != e:
                bad.append((s, e, r, note, judge.first_difference(e, r), (ss, i)))
        with self.lock:
            self.hist.update(hist)
            self.cov["traces_validated_against_impl"] += sum(1 for r in rs if r[0] is not None)
            if len(self.samples) < 2 and ss:
                self.samples.append({"scenario": ss[len(ss) // 2], "outcomes": exp[len(ss) // 2]})
            for b in bad:
                self.suspect(b)
            if len(self.suspects) >= ENOUGH:
                stop.set()

    def suspect(self, b):
        if len(self.suspects) < 4 * ENOUGH:
            self.suspects.append(b)

    # -- trace validation ------------------------------------------------------------
    def validate(self, families, seed):
        for fam, n in families:
            ss = gen.scenarios(fam, seed, n)
            rs = po.replay(self.exe, ss)
            self.validate_batch(fam, ss, rs)

    def validate_batch(self, fam, ss, rs):
        fd, f = tempfile.mkstemp(prefix="po-trace-", suffix=".ndjson")
        at = []                          # trace line -> scenario
        bad = {}
        broken = {}
        with os.fdopen(fd, "w") as o:
            for i, (s, (r, note)) in enumerate(zip(ss, rs)):
                if note:
                    bad[i] = len(r) - 1
                elif r is not None:
                    at.append(i)
                    o.write(json.dumps({"w": s["w"], "ops": s["ops"], "res": r}, separators=(",", ":")) + "\n")
        try:
            def on_line(ln):
                kind, d = ln.split(" ", 1)
                d = json.loads(d)
                i = at[d["line"] - 1]
                if kind == "MISMATCH":
                    exps.setdefault(i, {})[d["op"] - 1] = d["expected"]
                elif kind == "BROKEN":
                    broken[i] = d
                return po.STOP if len(exps) > 20 * ENOUGH else None
            exps = {}
            if at:
                info = po.run_tlc("PoTrace", 'CONSTANT Deref <- DerefTrace\nCONSTANT TraceFile = "%s"\nCONSTANT Checked = {"%s"}\n'
                                  'INIT TInit\nNEXT TNext\nVIEW TView\nINVARIANT ConformsReport\nINVARIANT PropertiesReport\n'
                                  % (f, self.prop), on_line, timeout=TLC_TIMEOUT, heap="12g" if DEEP else "6g")
                self.count(info)
                if not info["ok"] and not info["stopped"]:
                    raise po.CheckError("TLC failed on recorded traces:\n" + po.tail(info, 60))
                self.log("validated %d recorded traces of family %s (TLC %.1f s)" % (len(at), fam, info["wall"]))
        finally:
            os.remove(f)
        self.cov["traces_validated_against_impl"] += len(at)
        for i in at:
            for o, x in zip(ss[i]["ops"], rs[i][0]):
                self.hist[o["op"], x["r"], x["e"]] += 1
        if ss:
            self.samples.append({"scenario": ss[len(ss) // 2], "outcomes": rs[len(ss) // 2][0]})
        for i, j in bad.items():
            self.suspect((ss[i], None, rs[i][0], rs[i][1], j, (ss, i)))
        for i, d in exps.items():
            e = list(rs[i][0])
            for j, x in d.items():
                e[j] = x
            self.suspect((ss[i], e, rs[i][0], "", min(d), (ss, i)))
        for i, d in broken.items():
            if i not in exps:           # the library does what the model does, and that is wrong
                self.suspect((ss[i], None, rs[i][0], "BROKEN " + json.dumps(d), d["op"] - 1, (ss, i)))

    # -- judging differences ----------------------------------------------------------------
    def confirm(self, b):
        """The scenarios to run to see the outcome again: this one, or with those before it."""
        s, e, got, note, j, (ss, i) = b
        part = -(-len(ss) // po.CORES)
        start = i - i % part
        for k in (0, 1, 10, 100, part):
            lo = max(start, i - k)
            r, n = po.replay(self.exe, ss[lo:i + 1], workers=1)[-1]
            if r == got:
                return ss[lo:i + 1]
        return None

    def recorded_refutes(self, cand):
        """Which of these runs break the property as recorded (evaluated by TLC on the outcomes)?"""
        out = set()
        cand = [c for c in cand if not c[3] and all(x is not None for x in c[2])][:40]
        if not cand:
            return out
        fd, f = tempfile.mkstemp(prefix="po-rec-", suffix=".ndjson")
        with os.fdopen(fd, "w") as o:
            for c in cand:
                o.write(json.dumps({"w": c[0]["w"], "ops": c[0]["ops"], "res": c[2]}, separators=(",", ":")) + "\n")
        try:
            po.run_tlc("PoTrace", 'CONSTANT Deref <- DerefTrace\nCONSTANT TraceFile = "%s"\nCONSTANT Checked = {"%s"}\n'
                       'INIT TInit\nNEXT TNext\nVIEW TView\nINVARIANT RecordedReport\n' % (f, self.prop),
                       lambda ln: out.add(json.loads(ln.split(" ", 1)[1])["line"] - 1) if ln.startswith("REFUTED") else None,
                       timeout=120)
        finally:
            os.remove(f)
        return {id(cand[i]) for i in out}

    def judge(self):
        """The first difference that concerns the property, confirmed."""
        seen, rest = set(), []
        for b in self.suspects:
            s, e, got, note, j, ctx = b
            if note.startswith("BROKEN"):
                return b, "the property fails on what specification and library agree on", [s]
            if not judge.relevant(self.prop, s, e, got, note):
                rest.append(b)
                continue
            if self.prop in ("C23", "C24"):
                if not judge.relevant_by_rerun(self.prop, self.exe, s, e, got, note):
                    rest.append(b)
                    continue
            if len(seen) > 30:
                break
            seen.add(id(b))
            run = self.confirm(b)
            if run is None:
                self.log("a difference did not show again: %s" % json.dumps(s)[:400])
                continue
            return b, "outcome differs from the specification", run
        self.other = len(rest)
        if rest:
            hit = self.recorded_refutes(rest)
            for b in rest:
                if id(b) in hit:
                    run = self.confirm(b)
                    if run:
                        return b, "the recorded outcomes break the property", run
        if self.prop == "C24":                 # outcomes that need the scenarios before them
            for b in rest[:30]:
                r, n = po.replay(self.exe, [b[0]], workers=1)[0]
                if r != b[2]:
                    run = self.confirm(b)
                    if run and len(run) > 1:
                        return b, "the outcome depends on earlier, unrelated uses", run
        return None

    # -- known findings -----------------------------------------------------------------------
    def findings(self):
        with open(os.path.join(FINDINGS, "known-findings.txt")) as f:
            for ln in f:
                if not ln.startswith("known: property=%s " % self.prop):
                    continue
                w = ln.split()
                name, what = w[2], " ".join(w[3:])
                p = json.load(open(os.path.join(FINDINGS, name + ".json")))
                r, note = po.replay(self.exe, [p["scenario"]], workers=1)[0]
                if r == p["fails"]:
                    print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, name, what), flush=True)
                    self.cov.setdefault("known_findings", []).append(name)
                elif p["right"] is not None and r != p["right"]:
                    self.suspect((p["scenario"], p["right"], r, note, judge.first_difference(p["right"], r), ([p["scenario"]], 0)))

    # -- all of it ------------------------------------------------------------------------------
    def run(self):
        with ThreadPoolExecutor(1) as ex:
            build = ex.submit(po.build_driver)
            try:
                self.explore(build)
            finally:
                err = build.exception()
            if err:
                raise err
            self.exe = build.result()
        self.findings()
        verdict = self.judge() if self.suspects else None
        if verdict is None:
            for k in range(judge.ROUNDS if DEEP else 1):
                self.validate(judge.families(self.prop, DEEP), SEED + 1000 * k)
                if self.suspects:
                    verdict = self.judge()
                    if verdict:
                        break
        self.write(verdict)
        if verdict:
            b, why, run = verdict
            path = self.replay_file(b, why, run)
            self.log("%s: %s" % (self.prop, why))
            self.log(judge.explain(b))
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        self.log("%s held (%d scenarios replayed or validated, %d states)" %
                 (self.prop, self.cov["traces_validated_against_impl"], self.cov["states"]))
        return 0

    def replay_file(self, b, why, run):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s.json" % self.prop)
        s, e, got, note, j, ctx = b
        json.dump({"property": self.prop, "why": why, "scenarios": run, "expected": e, "got": got, "note": note,
                   "how": "python3 tools/replay.py " + path}, open(path, "w"), indent=1)
        return path

    def write(self, verdict):
        os.makedirs(EVIDENCE, exist_ok=True)
        self.cov["samples"] = self.samples[:6]
        self.cov["operations"] = {" ".join(k).strip(): v for k, v in sorted(self.hist.items())}
        self.cov["differences_not_of_this_property"] = self.other
        ev = {"property": self.prop, "tier": "thorough" if DEEP else "quick", "seed": SEED, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 1), "violations": 1 if verdict else 0,
              "assumptions": judge.ASSUMPTIONS}
        tmp = os.path.join(EVIDENCE, ".%s.tmp" % self.prop)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(EVIDENCE, "%s.json" % self.prop))


if __name__ == "__main__":
    try:
        sys.exit(Check(sys.argv[1]).run())
    except po.CheckError as e:
        print("CHECK ERROR: %s" % e, flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
