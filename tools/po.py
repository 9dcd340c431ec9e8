"""Machinery shared by the checks: build the driver, run TLC, replay scenarios."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


STOP = object()


class CheckError(Exception):
    """The machinery failed (not the code under test)."""


# ---- the driver ------------------------------------------------------------------
def source_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/include/**/*", recursive=True)
                   + glob.glob(HARNESS + "/*"))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def build_driver():
    """Compile the library as it is in the working tree, with the driver."""
    out = os.path.join(BUILD, "drv-" + source_hash())
    exe = os.path.join(out, "driver")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(BUILD + "/drv-*"):
        try:
            if time.time() - os.path.getmtime(old) > 3600:
                shutil.rmtree(old, ignore_errors=True)
        except OSError:              # another check removed it
            pass
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        p = subprocess.run([os.path.join(HARNESS, "build.sh"), REPO, tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        if p.returncode != 0:
            raise CheckError("building the driver failed:\n" + p.stdout.decode("utf8", "replace")[-4000:])
        for o in glob.glob(tmp + "/*.o"):
            os.remove(o)
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(exe):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1", LC_ALL="C")


def _replay_part(exe, lines, scratch):
    """Outcomes of the scenarios; a scenario that kills the driver ends with a crash outcome."""
    res, notes, first, hangs = [], {}, 0, 0
    blob = ("\n".join(lines) + "\n").encode()
    while first < len(lines):
        p = subprocess.run([exe, scratch, str(first)], input=blob, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=ENV)
        cur = []
        out = p.stdout.decode().split("\n")
        for ln in out[:-1]:
            if ln == "":
                res.append(cur)
                cur = []
            else:
                cur.append(json.loads(ln))
        if p.returncode == 0:
            if len(res) != len(lines):
                raise CheckError("driver stopped early")
            return res, notes
        err = p.stderr.decode("utf8", "replace")
        if "scenario: " in err and "ERROR: AddressSanitizer" not in err and "runtime error" not in err:
            raise CheckError("driver: " + err[-500:])
        kind = "hang" if p.returncode == 99 else "crash"
        cur.append({"r": kind, "e": kind, "kd": "", "w": "", "x": []})
        notes[len(res)] = err[-3000:]
        res.append(cur)
        first = len(res)
        hangs += kind == "hang"
        if len(notes) > 20 or hangs > 1:      # hopeless: the rest is not run
            res += [None] * (len(lines) - len(res))
            break
    return res, notes


def replay(exe, scenarios, workers=CORES):
    """[(outcomes or None, note)] in the order of the scenarios."""
    if not scenarios:
        return []
    lines = [json.dumps({"w": s.get("w", False), "ops": s["ops"]}, separators=(",", ":")) for s in scenarios]
    size = max(1, (len(lines) + workers - 1) // workers)
    parts = [lines[i:i + size] for i in range(0, len(lines), size)]
    dirs = [tempfile.mkdtemp(prefix="po-scratch-") for _ in parts]
    try:
        with ThreadPoolExecutor(workers) as ex:
            rs = list(ex.map(lambda a: _replay_part(exe, a[0], a[1]), zip(parts, dirs)))
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
    out = []
    for r, notes in rs:
        for i, x in enumerate(r):
            out.append((x, notes.get(i, "")))
    return out


# ---- TLC ---------------------------------------------------------------------------
def run_tlc(module, cfg_text, on_line=None, timeout=600, workers=CORES, heap="6g", extra=()):
    """Run TLC on spec/<module>.tla; returns a dict with counts and the status.
    Lines printed by PrintT as strings are passed to on_line."""
    d = tempfile.mkdtemp(prefix="po-tlc-")
    cfg = os.path.join(d, module + ".cfg")
    open(cfg, "w").write(cfg_text)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8",
           "-Dstdout.encoding=UTF-8", "-Dtlc2.tool.queue.IStateQueue=StateDeque", "-cp", CP, "tlc2.TLC", "-config", cfg, "-metadir", d + "/meta",
           "-workers", str(workers), "-noTE", *extra, module + ".tla"]
    info = {"states": 0, "distinct": 0, "violated": "", "ok": False, "log": [], "wall": 0.0}
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=dict(os.environ, LC_ALL="C.UTF-8"))
    import threading
    killed = []
    info["proc"] = p
    timer = threading.Timer(timeout, lambda: (killed.append(1), p.kill()))
    timer.start()
    try:
        for raw in p.stdout:
            ln = raw.decode("utf8", "replace").rstrip("\n")
            if ln.startswith('"') and ln.endswith('"'):
                if on_line and not killed:
                    if on_line(json.loads(ln)) is STOP:      # enough
                        killed.append(2)
                        p.kill()
                continue
            info["log"].append(ln)
            if len(info["log"]) > 4000:
                del info["log"][1000:2000]
            m = re.match(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", ln)
            if m:
                info["states"] = int(m.group(1).replace(",", ""))
                info["distinct"] = int(m.group(2).replace(",", ""))
            m = re.match(r"Error: Invariant (\w+) is violated", ln)
            if m:
                info["violated"] = m.group(1)
            if "Model checking completed. No error has been found" in ln:
                info["ok"] = True
        p.wait()
    finally:
        timer.cancel()
        if p.poll() is None:
            p.kill()
        shutil.rmtree(d, ignore_errors=True)
    info["wall"] = time.time() - t0
    info["timeout"] = 1 in killed
    info["stopped"] = 2 in killed
    info.pop("proc")
    return info


def tail(info, n=40):
    return "\n".join(info["log"][-n:])
