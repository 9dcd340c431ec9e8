"""Which differences between specification and library concern a property."""
import copy, json
import po

ASSUMPTIONS = [
    "The library is compiled with g++ -std=c++17 and address and undefined-behaviour sanitizers, not with the project's own build.",
    "The driver translates scenarios into calls of the public interface and reports what it observes; it is trusted.",
    "Texts are byte strings of Latin-1 characters; the classic locale is in force.",
]
PARSES = ("cmd", "cfg", "env", "make")
STORES = ("store", "dump", "get", "as")
COPIES = ("vcopy", "vassign")
ROUNDS = 12

# families of random scenarios per property: own family first
_FAM = {
    "C01": [("C01", 5)], "C02": [("C02", 3), ("C03", 1), ("C05", 1), ("C06", 1), ("C07", 1)],
    "C03": [("C03", 4), ("C02", 1)], "C04": [("C04", 4), ("C02", 1)], "C05": [("C05", 4), ("C02", 1)],
    "C06": [("C06", 4), ("C02", 1)], "C07": [("C07", 5)], "C08": [("C08", 5)], "C09": [("C09", 4), ("C08", 1)],
    "C10": [("C10", 5)], "C11": [("C11", 5)], "C12": [("C12", 4), ("C11", 1)], "C13": [("C13", 4), ("C11", 1)],
    "C14": [("C14", 4), ("C15", 1)], "C15": [("C15", 4), ("C14", 1)], "C16": [("C16", 5)], "C17": [("C17", 5), ("C12", 1)],
    "C18": [("C18", 5), ("C14", 1)], "C19": [("C19", 2)], "C20": [("C20", 5)], "C21": [("C21", 5)], "C22": [("C22", 5)],
    "C23": [("C23", 4)], "C24": [("C24", 4), ("C15", 1)],
}


def families(prop, deep):
    return [(f, n * (2000 if not deep else 5000)) for f, n in _FAM[prop]]


def first_difference(e, r):
    for i, (a, b) in enumerate(zip(e, r)):
        if a != b:
            return i
    return min(len(e), len(r))


def bare(o):
    return (o["r"], o["e"], o["kd"], o["x"])


def col(o, *fs):
    return [tuple(json.dumps(x[f]) for f in fs) for x in o["x"]]


def both_ok(e, g):
    return e["r"] == "ok" and g["r"] == "ok"


def wcmp(e, g):
    return e["w"] != g["w"]


def _c01(op, e, g):
    if op["op"] == "match":
        return bare(e) != bare(g)
    if op["op"] == "find":
        return (e["r"], e["e"]) != (g["r"], g["e"]) or e["x"][:2] != g["x"][:2]
    if op["op"] == "cmd":
        c = lambda o: "ok" if o["r"] == "ok" else o["e"] if o["e"] in ("unknown", "ambiguous") else "other"
        return c(e) != c(g) or (both_ok(e, g) and col(e, "k", "un") != col(g, "k", "un")) or (e["e"] == "ambiguous" and wcmp(e, g))
    if op["op"] == "store":
        f = lambda o: (o["e"] in ("unknown", "ambiguous"), o["r"] == "ok" and col(o, "k"))
        return f(e) != f(g)


def _c02(op, e, g):
    return op["op"] == "cmd" and both_ok(e, g) and col(e, "t", "v") != col(g, "t", "v")


def _c03(op, e, g):
    if op["op"] == "cmd":
        f = lambda o: (o["r"], o["e"], o["kd"], [(x["k"], x["v"], x["un"], x["pos"] >= 0) for x in o["x"]] if o["r"] == "ok" else 0)
        return f(e) != f(g)


def _c04(op, e, g):
    if op["op"] == "pos":
        return bare(e) != bare(g)
    if op["op"] == "cmd":
        if e["r"] != g["r"]:
            return True
        if e["r"] == "ok":
            f = lambda o: [(x["k"], x["pos"], x["v"]) for x in o["x"] if x["pos"] != -1]
            return f(e) != f(g)
        return (e["e"] == "toomany") != (g["e"] == "toomany")


def _on(*kinds, msg=False):
    def f(op, e, g):
        return op["op"] in kinds and (bare(e) != bare(g) or (msg and wcmp(e, g)))
    return f


def _c06(op, e, g):
    if op["op"] in ("collect", "store"):
        return bare(e) != bare(g)
    if op["op"] == "cmd":
        u = lambda o: o["e"] == "unknown"
        if u(e) != u(g):
            return True
        if both_ok(e, g):
            own = lambda o: [x for x in o["x"] if x["un"]]
            return col(e, "un", "t") != col(g, "un", "t") or own(e) != own(g)
        return op["unreg"] and e["r"] != g["r"]


def _c07(op, e, g):
    return op["op"] == "cmd" and (op["extra"] or op["sx"]) and bare(e) != bare(g)


def _c08(op, e, g):
    if op["op"] == "cfg":
        return e["r"] != g["r"] or (e["r"] == "ok" and col(e, "k", "v") != col(g, "k", "v"))


def _c09(op, e, g):
    if op["op"] == "cfg":
        f = lambda o: (o["r"], o["e"], o["kd"], o["w"], col(o, "un") if o["r"] == "ok" else 0)
        return f(e) != f(g)


def _c11(op, e, g):
    if op["op"] == "notify":       # requirements remembered, or not
        return (e["e"] == "required") != (g["e"] == "required")
    return op["op"] in STORES + COPIES and bare(e) != bare(g)


def _c14(op, e, g):
    if op["op"] == "notify":
        req = lambda o: o["r"] == "err" and o["e"] == "required"
        return req(e) != req(g) or (req(e) and (bare(e) != bare(g) or wcmp(e, g)))


def _c17(op, e, g):
    if op["op"] == "as":
        return bare(e) != bare(g)
    if op["op"] == "store":
        return bare(e) != bare(g) or (e["r"] == "err" and wcmp(e, g))
    return op["op"] in ("dump", "get") and bare(e) != bare(g)


def _c18(op, e, g):
    return op["op"] == "err" or e["r"] == "err" and g["r"] == "err" and (e["e"], e["kd"], e["w"]) != (g["e"], g["kd"], g["w"])


def _c20(op, e, g):
    if op["op"] in PARSES:
        return bare(e) != bare(g)
    return op["op"] in ("conv", "show") + STORES and bare(e) != bare(g)


def _split(kind):
    return lambda op, e, g: op["op"] == "split" and op["kind"] == kind and bare(e) != bare(g)


RELEVANT = {
    "C01": _c01, "C02": _c02, "C03": _c03, "C04": _c04, "C05": _on("cmd"), "C06": _c06, "C07": _c07, "C08": _c08, "C09": _c09,
    "C10": _on("env"), "C11": _c11, "C12": _on(*STORES), "C13": _on("cmd", *STORES), "C14": _c14, "C15": _on("notify"),
    "C16": _on("get", "as", "dump", *COPIES), "C17": _c17, "C18": _c18, "C19": _on("help"), "C20": _c20, "C21": _split("unix"),
    "C22": _split("win"),
    "C23": _on("list", "match", "find", "collect", "notify", "show", *PARSES, *STORES, *COPIES),
    "C24": _on("list", "match", "find", "collect", "notify", "help", "split", "conv", "show", *PARSES, *STORES, *COPIES),
}
# operations in which dying concerns the property
KINDS = {
    "C01": ("find", "match", "cmd", "store"), "C08": ("cfg",), "C09": ("cfg",), "C10": ("env",), "C11": STORES + COPIES, "C12": STORES,
    "C13": ("cmd",) + STORES, "C14": ("notify",), "C15": ("notify",), "C16": ("get", "as", "dump") + COPIES, "C17": STORES, "C19": ("help",),
    "C21": ("split",), "C22": ("split",),
}


def relevant(prop, s, e, got, note):
    """Does some operation's outcome differ in a way that concerns the property?"""
    if got and got[-1] is not None and got[-1]["r"] in ("crash", "hang") and note:
        op = s["ops"][len(got) - 1]["op"]
        kinds = KINDS.get(prop)
        if kinds is None:
            kinds = ("cmd", "collect") if prop in ("C02", "C03", "C04", "C05", "C06", "C07") else (op,)
        return op in kinds
    f = RELEVANT[prop]
    return any(a != b and f(op, a, b) for op, a, b in zip(s["ops"], e, got))


# ---- C23 and C24 compare the library with itself -------------------------------------
def _flat(s):
    """The scenario with every description built in one go, just before each use."""
    contents, meta, ops, index = {}, {}, [], []
    nd = made = 0
    owner = {}
    for op in s["ops"]:
        op = copy.deepcopy(op)
        k = op["op"]
        if k == "desc":
            nd += 1
            contents[nd] = list(op["opts"])
            meta[nd] = op
            index.append(None)
            continue
        if k == "dcopy":
            nd += 1
            contents[nd] = list(contents[op["d"]])
            meta[nd] = meta[op["d"]]
            index.append(None)
            continue
        if k == "add":
            contents[op["d"]].append(op["o"])
            index.append(None)
            continue
        if k == "grp":
            contents[op["d"]] += contents[op["g"]]
            index.append(None)
            continue
        if "d" in op and k in PARSES + ("find", "list", "match"):
            ops.append(dict(meta[op["d"]], opts=contents[op["d"]]))
            made += 1
            op["d"] = made
        if k == "help":
            index.append(None)
            continue
        index.append(len(ops))
        ops.append(op)
    return {"w": s["w"], "ops": ops}, index


def _linked(ops, m):
    """The maps a question about map m can reach."""
    links, n = {}, 0
    for o in ops:
        if o["op"] == "vm":
            n += 1
            links.setdefault(n, set()).add(o["n"])
        elif o["op"] == "vcopy":
            n += 1
            links.setdefault(n, set()).add(o["m"])
        elif o["op"] == "vassign":
            links.setdefault(o["m"], set()).add(o["f"])
        elif o["op"] == "next":
            links.setdefault(o["m"], set()).add(o["n"])
    seen, todo = set(), [m]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += links.get(x, ())
    return seen


def _slice(s, i):
    """Only what operation i depends on; returns the scenario (operation i is its last)."""
    op = s["ops"][i]
    k = op["op"]
    keep, parses = set(), []
    for j, o in enumerate(s["ops"]):
        if o["op"] in PARSES:
            parses.append(j)
    for j in range(i):
        if s["ops"][j]["op"] in ("desc", "add", "grp", "dcopy"):
            keep.add(j)
    if k in ("store", "dump", "get", "as", "notify") + COPIES:
        maps = _linked(s["ops"], op["m"])
        for j in range(i):
            o = s["ops"][j]
            if o["op"] in ("vm", "vcopy") or o["op"] in ("next", "put", "erase", "clear", "store", "vassign") and o["m"] in maps:
                keep.add(j)
            # targets keep what earlier notifications left in them
            if k == "notify" and s["ops"][j]["op"] == "notify":
                keep.add(j)
    keep.add(i)
    for j in list(keep):
        if s["ops"][j]["op"] in ("store", "show", "collect"):
            keep.add(parses[s["ops"][j]["p"] - 1])
    for j in range(i, -1, -1):
        if j in keep and "rest" in s["ops"][j]:
            keep.add(parses[s["ops"][j]["rest"] - 1])
    order = sorted(keep)
    number = {p: n for n, p in enumerate((j for j in order if s["ops"][j]["op"] in PARSES), 1)}
    ops = []
    for j in order:
        o = copy.deepcopy(s["ops"][j])
        if o["op"] in ("store", "show", "collect"):
            o["p"] = number[parses[o["p"] - 1]]
        if "rest" in o:
            o["rest"] = number[parses[o["rest"] - 1]]
        ops.append(o)
    return {"w": s["w"], "ops": ops}


def relevant_by_rerun(prop, exe, s, e, got, note):
    if note:
        last = len(got) - 1
        if prop == "C23":
            t, idx = _flat(s)
            r, n = po.replay(exe, [t], workers=1)[0]
            return not n
        r, n = po.replay(exe, [_slice(s, last)], workers=1)[0]
        return not n
    diff = [i for i in range(len(got)) if e[i] != got[i]]
    if prop == "C23":
        t, idx = _flat(s)
        r, n = po.replay(exe, [t], workers=1)[0]
        return bool(n) or any(idx[i] is not None and r[idx[i]] != got[i] for i in diff)
    # the known-good state of later operations may rest on earlier differences: look at each
    for i in diff[:8]:
        r, n = po.replay(exe, [_slice(s, i)], workers=1)[0]
        if n or r[-1] != got[i]:
            return True
    return False


def explain(b):
    s, e, got, note, j, ctx = b
    out = []
    if 0 <= j < len(s["ops"]):
        out.append("operation %d: %s" % (j + 1, json.dumps(s["ops"][j])))
        if e and j < len(e):
            out.append("  specification: %s" % json.dumps(e[j]))
        if j < len(got):
            out.append("  library:       %s" % (lambda t: t if len(t) < 3000 else t[:3000] + " ...")(json.dumps(got[j])))
    if note:
        out.append(note[-1500:])
    return "\n".join(out)
