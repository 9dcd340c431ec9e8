"""Seeded random scenarios, one family per property (see spec/PoSys.tla for the format)."""
import random

M = 1000000


def opt(id, names, t="string", **kw):
    o = dict(id=id, names=names, t=t, help="", vn="", hasdef=False, **{"def": []}, deft="", hasimp=False,
             imp=[], impt="", comp=False, multi=False, zero=False, req=False, notif=False, nthrow=False,
             sto=False)
    if t == "switch":
        o.update(hasdef=True, deft="0", zero=True)
        o["def"] = ["0"]
    o.update(kw)
    return o


def desc(opts, cap="", ll=80, ml=40):
    return {"op": "desc", "cap": cap, "ll": ll, "ml": ml, "opts": opts}


def cmd(d, args, style=(), unreg=False, pos=None, extra="", sx="", wide=False, api="vec"):
    return {"op": "cmd", "d": d, "style": list(style), "unreg": unreg, "haspos": pos is not None,
            "pos": [list(p) for p in (pos or [])], "extra": extra, "sx": sx, "wide": wide, "api": api,
            "args": list(args)}


def cfg(d, text, unreg=False, wide=False, file=""):
    return {"op": "cfg", "d": d, "text": text, "unreg": unreg, "wide": wide, "file": file}


def env(d, entries, map="prefix", prefix=""):
    return {"op": "env", "d": d, "entries": entries, "map": map, "prefix": prefix}


def find(d, name, ap=False, li=False, si=False, thr=True):
    return {"op": "find", "d": d, "name": name, "ap": ap, "li": li, "si": si, "thr": thr}


def store(p, m): return {"op": "store", "p": p, "m": m}
def vm(n=0): return {"op": "vm", "n": n}
def sc(ops, w=False): return {"w": w, "ops": ops}


def u8(s):
    """A text as the Latin-1 spelling of its UTF-8 bytes."""
    return s.encode("utf8").decode("latin1")


UNIX = ["long", "short", "dash", "ladj", "lnext", "sadj", "snext", "sticky", "guess"]
ALLFLAGS = UNIX + ["slash", "lci", "sci", "disg"]
STYLES = [[], [], UNIX, [f for f in UNIX if f != "guess"], [f for f in UNIX if f != "sticky"],
          UNIX + ["slash"], UNIX + ["lci"], UNIX + ["sci"], UNIX + ["lci", "sci"], UNIX + ["disg"],
          [f for f in UNIX if f != "long"] + ["disg"], UNIX + ["disg", "slash", "lci", "sci"],
          ["long", "ladj", "lnext"], ["long", "ladj", "guess"], ["short", "dash", "sadj", "snext"],
          ["short", "slash", "sadj", "snext", "sci"], ["short", "dash", "slash", "sadj", "snext", "sticky"],
          ["disg", "ladj", "lnext"], ["disg", "ladj", "slash", "guess"],
          ["long", "lnext", "short", "snext", "dash"]]
LONGS = ["foo", "foobar", "fo", "f", "bar", "barfoo", "baz", "Foo", "BAR", "file", "plug*", "plug.x*", "a", "foo*",
         "ab", "opt-1", "o.p", "x_y", "undeclared2", "no", "foo-bar"]
SHORTS = "fbxvFBzX1-?"
TYPES = ["untyped0", "untyped1", "string", "int", "bool", "switch", "vstring", "vint", "ostring", "oint",
         "stdostring", "stdoint", "char", "tag", "vtag", "vbool", "two", "upto3", "upto3z"]
WTYPES = ["wint", "wbool", "wnarrow", "vwint", "vwnarrow", "wchart", "owint", "stdowstring", "wstring", "vwstring", "wlevel"]
RANGED = ("two", "upto3", "upto3z")
WORDS = ["", "a", "b", "foofoo", "barfoofoo", "x", "10", "-5", "-", "--", "=", "a=b", "foo", "val", "true", "Off", "yes", "99999999999",
         "2147483647", "-2147483648", "2147483648", "+7", "007", " 8", "0x10", "@v", "@", "a b", "%value%", "/x",
         "/", "#c", "[s]", "on", "1", "0", "no", "\xe9", "\xff\x80", "z" * 40, "1.5", "foo:1", ":", "''", "w" * 257, "\t", "two\nlines", "-f=", "--foo=", "-foo=x", "/f=1", "--=", "---", "---ab", "---foo=1", "a=", "=b", "\x01"]
RESERVED_DEF = {"string": ["dflt"], "int": ["42"], "bool": ["1"], "vstring": ["d1", "d2"], "vint": ["4", "5"],
                "vbool": ["0", "1"], "ostring": ["od"], "oint": ["6"], "stdostring": ["sd"], "stdoint": ["9"],
                "char": ["c"], "tag": ["tg"], "vtag": ["t1"], "wstring": [u8("w\u00e9\u4e2d")],
                "vwstring": ["vw", u8("\u00df")], "two": ["p", "q"], "upto3": ["u"], "upto3z": ["u", "w"],
                "wint": ["3"], "wbool": ["1"], "wnarrow": ["wn"], "vwint": ["1", "2"], "vwnarrow": ["a", "b"],
                "wchart": [u8("\u00e9")], "owint": ["8"], "stdowstring": [u8("\u4e2d")],
                "otag": ["ot"], "level": ["11"], "vlevel": ["1", "2"], "wlevel": ["12"], "own": ["13"], "vown": ["3"], "oown": ["14"]}


def rand_names(r, used, shorts):
    for _ in range(50):
        ls = r.sample(LONGS, r.choice([1] * 24 + [2] * 8 + [3, 3, 4, 4, 7]))
        if any(x in used for x in ls):
            continue
        s = r.choice(SHORTS) if r.random() < .5 else ""
        if s and s in shorts and r.random() < .9:
            continue
        used.update(ls)
        shorts.add(s)
        if s and r.random() < .15:
            return "," + s
        if s and (len(ls) > 0):
            return ",".join(ls) + "," + s
        return ",".join(ls)
    return "z%d" % r.randrange(10 ** 6)


def decorate(r, o, p=.35):
    """Random attributes that make sense for the type."""
    t = o["t"]
    if t.startswith("untyped"):
        return o
    if t in RESERVED_DEF:
        if r.random() < p:
            o["hasdef"] = True
            o["def"] = list(RESERVED_DEF[t])
            o["deft"] = r.choice([RESERVED_DEF[t][0], "txt", ""])
        if r.random() < p * .7 and t not in RANGED:
            o["hasimp"] = True
            o["imp"] = [{"dflt": "impl", "42": "77", "c": "i"}.get(x, x) for x in RESERVED_DEF[t]]
            o["impt"] = r.choice([o["imp"][0], "itxt", ""])
    if r.random() < p * .5:
        o["comp"] = True
    if r.random() < p * .5 and t not in RANGED + ("switch",):
        o["multi"] = True
    if r.random() < p * .25 and t in ("bool", "string", "vstring", "int"):
        o["zero"] = True
    if r.random() < p * .5:
        o["vn"] = r.choice(["N", "FILE", "arg"])
    return o


def many_names(r, n):
    """Names that are prefixes and relatives of each other; some very long."""
    out = set()
    while len(out) < n:
        x = "".join(r.choice(["a", "b", "opt", "al", "-x", "_", "9", "Za", "file"]) for _ in range(r.randint(1, 4)))
        if r.random() < .06:
            x += "long-" * r.choice([10, 50, 60])
        out.add(x.lstrip("-"))
        out.discard("")
    return sorted(out, key=lambda _: r.random())


def rand_opts(r, n=None, types=TYPES, deco=.3, prefix="o"):
    used, shorts = set(), set()
    os = []
    if n is None and r.random() < .02:
        ns = many_names(r, r.choice([12, 25, 40, 40, 70, 130, 260]))
        ls = list("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
        r.shuffle(ls)
        return [decorate(r, opt("%s%d" % (prefix, i), x + ("," + ls[i] if i < len(ls) and r.random() < .6 else ""), r.choice(types)), deco)
                for i, x in enumerate(ns)]
    for i in range(n or r.choice([1, 2, 3, 3, 4, 5, 7])):
        t = r.choice(types)
        os.append(decorate(r, opt("%s%d" % (prefix, i), rand_names(r, used, shorts), t), deco))
    return os


def declared(os):
    ls, ss = [], []
    for o in os:
        ns = o["names"].split(",")
        if len(ns) > 1 and len(ns[-1]) == 1:
            ss.append(ns[-1])
            ns = ns[:-1]
        ls += [x for x in ns if x]
    return ls, ss


def swapcase(r, s):
    return "".join(c.swapcase() if r.random() < .5 else c for c in s)


def rand_name(r, os):
    """An input name for these options: exact, prefix, other case, extended, unknown."""
    ls, ss = declared(os)
    x = r.random()
    if ls and x < .8:
        n = r.choice(ls)
        if n.endswith("*"):
            n = n[:-1] + r.choice(["", "in", "x", "x1", "*", n[:-1], n])
        y = r.random()
        if y < .5:
            return n
        if y < .75:
            return n[:r.randint(1, max(1, len(n)))]
        if y < .9:
            return swapcase(r, n)
        return n + r.choice(["x", "o", "-", ".", n])
    return r.choice(["nope", "f", "foox", "zz", "q", "undeclared", "Nope", "pl", "plug", "b"])


SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, 300]
CHARSETS = ["ab", "a-", "0123456789", "-+019", "a=", "a.b", "a%v", "a\\\"' ", "/-=a", "abcxyzABC_-.:,;!@#$%&*()[]{}<>?/ =\"'\\~^|+0159", [u8("\u00e9"), u8("\u4e2d"), u8("\U0001f600"), "a"], "a\t \x0b\x0c", "aA", "[]=#a "]


def long_word(r, charset=None):
    """A text of an unusual length."""
    cs = charset or r.choice(CHARSETS)
    return "".join(r.choice(cs) for _ in range(r.choice(SIZES)))


def word(r, words):
    return long_word(r) if r.random() < .03 else r.choice(words)


def rand_token(r, os, words=WORDS, slash=False):
    ls, ss = declared(os)
    x = r.random()
    sh = r.choice(ss) if ss and r.random() < .75 else r.choice("fbqxvz")
    if x < .30:
        return "--" + rand_name(r, os)
    if x < .42:
        return "--" + rand_name(r, os) + "=" + word(r, words)
    if x < .55:
        return "-" + (sh if r.random() < .85 else sh.swapcase())
    if x < .62:
        return "-" + sh + word(r, words)
    if x < .68:
        return "-" + "".join(r.choice(ss) if ss and r.random() < .8 else r.choice("fbqxvz")
                             for _ in range(r.choice([2, 3]))) + r.choice(["", "", "val", "=5", "=", "-", "/x"])
    if x < .72:
        return "-" + rand_name(r, os) + r.choice(["", "=v", "=", "=a=b"])
    if x < .76 or (slash and x < .84):
        return "/" + r.choice([sh, sh.swapcase(), sh + "val", rand_name(r, os), rand_name(r, os) + "=7", "", "/", "/" + sh, "-", "-" + sh, "="])
    if x < .88:
        return "--" if r.random() < .12 else word(r, words)
    return word(r, words)


def rand_args(r, os, n=None, words=WORDS, slash=False):
    if n is None and r.random() < .02:
        n = r.choice([12, 20, 40, 80])
    return [rand_token(r, os, words, slash) for _ in range(r.choice([0, 1, 2, 3, 3, 4, 5, 6]) if n is None else n)]


def rand_pos(r, os):
    ls, _ = declared(os)
    ls = [x for x in ls if not x.endswith("*")] or ["pp"]
    ps = [(r.choice(ls + ["pp"]), r.choice([1, 1, 2, 3])) for _ in range(r.choice([0, 1, 1, 2]))]
    if r.random() < .5:
        ps.append((r.choice(ls + ["rest"]), -1))
    return ps


def rand_style(r):
    x = r.random()
    if x < .8:
        return r.choice(STYLES)
    return [f for f in ALLFLAGS if r.random() < .6]


# words for wide parsing: valid UTF-8 only
UWORDS = ["", "a", "10", "-5", "--", "a=b", "val", "on", u8("\u00e9"), u8("\u4e2d\u6587"), u8("\U0001f600x"),
          u8("a" * 31 + "\u00e9"), u8("\u4e2d" * 33), u8("x" * 32), u8("y" * 30 + "\u4e2d" + "z" * 5), "@v", "@",
          "true", "b c", u8("\u00df=\u00e9")]


def utf8(x):
    """x if it is valid UTF-8, else the UTF-8 form of it."""
    try:
        x.encode("latin1").decode("utf8")
        return x
    except UnicodeDecodeError:
        return u8(x)


# ---- families --------------------------------------------------------------------
def g01(r):
    os = rand_opts(r, types=["string", "untyped0", "int"], deco=0)
    if r.random() < .15:       # a duplicate declaration
        o = dict(r.choice(os), id="dup")
        os.append(o)
    if r.random() < .15:
        r.choice(os)["names"] = r.choice(["*", "a,,b", "a,,x", "*,a", "*foo*", "a*b", "foo,*,f", "a*,b", "ab,c,", "aa*"])
    ops = [desc(os)]
    k = r.random()
    if k < .3:                 # through a group
        ops += [desc([])]
        ops += [{"op": "grp", "d": 2, "g": 1}]
        d = 2
    else:
        d = 1
    ls, ss = declared(os)
    for _ in range(8):
        n = rand_name(r, os)
        if ss and r.random() < .25:
            n = "-" + r.choice(ss + ["q"])
            if r.random() < .3:
                n = n.swapcase()
        if r.random() < .03:
            n = r.choice(["", "-", "*", "--"])
        ops.append(find(d, n, r.random() < .5, r.random() < .4, r.random() < .4, r.random() < .7))
        if r.random() < .3:
            ops.append({"op": "match", "d": d, "name": n, "ap": r.random() < .5, "li": r.random() < .4, "si": r.random() < .4})
    for _ in range(2):
        a = rand_token(r, os)
        ops.append(cmd(d, [a, "v"][:r.choice([1, 2])], rand_style(r)))
    ops += [vm(), store(1, 1), store(2, 1)]
    return sc(ops, r.random() < .5)


def g_cmd(r, types=TYPES, deco=.3, n=None, pos=.35, unreg=.2, extra=.1, sx=.05, style=None, words=WORDS,
          wide=.1, args=None, cmds=1, collect=False):
    os = rand_opts(r, types=types, deco=deco, n=n)
    ex = sxk = ""
    if r.random() < extra:
        ex = r.choice(["at", "no", "colon", "bad", "sh", "bare"])
    if r.random() < sx:
        sxk = r.choice(["at2", "plus", "pair", "stop", "drop", "two", "bare", "grow"])
    if (ex == "at" or sxk == "at2") and r.random() < .8:
        os.append(opt("file", "file", r.choice(["string", "vstring", "int"])) if not any(
            "file" in o["names"].split(",") for o in os) else opt("zz", "zz"))
    ops = [desc(os)]
    np = 0
    for _ in range(cmds):
        st = r.choice(STYLES) if style is None else style(r)
        w = r.random() < wide
        a = rand_args(r, os, words=UWORDS if w else words, slash="slash" in st) if args is None else args(r, os)
        if w:
            a = [utf8(x) for x in a]
        if ex or sxk:
            a = [r.choice(["@cfg", "@", "--no-foo", "--no-zz", "foo:7", "bar:", ":x", "!x", "+f1", "+bf", "%%", "-drop",
                           "^v", "^", "foo", "bar", "zz", "%x", "%y", "%z"]) if r.random() < .35 else t for t in a]
        api = r.choice(["vec", "rev", "argv", "copy", "again"] if a else ["vec", "none"])
        ps = rand_pos(r, os) if r.random() < pos else None
        un = r.random() < unreg
        if ps is None and not un and not sxk and r.random() < .3:
            api = "pcl"
        ops.append(cmd(1, a, st, un, ps, ex, sxk, w, api))
        np += 1
        if collect or un:
            ops.append({"op": "collect", "p": np, "inc": r.random() < .5})
            ops.append({"op": "collect", "p": np, "inc": r.random() < .5})
    return sc(ops)


def g02(r): return g_cmd(r)


def g03(r):
    t = ["two", "upto3", "upto3z", "vstring", "string", "untyped0", "untyped1", "vint", "bool", "switch", "int"]
    def args(r, os):
        a = []
        for _ in range(r.choice([1, 2, 3, 4, 6, 8])):
            a.append(rand_token(r, os) if r.random() < .45 else r.choice(["v1", "v2", "v3", "7", "--", "-5", "x y"]))
        if r.random() < .03:       # very many values
            a += ["--" + rand_name(r, os)] + ["v%d" % i for i in range(r.choice([60, 127, 128, 129, 200, 256, 260]))]
        return a
    return g_cmd(r, types=t, deco=.6, n=r.choice([1, 2, 3]), args=args, extra=0, sx=0, unreg=.15)


def ask_positions(r):
    pos = [[r.choice(["a", "bb", "c", "a"]), r.choice([0, 1, 1, 2, 3, 7, 40, 130, 256, 300])] for _ in range(r.choice([0, 1, 2, 3, 6]))]
    if r.random() < .6:
        pos.insert(r.randint(0, len(pos)), [r.choice(["rest", "a"]), -1])
    return {"op": "pos", "pos": pos, "ask": sorted({0, 1, 2} | {r.choice([3, 5, 8, 12, 13, 39, 40, 41, 63, 64, 127, 200, 255, 256, 257, 299, 300, 301, 556, 99999]) for _ in range(6)})}


def g04(r):
    if r.random() < .12:
        return sc([ask_positions(r) for _ in range(3)])
    def args(r, os):
        a = [r.choice(["p", "q", "r", "-", "", "7", "x=y"]) if r.random() < .55 else rand_token(r, os)
             for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 12]) if r.random() < .99 else r.choice([66, 130, 260]))]
        if r.random() < .4:
            a.insert(r.randint(0, len(a)), "--")
        return a
    if r.random() < .02:       # more positional tokens than a narrow counter holds
        os = rand_opts(r, types=["string", "vstring"], deco=0, n=2)
        ls = [x for x in declared(os)[0] if not x.endswith("*")] or ["pp"]
        ps = [(r.choice(ls), r.choice([1, 64, 128, 256, 257, 300]))] + ([(r.choice(ls + ["rest"]), -1)] if r.random() < .4 else [])
        n = ps[0][1]
        return sc([desc(os), cmd(1, ["p"] * (n + r.choice([-1, 0, 0, 1, 1, 40])), r.choice(STYLES), r.random() < .2, ps)])
    return g_cmd(r, pos=.75, args=args, extra=.03, sx=.05, unreg=.2)


def g05(r): return g_cmd(r, style=rand_style, extra=0, sx=0, deco=.1, n=r.choice([2, 3, 4]))


def g06(r):
    s = g_cmd(r, unreg=.8, extra=.08, sx=.08, collect=True)
    if r.random() < .5:        # what is left over goes to a second parser, and a third
        ops = s["ops"]
        ops.append(desc(rand_opts(r, n=r.choice([1, 2, 3]), prefix="s")))
        wide = ops[1]["wide"] and not ops[1]["extra"] and not ops[1]["sx"]
        for i in (1, 2):
            c = cmd(2 if i == 1 else r.choice([1, 2]), [], r.choice(STYLES), r.random() < .7, rand_pos(r, ops[-1]["opts"]) if r.random() < .3 and i == 1 else None,
                    wide=wide and r.random() < .5)
            c.update(rest=i, inc=r.random() < .6)
            ops.append(c)
            ops.append({"op": "collect", "p": i + 1, "inc": True})
    if r.random() < .3:
        s["ops"] += [vm(), store(1, 1)]
    return s


def g07(r): return g_cmd(r, extra=.6, sx=.5, unreg=.25, deco=.3)


BLANKS = ["", "", " ", "\t", "  ", " \t", "\r"]
CNAMES = ["foo", "bar", "sec.foo", "sec.bar", "a.b.c", "plug.x", "plug.", "pl", "unknown", "Foo", "x y", ""]
CVALUES = ["a\\#b", "\"q # r\"", "1", "", "a b", "a=b", "x # c", "#", "[s]", "\"q\"", "\xe9\xff", "v\r", "-5", "  in  ner ", "z" * 50]


def cfg_value(r):
    return long_word(r).replace("\n", " ") if r.random() < .03 else r.choice(CVALUES)


def cfg_line(r):
    b = lambda: r.choice(BLANKS)
    x = r.random()
    if x < .55:
        s = b() + r.choice(CNAMES) + b() + "=" + b() + cfg_value(r) + b()
    elif x < .75:
        s = b() + "[" + b() + r.choice(["sec", "sec.", "a.b", "plug", "", ".", "x]y", "sec", "a=b", "a#b", "sec..", "s c", "SEC"]) + "]" + b()
    elif x < .83:
        s = r.choice(["", " ", "#", "# comment = 1", "  # [x]", "\t", "\r"])
    elif x < .87:
        s = r.choice(["foo", "[sec", "sec]", "]", "foo bar", "[", "[]x", "=", " = v", "==", "foo=1=2", "[sec]foo=1", "[sec] x", "foo=1 [sec]", "[[sec]]", "]=["])
    else:
        s = b() + r.choice(["foo", "bar", "sec.foo"]) + "=" + r.choice(["1", "2", "xyz"])
    if r.random() < .1:
        s += " # " + r.choice(["c", "[x]", "foo=2", "#"])
    return s


def cfg_text(r, n=None):
    if n is None and r.random() < .02:
        n = r.choice([15, 40, 70, 140, 270])
    ls = [cfg_line(r) for _ in range(r.choice([0, 1, 2, 3, 4, 6]) if n is None else n)]
    nl = "\n" if r.random() < .8 else "\r\n"
    if r.random() < .02:       # a byte order mark is no blank
        ls[:1] = [r.choice(["\xef\xbb\xbf", "\xfe\xff", "\xc2\xa0", "\xef\xbb"]) + x for x in ls[:1]]
    return nl.join(ls) + (nl if r.random() < .6 else "")


def cfg_opts(r):
    pool = [opt("foo", "foo", "string"), opt("bar", "bar,b", "int"), opt("sf", "sec.foo", "vstring"),
            opt("sb", "sec.bar", "string"), opt("abc", "a.b.c", "string"), opt("pw", "plug.*", "string"),
            opt("uw", r.choice(["un*", "pl*", "x y", "f*"]), "string"), opt("alt", "first,unknown", "string"),
            opt("e", r.choice(["sec.*", ".foo", "a.*", "*"]), "string"), opt("s", ",s", "string")]
    k = [.8, .7, .6, .5, .4, .5, .25, .3, .2, .06]
    return [o for o, p in zip(pool, k) if r.random() < p]


def g08(r):
    os = cfg_opts(r)
    t = cfg_text(r)
    ascii_ = all(ord(c) < 128 for c in t)
    un = r.random() < .6
    ops = [desc(os), cfg(1, t, un)]
    if ascii_:
        ops.append(cfg(1, t, un, True))
        if r.random() < .2:
            ops.append(cfg(1, t, un, True, "ok"))
    if r.random() < .3:
        ops.append(cfg(1, t, un, False, "ok"))
    ops.append(cfg(1, t[:-1] if t.endswith("\n") else t + "\n", un))
    return sc(ops)


def g09(r):
    os = cfg_opts(r)
    if r.random() < .4:
        ws = r.sample(["a*", "ab*", "b*", "a.*", "abc*", "*", "ab", "b.c*", "a", "A*", "b.*", "sub.b*", "sub.*", "aa*", "zz*", "c*", "a.b.c",
                          "a b*", "a!x*", "a'b*", "a)*", "a!*", "ab!*"],
                      r.choice([2, 3, 4, 6]))
        os = [opt("w%d" % i, w, "string") for i, w in enumerate(ws)]
    t = cfg_text(r)
    if r.random() < .4:
        t = "".join(r.choice(["a", "ab", "b", "abc", "a.", "b.c", "A", "zz", "foo", "sub.b.x", "sub.b", "b.x", "a.b", "a.b.c", "aab", "c", "sub."]) + "=1\n"
                    for _ in range(r.randint(1, 4)))
    ops = [desc(os), cfg(1, t, r.random() < .35, False, r.choice(["", "", "", "", "", "ok", "missing", "dir"]))]
    if r.random() < .5:
        ops.append(cfg(1, t, True))
    return sc(ops, r.random() < .3)


def g10(r):
    ents = []
    for _ in range(r.randint(0, 7) if r.random() < .97 else r.choice([20, 40, 70, 140, 270])):
        n = r.choice(["V_FOO", "V_BAR", "V_SAME", "V_UNK", "V_", "V", "v_foo", "PRE_A", "PRE_Abc", "PRE_", "PRE", "PREX",
                      "X", "", "PRE_a.b", "V_FOO_BAR", "PRE_" + r.choice("ABCz1"), "\xc9A"])
        if r.random() < .05:
            n = r.choice(["PRE_", "V_", "", "P"]) + long_word(r, r.choice(["aB_", "AZ", "a.", "PRE_"]))
        ents.append(n + "=" + long_word(r) if r.random() < .05 else n + "=" + r.choice(["", "1", "a=b", "=", "two words", "\xe9", "x" * 60, "V_FOO=2"]))
    m = r.choice(["prefix", "prefix", "id", "table"])
    os = [opt("foo", "foo", r.choice(["string", "vstring"])), opt("bar", "bar", "int"), opt("a", "a"), opt("abc", "abc")]
    ops = [desc(os), env(1, ents, m, r.choice(["PRE_", "V_", "P", "", "PRE_A", "V_FOO", "v_"]))]
    ops += [vm(), store(1, 1)]
    return sc(ops)


# stores ---------------------------------------------------------------------------
# One option table; descriptions take subsets of it, with the same types but their own attributes.
STYPES = ["string", "int", "bool", "switch", "vstring", "vint", "upto3", "upto3z", "two", "ostring", "stdoint", "untyped0",
          "untyped1", "tag", "vtag", "char", "vbool", "oint", "stdostring", "otag", "level", "vlevel", "own", "vown", "oown"]
STO = ("string", "int", "vstring", "bool", "switch", "vint", "ostring", "char")
SNAMES = ["alpha,a", "beta,b", "gamma", "delta,d", "eps,other,e", "zeta", ",q", "wild*"]


def store_world(r, types=STYPES, deco=.45, req=.2, notif=0, names=SNAMES, n=None):
    table = [(nm, r.choice(types)) for nm in r.sample(names, n or r.randint(2, min(6, len(names))))]
    descs = []
    for d in range(r.choice([1, 1, 2, 3])):
        os = []
        for i, (nm, t) in enumerate(table):
            if r.random() < (.85 if d == 0 else .6):
                o = decorate(r, opt("d%d%s" % (d, nm.strip(",").split(",")[0]), nm, t), deco)
                if t.startswith("untyped"):
                    pass
                else:
                    o["req"] = r.random() < req and not nm.startswith(",")
                    if nm.startswith(",") and r.random() < req * .5:
                        o["req"] = True
                    if r.random() < notif:
                        o["notif"] = True
                        o["nthrow"] = r.random() < .12
                    if notif and t in STO and r.random() < .4:
                        o["sto"] = True
                os.append(o)
        descs.append(os)
    return table, descs


def made(r, d, os, failing=.12):
    """A parse result made by the program itself; keys may be alternative or short names."""
    xs = []
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        o = r.choice(os)
        ls, ss = declared([o])
        k = r.choice([ls[0]] * 4 + ls + ["-" + x for x in ss]) if ls else "-" + ss[0]
        if k.endswith("*"):
            k = k[:-1] + r.choice(["1", "2", "", "*"])
        if r.random() < failing:
            k = r.choice(["", "nosuch", k[:-1], k + "x", k.upper(), "--" + k])
        n = r.choice([0, 1, 1, 1, 2]) if o["multi"] or o["t"] in RANGED or r.random() < .1 else \
            0 if o["t"] in ("untyped0", "switch") and r.random() < .8 else 1 if not (o["zero"] or o["hasimp"]) else r.choice([0, 1])
        if n and r.random() < .02 and (o["multi"] or o["t"].startswith("v")):
            n = r.choice([60, 130, 256, 257, 300])
        v = [good_value(r, o["t"]) for _ in range(n)]
        t = r.choice([[k] + v, [k] + v, [], ["--" + k] + v, v])
        xs.append({"k": k, "pos": r.choice([-1, -1, -1, 0, M]), "v": v, "t": t, "un": r.random() < .08, "ci": r.random() < .1})
    return {"op": "make", "d": d, "pre": r.choice(["", "long", "long", "dash", "slash", "disguise"]), "opts": xs}


def good_value(r, t):
    """A value text for the type; mostly acceptable."""
    if r.random() < .12:
        return word(r, WORDS)
    if t in ("int", "vint", "oint", "stdoint", "level", "vlevel", "own", "vown", "oown"):
        return r.choice(["1", "2", "-3", "2147483647", "0"])
    if t in ("bool", "switch", "vbool"):
        return r.choice(["on", "off", "1", "0", "TRUE", "No"])
    if t == "char":
        return r.choice("xyz")
    if t in ("tag", "vtag", "otag"):
        return r.choice(["@p", "@q", "@"])
    return r.choice(["x", "y", "zz", "w w"])


def source(r, d, os, kinds=("cmd", "cmd", "cmd", "cfg", "env"), unreg=.15, pos=.15, wide=.05):
    """An operation that parses random occurrences of these options."""
    kind = r.choice(kinds)
    if os and r.random() < .08:
        return made(r, d, os)
    prim = [(o, o["names"].split(",")[0], (o["names"].split(",")[-1] if "," in o["names"] and
                                           len(o["names"].split(",")[-1]) == 1 else "")) for o in os]
    if kind == "cfg" and any(p[1] == "" for p in prim):
        kind = "cmd"
    occ = [r.choice(prim) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))] if prim else []
    if kind == "cfg":
        t = "".join("%s=%s\n" % (n[:-1] + r.choice(["1", "2", ""]) if n.endswith("*") else n, good_value(r, o["t"]))
                    for o, n, s in occ)
        if r.random() < unreg:
            t += r.choice(["nosuch", "alpha", "gamma", "zeta", "wild7", "beta"]) + "=1\n"
        return cfg(d, t, r.random() < unreg)
    if kind == "env":
        es = ["E_%s=%s" % (n.upper(), good_value(r, o["t"])) for o, n, s in occ if n]
        return env(d, es, "prefix", "E_")
    a = []
    for o, n, s in occ:
        vals = [good_value(r, o["t"]) for _ in range(r.choice([0, 1, 1, 1, 2, 3]) if o["multi"] or o["t"] in
                                                     RANGED else r.choice([0, 1, 1, 1]))]
        if o["t"] in ("untyped0", "switch") or o["zero"]:
            vals = vals if r.random() < .05 else []
        if n and (not s or r.random() < .6):
            nn = n[:-1] + r.choice(["1", "2"]) if n.endswith("*") else n
            alts = [x for x in o["names"].split(",") if len(x) > 1]
            if not n.endswith("*") and alts:
                nn = r.choice(alts)
            if vals and r.random() < .4 and vals[0]:
                a.append("--%s=%s" % (nn, vals[0]))
                vals = vals[1:]
            else:
                a.append("--" + nn)
        elif s:
            a.append("-" + s)
        a += vals
    if r.random() < unreg:
        a.insert(r.randint(0, len(a)), r.choice(["--nosuch", "-Z", "--nosuch=1"]))
    w = r.random() < wide and all(ord(c) < 128 for x in a for c in x)
    ps = None
    if r.random() < pos and prim:
        ps = [(r.choice([p[1] for p in prim if p[1] and not p[1].endswith("*")] or ["zeta"]), r.choice([1, -1]))]
    return cmd(d, a, [], r.random() < unreg, ps, wide=w)


LISTS = ("vlevel", "vown", "vstring", "vint", "vbool", "vtag", "two", "upto3", "upto3z", "vwstring", "vwint", "vwnarrow")


def g_store(r, types=STYPES, deco=.45, req=.2, notif=0., nsrc=(1, 4), nvm=1, clear=.1, chain=0., put=0., get=0., failing=.15,
            dumpeach=False, w=False, notify=0., copies=.08, sources=("cmd", "cmd", "cmd", "cfg", "env"), names=SNAMES, n=None):
    if r.random() < .02:       # many options, many sources
        names, n, nsrc = names + ["opt%d" % i for i in range(70)], r.choice([12, 20, 40, 70]), (5, 12)
    elif r.random() < .005:    # few options, very many sources
        n, nsrc = r.choice([1, 2]), (40, 70)
    table, descs = store_world(r, types, deco, req, notif, names, n)
    ops = [desc(os) for os in descs]
    nexts = {}
    for i in range(nvm):
        nx = r.randint(0, i) if r.random() < chain else 0
        nexts[i + 1] = nx
        ops.append(vm(nx))
    np = 0
    keys = [nm.split(",")[0] or "-" + nm.split(",")[-1] for nm, t in table if not nm.endswith("*")] + ["wild1", "nokey"]
    putkeys = [k for k, (nm, t) in zip([nm.split(",")[0] or "-" + nm.split(",")[-1] for nm, t in table], table)
               if t not in LISTS and not nm.endswith("*")] + ["own1", "own2"]
    if put == 0.:
        putkeys = []
    for _ in range(r.randint(*nsrc)):
        d = r.randint(1, len(descs))
        ops.append(source(r, d, descs[d - 1], sources))
        np += 1
        for _ in range(r.choice([1, 1, 1, 2])):
            p = np if r.random() < .85 else r.randint(1, np)
            ops.append(store(p, r.randint(1, nvm)))
        if r.random() < clear:
            ops.append({"op": "clear", "m": r.randint(1, nvm)})
        if r.random() < .06:
            ops.append({"op": "erase", "m": r.randint(1, nvm), "k": r.choice(keys)})
        if putkeys and r.random() < put:
            ops.append({"op": "put", "m": r.randint(1, nvm), "k": r.choice(putkeys), "v": "put", "d": r.random() < .4})
        if chain and r.random() < .3:
            m = r.randint(1, nvm)
            nx = r.randint(0, nvm)
            j, seen = nx, False
            while j:
                seen |= j == m
                j = nexts[j]
            if not seen:
                nexts[m] = nx
                ops.append({"op": "next", "m": m, "n": nx})
        if r.random() < copies:
            m = r.randint(1, nvm)
            if nvm == 1 or r.random() < .5:
                nvm += 1
                nexts[nvm] = nexts[m]
                ops.append({"op": "vcopy", "m": m})
            else:
                f = r.choice([x for x in range(1, nvm + 1) if x != m])
                j, seen = nexts[f], False
                while j:
                    seen |= j == m
                    j = nexts[j]
                if not seen:
                    nexts[m] = nexts[f]
                    ops.append({"op": "vassign", "m": m, "f": f})
        if r.random() < notify:
            ops.append({"op": "notify", "m": r.randint(1, nvm)})
        if get:
            for _ in range(3):
                ops.append({"op": "get", "m": r.randint(1, nvm), "name": r.choice(keys + ["own1"])})
    for m in range(1, nvm + 1):
        ops.append({"op": "dump", "m": m})
        if notify:
            ops.append({"op": "notify", "m": m})
    return sc(ops, w)


def g11(r):
    s = g_store(r, nsrc=(2, 6), nvm=r.choice([1, 1, 2]), clear=.15, put=.05, req=r.choice([0, .2]), notify=.2, copies=.2)
    if not r.random() < .5:
        return s
    # few options, many sources: precedence is exercised often
    return g_store(r, nsrc=(3, 6), n=2, clear=.15, deco=.5)


def g12(r):
    return g_store(r, types=["vstring", "vint", "vtag", "vbool", "upto3", "upto3z", "two", "string", "int", "untyped1", "untyped0"], nsrc=(1, 4), n=r.choice([2, 3]),
                   deco=.7, clear=.05)


def g13(r): return g_store(r, deco=.9, nsrc=(1, 4), clear=.1)


def g14(r): return g_store(r, req=.55, nsrc=(1, 5), clear=.12, notify=.7, put=.15, w=True, nvm=r.choice([1, 1, 2]), chain=.2)


def g15(r): return g_store(r, notif=.6, req=.1, nsrc=(1, 4), notify=.6, put=.3, clear=.1)


def g16(r): return g_store(r, nvm=r.choice([2, 3, 4]) if r.random() < .98 else r.choice([9, 17]), chain=.85, nsrc=(2, 5), get=1, put=.5, clear=.1, notify=.1, copies=.25)


CTEXT = WORDS + ["TRUE", "FALSE", "oN", "nO", "2", "-0", "+0", "00", "0000000000000000005", "-2147483649", "+", "1 ", "\t1",
                 "ab", "@@", "x@", " ", "1e3", "0b1", "truee", "tru", "ON ", "-1-", "--5", "5-", "a" * 33, "\x7f", "\x01"]


def num_text(r):
    """Texts that are, or nearly are, numbers."""
    n = r.choice([0, 1, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 10 ** 9, r.randint(0, 2 ** 33)])
    n += r.choice([0, 0, 0, 1, -1])
    return r.choice(["", "", "-", "+", "--", "+-", " "]) + r.choice(["", "", "0", "000", "0" * 40]) + str(n) + r.choice(["", "", "", " ", ".", ".0", "u", "L", "e0", "\t", "-"])


def g17(r):
    t = r.choice(STYPES + WTYPES + ["string", "int", "bool"])
    o = decorate(r, opt("v", "val,v", t), .3)
    o2 = opt("p", "pos", t)
    texts = [num_text(r) if r.random() < .15 else word(r, CTEXT) for _ in range(r.choice([1, 1, 1, 2, 3]) if r.random() < .98 else r.choice([9, 17, 40, 130, 270]))]
    if "bool" in t or t == "switch":
        if r.random() < .7:
            case = lambda x: "".join(r.choice([c.lower(), c.upper()]) for c in x)
            texts = [r.choice([case(w), w, w]) for w in r.choices(["on", "off", "yes", "no", "1", "0", "true", "false", "", "o", "fals", "offf", "n", "11"], k=len(texts))]
    elif r.random() < .25:
        texts = [good_value(r, t) for _ in texts]
    ops = [desc([o, o2])]
    k = r.random()
    if k > .93:                # the program's own parse result: any number of values
        ops.append({"op": "make", "d": 1, "pre": r.choice(["", "long", "dash"]),
                    "opts": [{"k": r.choice(["val", "val", "pos"]), "pos": -1, "v": texts[:r.randint(0, 3)], "t": ["--val"], "un": False, "ci": False}
                             for _ in range(r.choice([1, 1, 2]))]})
    elif k < .3 and len(texts) == 1 and texts[0] and "\n" not in texts[0]:
        ops.append(cmd(1, ["--val=" + texts[0]]))
    elif k < .5 and all(x.strip(" \t\r\n") == x and "#" not in x and "\n" not in x for x in texts):
        ops.append(cfg(1, "".join("val=%s\n" % x for x in texts)))
    elif k < .6:
        ops.append(env(1, ["E_VAL=" + texts[0]], "prefix", "E_"))
    else:
        w = r.random() < .4
        if w:
            texts = [r.choice(UWORDS) if r.random() < .3 else utf8(x) for x in texts]
        ops.append(cmd(1, ["--val"] + texts, [], False, [("pos", -1)], wide=w))
    ops += [vm(), store(1, 1)]
    tags = {"wlevel": "level", "oown": "stdoown", "switch": "bool", "two": "vstring", "upto3": "vstring", "upto3z": "vstring", "wint": "int", "wbool": "bool",
            "wnarrow": "string", "vwint": "vint", "vwnarrow": "vstring", "owint": "oint", "untyped0": "string", "untyped1": "string"}
    tag = tags.get(t, t)
    ops += [{"op": "as", "m": 1, "name": "val", "t": tag},
            {"op": "as", "m": 1, "name": "val", "t": r.choice(["string", "int", "vstring", "bool", "ostring"])},
            {"op": "as", "m": 1, "name": "none", "t": "string"}]
    return sc(ops)


PCT = ["%", "%%", "%value%", "%canonical_option%", "%prefix%", "%option%", "%original_token%", "%invalid_line%",
       "100%", "%value", "a%b%c", "'", "\"", "\xe9", "%%value%%", "$1", "\\1", "%canonical_option", "option '%canonical_option%'"]


SYN = ["long_not_allowed", "long_adjacent_not_allowed", "short_adjacent_not_allowed", "empty_adjacent_parameter",
       "missing_parameter", "extra_parameter", "unrecognized_line"]
VALK = ["multiple_values_not_allowed", "at_least_one_value_required", "invalid_bool_value", "invalid_option_value", "invalid_option"]


def err_op(r):
    """An error made by the program."""
    cls = r.choice(["unknown", "ambiguous", "multivalues", "multioccur", "required", "cmdsyntax", "syntax", "validation",
                    "cfgsyntax", "boolvalue", "optvalue", "custom", "cmdsyntax", "validation", "optvalue", "custom",
                    "toomany", "readfile", "style", "error"])
    kd = r.choice(SYN) if cls in ("cmdsyntax", "syntax", "cfgsyntax") else r.choice(VALK) if cls == "validation" else ""
    name = lambda: r.choice(["", "foo", "f", "-f", "--foo", "foo-bar", "/x"] + PCT)
    tok = lambda: r.choice(["", "--foo", "-f", "-fx", "/f", "foo", "--foo=1", "-", "--", "---x", "---ab", "-/-f"] + PCT)
    pre = lambda: r.choice(["", "long", "long", "disguise", "dash", "slash"])
    o = {"op": "err", "cls": cls, "kd": kd, "opt": name(), "tok": tok(), "pre": pre(), "wide": False,
         "alts": [r.choice(["foo", "foobar", "b", "fo", "--x"] + PCT) for _ in range(r.choice([1, 2, 2, 3, 5]) if r.random() < .97 else r.choice([9, 17, 40]))],
         "val": r.choice(WORDS + PCT), "line": r.choice(["x", "a b", "[s"] + PCT),
         "msg": "".join(r.choice(["the ", "option '%canonical_option%'", "%value%", "%prefix%", "%option%", "%", "argument ('%value%')",
                                  "%original_token%", "%invalid_line%", "%x%", "%%", "%value", "%option"]) for _ in range(r.choice([0, 1, 3, 5]))),
         "ctx": [[name(), tok(), pre()] for _ in range(r.choice([0, 1, 1, 2, 3]))],
         "subs": [[r.choice(["value", "value", "option", "original_token", "invalid_line", "prefix", "canonical_option", "x"]), r.choice(PCT + ["v", ""])]
                  for _ in range(r.choice([0, 0, 1, 2]))],
         "dfl": [[r.choice(["value", "option", "original_token", "invalid_line", "prefix", "canonical_option", "x", "a", "z"]),
                  r.choice(["%value%", "%x%", "the ", "option", "%option%", "'", "%canonical_option%", "%", "%%", "option '%canonical_option%'", "gu", "e"]),
                  r.choice(["", "", "none", "%prefix%", "%x%", "the the ", "option option", "%", "%option%", "argument ('%value%')", "value"])]
                 for _ in range(r.choice([0, 0, 0, 1, 2, 4]))]}
    if cls == "optvalue" and r.random() < .4:
        o["wide"] = True
        o["val"] = utf8(o["val"])
    return o


def g18(r):
    if r.random() < .2:
        return sc([err_op(r) for _ in range(6)], True)
    k = r.random()
    words = WORDS + PCT + PCT
    if k < .55:
        s = g_cmd(r, words=words, unreg=.05, pos=.4, extra=.1, sx=.1, deco=.3, style=rand_style, wide=.03)
        os = s["ops"][0]["opts"]
        if r.random() < .4:
            s["ops"][1]["args"] = [a if r.random() < .7 else "--" + r.choice(PCT) + r.choice(["", "=v"])
                                   for a in s["ops"][1]["args"]]
            if s["ops"][1]["wide"]:
                s["ops"][1]["args"] = [utf8(a) for a in s["ops"][1]["args"]]
        s["ops"] += [vm(), store(1, 1), {"op": "notify", "m": 1}]
        s["w"] = True
        return s
    if k < .7:
        s = g_store(r, req=.5, notify=.5, nsrc=(1, 3), w=True)
        return s
    if k < .85:
        s = g09(r)
        s["w"] = True
        if r.random() < .4:
            s["ops"][1]["text"] += r.choice(PCT) + r.choice(["", "=1"]) + "\n"
        return s
    s = g17(r)
    for o in s["ops"]:
        if o["op"] == "cmd":
            o["args"] = [a if r.random() < .5 or i == 0 else r.choice(PCT) for i, a in enumerate(o["args"])]
            if o["wide"]:
                o["args"] = [utf8(a) for a in o["args"]]
            o["style"] = r.choice(STYLES)
    s["w"] = True
    return s


def rand_help(r, width=40):
    if r.random() < .08:
        return ""
    out = ""
    for _ in range(r.choice([1, 2, 5, 10, 25]) if r.random() < .99 else r.choice([60, 130])):
        x = r.random()
        if x < .62:
            out += "abcdefghijklmnopqrstuvwxyz"[:r.randint(1, 9)]
        elif x < .68:
            out += "W" * r.randint(10, 90)
        elif x < .72:
            out += "\xe9,;"
        y = r.random()
        out += " " if y < .78 else "  " if y < .84 else "   " if y < .86 else "\n" if y < .93 else \
            "\n\n" if y < .94 else "\t" if y < .955 else ""
    if r.random() < .4:
        out = out.strip(" ")
    return out


def help_opts(r, k):
    os = []
    for i in range(r.choice([0, 1, 2, 3, 4]) if r.random() < .99 else 12):
        l = "n" + "xyz"[:r.randint(1, 3)] * r.choice([1, 1, 2, 8, 14]) + str(i)
        nm = r.choice([l, l, l + "," + "abcdefghijklm"[i], l + ",second", "," + "abcdefghijklm"[i], l + ",second," + "abcdefghijklm"[i]])
        o = decorate(r, opt("h%d_%d" % (k, i), nm, r.choice(["string", "int", "untyped0", "untyped1", "switch", "vstring",
                                                          "bool", "upto3"])), .4)
        o["help"] = rand_help(r)
        os.append(o)
    return os


def g19(r):
    ll = r.choice([80, 80, 80, 40, 40, 30, 30, 60, 100, 25, 20, 120, 270])
    ml = r.choice([ll // 2, ll // 2, ll // 3, 2, 5, ll - 2 if ll > 30 else ll // 2, 10])
    ml = max(2, min(ml, ll - 2))
    ops = [desc(help_opts(r, 1), r.choice(["", "Caption", "A longer caption"]), ll, ml)]
    n = 1
    deep = r.random() < .4         # innermost first: every group is complete when it is added
    for _ in range(r.choice([0, 0, 1, 2, 3]) if r.random() < .98 else r.choice([6, 9])):
        n += 1
        ops.append(desc(help_opts(r, n), r.choice(["", "Group %d" % n]), ll, r.choice([ml, ml, max(2, ml // 2)])))
        if not deep:
            ops.append({"op": "grp", "d": r.randint(1, n - 1), "g": n})
        if r.random() < .3:
            o = opt("late%d" % n, "late%d" % n, "string")
            o["help"] = rand_help(r)
            ops.append({"op": "add", "d": r.randint(1, n), "o": o})
    if deep:
        for g in range(n, 1, -1):
            ops.append({"op": "grp", "d": r.randint(1, g - 1) if r.random() < .5 else g - 1, "g": g})
            if r.random() < .1:
                ops.append({"op": "grp", "d": r.randint(1, g - 1), "g": g})
    for d in range(1, n + 1):
        ops.append({"op": "help", "d": d})
        if r.random() < .3:
            ops.append({"op": "help", "d": d, "col": r.randint(2, ll - 3)})
    return sc(ops)


def g20(r):
    k = r.random()
    if k < .4:
        n = r.choice([0, 1, 3, 8, 30, 31, 32, 33, 34, 63, 64, 65, 66, 100])
        cps = [r.choice([65, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x4e2d, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x20, 0xd7ff])
               if r.random() < .7 else r.randint(1, 0x10ffff) for _ in range(n)]
        if r.random() < .3:
            base = r.choice([65, 0xe9, 0x4e2d, 0x1f600])
            cps = [base] * n
        if r.random() < .05:
            cps.append(r.choice([0x1fffff, 0x3ffffff, 0x7fffffff, 0x200000, 0xd800]))
        en = r.choice(["utf8", "utf8", "utf8", "local", "latin1", "c"])
        if en in ("latin1", "c") and r.random() < .6:
            cps = [c % (256 if en == "latin1" else 128) or 1 for c in cps]
        if en == "local":          # what lies beyond Unicode is the C library's business
            cps = [c if c < 0x110000 else 0xd800 for c in cps]
        if r.random() < .5:
            return sc([{"op": "conv", "dir": "out", "s": cps, "enc": en}])
        if en == "local":
            cps = [c if c < 0x110000 and not 0xd800 <= c < 0xe000 else 0x4e2d for c in cps]
        if en in ("latin1", "c"):
            return sc([{"op": "conv", "dir": "in", "s": [c % 256 or 1 for c in cps], "enc": en}])
        bs = []
        for c in cps:
            if c < 0x80:
                bs.append(c)
            elif c < 0x800:
                bs += [0xc0 | c >> 6, 0x80 | c & 63]
            elif c < 0x10000:
                bs += [0xe0 | c >> 12, 0x80 | (c >> 6) & 63, 0x80 | c & 63]
            elif c < 0x200000:
                bs += [0xf0 | c >> 18, 0x80 | (c >> 12) & 63, 0x80 | (c >> 6) & 63, 0x80 | c & 63]
        if bs and r.random() < .35:
            i = r.randrange(len(bs))
            x = r.random()
            if en == "local":      # damage the C library is sure to see
                bs[i:i + 1] = [r.choice([0xff, 0xc0])] + ([65] if r.random() < .5 else [])
                return sc([{"op": "conv", "dir": "in", "s": bs, "enc": en}])
            if x < .4:
                bs[i] = r.randint(1, 255)
            elif x < .7:
                bs = bs[:i]
            else:
                bs.insert(i, r.choice([0x80, 0xc3, 0xe4, 0xff, 0xfe, 0x41, 0xf8, 0xfc]))
        return sc([{"op": "conv", "dir": "in", "s": bs, "enc": en}])
    # the same command line narrow (UTF-8) and wide
    os = rand_opts(r, types=["string", "int", "vstring", "wstring", "vwstring", "bool", "untyped0", "upto3"] + WTYPES, deco=.3)
    a = rand_args(r, os, words=UWORDS)
    st = r.choice(STYLES)
    un = r.random() < .2
    ps = rand_pos(r, os) if r.random() < .3 else None
    if r.random() < .02:
        a += [r.choice(UWORDS[8:])] * r.choice([66, 130, 260])
    ops = [desc(os), cmd(1, a, st, un, ps, wide=True, api=r.choice(["vec", "argv", "rev", "copy"])), cmd(1, a, st, un, ps),
           vm(), vm(), store(1, 1), store(2, 2), {"op": "dump", "m": 1}]
    if r.random() < .5:
        ops += [vm(), vm(), dict(store(1, 3), loc="utf8"), dict(store(2, 4), loc="utf8")]
    elif r.random() < .5:
        ops += [vm(), dict(store(2, 3), utf8=True)]
    if r.random() < .2:
        t = "foo=%s\nbar=%s\n" % (r.choice(UWORDS), r.choice(UWORDS))
        ops = [desc([opt("f", "foo", r.choice(["wstring", "string"])), opt("b", "bar", "vwstring")]),
               cfg(1, t, True, True), cfg(1, t, True), vm(), vm(), store(1, 1), store(2, 2)]
    return sc(ops)


def g21(r):
    sep, q, e = r.choice([(" \t", "'\"", "\\"), (" \t", "'\"", "\\"), (" ", "\"", "\\"), (",;", "'", "^"), (",", "'", "\\&"),
                          ("", "'", "\\"), (" ", "", "\\"), (" ", "'", ""), (" n", "'", "\\"), (" ", " ", "\\")])
    al = sep * 2 + q * 2 + e * 2 + "abn" + r.choice(["", "\n", "\xe9"])
    s = "".join(r.choice(al) for _ in range(r.choice([0, 1, 2, 4, 6, 9, 14, 25] + ([60, 130, 300] if r.random() < .1 else []))))
    if r.random() < .05:       # long runs, many words
        s = "".join(r.choice(al) * r.choice([1, 1, 2, 8, 16, 33, 64, 129, 257]) for _ in range(r.choice([3, 6])))
    elif r.random() < .03 and sep:
        s = "".join(r.choice(["a", "b", "aa"]) + r.choice(sep) for _ in range(r.choice([70, 140, 270])))
    return sc([{"op": "split", "kind": "unix", "s": s, "sep": sep, "q": q, "esc": e}], r.random() < .5)


def g22(r):
    al = r.choice(["\\\\\"\" ab", "\\\" \ta", "\\\"a", "\" a", "\\\\\\\" x\xe9"])
    s = "".join(r.choice(al) for _ in range(r.choice([0, 1, 2, 4, 6, 9, 14, 25] + ([60, 130, 300] if r.random() < .1 else []))))
    if r.random() < .1:        # long runs
        s = "".join(r.choice(["\\", "\\", "\"", " ", "a", "\t", "\n", "\r", "\x0b", "\x0c"]) * r.choice([1, 1, 2, 3, 4, 5, 7, 8, 16, 17, 40, r.choice([127, 128, 129, 255, 256, 257, 300])]) for _ in range(r.choice([2, 4, 7])))
    elif r.random() < .03:     # many words
        s = "".join(r.choice(["a", "b", "\\", "\"\""]) + " " for _ in range(r.choice([70, 140, 270])))
    return sc([{"op": "split", "kind": "win", "s": s, "sep": "", "q": "", "esc": ""}])


def g23(r):
    """Build a tree of descriptions; use it like the flat one."""
    big = r.random() < .01
    pool = rand_opts(r, n=None if big else r.choice([3, 4, 5, 6]), types=["string", "int", "vstring", "untyped0", "switch", "bool"], deco=.4)
    for o in pool:
        if not o["t"].startswith("untyped"):
            o["req"] = r.random() < .15
    k = 12 if big else r.choice([2, 3, 4, 4, 6])
    ops = [desc([], "c%d" % i if r.random() < .5 else "") for i in range(k)]
    order = []
    contents = {i: [] for i in range(1, k + 1)}
    steps = [("o", o) for o in pool] + [("g", None)] * r.choice([1, 2, 3, 4, 6]) + [("c", None)] * r.choice([0, 0, 1, 2])
    r.shuffle(steps)
    added, copied = set(), []
    for what, o in steps:
        if what == "o":
            d = r.randint(1, k)
            ops.append({"op": "add", "d": d, "o": o})
            contents[d].append(o)
        elif what == "c":
            copied.append(r.randint(1, k + len(copied)))
            ops.append({"op": "dcopy", "d": copied[-1]})
            contents[k + len(copied)] = list(contents[copied[-1]])
            if r.random() < .5:      # the copy goes its own way
                o = opt("own%d" % len(ops), "own%d" % len(copied), "int")
                ops.append({"op": "add", "d": k + len(copied), "o": o})
                contents[k + len(copied)].append(o)
        else:
            g, d = r.randint(2, k), 1
            d = r.randint(1, g - 1)
            if (d, g) in added:
                continue
            added.add((d, g))
            ops.append({"op": "grp", "d": d, "g": g})
            contents[d] += contents[g]
    if copied:       # and the tree is what it was
        q = k + len(copied)
        ops += [{"op": "list", "d": q}, {"op": "help", "d": q}]
        if contents[q]:
            ops.append({"op": "grp", "d": 1, "g": q})
            contents[1] = contents[1] + contents[q]
    k += len(copied)
    flat = contents[1]
    ops.append(desc([dict(o, id=o["id"] + "'") for o in flat]))
    f = k + 1
    a = rand_args(r, flat or pool)
    un = r.random() < .2
    ps = rand_pos(r, flat or pool) if r.random() < .2 else None
    ops += [{"op": "list", "d": 1}, {"op": "list", "d": r.randint(1, k)}]
    ops += [cmd(1, a, [], un, ps), cmd(f, a, [], un, ps), vm(), vm(), store(1, 1), store(2, 2),
            {"op": "notify", "m": 1}, {"op": "notify", "m": 2}]
    for _ in range(2):
        n = rand_name(r, flat or pool)
        ap, li, si = r.random() < .5, r.random() < .3, r.random() < .3
        ops += [find(1, n, ap, li, si), find(f, n, ap, li, si), find(r.randint(1, k), n, ap, li, si)]
    ops.append({"op": "help", "d": 1})
    return sc(ops)


def g24(r):
    """The same questions again and again, with other uses of the library in between."""
    s = g_store(r, notif=.4, req=.3, nsrc=(1, 2), put=0)
    ops = [o for o in s["ops"] if o["op"] == "desc"]
    nd = len(ops)
    descs = [o["opts"] for o in ops]
    for o in ops:
        if r.random() < .3:
            for x in o["opts"]:
                x["help"] = rand_help(r)
    ops.append(vm())
    ops.append(vm())
    qs = []
    for _ in range(r.choice([2, 3])):
        d = r.randint(1, nd)
        x = r.random()
        if x < .6:
            qs.append(source(r, d, descs[d - 1]))
        elif x < .75:
            qs.append(find(d, rand_name(r, descs[d - 1]) if descs[d - 1] else "x", r.random() < .5))
        elif x < .9:
            qs.append({"op": "help", "d": d})
        else:
            qs.append({"op": "list", "d": d})
    np, nm = 0, 2
    for _ in range(r.choice([4, 6, 9])):
        x = r.random()
        if x < .6:
            q = r.choice(qs)
            ops.append(dict(q))
            if q["op"] in ("cmd", "cfg", "env", "make"):
                np += 1
                if r.random() < .5:
                    ops.append(store(np, r.randint(1, nm)))
        elif x < .8 and np:
            ops.append({"op": "show", "p": r.randint(1, np)})
        elif x < .85:
            o = decorate(r, opt("late%d" % len(ops), "late%d%s" % (len(ops), r.choice(["", "verylongname" * 2])), r.choice(["string", "untyped0", "vint"])), .3)
            o["help"] = rand_help(r)
            ops.append({"op": "add", "d": r.randint(1, nd), "o": o})
            ops += [dict(q) for q in qs if q["op"] in ("help", "list", "find")]
        elif x < .88 and nd > 1:
            ops.append({"op": "grp", "d": 1, "g": 2})
            ops += [dict(q) for q in qs if q["op"] in ("help", "list", "find")]
        elif x < .9:
            ops.append({"op": "notify", "m": r.randint(1, nm)})
        elif x < .92:
            nm += 1
            ops.append({"op": "vcopy", "m": r.randint(1, nm - 1)})
        elif x < .93:
            nd += 1
            k = r.randint(1, nd - 1)
            descs.append(descs[k - 1])
            ops.append({"op": "dcopy", "d": k})
            ops += [{"op": "help", "d": k}, {"op": "help", "d": nd}]
        elif x < .96:
            k = r.choice(["", "none", "none"] + [n for os in descs for n in declared(os)[0]])
            ops.append({"op": "get", "m": r.randint(1, nm), "name": k})
            ops.append({"op": "get", "m": r.randint(1, nm), "name": "none"})
        else:
            ops.append({"op": "dump", "m": r.randint(1, nm)})
    for p in range(1, np + 1):
        ops.append({"op": "show", "p": p})
    return sc(ops)


FAMILIES = {"C%02d" % i: globals()["g%02d" % i] for i in range(1, 25)}


def scenarios(prop, seed, n):
    r = random.Random("%s/%d" % (prop, seed))
    return [FAMILIES[prop](r) for _ in range(n)]
