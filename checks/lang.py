"""Checks decided with VxLang: what the names and the forms of a program mean."""
import random

import machine
import vxlib

INVS = ["ResolveInv", "TypeInv", "Emit"]
GROUPS = 3          # sets of three packages the programs are spread over
SEP = machine.SEP
PKGS = "abc"
GLOBAL = {"go", "make-it", "f1", "step<-n", "calc", "k1", "low-k", "calc2", "f2", "f3", "f4"}


def text(s):
    return '"' + s.replace('"', '\\"') + '"'


class Writer:
    """Source of one program: declarations and main expressions of three packages of group g."""

    def __init__(self, g, tag, rng):
        self.g, self.tag, self.rng = g, tag, rng

    def pkg(self, p):
        return "vp/g%d%s" % (self.g, PKGS[p - 1])

    def own(self, n):
        """Names the program declares carry its tag, and so do variables that share their name."""
        return "%s-%s" % (self.tag, n) if n in GLOBAL else n

    def there(self, n, p, here):
        n = self.own(n)
        if p != here:
            return "l%d/%s" % (p, n)
        return "%s/%s" % (self.pkg(p), n) if self.rng.random() < 0.15 else n

    def ty(self, t, here):
        if t == "rec":
            return "rec" if here == 1 else "l1/rec"
        return t

    def ex(self, e, h):
        k, a = e["k"], e["as"]
        sub = lambda i: self.ex(a[i], h)
        every = lambda: "".join(" " + self.ex(x, h) for x in a)
        if k == "int":
            return str(e["n"])
        if k == "str":
            return "`" + e["x"] + "`" if self.rng.random() < 0.3 and "`" not in e["x"] and e["x"] else text(e["x"])
        if k == "var":
            return self.own(e["x"])
        if k == "const":
            n = self.own(e["x"])
            return n if e["p"] == h else "l%d/%s" % (e["p"], n)
        if k == "op":
            return "(" + e["x"] + every() + ")"
        if k == "cat":
            return "(string" + every() + ")"
        if k == "text":
            return "(string<-any" + every() + ")"
        if k == "list":
            return "(intlist" + every() + ")"
        if k == "rec":
            return "(%s :num %s :two-words %s :items %s)" % (self.ty("rec", h), sub(0), sub(1), sub(2))
        if k == "at":
            if self.rng.random() < 0.2:
                return "(any<-list : int %s %d)" % (sub(0), e["n"])
            return "(:%d %s)" % (e["n"], sub(0))
        if k == "len":
            return "(length %s)" % sub(0)
        if k == "get":
            return "(:%s %s)" % (e["x"], sub(0))
        if k == "if":
            return "(if : %s\n (then (%s %s %s) %s)\n (else %s))" % (self.ty(e["ty"], h), e["x"], sub(0), sub(1), sub(2), sub(3))
        if k == "let":
            return "(let : %s\n [%s]\n %s)" % (self.ty(e["ty"], h), "\n  ".join(
                "%s : %s := %s" % (self.own(x), self.ty(t, h), self.ex(b, h)) for x, t, b in e["bs"]), sub(0))
        if k == "map":
            return "(list<-list : intlist %s (fn : int [%s : int] %s))" % (sub(0), self.own(e["x"]), sub(1))
        if k == "mapf":
            return "(list<-list : intlist %s %s)" % (sub(0), self.own(e["x"]) if e["p"] == h else "l%d/%s" % (e["p"], self.own(e["x"])))
        if k == "call":
            g = " : " + self.ty(e["ty"], h) if (e["p"], e["x"]) in self.generic else ""
            return "(" + self.there(e["x"], e["p"], h) + g + every() + ")"
        if k == "thread":
            return "(%s%s)" % ("<-" if e["n"] == 1 else "<<-", every())
        raise ValueError(k)

    def item(self, i):
        p = i["p"]
        n = self.own(i["n"])
        if i["d"] == "const":
            return "(const %s : %s\n %s)\n\n" % (n, self.ty(i["ty"], p), self.lit(i["b"], p))
        ps = "\n  ".join("%s : %s%s" % (self.own(x), self.ty(t, p), " :..." if i["va"] and j == len(i["ps"]) - 1 else "")
                         for j, (x, t) in enumerate(i["ps"]))
        return "(func %s : %s\n [%s]\n %s)\n\n" % (n, self.ty(i["ty"], p), ps, self.ex(i["b"], p))

    def lit(self, e, p):
        return text(e["x"]) if e["k"] == "str" else self.ex(e, p)

    def program(self, prog):
        """Returns ({package letter: text}, name of the function that prints every main expression)."""
        self.generic = {(i["p"], i["n"]) for i in prog["i"] if i["gen"]}
        out = {1: [], 2: [], 3: []}
        for i in prog["i"]:
            out[i["p"]].append(self.item(i))
        names = []
        for j, m in enumerate(prog["m"]):
            nm = "%s-m%d" % (self.tag, j)
            names.append("(%s)" % nm)
            out[3].append("(func %s : string\n []\n (%s %s))\n\n" % (
                nm, {"rec": "l1/show-rec", "intlist": "l1/show-list"}.get(m["e"]["ty"], "string<-any"), self.ex(m["e"], 3)))
        for p in out:
            self.rng.shuffle(out[p])
        out[3].append("(func %s : string\n []\n (string\n  %s))\n\n" % (self.tag, ("\n  \"%s\"\n  " % SEP).join(names)))
        return {p: "".join(t) for p, t in out.items()}


REC = "(type rec : struct\n :properties\n  [num : int\n   two-words : string\n   items : intlist])\n\n" \
    "(func show-list : string\n [list : intlist]\n (string<-any (list<-list : intlist list (fn : int [one : int] one))))\n\n" \
    "(func show-rec : string\n [val : rec]\n (string (string<-any (:num val)) \"|\" (:two-words val) \"|\" (show-list (:items val))))\n\n"


class Programs(machine.Replay):
    def __init__(self, work, langs=("js", "java", "cpp"), groups=GROUPS):
        machine.Replay.__init__(self, work, langs, 3)
        self.groups = groups
        self.texts = {(g, p): [] for g in range(groups) for p in (1, 2, 3)}

    def add_lang(self, prog, rng):
        g = len(self.cases) % self.groups
        tag = "t%d" % len(self.cases)
        w = Writer(g, tag, rng)
        t = w.program(prog)
        for p in t:
            self.texts[g, p].append(t[p])
        exp = SEP.join(m["v"] for m in prog["m"])
        shown = [w.ex(m["e"], 3) for m in prog["m"]]
        self.cases.append({"id": tag, "pkg": w.pkg(3), "text": "\n".join("; package %s\n%s" % (w.pkg(p), t[p]) for p in t if t[p]),
                           "exp": exp, "binds": [], "style": "lang", "mains": shown})
        self.b.add_test(tag, w.pkg(3), tag)

    def add_probe(self, fid, decl, ex, exp):
        name = "probe" + fid.lower()
        t = decl + "(func %s : string\n []\n (string<-any %s))\n\n" % (name, ex)
        self.texts[0, 3].append(t)
        self.cases.append({"id": name, "pkg": "vp/g0c", "text": t, "exp": exp, "binds": [], "style": "probe", "mains": [], "probe": fid})
        self.b.add_test(name, "vp/g0c", name)

    def run(self):
        for (g, p), body in self.texts.items():
            libs = "".join("  (lib l%d :path vp/g%d%s)\n" % (q, g, PKGS[q - 1]) for q in range(1, p))
            pkg = "vp/g%d%s" % (g, PKGS[p - 1])
            self.b.add_package(pkg, vxlib.package_text(pkg, (REC if p == 1 else "") + "".join(body), libs))
        bad = machine.Replay.run(self)
        out = []
        for c, lang, what in bad:
            if "mains" in c and what.startswith("should be"):
                r = self.res[lang][c["id"]]["r"].split(SEP)
                e = c["exp"].split(SEP)
                for i, m in enumerate(c["mains"]):
                    if i >= len(r) or r[i] != e[i]:
                        what = "%s %s" % (m, what)
                        break
            out.append((c, lang, what))
        return out


def merged(progs, n):
    """Programs without declarations of their own, or with the same ones, joined n at a time."""
    by = {}
    for p in progs:
        by.setdefault(repr(p["i"]), []).append(p)
    out = []
    for k in sorted(by):
        ps = by[k]
        for i in range(0, len(ps), n):
            out.append({"i": ps[0]["i"], "m": [m for p in ps[i:i + n] for m in p["m"]]})
    return out


def drive(ctx, progs, rng, langs, probes=False, typed=()):
    R = Programs(vxlib.newwork("lang"), langs)
    for p in progs:
        R.add_lang(p, rng)
    for p in typed:
        if any(not b["hid"] for b in p["b"]):
            R.add_typed(p, rng.choice(machine.STYLES), rng, True)
    if probes:
        R.add_probe("F05", "(const probe-two : int\n (+ 1 1))\n\n", "(+ probe-two 40)", "42")
    try:
        bad = R.run()
    finally:
        if not bad_keep(ctx):
            vxlib.rmwork(R.b.work)
    ctx.traces += sum(len(c.get("mains") or c.get("shown") or [1]) for c in R.cases)
    for c, lang, what in bad:
        if "probe" in c:
            ctx.finding(c["probe"], True, "[%s] %s" % (lang, what))
            continue
        ctx.fail("[%s] %s" % (lang, what), "target: %s\n%s\nexpected: %r" % (lang, c["text"], c["exp"]))
    return R


def bad_keep(ctx):
    import os
    return os.environ.get("VERIF_KEEP")


def names(ctx):
    """P07: names, scopes, calls, threading, positions."""
    rng = random.Random(ctx.seed)
    n = 40 if ctx.quick else 150
    each = ctx.tlc("VxLang", {"NDecl": 0, "NMain": 1, "Random": False, "Shadow": False}, INVS, name="each").traces
    progs = ctx.tlc("VxLang", {"NDecl": 12, "NMain": 8, "Random": True, "Shadow": False}, INVS, name="programs",
                    simulate=n, depth=80, seed=ctx.seed).traces
    if len(each) < 100 or len(progs) < n // 2:
        raise vxlib.CheckError("specification emitted only %d and %d programs" % (len(each), len(progs)))
    ctx.extra["programs"] = len(progs)
    scoped = [p for p in each if p["i"] and p["i"][0]["n"] == "go"]
    rest = [p for p in each if p not in scoped]
    # types of one name in two packages
    typed = ctx.tlc("VxTypes", {"NTypes": 4, "Depth": 10, "Random": True}, ["TypeInv", "CopyInv", "Emit"], name="apart",
                    simulate=12 if ctx.quick else n, depth=80, seed=ctx.seed).traces
    if len(typed) < 6:
        raise vxlib.CheckError("specification emitted only %d programs with types" % len(typed))
    ctx.extra["programs_with_types"] = len(typed)
    drive(ctx, merged(rest, 20) + joined(scoped) + progs, rng, ("js", "java", "cpp"), True, typed)
    # names bound again inside their own scope: JavaScript and C++
    each = ctx.tlc("VxLang", {"NDecl": 0, "NMain": 1, "Random": False, "Shadow": True}, INVS, name="scopes").traces
    each = [p for p in each if p["i"] and p["i"][0]["n"] == "go"]
    if ctx.quick:
        retyped = [p for p in each if len(p["i"][0]["ps"]) == 1]
        each = rng.sample([p for p in each if p not in retyped], 120) + retyped
    progs = ctx.tlc("VxLang", {"NDecl": 12, "NMain": 8, "Random": True, "Shadow": True}, INVS, name="shadows",
                    simulate=n // 2, depth=80, seed=ctx.seed + 5000).traces
    ctx.extra["scopes"] = len(each)
    R = drive(ctx, joined(each) + progs, rng, ("js", "cpp"))
    ctx.sample({"expression": R.cases[-1]["mains"][0], "value": R.cases[-1]["exp"].split(SEP)[0]})
    if not ctx.quick:
        for fid, lang, decl, ex, exp in ALONE:
            alone(ctx, fid, lang, decl, ex, exp)
    for k in range(0 if ctx.quick else 6):
        if ctx.bad or ctx.left(520) < 90:
            return
        progs = ctx.tlc("VxLang", {"NDecl": 16, "NMain": 12, "Random": True, "Shadow": False}, INVS, name="more%d" % k,
                        simulate=150, depth=120, seed=ctx.seed * 1000 + k).traces
        drive(ctx, progs, rng, ("js", "java", "cpp"))


def joined(progs):
    """Programs with one function each, joined: function j of a program is called go<j>."""
    out = []
    for i in range(0, len(progs), 20):
        its, ms = [], []
        for j, p in enumerate(progs[i:i + 20]):
            it = dict(p["i"][0], n="go%d" % j)
            m = dict(p["m"][0])
            m["e"] = dict(m["e"], x="go%d" % j)
            its.append(it)
            ms.append(m)
        out.append({"i": its, "m": ms})
    GLOBAL.update("go%d" % j for j in range(20))
    return out


# Recorded findings that keep the generated code from compiling: each has a compilation of its own.
ALONE = [
    ("F06", "cpp", "(const probe-k : int 5)\n\n(func probe-same : any-1\n [v : any-1]\n v)\n\n", "(probe-same : int probe-k)", "5"),
    ("F07", "java", "(func probe-twice : int\n [x : int]\n (+ x (let : int [x : int := 50] x) x))\n\n", "(probe-twice 4)", "58"),
    ("F08", "js", "(func probe-next : int\n [x : int]\n (let : int [x : int := (+ x 1)] x))\n\n", "(probe-next 4)", "5"),
]


def alone(ctx, fid, lang, decl, ex, exp):
    R = machine.Replay(vxlib.newwork("alone"), (lang,), 1, "")
    R.add_raw("probe", 0, decl + "(func probe : string\n []\n (string<-any %s))\n\n" % ex, exp, {"binds": [], "style": "probe"})
    try:
        bad = R.run()
    finally:
        vxlib.rmwork(R.b.work)
    if bad:
        ctx.finding(fid, True, "[%s] %s" % (lang, bad[0][2]))


CHECKS = {"P07": names}
