"""Replays the programs that VxMachine generates: renders each as vxlisp source in one of
several shapes, runs it on every target and compares every step with the value the
specification gave it."""
import json
import re

import vxlib

SEP = "~|~"

PREAMBLE = """(type person : struct
 :properties
  [name : string
   age  : int
   tags : stringlist
   boss : person
   marks : intmap])

(type point : struct
 :properties
  [x : int
   y : int
   label : string])

(type personlist : list
 :allowtypes [person])

(type personmap : map
 :allowtypes [person])

(func forever-int : int
 [n : int]
 (forever-int (+ n 1)))

(func forever-string : string
 [n : int]
 (forever-string (+ n 1)))

(func forever-boolean : boolean
 [n : int]
 (forever-boolean (+ n 1)))

(func forever-intlist : intlist
 [n : int]
 (forever-intlist (+ n 1)))

"""

PARAM = re.compile(r"(?<![\w:-])(x|y|acc|i|k)(?![\w-])")
UID = [0]
PKG = ["vp/p0"]      # the package whose source is being written
HOLDABLE = ("int", "string", "boolean")


def src(text):
    return text.replace("@/", "").replace("~/", "far/")


def full(text, pkg):
    """The same with the names of packages: ~ is the package beside the one written."""
    return text.replace("@/", pkg + "/").replace("~/", pkg.replace("vp/p", "vp/q") + "/")


def arg(a, ref):
    k = a["k"]
    if k == "r":
        return ref(a["i"])
    if k == "l":
        return src(a["x"])
    if k == "p":
        return full(a["x"], PKG[0])
    if k == "f":
        # every use of a function gets its own parameter names: a parameter named like one of an
        # enclosing function is a recorded finding (see KNOWN_FINDINGS) and has a probe of its own
        UID[0] += 1
        t = PARAM.sub(lambda m: m.group(1) + str(UID[0]), src(a["x"]))
        if a["c"]:
            t = t.replace("~", arg(a["c"][0], ref))
        return t
    if k == "n":
        return "(" + src(a["x"]) + "".join(" " + arg(c, ref) for c in a["c"]) + ")"
    raise ValueError(k)


def expr(b, ref):
    if b["h"] == "":
        return arg(b["a"][0], ref)
    return "(" + src(b["h"]) + "".join(" " + arg(a, ref) for a in b["a"]) + ")"


def refs_of(a, out):
    if a["k"] == "r":
        out.add(a["i"])
    for c in a["c"]:
        refs_of(c, out)


def brefs(b):
    s = set()
    for a in b["a"]:
        refs_of(a, s)
    return sorted(s)


def show(parts):
    """Source of an expression that prints all parts with separators."""
    items = []
    for p in parts:
        items.append("(string<-any %s)" % p)
    return "(string\n  " + ("\n  \"%s\"\n  " % SEP).join(items) + ")"


STYLES = ("let", "funcs", "params", "nestlet", "inline", "wrap", "lambda")


def render(binds, name, style, rng):
    """Source of a function called name that returns the printed values of the bindings;
    returns (text, indices of the bindings it prints)."""
    n = len(binds)
    every = list(range(1, n + 1))
    vis = [i for i in every if not binds[i - 1].get("hid")]     # bindings whose value is printed
    ty = [None] + [src(b["ty"]) for b in binds]
    var = lambda i: "v%d" % i
    if style == "inline":
        memo = {}

        def full(i):
            if i not in memo:
                memo[i] = expr(binds[i - 1], full)
            return memo[i]
        total = 0
        shown = []
        for i in reversed(vis):
            if total + len(full(i)) > 1500:
                continue
            total += len(full(i))
            shown.append(i)
        if shown:
            shown.reverse()
            return "(func %s : string\n []\n %s)\n\n" % (name, show([full(i) for i in shown])), shown
        style = "let"
    if style == "funcs":
        t = ""
        f = lambda i: "(%s-v%d)" % (name, i)
        order = every[:]
        rng.shuffle(order)      # definitions may come in any order
        for i in order:
            t += "(func %s-v%d : %s\n []\n %s)\n\n" % (name, i, ty[i], expr(binds[i - 1], f))
        # calling a zero-argument function repeatedly re-evaluates everything under it
        cost = [0] * (n + 1)
        shown = []
        for i in every:
            cost[i] = 1 + sum(cost[j] for j in brefs(binds[i - 1]))
        for i in vis:
            if cost[i] <= 400:
                shown.append(i)
        return t + "(func %s : string\n []\n %s)\n\n" % (name, show([f(i) for i in shown])), shown
    if style == "params":
        t = ""
        lets = []
        for i in every:
            rs = brefs(binds[i - 1])
            if rs and rng.random() < 0.8:
                p = {j: "p%d" % j for j in rs}
                t += "(func %s-f%d : %s\n [%s]\n %s)\n\n" % (
                    name, i, ty[i], " ".join("p%d : %s" % (j, ty[j]) for j in rs), expr(binds[i - 1], lambda j: p[j]))
                lets.append("v%d : %s := (%s-f%d %s)" % (i, ty[i], name, i, " ".join(var(j) for j in rs)))
            else:
                lets.append("v%d : %s := %s" % (i, ty[i], expr(binds[i - 1], var)))
        return t + "(func %s : string\n []\n (let : string\n  [%s]\n  %s))\n\n" % (
            name, "\n   ".join(lets), show([var(i) for i in vis])), vis
    if style == "nestlet":
        k = max(1, n // 2)
        a = "\n   ".join("v%d : %s := %s" % (i, ty[i], expr(binds[i - 1], var)) for i in every[:k])
        b = "\n   ".join("v%d : %s := %s" % (i, ty[i], expr(binds[i - 1], var)) for i in every[k:])
        inner = show([var(i) for i in vis])
        if b:
            inner = "(let : string\n  [%s]\n  %s)" % (b, inner)
        return "(func %s : string\n []\n (let : string\n  [%s]\n  %s))\n\n" % (name, a, inner), vis
    if style == "wrap":
        lets = []
        for i in every:
            e = expr(binds[i - 1], var)
            x = rng.random()
            if x < 0.3:
                e = "(if : %s (then (= 1 1) %s))" % (ty[i], e)
            elif x < 0.5:
                e = "(let : %s [w%d : %s := %s] w%d)" % (ty[i], i, ty[i], e, i)
            elif x < 0.6:
                e = "(switch : %s 2 (case 2 %s))" % (ty[i], e)
            lets.append("v%d : %s := %s" % (i, ty[i], e))
        return "(func %s : string\n []\n (let : string\n  [%s]\n  %s))\n\n" % (
            name, "\n   ".join(lets), show([var(i) for i in vis])), vis
    if style == "lambda":
        # the last binding is computed inside a function given to another function
        k = rng.choice(vis)
        lets = ["v%d : %s := %s" % (i, ty[i], expr(binds[i - 1], var)) for i in every]
        lets.append("w : stringlist := (list<-list : stringlist (intlist 1) (fn : string [one : int] (string<-any %s)))"
                    % expr(binds[k - 1], var))
        return "(func %s : string\n []\n (let : string\n  [%s]\n  %s))\n\n" % (
            name, "\n   ".join(lets), show([var(i) for i in vis]).rstrip(")") + ")\n  \"%s\" (any<-list : string w 1))" % SEP), vis + [-k]
    lets = ["v%d : %s := %s" % (i, ty[i], expr(binds[i - 1], var)) for i in every]
    return "(func %s : string\n []\n (let : string\n  [%s]\n  %s))\n\n" % (
        name, "\n   ".join(lets), show([var(i) for i in vis])), vis


def declare(decls, rng):
    """Source of type declarations, in any order."""
    out = []
    for d in decls:
        n = src(d["n"])
        if d["k"] == "struct":
            t = "(type %s : struct\n" % n
            if d["par"]:
                t += " :traits [%s]\n" % " ".join(src(p) for p in d["par"])
            t += " :properties\n  [%s])\n\n" % "\n   ".join("%s : %s" % (p[0], src(p[1])) for p in d["ps"])
        else:
            t = "(type %s : %s\n :allowtypes [%s])\n\n" % (n, d["k"], src(d["al"]))
        out.append(t)
    if rng is not None:
        rng.shuffle(out)
    return "".join(out)


def expected(binds, shown, pkg):
    return SEP.join(full(binds[abs(i) - 1]["v"], pkg) for i in shown)


class Replay:
    """Collects programs and runs them all in one compilation per target."""

    def __init__(self, work, langs=("js", "java", "cpp"), npkg=8, preamble=PREAMBLE):
        self.b = vxlib.Bundle(work, langs)
        self.npkg = npkg
        self.bodies = [[] for _ in range(npkg)]
        self.far = [[] for _ in range(npkg)]
        self.cases = []
        self.pre = preamble

    def add(self, binds, style, rng):
        k = len(self.cases) % self.npkg
        name = "t%d" % len(self.cases)
        PKG[0] = "vp/p%d" % k
        text, shown = render(binds, name, style, rng)
        pkg = "vp/p%d" % k
        self._put(k, name, pkg, text, expected(binds, shown, pkg), {"binds": binds, "style": style, "shown": shown})

    def add_table(self, singles):
        """One function for several independent one-step programs."""
        k = len(self.cases) % self.npkg
        name = "t%d" % len(self.cases)
        PKG[0] = "vp/p%d" % k
        pkg = "vp/p%d" % k
        text = "(func %s : string\n []\n %s)\n\n" % (name, show([expr(b[0], None) for b in singles]))
        exp = SEP.join(b[0]["v"].replace("@/", pkg + "/") for b in singles)
        self._put(k, name, pkg, text, exp, {"binds": [b[0] for b in singles], "style": "table", "shown": list(range(1, len(singles) + 1))})

    def add_keep(self, singles):
        """One function for several one-step programs whose arguments are held in variables: prints
        the arguments, the result, the result of a second evaluation and the arguments again."""
        k = len(self.cases) % self.npkg
        name = "t%d" % len(self.cases)
        PKG[0] = "vp/p%d" % k
        pkg = "vp/p%d" % k
        text = ""
        parts, exp, shown = [], [], []
        for j, b in enumerate(singles):
            b = b[0]
            lets, keep, call = [], [], []

            def hold(a):
                if a["k"] == "l" and a["t"] in HOLDABLE or a["t"].endswith(("list", "map", "person", "point")):
                    v = "a%d" % (len(lets) + 1)
                    lets.append("%s : %s := %s" % (v, src(a["t"]), src(a["x"])))
                    keep.append((v, a["w"]))
                    return v
                if a["k"] == "n":
                    return "(" + src(a["x"]) + "".join(" " + hold(c) for c in a["c"]) + ")"
                return arg(a, None)
            args = [hold(a) for a in b["a"]]
            e = "(" + src(b["h"]) + "".join(" " + x for x in args) + ")" if b["h"] else args[0]
            ty = src(b["ty"])
            before = "b0 : string := %s" % show([v for v, _ in keep]) if keep else "b0 : string := \"\""
            lets += [before, "r1 : %s := %s" % (ty, e), "r2 : %s := %s" % (ty, e)]
            text += "(func %s-%d : string\n []\n (let : string\n  [%s]\n  (string b0 \"%s\" %s)))\n\n" % (
                name, j, "\n   ".join(lets), SEP, show(["r1", "r2"] + [v for v, _ in keep]))
            w = [x for _, x in keep]
            parts.append("(%s-%d)" % (name, j))
            exp.append(SEP.join([SEP.join(w), b["v"], b["v"]] + w))
            shown += [j + 1] * (2 * len(w) + 2)
        text += "(func %s : string\n []\n (string\n  %s))\n\n" % (name, ("\n  \"%s\"\n  " % SEP).join(parts))
        self._put(k, name, pkg, text, SEP.join(exp).replace("@/", pkg + "/"),
                  {"binds": [b[0] for b in singles], "style": "keep", "shown": shown})

    def add_typed(self, prog, style, rng, apart=False):
        """A program with declarations of its own."""
        k = len(self.cases) % self.npkg
        name = "t%d" % len(self.cases)
        PKG[0] = pkg = "vp/p%d" % k
        decls = prog["d"]
        if apart:
            # the first half of the types are in a package beside, under the names of the second half
            half = len(decls) // 2
            nm = lambda m: "%s/%st%d" % (("~", name, int(m.group(1))) if int(m.group(1)) <= half else ("@", name, int(m.group(1)) - half))
            prog = json.loads(re.sub(r"@/t(\d+)", nm, json.dumps(prog)))
            self.far[k].append(declare([dict(d, n=d["n"].replace("~/", "@/")) for d in prog["d"][:half]], rng).replace("far/", ""))
            decls = prog["d"][half:]
        else:
            prog = json.loads(json.dumps(prog).replace("@/t", "@/%st" % name))
            decls = prog["d"]
        text, shown = render(prog["b"], name, style, rng)
        self._put(k, name, pkg, declare(decls, rng) + text, expected(prog["b"], shown, pkg),
                  {"binds": prog["b"], "style": style, "shown": shown})

    def add_typed_group(self, progs, rng):
        """Programs that share their declarations."""
        k = len(self.cases) % self.npkg
        name = "t%d" % len(self.cases)
        pkg = "vp/p%d" % k
        progs = json.loads(json.dumps(progs).replace("@/t", "@/%st" % name))
        text, exp = declare(progs[0]["d"], rng), []
        for j, p in enumerate(progs):
            lets = ["v%d : %s := %s" % (i + 1, src(b["ty"]), expr(b, lambda j: "v%d" % j)) for i, b in enumerate(p["b"])]
            text += "(func %s-%d : string\n []\n (let : string\n  [%s]\n  %s))\n\n" % (
                name, j, "\n   ".join(lets), show(["v%d" % (i + 1) for i in range(len(p["b"]))]))
            exp += [b["v"] for b in p["b"]]
        text += "(func %s : string\n []\n (string\n  %s))\n\n" % (
            name, ("\n  \"%s\"\n  " % SEP).join("(%s-%d)" % (name, j) for j in range(len(progs))))
        binds = [b for p in progs for b in p["b"]]
        self._put(k, name, pkg, text, SEP.join(exp).replace("@/", pkg + "/"),
                  {"binds": binds, "style": "shapes", "shown": list(range(1, len(binds) + 1))})

    def add_raw(self, name, pkgno, text, exp, info):
        self._put(pkgno, name, "vp/p%d" % pkgno, text, exp, info)

    def _put(self, k, name, pkg, text, exp, info):
        self.bodies[k].append(text)
        c = {"id": name, "pkg": pkg, "text": text, "exp": exp}
        c.update(info)
        self.cases.append(c)
        self.b.add_test(name, pkg, name)

    def run(self):
        """Returns a list of (case, target, what) for every disagreement."""
        for k in range(self.npkg):
            if self.bodies[k]:
                pkg = "vp/p%d" % k
                libs = ""
                if self.far[k]:
                    self.b.add_package("vp/q%d" % k, vxlib.package_text("vp/q%d" % k, "".join(self.far[k])))
                    libs = "  (lib far :path vp/q%d)\n" % k
                self.b.add_package(pkg, vxlib.package_text(pkg, self.pre + "".join(self.bodies[k]), libs))
        rc, o, e = self.b.generate()
        bad = []
        if rc != 0 or "Error" in o + e:
            return [({"id": "compile", "text": "", "exp": "", "binds": [], "style": "all"}, "compiler",
                     "valid programs are rejected:\n" + (o + e)[:1500])]
        try:
            res = self.b.run_all()
        except vxlib.BuildFail as f:
            return [({"id": "build", "text": self._culprit(f), "exp": "", "binds": [], "style": "all"}, f.lang,
                     "generated code does not compile:\n" + f.log[:1500])]
        self.res = res
        for c in self.cases:
            for lang in self.b.langs:
                r = res[lang].get(c["id"])
                if r is None:
                    raise vxlib.CheckError("no result for %s on %s" % (c["id"], lang))
                if r.get("x") == "not run":
                    continue
                if "x" in r:
                    bad.append((c, lang, "%s: %s" % (r["x"], r.get("why", ""))))
                elif r["r"] != c["exp"]:
                    bad.append((c, lang, diff(c, r["r"])))
        return bad

    def _culprit(self, f):
        return f.log[:3000]


def diff(c, got):
    e = c["exp"].split(SEP)
    g = got.split(SEP)
    for i in range(max(len(e), len(g))):
        x = e[i] if i < len(e) else None
        y = g[i] if i < len(g) else None
        if x != y:
            what = ""
            if i < len(c.get("shown", [])):
                b = c["binds"][abs(c["shown"][i]) - 1]
                what = expr(b, lambda j: "v%d" % j) + " "
            return "%sshould be %r, is %r" % (what, x, y)
    return "differs"
