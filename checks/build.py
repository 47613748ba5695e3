"""Checks decided with VxBuild: which files a run of the compiler writes."""
import concurrent.futures
import hashlib
import os
import shutil

import vxlib

INVS = ["RunInv", "CleanInv", "ApartInv", "Emit"]
PAST = 1600000000

PATHS = {"alias": "out", "inner": "*base*/inner", "both2": "*base*/both2"}

BODY = {
    "one": ["""(func num : int
 [a : int]
 (+ a {k})
 :doc "Adds {k}."
 :test
  (test {k} (num 0)))
""", """(func start : string
 [args : anylist]
 "start{k}")
"""],
    "two": ["""(func twice : int
 [a : int]
 (* 2{k} (one/num a))
 :test
  (test {k} {k}))
""", """(type pet : struct
 :properties
  [name{k} : string
   age : int])
"""],
    "three": ["""(const far : int {k})
""", """(func word : string
 [s : string]
 (string s "{k}")
 :test
  (test "x{k}" (word "x")))
"""],
}

WRONG = {
    "word": "(func wrong : int :nosuch 3 [] 4)\n",
    "name": "(func wrong : int [] (nosuch 3))\n",
    "ref": "(func wrong : int [] nosuch)\n",
    "type": "(func wrong : nosuch [] 3)\n",
    "count": "(func low : int [a : int b : int] a)\n(func wrong : int [] (low 3))\n",
    "more": "(func low : int [a : int] a)\n(func wrong : int [] (low 3 4))\n",
    "kind": "(func low : int [a : int] a)\n(func wrong : int [] (low \"x\"))\n",
    "result": "(func wrong : int [] \"x\")\n",
    "test": "(func wrong : int [] 3 :test (test 3 (nosuch 3)))\n",
    "unread": "(func wrong : int [] (+ 3 4)\n",
}


def source(p, v):
    libs = [" (lib type :path vx/type)"]
    if p == "two":
        libs.append(" (lib one :path vp/one)")
    if v == "lib":
        libs.append(" (lib lost :path vp/nosuch)")
    if v == "round":
        libs.append(" (lib round :path vp/%s)" % ("two" if p == "one" else p))
    head = "(package vp/%s\n :libs\n %s)\n\n" % (p, "\n ".join(libs))
    if v == "head":
        head = ""
    k = {"a": "1", "b": "2", "c": "12345"}.get(v, "1")
    text = head + "\n".join(b.format(k=k) for b in BODY[p]) + "\n"
    return text + WRONG.get(v, "")


def project(cmds, v, root):
    lines = []
    for c in cmds:
        path = PATHS.get(c["d"], "../o/" + c["d"])
        lines.append("  (cmd %s%s%s :path %s%s)" % (
            c["n"], " :code :" + c["code"] if c["code"] else "", " :lang :" + c["lang"] if c["lang"] else "", path,
            " :main vp/one/" + c["main"] if c["main"] else ""))
    sub = " \"%s/nosuch\"" % root if v == "sub" else ""
    text = ("(project verif\n :version \"1\"\n :author \"v\"\n :doc \"v\"\n :javadomain \"com.vxlisp\"\n" + vxlib.LIBS
            + " :paths\n  (path base :path ../o)\n  (path out :path ../o/alias)\n"
            + (" :nosuch 3\n" if v == "word" else "")
            + " :projects \"%s/dist/vxlisp\"%s\n :cmds\n%s)\n" % (vxlib.REPO, sub, "\n".join(lines)))
    return text + ("(" if v == "unread" else "")


def classify(rel):
    """The file of the specification that a generated file is part of."""
    name = os.path.basename(rel).lower()
    stem = name.split(".")[0].split("_")[0]
    if name == "foreign":
        return "foreign"
    if name == "doc.html":
        return "page"
    if "/vp/" in "/" + rel.lower() or rel.lower().startswith("vp/"):
        for p in ("one", "two", "three"):
            if stem in (p, p + "test"):
                return p
        return "stray " + rel
    if stem in ("app", "apptest") and "/vx/" not in "/" + rel.lower():
        return "app"
    return "library"


class Site:
    """One history carried out on real files."""

    def __init__(self, root, compiler, cmds, deep):
        self.root = root
        self.compiler = compiler
        self.cmds = cmds
        self.deep = deep
        for d in ("p/vp", "o", "elsewhere"):
            os.makedirs(os.path.join(root, d))
        self.write("p/project.vxlisp", project(cmds, "a", root))
        for p in BODY:
            self.write(self.where(p), source(p, "a"))

    def where(self, p):
        return "p/vp/" + p + ".vxlisp"

    def write(self, rel, text):
        with open(os.path.join(self.root, rel), "w") as f:
            f.write(text)

    def outputs(self):
        """{(folder, class): {path: (digest, mtime)}}"""
        out = {}
        base = os.path.join(self.root, "o")
        for r, _, files in os.walk(base):
            for f in files:
                path = os.path.join(r, f)
                rel = os.path.relpath(path, base)
                d, rest = rel.split(os.sep, 1) if os.sep in rel else ("", rel)
                if "resources" in rest.split(os.sep):
                    continue
                data = open(path, "rb").read()
                out.setdefault((d, classify(rest)), {})[rest] = (hashlib.sha256(data).hexdigest(), os.stat(path).st_mtime)
        return out

    def strays(self):
        """Anything outside the output folders that a run should not have written."""
        want = {"p/project.vxlisp"} | {self.where(p) for p in BODY}
        got = set()
        for r, ds, files in os.walk(self.root):
            if r == self.root and "o" in ds:
                ds.remove("o")
            got |= {os.path.relpath(os.path.join(r, f), self.root) for f in files}
        return {g for g in got if not g.endswith("build.log")} - want

    def pick(self, w, every=True):
        """The real files of a file of the specification."""
        files = sorted(self.outputs().get((w[0], w[1]), {}))
        if w[1] == "library" and not every:
            files = [f for f in files if os.path.basename(f).lower().startswith("core")][:1] or files[:1]
        return [os.path.join(self.root, "o", w[0], f) for f in files]

    def step(self, s):
        a = s["a"]
        if a == "source":
            path = os.path.join(self.root, self.where(s["p"]))
            if s["v"] == "none":
                if os.path.exists(path):
                    os.remove(path)
            else:
                self.write(self.where(s["p"]), source(s["p"], s["v"]))
        elif a == "project":
            path = os.path.join(self.root, "p", "project.vxlisp")
            if s["v"] == "away":
                os.remove(path)
            else:
                self.write("p/project.vxlisp", project(self.cmds, s["v"], self.root))
        elif a == "meddle":
            for f in self.pick(s["w"], False):
                t = open(f, "rb").read()
                k = len(t) // 2
                t = {"one symbol": t[:k] + bytes([t[k] ^ 1]) + t[k + 1:], "cut": t[:k], "longer": t + t[:k], "empty": b"", "blank": t + b"\n"}[s["how"]]
                open(f, "wb").write(t)
        elif a == "delete":
            for f in self.pick(s["w"]):
                os.remove(f)
        elif a == "foreign":
            d = os.path.join(self.root, "o", s["w"][0])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "foreign"), "w").write("not ours")

    def run(self, names, how):
        base = os.path.join(self.root, "o")
        for r, _, files in os.walk(base):
            for f in files:
                os.utime(os.path.join(r, f), (PAST, PAST))
        cwd = os.path.join(self.root, "elsewhere")
        path = [how["word"], os.path.join(self.root, "p") if how["spelt"] == "whole" else "../p"]
        k = {"first": 0, "last": len(names), "middle": len(names) // 2}[how["at"]]
        rc, o, e = vxlib.run([self.compiler] + names[:k] + path + names[k:], cwd=cwd, timeout=120)
        return rc, o + e


def key(t):
    return (t["k"], t["f"], t["v"], t["m"], tuple(sorted(t["s"])))


def replay(job):
    """Carries out a history; returns (failures, observations): what every token stood for."""
    root, compiler, cmds, log = job
    site = Site(root, compiler, cmds, False)
    bad, seen, ran = [], [], 0
    for i, s in enumerate(log):
        if s["a"] != "run":
            site.step(s)
            continue
        ran += 1
        before = site.outputs()
        rc, out = site.run(s["names"], s["how"])
        after = site.outputs()
        want = {(x["w"][0], x["w"][1]): x["t"] for x in s["disk"]}
        wrote = {tuple(w) for w in s["written"]}
        here = "run %d of %s" % (ran, " ".join(s["names"]))
        if rc != 0:
            bad.append((i, "%s: the compiler ends with status %s" % (here, rc), out))
        if s["bad"] and "Error" not in out:
            bad.append((i, "%s: an error is not reported" % here, out))
        if not s["bad"] and "Error" in out:
            bad.append((i, "%s: a sound project is rejected" % here, out))
            break
        for w in sorted(set(after) - set(want)):
            bad.append((i, "%s: %s: files appear that nothing asked for: %s" % (here, w[0], ", ".join(sorted(after[w]))[:200]), out))
        for w in sorted(set(want) - set(after)):
            bad.append((i, "%s: %s of %s is missing" % (here, w[1], w[0]), out))
        for w in sorted(set(want) & set(after)):
            t = want[w]
            if t["k"] == "junk" and w in before:
                if {f: v[0] for f, v in before[w].items()} != {f: v[0] for f, v in after[w].items()}:
                    bad.append((i, "%s: %s of %s changes though nothing asked for it" % (here, w[1], w[0]), out))
            elif t["k"] != "junk":
                seen.append((key(t), {f: v[0] for f, v in after[w].items()}, "%s, %s of %s" % (here, w[1], w[0])))
            if w not in wrote:
                touched = [f for f, v in after[w].items() if abs(v[1] - PAST) > 1]
                if touched:
                    bad.append((i, "%s: %s of %s is written again: %s" % (here, w[1], w[0], touched[0]), out))
        stray = site.strays()
        if stray:
            bad.append((i, "%s: files appear outside the output folders: %s" % (here, ", ".join(sorted(stray))[:200]), out))
        if bad:
            break
    shutil.rmtree(root, ignore_errors=True)
    return bad, seen, ran


def tell(log, upto):
    out = []
    for s in log[:upto + 1]:
        if s["a"] == "run":
            out.append("run %s (%s %s, %s)%s" % (" ".join(s["names"]), s["how"]["word"], s["how"]["at"], s["how"]["spelt"], "  -> error" if s["bad"] else ""))
        else:
            out.append(" ".join(str(s[k]) for k in ("a", "p", "w", "v", "how") if k in s))
    return "\n".join(out)


CMDS = None


def commands():
    """The table of commands, read from the specification."""
    import re
    text = open(os.path.join(vxlib.VERIF, "spec", "VxBuild.tla")).read()
    rows = re.findall(r'^  Cmd\("(\w*)", "(\w*)", "(\w*)", "(\w*)", "(\w*)"\)', text, re.M)
    return [dict(zip(("n", "code", "lang", "d", "main"), r)) for r in rows]


def histories(ctx, logs):
    compiler = vxlib.build_compiler(ctx.work)
    cmds = commands()
    jobs = [(os.path.join(ctx.work, "h%d" % i + "/deeper" * (i % 3)), compiler, cmds, log) for i, log in enumerate(logs)]
    with concurrent.futures.ThreadPoolExecutor(vxlib.NPROC) as ex:
        res = list(ex.map(replay, jobs))
    meaning, versions = {}, {}
    runs = 0
    for log, (bad, seen, ran) in zip(logs, res):
        runs += ran
        for i, what, out in bad[:3]:
            ctx.fail("[compiler] " + what, tell(log, i) + "\n" + out[-1500:])
        for t, digests, where in seen:
            if t not in meaning:
                meaning[t] = (digests, where, log)
            elif meaning[t][0] != digests:
                d0 = meaning[t][0]
                diff = [f for f in sorted(set(d0) | set(digests)) if d0.get(f) != digests.get(f)]
                ctx.fail("[compiler] %s: %s differs from what the same sources gave before" % (where, diff[0]),
                         "first:\n" + tell(meaning[t][2], len(meaning[t][2])) + "\n\nnow:\n" + tell(log, len(log)))
    for t, (digests, where, log) in meaning.items():
        other = versions.setdefault((t[0], t[1], t[3], t[4], tuple(sorted(digests.items()))), t)
        if other != t:
            ctx.fail("[compiler] %s: the same for version %s and version %s of the source" % (where, other[2], t[2]), tell(log, len(log)))
    ctx.traces += len(logs)
    ctx.extra["runs_of_the_compiler"] = ctx.extra.get("runs_of_the_compiler", 0) + runs
    ctx.extra["contents"] = len(meaning)
    ctx.sample(tell(logs[0], len(logs[0])))


def drawn(ctx, mode, n, runs):
    t = ctx.tlc("VxBuild", {"Mode": mode, "Runs": runs}, INVS, name=mode, simulate=n, depth=runs * 4 + 4, seed=ctx.seed).traces
    if len(t) < n * 0.9:
        raise vxlib.CheckError("specification emitted only %d of %d histories" % (len(t), n))
    return t


def errors(ctx):
    """P04: nothing is written when anything is wrong."""
    one = ctx.tlc("VxBuild", {"Mode": "errors", "Runs": 9}, INVS, name="errors").traces
    if len(one) < 100:
        raise vxlib.CheckError("specification emitted only %d histories" % len(one))
    histories(ctx, one + drawn(ctx, "faults", 16 if ctx.quick else 200, 5))


def edits(ctx):
    """P05: generated files depend on the sources alone."""
    histories(ctx, drawn(ctx, "edits", 36 if ctx.quick else 400, 6))
    w = os.path.join(ctx.work, "swift")
    os.makedirs(os.path.join(w, "p", "vp"))
    with open(os.path.join(w, "p", "project.vxlisp"), "w") as f:
        f.write(vxlib.project_text((), extra="(cmd srcswift :code :source :lang :swift :path ../out)"))
    with open(os.path.join(w, "p", "vp", "one.vxlisp"), "w") as f:
        f.write("(package vp/one)\n\n(func f : int [] 3)\n")
    rc, o, e = vxlib.run([os.path.join(ctx.work, "vxlisp"), "srcswift", "--path", os.path.join(w, "p")], cwd=w, timeout=60)
    ctx.finding("F10", rc != 0, "Swift generation ends with exit code %d: %s" % (rc, (o + e)[-600:]))


def orders(ctx):
    """P06: each command writes its own files and no others."""
    histories(ctx, drawn(ctx, "orders", 40 if ctx.quick else 400, 6))


CHECKS = {"P04": errors, "P05": edits, "P06": orders}
