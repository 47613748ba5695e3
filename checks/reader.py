"""Checks decided with VxReader: how source text is read."""
import concurrent.futures
import hashlib
import os
import random
import shutil

import machine
import vxlib

INVS = ["ReadInv", "CutInv", "Emit"]
SYMS = {"NL": "\n", "TAB": "\t", "CR": "\r", "QT": '"', "BQ": "`", "BS": "\\", "E9": "é", "LDQ": "“", "RDQ": "”",
        "LIBRARY": vxlib.REPO + "/dist/vxlisp"}
DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"


def render(doc, name=None, pkg=None):
    m = dict(SYMS)
    if name:
        m["NAME"] = name
    if pkg:
        m["PACKAGE"] = pkg
    return "".join(m.get(c, c) for c in doc)


def docname(i):
    """Four letters, as long as NAME: columns matter inside texts."""
    return "t" + DIGITS[i // 1296 % 36] + DIGITS[i // 36 % 36] + DIGITS[i % 36]


class Docs(machine.Replay):
    """Well formed documents, each a function, and what it computes."""

    def add_doc(self, d):
        i = len(self.cases)
        name = docname(i)
        self.add_raw(name, i % self.npkg, render(d["d"], name) + "\n\n", render(d["w"]), {"binds": [], "style": d["h"] or "layout"})


def value_docs(ctx, docs, langs, npkg=4):
    R = Docs(vxlib.newwork("docs"), langs, npkg, "")
    for d in docs:
        R.add_doc(d)
    try:
        bad = R.run()
    finally:
        vxlib.rmwork(R.b.work)
    ctx.traces += len(docs)
    for c, lang, what in bad:
        ctx.fail("[%s] %s" % (lang, what), "target: %s\n%r\nexpected: %r" % (lang, c["text"], c["exp"]))


class Shop:
    """A compiler and scratch projects, one per worker, in which documents are compiled alone."""

    def __init__(self, ctx):
        self.root = vxlib.newwork("shop")
        self.compiler = vxlib.build_compiler(self.root)
        self.n = 0

    def close(self):
        vxlib.rmwork(self.root)

    def compile(self, slot, project, package):
        """Returns (output, {generated file: digest})."""
        w = os.path.join(self.root, "w%d" % slot)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(os.path.join(w, "p", "vp"))
        with open(os.path.join(w, "p", "project.vxlisp"), "w", newline="") as f:
            f.write(project)
        with open(os.path.join(w, "p", "vp", "one.vxlisp"), "w", newline="") as f:
            f.write(package)
        for name, text in self.extra().items():
            with open(os.path.join(w, "p", name), "w", newline="") as f:
                f.write(text)
        rc, o, e = vxlib.run([self.compiler, "srcjs", "--path", os.path.join(w, "p")], cwd=w, timeout=60)
        gen = {}
        for root, _, files in os.walk(os.path.join(w, "out")):
            for f in files:
                p = os.path.join(root, f)
                gen[os.path.relpath(p, w)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        shutil.rmtree(w, ignore_errors=True)
        if rc == -999:
            o += "\n(the compiler did not end)"
        return o + e, gen

    def extra(self):
        """Further files of every project."""
        return {}

    def each(self, jobs):
        """jobs: list of (project, package); results in order."""
        slots = list(range(vxlib.NPROC))

        def one(j):
            s = slots.pop()
            try:
                return self.compile(s, *j)
            finally:
                slots.append(s)
        with concurrent.futures.ThreadPoolExecutor(vxlib.NPROC) as ex:
            return list(ex.map(one, jobs))


HEAD = "(package vp/one\n :libs\n  (lib coll :path vx/collection)\n  (lib type :path vx/type))\n\n"
BODY = "\n\n(func one : string\n []\n (type/string-trim \" a \"))\n"


def layout(ctx):
    """P01: blanks, line ends and comments between tokens change nothing; texts mean what they say."""
    rng = random.Random(ctx.seed)
    gaps = ctx.tlc("VxReader", {"Mode": "gaps", "Kind": "func"}, INVS, name="gaps").traces
    texts = ctx.tlc("VxReader", {"Mode": "texts", "Kind": "func"}, INVS, name="texts").traces
    pairs = ctx.tlc("VxReader", {"Mode": "pairs", "Kind": "func"}, INVS, name="pairs").traces
    notes = ctx.tlc("VxReader", {"Mode": "comments", "Kind": "func"}, INVS, name="comments").traces
    n = 60 if ctx.quick else 400
    drawn = ctx.tlc("VxReader", {"Mode": "layout", "Kind": "func"}, INVS, name="layout", simulate=n, depth=600, seed=ctx.seed).traces
    heads = ctx.tlc("VxReader", {"Mode": "gaps", "Kind": "package"}, INVS, name="heads").traces
    more = ctx.tlc("VxReader", {"Mode": "layout", "Kind": "package"}, INVS, name="heads2", simulate=20 if ctx.quick else 200, depth=100, seed=ctx.seed).traces
    projects = ctx.tlc("VxReader", {"Mode": "layout", "Kind": "project"}, INVS, name="projects", simulate=16 if ctx.quick else 200, depth=200, seed=ctx.seed).traces
    for t in (gaps, texts, pairs, notes, drawn):
        for d in t:
            if d["v"] != "ok" or not d["known"]:
                ctx.spec_violated("an undamaged document is not read")
    if len(gaps) < 500 or len(texts) < 150 or len(drawn) < n * 0.9 or len(heads) < 200 or len(pairs) < 1000 or len(notes) < 1000:
        raise vxlib.CheckError("specification emitted too few documents: %d %d %d %d" % (len(gaps), len(texts), len(drawn), len(heads)))
    # documents that differ in nothing but the layout, on the quickest target; every text and the drawn ones on all
    value_docs(ctx, texts + drawn + rng.sample(gaps, 100 if ctx.quick else len(gaps)) + rng.sample(pairs, 120 if ctx.quick else len(pairs)), ("js", "java", "cpp"))
    value_docs(ctx, gaps + pairs + notes, ("js",))
    # package and project headers: the same program is generated
    if ctx.quick:
        heads = rng.sample(heads, 100)
    shop = Shop(ctx)
    try:
        plain = vxlib.project_text(("js",))
        jobs = [(plain, HEAD + BODY)]
        jobs += [(plain, render(d["d"], pkg="vp/one") + BODY) for d in heads + more]
        k = len(jobs)
        jobs += [(render(d["d"]), HEAD + BODY) for d in projects]
        res = shop.each(jobs)
    finally:
        shop.close()
    want = res[0][1]
    if not want or "Error" in res[0][0]:
        ctx.fail("[compiler] a plain package is rejected", res[0][0][:2000])
        return
    for i, (out, gen) in enumerate(res[1:], 1):
        if gen != want:
            what = "package" if i < k else "project"
            diff = [f for f in sorted(set(gen) | set(want)) if gen.get(f) != want.get(f)]
            ctx.fail("[compiler] the layout of a %s header changes what is generated%s" % (
                what, ": it is rejected" if not gen else " in " + diff[0]), "%s\n%s" % (jobs[i][1 if i < k else 0], out[:1500]))
    ctx.traces += len(res) - 1
    ctx.sample({"document": render(drawn[0]["d"], "NAME"), "computes": render(drawn[0]["w"])})


def damaged(ctx):
    """P02: malformed documents are rejected and named; the others keep their meaning."""
    rng = random.Random(ctx.seed)
    fixed = ctx.tlc("VxReader", {"Mode": "damage", "Kind": "func"}, INVS, name="damage").traces
    n = 500 if ctx.quick else 4000
    drawn = ctx.tlc("VxReader", {"Mode": "random damage", "Kind": "func"}, INVS, name="drawn", simulate=n, depth=600, seed=ctx.seed).traces
    heads = ctx.tlc("VxReader", {"Mode": "damage", "Kind": "package"}, INVS, name="heads").traces
    projects = ctx.tlc("VxReader", {"Mode": "random damage", "Kind": "project"}, INVS, name="projects", simulate=60 if ctx.quick else 600, depth=300, seed=ctx.seed).traces
    plain = vxlib.project_text(("js",))
    jobs = [(plain, HEAD + render(d["d"], "t000"), "one.vxlisp", d) for d in fixed + drawn if d["v"] == "bad"]
    jobs += [(plain, render(d["d"], pkg="vp/one") + BODY, "one.vxlisp", d) for d in heads if d["v"] == "bad" and apart(d)]
    jobs += [(render(d["d"]), HEAD + BODY, "project.vxlisp", d) for d in projects if d["v"] == "bad"]
    if len(jobs) < 1000:
        raise vxlib.CheckError("only %d malformed documents" % len(jobs))
    shop = Shop(ctx)
    try:
        res = shop.each([j[:2] for j in jobs])
    finally:
        shop.close()
    for (proj, pack, name, d), (out, gen) in zip(jobs, res):
        text = proj if name == "project.vxlisp" else pack
        if gen:
            ctx.fail("[compiler] malformed source (%s) is accepted" % d["h"], text + "\n" + out[:500])
        elif "did not end" in out:
            ctx.fail("[compiler] malformed source (%s) is never done" % d["h"], text)
        elif "Error" not in out:
            ctx.fail("[compiler] malformed source (%s) is rejected without an error" % d["h"], text + "\n" + out[:500])
        elif name not in out:
            ctx.fail("[compiler] the error does not name the malformed file (%s)" % d["h"], text + "\n" + out[:500])
    ctx.traces += len(jobs)
    ctx.extra["malformed"] = len(jobs)
    kept = [d for d in fixed + drawn if d["known"]]
    ctx.extra["still_well_formed"] = len(kept)
    value_docs(ctx, kept, ("js",))
    ctx.sample({"document": jobs[0][1][len(HEAD):], "verdict": "malformed"})


def apart(d):
    """The text that follows a header must not complete it: only headers malformed before their end."""
    return d["h"] != "truncated"


CHECKS = {"P01": layout, "P02": damaged}
