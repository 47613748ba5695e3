"""Checks decided with VxDeps: packages that use each other."""
import os
import random
import shutil

import machine
import reader
import vxlib

INVS = ["OrderInv", "LeftInv", "Emit"]


def package(prefix, p, g, names):
    """Package p of a graph: a constant, a type and a function that uses every library's."""
    libs = sorted(q for a, q in g["uses"] if a == p)
    lines = ["  (lib l%d :path %s%s)" % (q, prefix, names[q]) for q in libs]
    head = "(package %s%s\n :libs\n  (lib type :path vx/type)%s)\n\n" % (prefix, names[p], "".join("\n" + x for x in lines))
    terms = ["(+ (:n (l%d/make)) (* 10 l%d/own))" % (q, q) for q in libs]
    body = str(p)
    for t in terms:
        body = "(+ %s %s)" % (body, t)
    return head + ("(const own : int %d)\n\n(type box : struct\n :properties\n  [n : int])\n\n(func make : box\n []\n (box :n %s))\n\n"
                   "(func tell : string\n []\n (string<-any (:n (make))))\n" % (p, body))


def spell(g, k, rng):
    """File names of the packages: the order of the files is drawn apart from the graph."""
    pool = ["a", "b", "c", "m/d", "zed", "m/ab", "b2", "m/n/y"][:max(g["n"], 3) + 2]
    rng.shuffle(pool)
    names = {p: pool[p - 1] for p in range(1, g["n"] + 1)}
    names[g["n"] + 1] = "nosuch"
    return names


class Many(reader.Shop):
    def compile(self, slot, files):
        w = os.path.join(self.root, "w%d" % slot)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(os.path.join(w, "p"))
        for name, text in files.items():
            fn = os.path.join(w, "p", name)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            with open(fn, "w") as f:
                f.write(text)
        rc, o, e = vxlib.run([self.compiler, "srcjs", "--path", os.path.join(w, "p")], cwd=w, timeout=60)
        made = os.path.exists(os.path.join(w, "out"))
        shutil.rmtree(w, ignore_errors=True)
        return o + e, made


def orders(ctx):
    """P03: packages are put in order whatever their files are called; circles and lost libraries are reported."""
    rng = random.Random(ctx.seed)
    every = ctx.tlc("VxDeps", {"Mode": "all", "Size": 3}, INVS, name="all").traces
    n = 60 if ctx.quick else 600
    drawn = ctx.tlc("VxDeps", {"Mode": "drawn", "Size": 6}, INVS, name="drawn", simulate=n, depth=20, seed=ctx.seed).traces
    if len(every) < 512 or len(drawn) < n * 0.9:
        raise vxlib.CheckError("specification emitted only %d and %d graphs" % (len(every), len(drawn)))
    good = [g for g in every if g["sound"]] + [g for g in drawn if g["sound"]][:12 if ctx.quick else 100]
    plain = [g for g in every if not g["sound"] and not any(a == b for a, b in g["uses"])]
    loops = [g for g in every if not g["sound"] and any(a == b for a, b in g["uses"])]
    bad = plain + (rng.sample(loops, 60) if ctx.quick else loops) + [g for g in drawn if not g["sound"]]
    # rejected: an error that names a package of the circle, or the package that names the lost library
    shop = Many(ctx)
    try:
        jobs = []
        for k, g in enumerate(bad):
            names = spell(g, k, rng)
            files = {"vp/g/%s.vxlisp" % names[p]: package("vp/g/", p, g, names) for p in range(1, g["n"] + 1)}
            files["project.vxlisp"] = vxlib.project_text(("js",))
            jobs.append((files, names))
        res = shop.each([(f,) for f, _ in jobs])
    finally:
        shop.close()
    for g, (files, names), (out, made) in zip(bad, jobs, res):
        what = "a library that does not exist" if g["lost"] else "packages that use each other in a circle"
        text = "\n".join("== %s\n%s" % x for x in sorted(files.items()) if x[0] != "project.vxlisp")
        if made:
            ctx.fail("[compiler] %s is accepted" % what, text)
        elif "Error" not in out:
            ctx.fail("[compiler] %s is not reported" % what, text + "\n" + out)
        else:
            named = g["lost"] or g["circle"]
            miss = ["vp/g/" + names[p] for p in named if "vp/g/" + names[p] not in out]
            if miss:
                ctx.fail("[compiler] the error about %s does not name %s" % (what, miss[0]), text + "\n" + out)
    ctx.traces += len(bad)
    # accepted: every target computes the same
    small = [g for g in good if g["n"] == 3]
    some = rng.sample(small, 5) + [g for g in good if g["n"] != 3][:4]
    for langs, graphs in ((("js", "java"), good), (("js", "cpp"), some if ctx.quick else good[:60])):
        values(ctx, graphs, langs, rng)
    probe(ctx)
    ctx.extra["rejected"] = len(bad)
    ctx.sample({"uses": good[-1]["uses"], "worth": good[-1]["worth"]})


def values(ctx, graphs, langs, rng):
    b = vxlib.Bundle(vxlib.newwork("deps"), langs)
    want = {}
    for k, g in enumerate(graphs):
        names = spell(g, k, rng)
        prefix = "vp/g%d/" % k
        for p in range(1, g["n"] + 1):
            b.add_package(prefix + names[p], package(prefix, p, g, names))
            tid = "%d.%d" % (k, p)
            b.add_test(tid, prefix + names[p], "tell")
            want[tid] = str(g["worth"][p - 1])
    try:
        rc, o, e = b.generate()
        if rc != 0 or "Error" in o + e:
            ctx.fail("[compiler] packages without a circle are rejected:\n" + (o + e)[:1500])
            return
        try:
            res = b.run_all()
        except vxlib.BuildFail as f:
            ctx.fail("[%s] generated code does not compile:\n%s" % (f.lang, f.log[:1500]))
            return
    finally:
        vxlib.rmwork(b.work)
    for tid, w in want.items():
        for lang in langs:
            r = res[lang].get(tid, {"x": "no result"})
            if r.get("r") != w:
                k, p = map(int, tid.split("."))
                ctx.fail("[%s] package %d of a graph computes %s where %s is due" % (lang, p, r, w), str(graphs[k]))
    ctx.traces += len(graphs)


def probe(ctx):
    """Finding F09: two packages whose names end alike, one using the other."""
    b = vxlib.Bundle(vxlib.newwork("alike"), ("java",))
    b.add_package("vp/alike/a", "(package vp/alike/a)\n\n(func far : int\n [n : int]\n (+ n 1))\n\n(func f : int\n [n : int]\n (+ n 10))\n")
    b.add_package("vp/alike/m/a", "(package vp/alike/m/a\n :libs\n  (lib o :path vp/alike/a))\n\n(func f : int\n [n : int]\n (+ n 100))\n\n"
                  "(func tell : string\n []\n (string<-any (+ (o/f 1) (o/far 1))))\n")
    b.add_test("t", "vp/alike/m/a", "tell")
    try:
        b.generate()
        try:
            got = b.run_all()["java"].get("t", {})
        except vxlib.BuildFail as f:
            got = {"x": f.log[:600]}
    finally:
        vxlib.rmwork(b.work)
    ctx.finding("F09", got.get("r") != "13", "packages vp/alike/a and vp/alike/m/a: %s" % got)


CHECKS = {"P03": orders}
