"""Checks decided with VxSuite: the tests written next to declarations."""
import collections
import concurrent.futures
import glob
import json
import os
import re
import shutil

import vxlib

INVS = ["OnceInv", "CoverInv", "CalmInv", "OppositeInv", "Emit"]
SYMS = {"E9": "é", "QT": '"', "BS": "\\", "NL": "\n"}
LANGS = ("js", "java", "cpp")
SRC = {"js": "src", "java": "src/main/java", "cpp": "src/main"}
TEST = {"js": "test", "java": "src/test/java", "cpp": "src/test"}
JARS = ":".join("/usr/share/java/%s.jar" % x for x in ("junit-jupiter-api", "junit-platform-commons", "opentest4j", "apiguardian-api"))


def text(s):
    t = "".join(SYMS.get(x, x) for x in s)
    return '"%s"' % t.replace("\\", "\\\\").replace('"', '\\"')


def value(v):
    if v["t"] == "int":
        return str(v["n"])
    if v["t"] == "string":
        return text(v["s"])
    if v["t"] == "boolean":
        return "true" if v["b"] else "false"
    if v["t"] == "list":
        return "(intlist %d %s)" % (v["n"], v["s"][0])
    if v["t"] == "bag":
        return "(bag %d %s)" % (v["n"], v["s"][0])
    return "(pet :name %s :age %d)" % (text(v["s"]), v["n"])


def call(t, p, pkgs):
    q, i = t["call"]
    d = pkgs[q - 1][i - 1]
    name = d["name"] if q == p else "l%d/%s" % (q, d["name"])
    if d["kind"] == "const":
        return name
    if d["f"] == "pet":
        return "(pet :name %s :age %d)" % (text(t["s"]), t["n"])
    if d["f"] == "bag":
        return "(bag %d %d)" % (t["n"], d["k"])
    return "(%s %s)" % (name, t["n"] if d["f"] in ("add", "over", "pair") else text(t["s"]))


def test(t, p, pkgs):
    if t["form"] in ("test-true", "test-false"):
        return "(%s %s)" % (t["form"], call(t, p, pkgs))
    return "(%s %s %s)" % (t["form"], value(t["want"]), call(t, p, pkgs))


HEADS = {
    "pet": "(type pet : struct\n :properties\n  [name : string\n   age : int]",
    "bag": "(type bag : list\n :allowtypes [int]",
    "num": "(const %(name)s : int %(k)d", "text": '(const %(name)s : string "a"',
    "add": "(func %(name)s : int\n [n : int]\n (+ n %(k)d)", "over": "(func %(name)s : boolean\n [n : int]\n (> n %(k)d)",
    "pair": "(func %(name)s : intlist\n [n : int]\n (intlist n %(k)d)", "tag": '(func %(name)s : string\n [s : string]\n (string s "!")',
    "make": "(func %(name)s : pet\n [s : string]\n (pet :name s :age %(k)d)",
}


def package(p, pkgs, name):
    out = []
    libs = set()
    for d in pkgs[p - 1]:
        libs |= {t["call"][0] for t in d["tests"]} - {p}
        tests = [test(t, p, pkgs) for t in d["tests"]]
        doc = ['\n :doc "about %s"' % d["name"]] if d["doc"] else []
        if d["style"] == 2 and tests:
            tests = ["\n :test\n  " + "\n  ".join(tests)]
        else:
            tests = ["\n :test " + t for t in tests]
        body = doc + tests if d["style"] == 1 else tests + doc
        out.append(HEADS[d["f"]] % d + "".join(body) + ")\n")
    head = "(package %s%s)\n\n" % (name(p), "\n :libs" + "".join("\n  (lib l%d :path %s)" % (q, name(q)) for q in sorted(libs)) if libs else "")
    return head + "\n".join(out)


def want(suite, run, name):
    """{package: {cases, pass}} of a run, and the coverage of the packages."""
    out = {}
    for p, decls in enumerate(suite["pkgs"], 1):
        cases = collections.Counter()
        for i, j, ok in run["ran"][p - 1]:
            # how a backslash is shown is not specified
            cases[(decls[i - 1]["name"], test(decls[i - 1]["tests"][j - 1], p, suite["pkgs"]).replace("\\", ""), ok)] += 1
        maps = {"type": {}, "const": {}, "func": {}}
        seen = collections.Counter()
        for d in decls:
            n = seen[d["kind"], d["name"]]
            seen[d["kind"], d["name"]] += 1
            maps[d["kind"]][":" + d["name"] + ("_%d" % n if n else "")] = len(d["tests"])
        out[name(p)] = {"cases": cases, "pass": run["pass"][p - 1], "nums": suite["nums"][p - 1], "maps": maps}
    return out


def intmap(t):
    return {k: int(v) for k, v in re.findall(r"(:\S+) (-?\d+)", t)}


class Suite:
    def __init__(self, ctx, work, compiler, suite):
        self.work, self.compiler, self.suite = work, compiler, suite
        self.name = lambda p: "vp/s/p%d" % p
        os.makedirs(os.path.join(work, "p", "vp", "s"))
        for p in range(1, len(suite["pkgs"]) + 1):
            with open(os.path.join(work, "p", self.name(p) + ".vxlisp"), "w") as f:
                f.write(package(p, suite["pkgs"], self.name))
        cmds = ["  (cmd src :code :source :lang :%s :path ../out/%s/%s)" % (l, l, SRC[l]) for l in LANGS]
        for r, run in enumerate(suite["runs"]):
            flt = " :filter %s/%s" % (self.name(int(run["filter"][0])), run["filter"][1]) if run["filter"] else ""
            for l in LANGS:
                cmds.append("  (cmd test%d :code :test :lang :%s :path ../run%d/%s/%s%s)" % (r, l, r, l, TEST[l], flt))
        t = vxlib.project_text(()).replace(" :cmds\n ", " :cmds\n" + "\n".join(cmds))
        with open(os.path.join(work, "p", "project.vxlisp"), "w") as f:
            f.write(t)

    def generate(self):
        return vxlib.run([self.compiler, "src"] + ["test%d" % r for r in range(len(self.suite["runs"]))] + ["--path", os.path.join(self.work, "p")],
                         cwd=self.work, timeout=300)

    def dir(self, r, lang):
        """Where run r is: its tests, and the sources by reference."""
        d = os.path.join(self.work, "run%d" % r, lang)
        if not os.path.isdir(d):
            raise vxlib.BuildFail(lang, "no tests are generated")
        link = os.path.join(d, SRC[lang])
        if not os.path.exists(link):
            os.makedirs(os.path.dirname(link), exist_ok=True)
            os.symlink(os.path.join(self.work, "out", lang, SRC[lang]), link)
        return d

    @staticmethod
    def read(lang, out):
        rc, o, e = out
        got = [json.loads(x[4:]) for x in o.split("\n") if x.startswith("@@S ")]
        fails = {x[4:] for x in o.split("\n") if x.startswith("@@F ")} | set(re.findall(r"--Test Result Fail-- (vp/s/p\d+)/", o))
        if rc != 0 or "@@E" not in o:
            raise vxlib.BuildFail(lang, "the suite does not run (status %s):\n%s" % (rc, (o[-800:] + e)[-2500:]))
        return got, fails, o

    def run_js(self, r):
        d = self.dir(r, "js")
        # the file the link stands for must find its neighbours from here
        os.remove(os.path.join(d, "src"))
        shutil.copytree(os.path.join(self.work, "out", "js", "src"), os.path.join(d, "src"))
        with open(os.path.join(d, "package.json"), "w") as f:
            f.write('{"type": "module"}')
        return self.read("js", vxlib.run(["node", os.path.join(vxlib.VERIF, "drivers", "suite.mjs"), d], cwd=d, timeout=120))

    def javac(self, d, srcs, out, cp):
        with open(os.path.join(d, "srcs.txt"), "w") as f:
            f.write("\n".join(sorted(srcs)))
        rc, o, e = vxlib.run(["javac", "-nowarn", "-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-cp", cp, "-d", out, "@srcs.txt"], cwd=d, timeout=600)
        if rc != 0:
            raise vxlib.BuildFail("java", o + e)

    def run_java(self, r):
        d = self.dir(r, "java")
        cls = os.path.join(self.work, "out", "java", "cls")
        if r == 0:
            self.javac(os.path.join(self.work, "out", "java"), files(os.path.join(self.work, "out", "java", "src"), ".java", ("App.java",)), cls, ".")
        self.javac(d, files(os.path.join(d, TEST["java"]), ".java") + [os.path.join(vxlib.VERIF, "drivers", "Suite.java")], "cls", cls + ":" + JARS)
        return self.read("java", vxlib.run(["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-cp", "cls:" + cls + ":" + JARS,
                                            "Suite", "com.vxlisp."], cwd=d, timeout=120))

    def run_cpp(self, r):
        d = self.dir(r, "cpp")
        # the sources beside the tests, as if generated here
        os.remove(os.path.join(d, "src", "main"))
        shutil.copytree(os.path.join(self.work, "out", "cpp", "src", "main"), os.path.join(d, "src", "main"))
        t = os.path.join(d, "src", "test")
        # the tests of the library itself are left out: they take minutes to compile
        for h in glob.glob(os.path.join(t, "vx", "**", "*_test.hpp"), recursive=True):
            ns = os.path.relpath(h, t)[:-4].replace("/", "_")
            up = "../" * os.path.relpath(h, t).count("/")
            with open(h, "w") as f:
                f.write('#pragma once\n#include "%s../main/vx/test.hpp"\nnamespace %s { inline vx_test::Type_testpackage test_package(vx_core::Type_context context) { return vx_test::e_testpackage; } }\n' % (up, ns))
            if os.path.exists(h[:-4] + ".cpp"):
                os.remove(h[:-4] + ".cpp")
        shutil.move(os.path.join(t, "app_test.cpp"), os.path.join(t, "vsuite_app.inc"))
        main = os.path.join(t, "vsuite_main.cpp")
        with open(main, "w") as f:
            f.write('#define main vsuite_app_main\n#include "vsuite_app.inc"\n#undef main\n#include "%s"\n' % os.path.join(vxlib.VERIF, "drivers", "suite.hpp"))
        objs = vxlib.cpp_compile(d, main, os.path.join(d, "src"))
        rc, o, e = vxlib.run(["g++"] + objs + ["-o", "vsuite", "-pthread"], cwd=d, timeout=300)
        if rc != 0:
            raise vxlib.BuildFail("cpp", o + e)
        return self.read("cpp", vxlib.run(["./vsuite"], cwd=d, timeout=120))


def files(d, end, but=()):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith(end) and f not in but]


def byname(suite, pkg, w, k):
    """The numbers of F15: functions of one name count as one in the total."""
    pct, cnt, total = w["nums"][k]
    funcs = [d["name"] for d in suite["pkgs"][int(pkg.rsplit("p", 1)[1]) - 1] if d["kind"] == "func"]
    total -= len(funcs) - len(set(funcs))
    return [cnt * 100 // total if total else 100, cnt, total]


def judge(ctx, lang, suite, run, res, name):
    got, fails, _ = res
    exp = want(suite, run, name)
    where = "[%s]%s" % (lang, " with the filter %s/%s" % (name(int(run["filter"][0])), run["filter"][1]) if run["filter"] else "")
    seen = {}
    for g in got:
        if g["pkg"] in seen:
            ctx.fail("%s package %s is in the suite twice" % (where, g["pkg"]))
        seen[g["pkg"]] = g
        if g["pkg"] not in exp:
            ctx.fail("%s the suite has a package %s that does not exist" % (where, g["pkg"]))
    for pkg, w in exp.items():
        src = package(int(pkg.rsplit("p", 1)[1]), suite["pkgs"], name)
        g = seen.get(pkg)
        if g is None:
            if w["cases"] or not run["filter"]:
                ctx.fail("%s package %s is not in the suite" % (where, pkg), src)
            continue
        names = {c[0] for c in w["cases"]}
        cases = collections.Counter()
        for c, t, ok in g["cases"]:
            base = re.sub(r"_\d+$", "", c)
            cases[(base if base in names else c, t.replace("\\", ""), ok)] += 1
        for c in (w["cases"] - cases):
            near = [x for x in cases - w["cases"] if x[:2] == c[:2]]
            what = "is said to %s" % ("pass" if near[0][2] else "fail") if near else "is not carried out%s" % ("" if c[:2] not in {x[:2] for x in cases} else " as often as written")
            ctx.fail("%s the test %s of %s/%s %s%s" % (where, c[1], pkg, c[0], what, " where it should %s" % ("pass" if c[2] else "fail") if near else ""), src)
        for c in (cases - w["cases"]):
            if not [x for x in w["cases"] - cases if x[:2] == c[:2]]:
                ctx.fail("%s a test %s of %s/%s is carried out that is not due" % (where, c[1], pkg, c[0]), src)
        if g["pass"] != w["pass"] and w["cases"]:
            ctx.fail("%s package %s is said to %s" % (where, pkg, "pass" if g["pass"] else "fail"), src)
        if lang != "js" and (pkg in fails) == w["pass"]:
            ctx.fail("%s the run of package %s %s" % (where, pkg, "reports a failure though all its tests pass" if w["pass"] else "reports no failure though a test fails"), src)
        if run["filter"]:
            continue
        for k, v in w["nums"].items():
            if lang == "java" and k in ("func", "total") and byname(suite, pkg, w, k) == g["nums"][k] != v:
                ctx.finding("F15", True, "%s the coverage of %s (%s) is %s where %s is due" % (where, pkg, k, g["nums"][k], v))
            elif g["nums"][k] != v:
                ctx.fail("%s the coverage of %s (%s) is %s where %s is due" % (where, pkg, k, g["nums"][k], v), src)
        for k, v in w["maps"].items():
            if intmap(g["maps"][k]) != v:
                ctx.fail("%s the tests per %s of %s are %s where %s is due" % (where, k, pkg, g["maps"][k], v), src)


def suites(ctx):
    """P27: every test of a program is carried out once and judged by what it compares."""
    n, size, runs = (1, 8, 6) if ctx.quick else (6, 10, 12)
    traces = ctx.tlc("VxSuite", {"Size": size, "Runs": runs}, INVS, name="suite", simulate=n, depth=6000, seed=ctx.seed).traces
    if len(traces) < n:
        raise vxlib.CheckError("specification emitted only %d suites" % len(traces))
    compiler = vxlib.build_compiler(ctx.work)
    count = 0
    for suite in traces[:n]:
        work = vxlib.newwork("suite")
        try:
            s = Suite(ctx, work, compiler, suite)
            rc, o, e = s.generate()
            if rc != 0 or "Error" in o + e:
                ctx.fail("[compiler] a program with tests is rejected", (o + e)[:2500])
                continue

            def one(lang):
                out = []
                for r, run in enumerate(suite["runs"]):
                    if lang != "js" and r > (2 if lang == "java" else 1):
                        break
                    try:
                        out.append((r, getattr(s, "run_" + lang)(r)))
                    except vxlib.BuildFail as f:
                        out.append((r, f))
                        break
                return out
            with concurrent.futures.ThreadPoolExecutor(3) as ex:
                res = dict(zip(LANGS, ex.map(one, LANGS)))
        finally:
            vxlib.rmwork(work)
        for lang in LANGS:
            for r, x in res[lang]:
                run = suite["runs"][r]
                if isinstance(x, vxlib.BuildFail):
                    ctx.fail("[%s] the test suite%s does not build or run:\n%s" % (lang, " of the filter %s" % run["filter"] if run["filter"] else "", x.log[:1500]))
                    continue
                judge(ctx, lang, suite, run, x, s.name)
                count += sum(len(x) for x in run["ran"])
    ctx.traces += sum(len(t["runs"]) for t in traces[:n])
    ctx.extra["tests"] = count
    ctx.sample({"runs": [r["filter"] for r in traces[0]["runs"]], "pass": traces[0]["runs"][0]["pass"], "first": traces[0]["pkgs"][0]})


CHECKS = {"P27": suites}
