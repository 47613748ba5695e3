"""Checks decided with VxApp: permissions, contexts and applications."""
import concurrent.futures
import os
import shutil

import vxlib

INVS = ["OrderInv", "GuardInv", "Emit"]
PARAMS = {"none": "[]", "int": "[n : int]", "string": "[s : string]", "two": "[n : int\n  s : string]"}
ARGS = {"none": "", "int": " 3", "string": ' "x"', "two": ' 3 "x"'}
TYPES = {"string": "string", "int": "int", "boolean": "boolean", "list": "stringlist", "struct": "pack"}
TEXTS = {"none": ('"r"', "r"), "int": ('(string "r" (string<-any n))', "r3"), "string": ('(string "r" s)', "rx"),
         "two": ('(string "r" (string<-any n) s)', "r3x")}
INTS = {"none": ("5", "5"), "int": ("(+ n 4)", "7"), "string": ("5", "5"), "two": ("(+ n 4)", "7")}
PACK = "(type pack : struct\n :properties\n  [name : string\n   age : int])\n\n"
USERS = ("ann", "bob", "cy")


class Permits:
    """Renders the drawn programs as one bundle."""

    def __init__(self, work):
        self.b = vxlib.Bundle(work)
        self.text = {"one": [], "two": [PACK]}
        self.tests = {}

    def name(self, k, f):
        return "%s%d" % (f["n"], k)

    def good(self, f):
        if f["k"] == "leaf":
            return TEXTS[f["pk"]][1]
        return "yes"

    def holds(self, f, call):
        """A condition that says that a call was carried out (and told yes)."""
        if f["k"] == "user":
            return '(or (= %s "ann") (or (= %s "bob") (= %s "cy")))' % (call, call, call)
        if f["rk"] == "int":
            return "(= %s %s)" % (call, INTS[f["pk"]][1])
        if f["rk"] == "boolean":
            return call
        if f["rk"] == "list":
            return "(= (length %s) 2)" % call
        if f["rk"] == "struct":
            return '(= (:name %s) "z")' % call
        return '(= %s "%s")' % (call, self.good(f))

    def call(self, k, f, p, args=None):
        mod = "two/" if f["p"] == "two" and p == "one" else ""
        return "(%s%s%s)" % (mod, self.name(k, f), ARGS[f["pk"]] if args is None else args)

    def body(self, k, fs, f):
        if f["k"] == "user":
            return "(:username (user<-context))"
        if f["k"] == "holds":
            return '(if : string\n  (then (is-pass<-permission (permission :id "%s")) "yes")\n  (else "no"))' % f["q"]
        if f["k"] == "leaf":
            return {"string": TEXTS[f["pk"]][0], "int": INTS[f["pk"]][0], "boolean": "true",
                    "list": '(stringlist "a" "b")', "struct": '(two/pack :name "z")' if f["p"] == "one" else '(pack :name "z")'}[f["rk"]]
        c = fs[f["c"] - 1]
        call = self.call(k, c, f["p"])
        way = f["way"]
        tell = "(if : string\n  (then %s \"yes\")\n  (else \"no\"))"
        typ = TYPES[c["rk"]]
        if typ == "pack" and f["p"] == "one":
            typ = "two/pack"
        if way == "let":
            return "(let : string\n  [x : %s := %s]\n  %s)" % (typ, call, tell % self.holds(c, "x"))
        if way == "fn":
            inner = self.call(k, c, f["p"], " v" if c["pk"] == "string" else None)
            return ('(let : string\n  [l : stringlist :=\n    (list<-list : stringlist\n     (stringlist "x")\n     (fn : string\n      [v : string]\n      %s))]\n  %s)'
                    % (inner, tell % self.holds(c, "(:1 l)")))
        if way == "switch":
            return '(switch : string\n  %s\n  (case "%s" "yes")\n  (else "no"))' % (call, self.good(c))
        if way == "argument":
            return tell % ('(= (string "<" %s ">") "<%s>")' % (call, self.good(c)))
        if way == "thread":
            return tell % self.holds(c, "(<- %s %s)" % (ARGS[c["pk"]].strip(), self.call(k, c, f["p"], "")))
        if way == "branch":
            return tell % self.holds(c, "(if : string\n   (then (= 1 1) %s)\n   (else \"zz\"))" % call)
        return tell % self.holds(c, call)

    def add(self, k, prog):
        fs = prog["funcs"]
        for f in fs:
            typ = TYPES[f["rk"]]
            if typ == "pack" and f["p"] == "one":
                typ = "two/pack"
            self.text[f["p"]].append("(func %s : %s\n %s\n %s%s\n :context)\n\n" % (
                self.name(k, f), typ, PARAMS[f["pk"]], self.body(k, fs, f), "\n :permission" if f["g"] else ""))
        for i, f in enumerate(fs):
            call = self.call(k, f, "one")
            if f["k"] == "user":
                clauses = ['(then (= %s "%s") "%s")' % (call, u, u) for u in USERS]
            elif f["k"] == "leaf":
                clauses = ['(then %s "yes")' % self.holds(f, call)]
            else:
                clauses = ['(then (= %s "%s") "%s")' % (call, w, w) for w in ("yes", "no")]
            self.text["one"].append("(func obs%dx%d : string\n []\n (if : string\n  %s\n  (else \"denied\"))\n :context)\n\n" % (k, i, "\n  ".join(clauses)))
        for j, c in enumerate(prog["ctxs"]):
            sec = ""
            if c["may"]:
                sec += "\n         :allowfuncs (funclist %s)" % " ".join(self.call(k, fs[m - 1], "one", "")[1:-1] for m in sorted(c["may"]))
            if c["holds"]:
                sec += "\n         :permissionmap (permissionmap %s)" % " ".join(':%s (permission :id "%s")' % (q, q) for q in sorted(c["holds"]))
            self.text["one"].append(
                "(func ctx%dx%d : context\n []\n (context\n  :session\n   (session\n    :user\n     (user\n      :username \"%s\"%s))))\n\n" % (
                    k, j, c["user"], "\n      :security\n       (security" + sec + ")" if sec else ""))
        for i, f in enumerate(fs):
            for j in range(len(prog["ctxs"])):
                tid = "%d.%d.%d" % (k, i, j)
                self.tests[tid] = prog["table"][i][j]
                self.b.add_test(tid, "vp/one", "obs%dx%d" % (k, i), context=True, ctxfn="vp/one|ctx%dx%d" % (k, j))


def permits(ctx):
    """P21: guarded functions run only for those who may call them."""
    n = 28 if ctx.quick else 300
    progs = ctx.tlc("VxApp", {"Mode": "permit", "Size": 6}, INVS, name="permit", simulate=n, depth=40, seed=ctx.seed).traces
    if len(progs) < n * 0.9:
        raise vxlib.CheckError("specification emitted only %d of %d programs" % (len(progs), n))
    kinds = {o for p in progs for row in p["table"] for o in row}
    if not {"yes", "no", "denied", "ann", "bob"} <= kinds:
        raise vxlib.CheckError("the drawn programs show only %s" % kinds)
    for s in range(0, len(progs), 60):
        part = progs[s:s + 60]
        R = Permits(vxlib.newwork("permit"))
        for k, p in enumerate(part):
            R.add(k, p)
        try:
            R.b.add_package("vp/two", vxlib.package_text("vp/two", "".join(R.text["two"])))
            R.b.add_package("vp/one", vxlib.package_text("vp/one", "".join(R.text["one"]), "  (lib two :path vp/two)\n"))
            rc, o, e = R.b.generate()
            if rc != 0 or "Error" in o + e:
                ctx.fail("[compiler] valid programs are rejected:\n" + (o + e)[:1500], "".join(R.text["one"]))
                return
            try:
                res = R.b.run_all()
            except vxlib.BuildFail as f:
                ctx.fail("[%s] generated code does not compile:\n%s" % (f.lang, f.log[:1500]), "".join(R.text["one"]))
                return
        finally:
            vxlib.rmwork(R.b.work)
        for tid, want in R.tests.items():
            k, i, j = map(int, tid.split("."))
            for lang in R.b.langs:
                r = res[lang].get(tid, {"x": "no result"})
                got = r.get("r", "%s %s" % (r.get("x"), r.get("why", "")))
                if r.get("x") == "not run":
                    continue
                if got != want:
                    f = part[k]["funcs"][i]
                    c = part[k]["ctxs"][j]
                    ctx.fail("[%s] a call of %s by %s, who may call %s, tells %s where %s is due" % (
                        lang, show(f), c["user"], ", ".join(show(part[k]["funcs"][m - 1]) for m in sorted(c["may"])) or "nothing", got[:300], want),
                        "program: %s" % part[k])
    ctx.traces += len(progs)
    ctx.extra["calls"] = sum(len(p["funcs"]) * len(p["ctxs"]) for p in progs)
    ctx.sample(progs[0])


def show(f):
    return "%s%s/%s (%s%s)" % ("guarded " if f["g"] else "", f["p"], f["n"], f["k"], " by " + f["way"] if f["way"] else "")


# ---------------------------------------------------------------- applications
SYMS = {"E9": "é", "QT": '"', "BS": "\\", "NL": "\n"}
SLOW = """(func slowint : int
 [n : int]
 :async
 (native
  :js "new Promise((res) => setTimeout(() => res(n), 5))"
  :java "output = CompletableFuture.supplyAsync(() -> { return n; });"
  :cpp "vx_core::vx_Type_future future = new std::future<vx_core::Type_any>(std::async(std::launch::async, [n]() {return (vx_core::Type_any)n;})); vx_core::vx_reserve(n); output = vx_core::vx_async_new_from_future(vx_core::t_int, future);"))

"""
MAINS = {"join": "(string args)", "wrap": '(string "<" args ">")', "count": "(string<-any (length args))",
         "first": '(string (any<-list : any args 1))', "last": "(string (any<-list : any args (length args)))",
         "user": '(string "u:" (:username (user<-context)))'}
MAKERS = {
    "fixed": '(context :session (session :user (user :username "fay")))',
    "args": "(context :session (session :user (user :username (string args))))",
    "slow": '(context :session (session :user (user :username "fay")))',
}


def wait(body, typ):
    return "(let : %s\n  [waited : intlist := (list<-list-async : intlist (intlist 1 2) slowint)]\n  %s)" % (typ, body)


def mainname(a):
    return a["main"] + ("-slow" if a["slow"] else "") + ("-ctx" if a["ctx"] else "")


def app_package(name, apps):
    out = [SLOW]
    for m in sorted({(a["main"], a["slow"], a["ctx"]) for a in apps if a["main"] and (a["away"] == (name == "two"))}):
        a = dict(zip(("main", "slow", "ctx"), m))
        body = MAINS[a["main"]]
        if a["slow"]:
            body = wait(body, "string")
        out.append("(func %s : string\n [args : anylist :...]\n%s%s %s)\n\n" % (
            mainname(a), " :async\n" if a["slow"] else "", " :context\n" if a["ctx"] else "", body))
    if name == "one":
        for k, body in MAKERS.items():
            if k == "slow":
                body = wait(body, "context")
            out.append("(func make-%s : context\n [args : anylist :...]\n%s %s)\n\n" % (k, " :async\n" if k == "slow" else "", body))
    return "(package vp/%s\n :libs\n  (lib coll :path vx/collection)\n  (lib type :path vx/type)\n  (lib javafuture))\n\n%s" % (name, "".join(out))


def words(seq):
    return [SYMS.get(w, w) for w in seq]


def options(a):
    out = ""
    if a["main"]:
        out += " :main vp/%s/%s" % ("two" if a["away"] else "one", mainname(a))
    if a["maker"]:
        out += " :context vp/one/make-" + a["maker"]
    return out


class Apps:
    def __init__(self, work, compiler, apps, domain):
        self.work = work
        self.compiler = compiler
        self.apps = apps
        self.domain = domain
        os.makedirs(os.path.join(work, "p", "vp"))
        for n in ("one", "two"):
            with open(os.path.join(work, "p", "vp", n + ".vxlisp"), "w") as f:
                f.write(app_package(n, [x["a"] for x in apps]))
        cmds = []
        for i, x in enumerate(apps):
            for lang, d in (("js", "src"), ("java", "src/main/java"), ("cpp", "src/main")):
                cmds.append("  (cmd a%d :code :source :lang :%s :path ../out%d/%s/%s%s)" % (i, lang, i, lang, d, options(x["a"])))
        text = vxlib.project_text(()).replace("com.vxlisp", domain)
        text = text.replace(" :cmds\n ", " :cmds\n" + "\n".join(cmds))
        with open(os.path.join(work, "p", "project.vxlisp"), "w") as f:
            f.write(text)

    def generate(self, i):
        cwd = os.path.join(self.work, "cwd%d" % i)
        os.makedirs(cwd)
        return vxlib.run([self.compiler, "a%d" % i, "--path", os.path.join(self.work, "p")], cwd=cwd, timeout=120)

    def dir(self, i, lang):
        return os.path.join(self.work, "out%d" % i, lang)

    def javac_all(self):
        """The packages, once; the applications are compiled against them."""
        d = self.dir(0, "java")
        srcs = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(d, "src")) for f in fs if f.endswith(".java") and f != "App.java"]
        with open(os.path.join(d, "srcs.txt"), "w") as f:
            f.write("\n".join(srcs))
        rc, o, e = vxlib.run(["javac", "-nowarn", "-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-d", "cls", "@srcs.txt"], cwd=d, timeout=600)
        if rc != 0:
            raise vxlib.BuildFail("java", o + e)
        return os.path.join(d, "cls")

    def run_js(self, i, runs):
        d = self.dir(i, "js")
        with open(os.path.join(d, "package.json"), "w") as f:
            f.write('{"type": "module"}')
        with open(os.path.join(d, "run.mjs"), "w") as f:
            f.write('import app from "./src/app.js"\nconst r = await app.f_main(process.argv.slice(2))\nprocess.stdout.write((r.vx_value ?? r) + "\\n")\n')
        return [vxlib.run(["node", "run.mjs"] + words(r["args"]), cwd=d, timeout=60) for r in runs]

    def run_java(self, i, runs):
        d = self.dir(i, "java")
        app = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f == "App.java"]
        if not app:
            raise vxlib.BuildFail("java", "no application is generated")
        rc, o, e = vxlib.run(["javac", "-nowarn", "-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-cp", self.cls, "-d", "app", app[0]], cwd=d, timeout=300)
        if rc != 0:
            raise vxlib.BuildFail("java", o + e)
        name = [os.path.relpath(os.path.join(r, f), os.path.join(d, "app")) for r, _, fs in os.walk(os.path.join(d, "app")) for f in fs if f == "App.class"][0]
        return [vxlib.run(["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-cp", self.cls + ":app", name[:-6].replace("/", ".")]
                          + words(r["args"]), cwd=d, timeout=60) for r in runs]

    def run_cpp(self, i, runs):
        d = self.dir(i, "cpp")
        objs = vxlib.cpp_compile(d, os.path.join(d, "src", "main", "app.cpp"))
        rc, o, e = vxlib.run(["g++"] + objs + ["-o", "app", "-pthread"], cwd=d, timeout=300)
        if rc != 0:
            raise vxlib.BuildFail("cpp", o + e)
        return [vxlib.run(["./app"] + words(r["args"]), cwd=d, timeout=60) for r in runs]


def apps(ctx):
    """P20: the generated application prints what its main function computes."""
    n = 20 if ctx.quick else 140
    got = ctx.tlc("VxApp", {"Mode": "apps", "Size": n}, INVS, name="apps", simulate=1, depth=n + 4, seed=ctx.seed).traces
    if not got or len(got[0]["apps"]) < n:
        raise vxlib.CheckError("specification emitted too few applications")
    compiler = vxlib.build_compiler(ctx.work)
    for dom, domain in ((False, "com.vxlisp"), (True, "org.demo")):
        part = [x for x in got[0]["apps"] if x["a"]["domain"] == dom]
        for s in range(0, len(part), 40):
            some(ctx, compiler, part[s:s + 40], domain)
    ctx.traces += n
    ctx.extra["executions"] = n * 12
    ctx.sample(got[0]["apps"][0])


def some(ctx, compiler, part, domain):
    if not part:
        return
    work = vxlib.newwork("apps")
    try:
        A = Apps(work, compiler, part, domain)
        with concurrent.futures.ThreadPoolExecutor(vxlib.NPROC) as ex:
            for i, (rc, o, e) in enumerate(ex.map(A.generate, range(len(part)))):
                if rc != 0 or "Error" in o + e:
                    ctx.fail("[compiler] an application is rejected: %s" % options(part[i]["a"]), (o + e)[:2000])
            if ctx.bad:
                return
            try:
                A.cls = A.javac_all()
            except vxlib.BuildFail as f:
                ctx.fail("[java] generated code does not compile:\n" + f.log[:1500])
                return

            def one(job):
                i, lang = job
                try:
                    return getattr(A, "run_" + lang)(i, part[i]["runs"])
                except vxlib.BuildFail as f:
                    return f
            jobs = [(i, lang) for i in range(len(part)) for lang in ("cpp", "java", "js")]
            res = list(ex.map(one, jobs))
    finally:
        vxlib.rmwork(work)
    for (i, lang), r in zip(jobs, res):
        a = part[i]["a"]
        if isinstance(r, vxlib.BuildFail):
            ctx.fail("[%s] the application of%s does not compile:\n%s" % (lang, options(a) or " no options", r.log[:1200]))
            continue
        for run, (rc, o, e) in zip(part[i]["runs"], r):
            want = "".join(words(run["want"]))
            if rc != 0 or o not in (want, want + "\n"):
                ctx.fail("[%s] the application of%s prints %r for %r where %r is due" % (lang, options(a) or " no options", o[:300], words(run["args"]), want),
                         "status %s\n%s" % (rc, e[:1500]))


CHECKS = {"P20": apps, "P21": permits}
