"""Shared harness: builds the vxlisp compiler from /repo's working tree, turns generated
vxlisp packages into JavaScript, Java and C++ with it, runs them and collects results."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
WORKROOT = os.path.join(VERIF, ".work")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not be carried out (never a verdict on the code)."""


def env():
    e = dict(os.environ)
    e.update({
        "LC_ALL": "C.UTF-8",
        "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off",
        "GOFLAGS": "-mod=readonly", "GOWORK": "off", "GOTELEMETRY": "off",
        "CGO_ENABLED": "0",
        "GOCACHE": os.path.join(CACHE, "go-build"),
        "GOMODCACHE": "/opt/vp/cache/gomod",
        "CCACHE_DIR": os.path.join(CACHE, "ccache"),
        "CCACHE_MAXSIZE": "2G",
        "HOME": e.get("HOME", "/root"),
    })
    return e


def run(cmd, cwd=None, timeout=600, extra=None, stdin=None):
    e = env()
    if extra:
        e.update(extra)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return -999, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def newwork(name):
    os.makedirs(WORKROOT, exist_ok=True)
    return tempfile.mkdtemp(prefix=name + "-", dir=WORKROOT)


def rmwork(path):
    if os.path.realpath(path).startswith(os.path.realpath(WORKROOT) + os.sep):
        shutil.rmtree(path, ignore_errors=True)


def build_compiler(work):
    out = os.path.join(work, "vxlisp")
    rc, o, e = run(["go", "build", "-o", out, "."], cwd=os.path.join(REPO, "src"), timeout=600)
    if rc != 0:
        raise CheckError("compiler does not build:\n" + o + e)
    return out


LIBS = """ :libs
  (lib cpprandom :path "<random>" :lang :cpp)
  (lib cppthread :path "<thread>" :lang :cpp)
  (lib javaniofile :path "java.nio.file.*" :lang :java)
  (lib javafuture :path "java.util.concurrent.CompletableFuture" :lang :java)
  (lib javafunction :path "java.util.function.*" :lang :java)
  (lib javacollectors :path "java.util.stream.Collectors" :lang :java)
"""

CMDS = {
    "js": ("srcjs", " (cmd srcjs :code :source :lang :js :path ../out/js/src)"),
    "java": ("srcjava", " (cmd srcjava :code :source :lang :java :path ../out/java/src/main/java)"),
    "cpp": ("srccpp", " (cmd srccpp :code :source :lang :cpp :path ../out/cpp/src/main)"),
}


def project_text(langs=("js", "java", "cpp"), libpath=None, extra=""):
    return ("(project verif\n :version \"1\"\n :author \"v\"\n :doc \"v\"\n :javadomain \"com.vxlisp\"\n"
            + LIBS + " :projects \"" + (libpath or REPO + "/dist/vxlisp") + "\"\n :cmds\n "
            + "\n ".join(CMDS[l][1] for l in langs) + extra + ")\n")


HEADER = """(package {pkg}
 :libs
  (lib coll :path vx/collection)
  (lib type :path vx/type)
{libs})

"""


def package_text(pkg, body, libs=""):
    return HEADER.format(pkg=pkg, libs=libs) + body


class Bundle:
    """A set of vxlisp packages whose test functions are run on every target.

    tests: list of dicts {id, pkg, fn, context: bool, async: bool, ctxfn: 'pkg|fn' or None}
    """

    def __init__(self, work, langs=("js", "java", "cpp")):
        self.work = work
        self.langs = tuple(langs)
        self.packages = {}
        self.natives = {}
        self.tests = []
        self.compiler = None
        self.times = {}

    def add_package(self, pkg, text):
        self.packages[pkg] = text

    def add_test(self, tid, pkg, fn, **kw):
        d = {"id": tid, "pkg": pkg, "fn": fn}
        d.update(kw)
        self.tests.append(d)

    def generate(self):
        if not self.compiler:
            self.compiler = build_compiler(self.work)
        p = os.path.join(self.work, "p")
        shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(os.path.join(self.work, "out"), ignore_errors=True)
        os.makedirs(p)
        with open(os.path.join(p, "project.vxlisp"), "w") as f:
            f.write(project_text(self.langs))
        for pkg, text in self.packages.items():
            fn = os.path.join(p, pkg + ".vxlisp")
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            with open(fn, "w") as f:
                f.write(text)
        for fn, text in self.natives.items():
            fn = os.path.join(p, fn)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            with open(fn, "w") as f:
                f.write(text)
        t = time.time()
        rc, o, e = run([self.compiler] + [CMDS[l][0] for l in self.langs] + ["--path", p],
                       cwd=self.work, timeout=300)
        self.times["generate"] = time.time() - t
        self.genout = o + e
        return rc, o, e

    # --- one function per target: returns {test id: {"r": text} | {"x": error}} -----------
    def run_all(self):
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            futs = {l: ex.submit(getattr(self, "run_" + l)) for l in self.langs}
            return {l: f.result() for l, f in futs.items()}

    def _table(self):
        return json.dumps(self.tests)

    def _collect(self, lang, cmdf, timeout):
        """Runs cmdf(start) until every test has a result; a test during which the process
        dies or hangs is recorded as a crash and the run resumes after it."""
        res = {}
        start = 0
        n = len(self.tests)
        restarts = 0
        while start < n:
            rc, o, e = run(*cmdf(start), timeout=timeout)
            last = None
            seen = start
            for line in o.split("\n"):
                if line.startswith("@@B "):
                    last = int(line[4:])
                elif line.startswith("@@R "):
                    i, js = line[4:].split(" ", 1)
                    d = json.loads(js)
                    res[self.tests[int(i)]["id"]] = d
                    seen = int(i) + 1
                    last = None
            if last is not None:
                why = "hang" if rc == -999 else "process died with status %d" % rc
                res[self.tests[last]["id"]] = {"x": "crash", "why": why, "log": (e or "")[-800:]}
                start = last + 1
                restarts += 1
                if restarts > 15:
                    # enough to report; the rest is not judged
                    for x in self.tests:
                        res.setdefault(x["id"], {"x": "not run"})
                    return res
            elif seen < n:
                raise BuildFail(lang, "the generated program stopped at %d of %d (status %d):\n%s" % (seen, n, rc, (o[-600:] + e)[-2500:]))
            else:
                start = n
        return res

    def run_js(self):
        d = os.path.join(self.work, "out", "js")
        if not os.path.isdir(d):
            raise BuildFail("js", "no JavaScript was generated:\n" + self.genout[-3000:])
        with open(os.path.join(d, "package.json"), "w") as f:
            f.write('{"type": "module"}')
        with open(os.path.join(d, "tests.json"), "w") as f:
            f.write(self._table())
        t = time.time()
        r = self._collect("js", lambda s: (["node", os.path.join(VERIF, "drivers", "run.mjs"), d, str(s)], d), 120)
        self.times["js"] = time.time() - t
        return r

    def run_java(self):
        d = os.path.join(self.work, "out", "java")
        if not os.path.isdir(d):
            raise BuildFail("java", "no Java was generated:\n" + self.genout[-3000:])
        t = time.time()
        srcs = []
        for root, _, files in os.walk(os.path.join(d, "src")):
            srcs += [os.path.join(root, f) for f in files if f.endswith(".java") and f != "App.java"]
        with open(os.path.join(d, "srcs.txt"), "w") as f:
            f.write("\n".join(sorted(srcs) + [os.path.join(VERIF, "drivers", "Run.java")]))
        rc, o, e = run(["javac", "-nowarn", "-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-d", "cls", "@srcs.txt"], cwd=d, timeout=600)
        if rc != 0:
            raise BuildFail("java", o + e)
        with open(os.path.join(d, "tests.txt"), "w") as f:
            for x in self.tests:
                f.write("\t".join([x["pkg"], x["fn"], x.get("ctxfn") or "-"]) + "\n")
        r = self._collect("java", lambda s: (["java", "-Xss16m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp", "cls", "Run", "tests.txt", str(s)], d), 180)
        self.times["java"] = time.time() - t
        return r

    def run_cpp(self):
        d = os.path.join(self.work, "out", "cpp")
        if not os.path.isdir(d):
            raise BuildFail("cpp", "no C++ was generated:\n" + self.genout[-3000:])
        t = time.time()
        src = os.path.join(d, "src", "main")
        ns = lambda p: p.replace("/", "_")
        lines = ['#include "vx/core.hpp"']
        for p in sorted({x["pkg"] for x in self.tests} | {x["ctxfn"].split("|")[0] for x in self.tests if x.get("ctxfn")}):
            lines.append('#include "%s.hpp"' % p)
        lines.append('#include "%s"' % os.path.join(VERIF, "drivers", "run.hpp"))
        funcs = []
        nparts = 1
        for i, x in enumerate(self.tests):
            ctx = "vx_core::e_context"
            arg = ""
            if x.get("context"):
                if x.get("ctxfn"):
                    cp, cf = x["ctxfn"].split("|")
                    ctx = "%s::f_%s()" % (ns(cp), cf)
                arg = "context"
            call = "%s::f_%s(%s)" % (ns(x["pkg"]), x["fn"], arg)
            if x.get("async"):
                call = "vx_core::vx_sync_from_async(vx_core::t_string, %s)" % call
            pre = "vx_core::Type_context context = %s; vx_core::vx_reserve_context(context); " % ctx if arg else ""
            post = "vx_core::vx_release_one(context); " if arg and x.get("ctxfn") else ""
            funcs.append("static std::string run_%d() { %svx_core::Type_string r = %s; std::string s = r->vx_string(); vx_core::vx_release(r); %sreturn s; }" % (i, pre, call, post))
        lines += funcs
        lines.append("static vrun_fn table[] = {" + ", ".join("run_%d" % i for i in range(len(self.tests))) + "};")
        lines.append("int main(int c, char** v) { return vrun_main(table, %d, c, v); }" % len(self.tests))
        with open(os.path.join(src, "vrun_main.cpp"), "w") as f:
            f.write("\n".join(lines) + "\n")
        objs = cpp_compile(d, os.path.join(src, "vrun_main.cpp"))
        exe = os.path.join(d, "vrun")
        rc, o, e = run(["g++"] + objs + ["-o", exe, "-pthread"], cwd=d, timeout=300)
        if rc != 0:
            raise BuildFail("cpp", o + e)
        r = self._collect("cpp", lambda s: ([exe, str(s)], d), 180)
        self.times["cpp"] = time.time() - t
        return r


class BuildFail(Exception):
    def __init__(self, lang, log):
        Exception.__init__(self, lang + " build failed:\n" + log[-3000:])
        self.lang = lang
        self.log = log


INC = re.compile(r'^\s*#include\s+"([^"]+)"', re.M)


def cpp_compile(d, main, src=None):
    """Compiles main and every generated .cpp it transitively needs (through ccache)."""
    src = src or os.path.join(d, "src", "main")
    todo = [main]
    seen = set()
    cpps = []
    while todo:
        f = os.path.realpath(todo.pop())
        if f in seen or not os.path.exists(f):
            continue
        seen.add(f)
        if f.endswith(".cpp"):
            cpps.append(f)
        elif f.startswith(os.path.realpath(src)) and f.endswith(".hpp"):
            todo.append(f[:-4] + ".cpp")
        for inc in INC.findall(open(f, encoding="utf-8").read()):
            todo.append(os.path.join(os.path.dirname(f), inc))
    def size(f):
        return -os.path.getsize(f)
    def one(f):
        o = os.path.join(d, "obj", os.path.relpath(f, d).replace("/", "_") + ".o")
        os.makedirs(os.path.dirname(o), exist_ok=True)
        rc, out, e = run(["ccache", "g++", "-std=c++20", "-O0", "-w", "-I.", "-c", os.path.relpath(f, d), "-o", o],
                         cwd=d, timeout=600, extra={"CCACHE_BASEDIR": d, "CCACHE_NOHASHDIR": "1"})
        if rc != 0:
            raise BuildFail("cpp", f + "\n" + out + e)
        return o
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(one, sorted(cpps, key=size)))
