"""Helper for planting bugs: applies edits in /repo, checks that the stable tests pass and that the
demonstration tells the trees apart, and saves seeded/<id>/.

Used from Python:  bug(id, prop, needs, breaks, edits, prog=..., lang=..., expect=...)  or demo=<script text>.
"""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """#!/bin/bash
# exit 0: the behaviour is as it should be
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
(cd "$repo/src" && go build -o "$t/vxlisp" .) || exit 2
"""

GEN = """mkdir -p "$t/p/vp"
sed "s#@REPO@#$repo#" "$here/project.vxlisp" > "$t/p/project.vxlisp"
cp "$here/prog.vxlisp" "$t/p/vp/p0.vxlisp"
cd "$t" || exit 2
timeout 120 ./vxlisp gen --path "$t/p" > log 2>&1
"""

RUN = {
    "js": """printf '{"type":"module"}' > out/package.json
cat > out/main.mjs <<'END'
import vp_p0 from './src/vp/p0.js'
process.stdout.write(String(vp_p0.f_main()))
END
timeout 60 node out/main.mjs > got 2>err
""",
    "java": """mkdir -p cls
cat > Main.java <<'END'
public class Main { public static void main(String[] a) { System.out.print(com.vxlisp.vp.P0.f_main().vx_string()); } }
END
find out/src -name '*.java' ! -name App.java > srcs; echo Main.java >> srcs
javac -nowarn -d cls @srcs > jlog 2>&1 || { head -5 jlog; exit 1; }
timeout 60 java -cp cls Main > got 2>err
""",
    "cpp": """cat > main.cpp <<'END'
#include <iostream>
#include "out/src/vp/p0.hpp"
int main() {
  { auto r = vp_p0::f_main(); vx_core::vx_release(r); }
  long before = vx_core::refcount;
  auto r = vp_p0::f_main();
  std::cout << r->vx_string();
  vx_core::vx_release(r);
  if (@LEAK@) std::cout << " held " << vx_core::refcount - before;
  std::cout << std::flush; _Exit(0);
}
END
g++ -std=c++20 -O0 -w main.cpp out/src/vp/p0.cpp out/src/vx/core.cpp out/src/vx/collection.cpp out/src/vx/type.cpp -o prog -pthread > clog 2>&1 || { head -5 clog; exit 1; }
timeout 60 ./prog > got 2>err
""",
}

TAIL = """if cmp -s got "$here/expected"; then exit 0; fi
echo "expected:"; cat "$here/expected"; echo; echo "got:"; cat got
exit 1
"""

LIBS = """ :libs
  (lib cpprandom :path "<random>" :lang :cpp)
  (lib javaniofile :path "java.nio.file.*" :lang :java)
  (lib javafuture :path "java.util.concurrent.CompletableFuture" :lang :java)
  (lib javafunction :path "java.util.function.*" :lang :java)
  (lib javacollectors :path "java.util.stream.Collectors" :lang :java)
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    return sh("git -C /repo status --short").stdout.strip() == ""


def bug(bid, prop, needs, breaks, edits, prog=None, lang="js", expect=None, demo=None, files=None, leak=False, tests=True):
    assert clean(), "repo not clean"
    d = os.path.join(VERIF, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    try:
        if prog is not None:
            body = "(package vp/p0\n :libs\n  (lib coll :path vx/collection)\n  (lib type :path vx/type))\n\n" + prog
            run = RUN[lang].replace("@LEAK@", "true" if leak else "false")
            path = "../out/src"
            proj = ('(project demo\n :version "1"\n :author "d"\n :doc "d"\n :javadomain "com.vxlisp"\n' + LIBS
                    + ' :projects "@REPO@/dist/vxlisp"\n :cmds\n  (cmd gen :code :source :lang :%s :path %s))\n' % (lang, path))
            open(os.path.join(d, "prog.vxlisp"), "w").write(body)
            open(os.path.join(d, "project.vxlisp"), "w").write(proj)
            open(os.path.join(d, "expected"), "w").write(expect)
            demo = HEAD + GEN + run + TAIL
        for name, text in (files or {}).items():
            open(os.path.join(d, name), "w").write(text)
        dp = os.path.join(d, "demo.sh")
        open(dp, "w").write(demo)
        os.chmod(dp, 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh("bash %s" % dp, cwd="/repo", timeout=300)
        if r.returncode != 0:
            print(bid, "DEMO FAILS ON CLEAN TREE", r.returncode, r.stdout[-600:], r.stderr[-600:])
            return False
        for path, old, new in edits:
            f = os.path.join("/repo", path)
            s = open(f).read()
            if s.count(old) != 1:
                print(bid, "edit matches", s.count(old), "times in", path, repr(old[:80]))
                return False
            open(f, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        r = sh("bash %s" % dp, cwd="/repo", timeout=300)
        if r.returncode == 0:
            print(bid, "DEMO PASSES WITH THE BUG")
            return False
        print(bid, "demo:", r.stdout[-200:].replace("\n", " / "))
        if tests:
            r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/mk.json")
            import json as j
            r2 = sh("python3 %s/tools/cmp_tests.py /tmp/mk.json" % VERIF)
            print(bid, "tests:", r.stdout.strip().split("\n")[-1], r2.stdout.strip())
        r = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 checks/run.py %s" % (VERIF, prop), timeout=900)
        last = [l for l in r.stdout.split("\n") if l.startswith(("VIOLATION", "OK", "ERROR"))]
        first = [l for l in r.stdout.split("\n") if l.startswith("#")][:2]
        print(bid, "check:", r.returncode, last, first[:1] and first[0][:300])
        return r.returncode == 1
    finally:
        sh("git -C /repo checkout -- .")
