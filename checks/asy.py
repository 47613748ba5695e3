"""Check decided with VxAsync: functions whose results are awaited."""
import os

import vxlib

INVS = ["SameInv", "OnceInv", "EndInv", "LiveInv", "Emit"]
PKGS = {1: "vp/low", 2: "vp/top"}
WORLD = ["slow-up", "slow-down", "ready", "slow-text"]
CPPASYNC = ("vp_world::vx_tick(1); long ms = %s; vx_core::vx_reserve(%s); "
            "vx_core::vx_Type_future future = new std::future<vx_core::Type_any>(std::async(std::launch::async, "
            "[%s, ms]() {std::this_thread::sleep_for(std::chrono::milliseconds(ms)); return (vx_core::Type_any)%s;})); "
            "output = vx_core::vx_async_new_from_future(vx_core::t_%s, future);")


def slow(name, typ, var, js, java, cpp):
    return ("(func %s : %s\n [%s : %s]\n :async\n (native\n  :js \"vp_world.vx_later(%s, %s)\"\n"
            "  :java \"output = World.vx_later(%s, %s);\"\n  :cpp \"%s\"))\n\n" % (
                name, typ, var, typ, var, js, var, java, CPPASYNC % (cpp, var, var, var, typ)))


# The outside world: calls that end after a while and that count how often they are made.
OUTSIDE = "(package vp/world\n :libs\n  (lib cppthread)\n  (lib javafuture))\n\n" + \
    slow("slow-up", "int", "n", "Math.abs(n) % 4 * 3", "Math.abs(n.vx_int()) % 4 * 3", "std::abs(n->vx_int()) % 4 * 3") + \
    slow("slow-down", "int", "n", "9 - Math.abs(n) % 4 * 3", "9 - Math.abs(n.vx_int()) % 4 * 3", "9 - std::abs(n->vx_int()) % 4 * 3") + \
    slow("slow-text", "string", "s", "s.length % 3 * 3", "s.vx_string().length() % 3 * 3", "s->vx_string().length() % 3 * 3") + \
    ("(func ready : int\n [n : int]\n :async\n (native\n  :js \"vp_world.vx_now(n)\"\n  :java \"output = World.vx_now(n);\"\n"
     "  :cpp \"vp_world::vx_tick(1); output = vx_core::vx_async_new_from_value(n);\"))\n\n") + \
    ("(func ticks : int\n []\n (native\n  :js \"vp_world.vx_ticks()\"\n  :java \"output = Core.vx_new_int(World.vx_ticks());\"\n"
     "  :cpp \"output = vx_core::vx_new_int(vp_world::vx_tick(0));\"))\n\n")
NATIVES = {
    "vp/world_js.txt": "  static vx_count = 0\n\n  static vx_now(val) {\n    vp_world.vx_count++\n    return Promise.resolve(val)\n  }\n\n"
                       "  static vx_later(val, ms) {\n    vp_world.vx_count++\n    return new Promise((res) => setTimeout(() => res(val), ms))\n  }\n\n"
                       "  static vx_ticks() {\n    const output = vp_world.vx_count\n    vp_world.vx_count = 0\n    return output\n  }\n",
    "vp/world_java.txt": "  private static final java.util.concurrent.atomic.AtomicInteger vx_count = new java.util.concurrent.atomic.AtomicInteger();\n\n"
                         "  public static <T> CompletableFuture<T> vx_now(T val) {\n    vx_count.incrementAndGet();\n    return CompletableFuture.completedFuture(val);\n  }\n\n"
                         "  public static <T> CompletableFuture<T> vx_later(T val, int ms) {\n    vx_count.incrementAndGet();\n    return CompletableFuture.supplyAsync(() -> {\n"
                         "      try { Thread.sleep(ms); } catch (InterruptedException e) { }\n      return val;\n    });\n  }\n\n"
                         "  public static int vx_ticks() {\n    return vx_count.getAndSet(0);\n  }\n",
    "vp/world_cpp.txt": "// :headerfirst\n// :headertype\n// :headerfunc\n// :header\n\n"
                        "  // counts a call, or tells the number of calls and starts again\n  int vx_tick(int n);\n\n// :body\n\n"
                        "  int vx_tick(int n) {\n    static std::atomic<int> count = 0;\n    if (n == 0) {\n      return count.exchange(0);\n    }\n    count += n;\n    return 0;\n  }\n",
}


def text(s):
    return '"' + s.replace('"', '\\"') + '"'


class Writer:
    def __init__(self, tag, funcs):
        self.tag, self.funcs, self.fns = tag, funcs, 0

    def name(self, n, p, here):
        return ("" if p == here else "low/") + "%s-%s" % (n, self.tag)

    def callee(self, c, here):
        if c <= len(WORLD):
            return "world/" + WORLD[c - 1]
        f = self.funcs[c - len(WORLD) - 1]
        return self.name(f["n"], f["p"], here)

    def ex(self, e, h):
        k, a = e["k"], [self.ex(x, h) for x in e["as"]]
        if k == "int":
            return str(e["n"])
        if k == "str":
            return text(e["x"])
        if k == "var":
            return e["x"]
        if k == "op":
            return "(%s %s %s)" % (e["x"], a[0], a[1])
        if k == "cat":
            return "(string %s %s)" % (a[0], a[1])
        if k == "text":
            return "(string<-any %s)" % a[0]
        if k == "at":
            return "(:%d %s)" % (e["n"], a[0])
        if k == "len":
            return "(length %s)" % a[0]
        if k == "list":
            return "(intlist%s)" % "".join(" " + x for x in a)
        if k == "if":
            return "(if : %s\n (then (%s %s %s) %s)\n (else %s))" % (e["ty"], e["x"], a[0], a[1], a[2], a[3])
        if k == "map":
            self.fns += 1
            return "(list<-list : intlist %s (fn : int [item%d : int] (+ item%d %s)))" % (a[0], self.fns, self.fns, a[1])
        if k == "let":
            return "(let : %s\n [%s : %s := %s]\n %s)" % (e["ty"], e["x"], e["as"][0]["ty"], a[0], a[1])
        if k == "plain":
            f = self.funcs[e["n"] - 1]
            return "(%s %s)" % (self.name(f["n"], f["p"], h), " ".join(a))
        raise ValueError(k)

    def awaited(self, f):
        h = f["p"]
        if f["each"]:
            return "(list<-list-async : intlist %s %s)" % (self.ex(f["lst"], h), self.callee(f["callee"], h))
        c = f["callee"]
        as_ = f["as"]
        if c > len(WORLD) and self.funcs[c - len(WORLD) - 1]["va"]:
            as_ = as_[:-1] + as_[-1]["as"]
        return "(%s%s)" % (self.callee(c, h), "".join(" " + self.ex(x, h) for x in as_))

    def given(self, f):
        if f["each"]:
            return "intlist"
        c = f["callee"]
        return ["int", "int", "int", "string"][c - 1] if c <= len(WORLD) else self.funcs[c - len(WORLD) - 1]["ty"]

    def func(self, f):
        h = f["p"]
        head = "(func %s : %s\n [%s]\n" % (self.name(f["n"], h, h), f["ty"], "\n  ".join("%s : %s%s" % (q["x"], q["ty"], " :..." if q["x"] == "rest" else "") for q in f["ps"]))
        if f["ctx"]:
            head += " :context\n"
        if f["shape"] == "plain":
            return head + " %s)\n\n" % self.ex(f["body"], h)
        if f["shape"] == "direct":
            return head + " :async\n %s)\n\n" % self.awaited(f)
        bs = ["%s : %s := %s" % (b["x"], b["ty"], self.ex(b["e"], h)) for b in f["pre"]]
        bs.append("x : %s := %s" % (self.given(f), self.awaited(f)))
        bs += ["%s : %s := %s" % (b["x"], b["ty"], self.ex(b["e"], h)) for b in f["post"]]
        return head + " :async\n (let : %s\n  [%s]\n  %s))\n\n" % (f["ty"], "\n   ".join(bs), self.ex(f["body"], h))

    def main(self, name, m):
        f = self.funcs[m["f"] - 1]
        show = {"int": "(string<-any got)", "string": "got", "intlist": "(string<-any got)"}[f["ty"]]
        args = [a for x in m["as"] for a in (x if isinstance(x, list) else [x])]
        return "(func %s : string\n []\n :async\n :context\n (let : string\n  [got : %s := (%s%s)]\n  (string %s \"|\" (string<-any (world/ticks)))))\n\n" % (
            name, f["ty"], self.name(f["n"], f["p"], 2), "".join(" " + (text(a) if isinstance(a, str) else str(a)) for a in args), show)


def shown(v):
    if isinstance(v, list):
        return "(intlist" + "".join("\n " + str(x) for x in v) + ")"
    return str(v)


def drive(ctx, progs):
    b = vxlib.Bundle(vxlib.newwork("asy"))
    out = {1: [], 2: []}
    cases = {}
    for k, p in enumerate(progs):
        w = Writer("t%d" % k, p["funcs"])
        own = {1: [], 2: []}
        for f in p["funcs"]:
            own[f["p"]].append(w.func(f))
        for q in own:
            out[q] += own[q]
        for j, m in enumerate(p["mains"]):
            name = "go-t%d-%d" % (k, j)
            t = w.main(name, m)
            out[2].append(t)
            cases[name] = ("%s|%d" % (shown(m["want"]), m["ticks"]), "; %s\n%s; %s\n%s%s" % (PKGS[1], "".join(own[1]), PKGS[2], "".join(own[2]), t))
            b.add_test(name, PKGS[2], name.replace("-", "_"), context=True, **{"async": True})
    b.add_package("vp/world", OUTSIDE)
    b.natives = NATIVES
    libs = "  (lib javafuture)\n  (lib world :path vp/world)\n"
    b.add_package(PKGS[1], vxlib.package_text(PKGS[1], "".join(out[1]), libs))
    b.add_package(PKGS[2], vxlib.package_text(PKGS[2], "".join(out[2]), libs + "  (lib low :path vp/low)\n"))
    try:
        rc, o, e = b.generate()
        if rc != 0 or "Error" in o + e:
            ctx.fail("[compiler] valid programs are rejected:\n" + (o + e)[:1500], "".join(out[1] + out[2]))
            return
        try:
            res = b.run_all()
        except vxlib.BuildFail as f:
            ctx.fail("[%s] generated code does not compile:\n%s" % (f.lang, f.log[:1500]), "".join(out[1] + out[2]))
            return
    finally:
        if not os.environ.get("VERIF_KEEP"):
            vxlib.rmwork(b.work)
    for name, (want, src) in cases.items():
        for lang in b.langs:
            r = res[lang].get(name, {"x": "no result"})
            if r.get("x") == "not run":
                continue
            got = r.get("r", "%s %s" % (r.get("x"), r.get("why", "")))
            if got != want:
                ctx.fail("[%s] %s gives %r where %r is due (value|calls of the outside world)" % (lang, name, got[:300], want), src)
    ctx.extra["calls"] = ctx.extra.get("calls", 0) + len(cases)


# Recorded findings that keep the generated code from compiling: each has a compilation of its own.
ALONE = [
    ("F17", "(let : string\n  [a : int := (world/slow-up 2)\n   b : int := (world/slow-up 3)]\n  (string<-any (+ a b)))", "", "5"),
    ("F18", "(let : string\n  [a : string := \"x\"]\n  (world/slow-text a))", "", "x"),
    ("F19", "(let : string\n  [a : int := (probe-kept 4)]\n  (string<-any a))", "(func probe-kept : int\n [a : int]\n :async\n (+ a 1))\n\n", "5"),
    ("F20", "(let : string\n  [a : intlist := (list<-list-async : intlist (intlist 1 2) (fn : int [i : int] (world/slow-up i)))]\n  (string<-any a))", "", "(intlist\n 1\n 2)"),
]


def alone(ctx, fid, body, decl, want):
    b = vxlib.Bundle(vxlib.newwork("alone"), ("java",))
    b.add_package("vp/world", OUTSIDE)
    b.natives = NATIVES
    b.add_package("vp/top", vxlib.package_text("vp/top", decl + "(func go : string\n []\n :async\n %s)\n\n" % body, "  (lib javafuture)\n  (lib world :path vp/world)\n"))
    b.add_test("go", "vp/top", "go", **{"async": True})
    try:
        rc, o, e = b.generate()
        if "Error" in o + e:
            what = "is rejected"
        else:
            r = b.run_java()["go"]
            if r.get("r") == want:
                return
            what = "gives %s" % r
    except vxlib.BuildFail as f:
        what = "does not compile: " + f.log.split("error: ")[-1].split("\n")[0]
    finally:
        vxlib.rmwork(b.work)
    ctx.finding(fid, True, "[java] %s %s" % (" ".join((decl + body).split()), what))


def awaits(ctx):
    """P19: awaited results."""
    ctx.tlc("VxAsync", {"Mode": "fixed", "NFunc": 2, "NMain": 1}, INVS[:4], name="orders", workers=4)
    n = 30 if ctx.quick else 160
    progs = ctx.tlc("VxAsync", {"Mode": "drawn", "NFunc": 12, "NMain": 8}, INVS, name="programs", simulate=n, depth=600, seed=ctx.seed).traces
    if len(progs) < n // 2:
        raise vxlib.CheckError("specification emitted only %d of %d programs" % (len(progs), n))
    for i in range(0, len(progs), 40):
        if i and (ctx.bad or ctx.left(600) < 60):
            break
        drive(ctx, progs[i:i + 40])
        ctx.traces += len(progs[i:i + 40])
    if not ctx.quick:
        for fid, body, decl, want in ALONE:
            alone(ctx, fid, body, decl, want)
    ctx.sample({"program": progs[0]["mains"][0]})


CHECKS = {"P19": awaits}
