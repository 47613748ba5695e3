"""Checks decided with VxMachine: the value of every expression and program, on every target."""
import json
import random

import machine
import vxlib

INVS = ["TypeInv", "OrderInv", "Emit"]
WIDTH = 8          # one-step expressions in one test function


def table(ctx, groups, langs=("js", "java", "cpp"), preamble=None):
    """Every operation of the groups on every tuple of literals."""
    r = ctx.tlc("VxMachine", {"Groups": set(groups), "Depth": 1, "Random": False}, INVS,
                properties=["Immutable"])
    if len(r.traces) < 50:
        raise vxlib.CheckError("specification emitted only %d expressions" % len(r.traces))
    return r.traces


def sim(ctx, groups, n, depth=10, seed=None):
    r = ctx.tlc("VxMachine", {"Groups": set(groups), "Depth": depth, "Random": True}, INVS,
                simulate=n, depth=2 * depth, seed=ctx.seed if seed is None else seed)
    return r.traces


def report(ctx, R, bad):
    for c, lang, what in bad:
        if "probe" in c:
            ctx.finding(c["probe"], True, "[%s] %s" % (lang, what))
            continue
        ctx.fail("[%s] %s" % (lang, what), "target: %s\nshape: %s\n%s\nexpected: %r" % (lang, c["style"], c["text"], c["exp"]))


def go(ctx, R):
    bad = R.run()
    ctx.traces += sum(len(c.get("shown", [1])) for c in R.cases)
    report(ctx, R, bad)
    return bad


HEIR = "(type probebase : struct\n :properties\n  [rank : int])\n\n(type probeheir : struct\n :traits [probebase]\n :properties\n  [extra : string])\n\n"
# Recorded findings: expression, what it should print, declarations it needs.
PROBES = {
    "P12": [("F01", "(coll/- : intlist (intlist 0 5) (intlist))", "(intlist\n 0\n 5)")],
    "P17": [("F02", "(anymap :b (anylist 1 2) :c 3)", "(anymap\n :b\n  (anylist\n   1\n   2)\n :c 3)"),
            ("F03", "(probeheir :rank 3 :extra \"e\")", "(vp/p0/probeheir\n :rank 3\n :extra \"e\")", HEIR)],
    "P18": [("F04", "(= (probeheir :rank 1) (probeheir :rank 2))", "false", HEIR)],
}


def add_probes(ctx, R):
    for fid, ex, exp, *decl in PROBES.get(ctx.pid, []):
        name = "probe" + fid.lower()
        R.add_raw(name, 0, "".join(decl) + "(func %s : string\n []\n (string<-any %s))\n\n" % (name, ex), exp,
                  {"binds": [], "style": "probe", "shown": [], "probe": fid})


TINVS = ["TypeInv", "CopyInv", "Emit"]


def typed_shapes(ctx, R, rng):
    """Every small struct shape, made with every subset of its properties and copied with every change."""
    r = ctx.tlc("VxTypes", {"NTypes": 1, "Depth": 2, "Random": False}, TINVS)
    by = {}
    for p in r.traces:
        by.setdefault(json.dumps(p["d"]), []).append(p)
    if len(by) < 20:
        raise vxlib.CheckError("specification emitted only %d shapes" % len(by))
    for k in sorted(by):
        ps = by[k]
        for i in range(0, len(ps), 40):
            R.add_typed_group(ps[i:i + 40], rng)
    ctx.extra["shapes"] = len(by)


def typed_programs(ctx, R, rng, n, seed=None, ntypes=5, depth=14):
    r = ctx.tlc("VxTypes", {"NTypes": ntypes, "Depth": depth, "Random": True}, TINVS, simulate=n, depth=6 * depth,
                seed=ctx.seed if seed is None else seed)
    if len(r.traces) < n // 2:
        raise vxlib.CheckError("specification emitted only %d of %d programs" % (len(r.traces), n))
    for p in r.traces:
        if any(not b["hid"] for b in p["b"]):
            R.add_typed(p, rng.choice(machine.STYLES), rng)
    ctx.extra["programs_with_types"] = ctx.extra.get("programs_with_types", 0) + len(r.traces)


def table_check(groups, nsim=0, simgroups=None, shapes=False, typed=0):
    def fn(ctx):
        rng = random.Random(ctx.seed)
        t = table(ctx, groups)
        rng.shuffle(t)
        R = machine.Replay(ctx.work)
        for i in range(0, len(t), WIDTH):
            R.add_table(t[i:i + WIDTH])
        ctx.extra["expressions"] = len(t)
        k = nsim if ctx.quick else nsim * 10
        if k:
            progs = sim(ctx, simgroups or groups, k)
            for p in progs:
                R.add(p, rng.choice(machine.STYLES), rng)
            ctx.extra["programs"] = len(progs)
        for b in rng.sample(t, 3):
            ctx.sample({"expression": machine.expr(b[0], None), "value": b[0]["v"]})
        if shapes:
            typed_shapes(ctx, R, rng)
        if typed:
            typed_programs(ctx, R, rng, typed, seed=ctx.seed * 100 + int(ctx.pid[1:]))
        add_probes(ctx, R)
        go(ctx, R)
        if not ctx.quick:
            more(ctx, simgroups or groups, 5, 300)
            if typed:
                more_typed(ctx, 6, 150)
    return fn


def more(ctx, groups, rounds, n, depth=14):
    """Further simulated programs in rounds, each with its own seed."""
    for k in range(rounds):
        if ctx.bad or ctx.left(700) < 60:
            return
        rng = random.Random(ctx.seed * 1000 + k)
        R = machine.Replay(vxlib.newwork("more"))
        R.b.compiler = None
        for p in sim(ctx, groups, n, depth, seed=ctx.seed * 1000 + k + 1):
            R.add(p, rng.choice(machine.STYLES), rng)
        try:
            go(ctx, R)
        finally:
            vxlib.rmwork(R.b.work)


def more_typed(ctx, rounds, n):
    for k in range(rounds):
        if ctx.bad or ctx.left(700) < 60:
            return
        rng = random.Random(ctx.seed * 1000 + k)
        R = machine.Replay(vxlib.newwork("more"))
        typed_programs(ctx, R, rng, n, seed=ctx.seed * 7000 + k + int(ctx.pid[1:]), ntypes=6, depth=20)
        try:
            go(ctx, R)
        finally:
            vxlib.rmwork(R.b.work)


ALL = ("arith", "cmp", "text", "list", "map", "struct", "type", "typed", "cond")


def programs(ctx):
    """P09: whole programs, every shape."""
    rng = random.Random(ctx.seed)
    R = machine.Replay(ctx.work)
    typed_programs(ctx, R, rng, 40)
    progs = sim(ctx, ALL, 240)
    for i, p in enumerate(progs):
        R.add(p, machine.STYLES[i % len(machine.STYLES)], rng)
    for p in progs[:2]:
        ctx.sample({"program": [machine.expr(b, lambda j: "v%d" % j) for b in p], "values": [b["v"] for b in p]})
    ctx.extra["programs"] = len(progs)
    go(ctx, R)
    if not ctx.quick:
        more(ctx, ALL, 12, 300)


def strata(t, n):
    """At most n expressions of every operation and kind of arguments."""
    count = {}
    out = []
    for b in t:
        k = (b[0]["h"], tuple(a["t"] or (a["x"] if a["k"] == "f" else a["k"]) for a in b[0]["a"]))
        count[k] = count.get(k, 0) + 1
        if count[k] <= n:
            out.append(b)
    return out


def keeps(ctx):
    """P14: what an operation is given stays as it was."""
    rng = random.Random(ctx.seed)
    t = [b for b in table(ctx, ["list", "map", "struct"]) if any(a["t"] for a in b[0]["a"])]
    t += [b for b in table(ctx, ["typed"]) if any(a["t"] for a in b[0]["a"]) and rng.random() < 0.15]
    R = machine.Replay(ctx.work)
    rng.shuffle(t)
    if ctx.quick:
        t = strata(t, 8)
    for i in range(0, len(t), WIDTH):
        R.add_keep(t[i:i + WIDTH])
    ctx.extra["expressions"] = len(t)
    progs = sim(ctx, ("list", "map", "struct", "typed"), 60 if ctx.quick else 300, 12)
    for p in progs:
        R.add(p, rng.choice(("let", "nestlet", "params", "wrap")), rng)
    typed_programs(ctx, R, rng, 30)
    ctx.sample({"expression": machine.expr(t[0][0], None), "arguments afterwards": [a["w"] for a in t[0][0]["a"]]})
    go(ctx, R)
    if not ctx.quick:
        more(ctx, ("list", "map", "struct", "typed"), 8, 300)


def memory(ctx):
    """P23: a finished C++ program has given back every value it made."""
    rng = random.Random(ctx.seed)
    R = machine.Replay(ctx.work, ("cpp",))
    t = []
    for g in ALL + ("print",):
        x = table(ctx, [g])
        rng.shuffle(x)
        t += strata(x, 4 if ctx.quick else 40)
    for i in range(0, len(t), 2):
        R.add_table(t[i:i + 2])
    for i in range(0, len(t), 4):
        if any(a["t"] for a in t[i][0]["a"]):
            R.add_keep(t[i:i + 1])
    for i, p in enumerate(sim(ctx, ALL, 70 if ctx.quick else 400)):
        R.add(p, machine.STYLES[i % len(machine.STYLES)], rng)
    typed_programs(ctx, R, rng, 40)
    ctx.extra["expressions"] = len(t)
    bad = R.run()
    ctx.traces += len(R.cases)
    for c, lang, what in bad:
        if c["id"] in ("compile", "build"):
            report(ctx, R, [(c, lang, what)])
        else:
            ctx.extra["other_disagreements"] = ctx.extra.get("other_disagreements", 0) + 1
    if ctx.bad:
        return
    for c in R.cases:
        r = R.res["cpp"][c["id"]]
        if "x" in r:
            continue
        if r["leak"]:
            ctx.fail("[cpp] %d values are still held after %s" % (r["leak"], "; ".join(
                machine.expr(b, lambda j: "v%d" % j) for b in c["binds"])), c["text"])
    ctx.sample({"program": R.cases[0]["text"], "held_after": R.res["cpp"][R.cases[0]["id"]].get("leak")})


CHECKS = {
    "P23": memory,
    "P14": keeps,
    "P09": programs,
    "P10": table_check(["arith"], 60),
    "P11": table_check(["text"], 40, ["text", "arith"]),
    "P12": table_check(["list"], 60, ["list", "arith", "text"]),
    "P13": table_check(["map", "struct"], 60, ["map", "struct", "list", "arith"], shapes=True, typed=40),
    "P15": table_check(["typed"], 40, ["typed", "list", "map", "struct"], typed=50),
    "P16": table_check(["type"], 40, ["type", "text", "list", "map", "struct"], typed=50),
    "P17": table_check(["print"], 60, ["print", "list", "map", "struct"], typed=50),
    "P18": table_check(["cmp"], 0),
    "P29": table_check(["cond"], 60, ["cond", "cmp", "arith", "list"]),
}
