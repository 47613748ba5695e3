"""Checks decided with VxCheck: which programs the compiler accepts."""
import collections

import reader
import vxlib

INVS = ["SoundInv", "Emit"]
LIB = """(package vp/lib)

(type pet : struct
 :properties
  [name : string
   age : int])

(type shop : struct
 :properties
  [owner : pet
   stock : stringlist
   open : boolean])

(const far : int 9)

(func up : string [s : string] (string s "!"))

(func flag : boolean [n : int] (> n 3))

(func best : pet [s : shop] (:owner s))
"""
HEAD = """(package vp/one
 :libs
  (lib lib :path vp/lib))

(const seven : int 7)

(const motto : string "on")

(func none : int [] 4)

(func name-of : string [p : lib/pet] (:name p))

(func add2 : int [a : int b : int] (+ a b))

(func greet : string [s : string] (string "hi " s))

(func is-old : boolean [p : lib/pet n : int] (> (:age p) n))

(func sort-of : intlist [l : intlist] l)

(func words : stringlist [s : string n : int] (stringlist s (string<-any n)))

(func make : lib/pet [s : string n : int] (lib/pet :name s :age n))

(func open : lib/shop [p : lib/pet l : stringlist] (lib/shop :owner p :stock l))

(func show : string [x : any] (string<-any x))

(func size : int [n : number] 3)

(func pick3 : string [b : boolean n : int s : string] s)

(func pair : int [a : int b : int] a)

(func pair : string [a : string b : string] b)

(func pair : boolean [a : int b : string] true)

"""
LITS = {"int": "3", "string": '"x"', "boolean": "true", "intlist": "(intlist 1 2)", "stringlist": '(stringlist "a")',
        "pet": '(lib/pet :name "p" :age 2)', "shop": '(lib/shop :owner (lib/pet :name "q"))'}
TYPES = {"pet": "lib/pet", "shop": "lib/shop"}


def typ(t):
    return TYPES.get(t, t)


def render(e):
    k = e["k"]
    if k == "lit":
        return LITS[e["t"]]
    if k == "var":
        return e["n"]
    if k == "call":
        return "(" + " ".join([e["n"]] + [render(x) for x in e["as"]]) + ")"
    if k == "get":
        return "(:%s %s)" % (e["n"], render(e["as"][0]))
    if k == "if":
        return "(if : %s\n (then %s %s)\n (else %s))" % ((typ(e["t"]),) + tuple(render(x) for x in e["as"]))
    if k == "let":
        return "(let : %s\n [%s : %s := %s]\n %s)" % (typ(e["t"]), e["n"], typ(e["bs"][0]), render(e["as"][0]), render(e["as"][1]))
    if k == "thread":
        return "(<- %s %s)" % (render(e["as"][0]), render(e["as"][1]))
    raise vxlib.CheckError("unknown expression " + k)


def func(name, d):
    return "(func %s : %s\n [%s]\n %s)\n\n" % (name, typ(d["rt"]), "\n  ".join("%s : %s" % (p["n"], typ(p["t"])) for p in d["ps"]), render(d["body"]))


class Pair(reader.Shop):
    """Projects of the library package and one package of functions."""

    def extra(self):
        return {"vp/lib.vxlisp": LIB}


def static(ctx):
    """P08: sound programs are accepted, the others rejected."""
    n = 300 if ctx.quick else 2500
    good = ctx.tlc("VxCheck", {"Mode": "sound"}, INVS, name="sound", simulate=n, depth=6, seed=ctx.seed).traces
    bad = ctx.tlc("VxCheck", {"Mode": "damaged"}, INVS, name="damaged", simulate=n * 2, depth=6, seed=ctx.seed).traces
    good += [d for d in bad if d["verdict"] == "good"]
    bad = [d for d in bad if d["verdict"] == "bad"]
    if len(good) < n or len(bad) < n // 2:
        raise vxlib.CheckError("specification emitted only %d sound and %d damaged programs" % (len(good), len(bad)))
    probes = [("F11", "a property of something that has none", '(func probe : string [n : int] (:name n))'),
              ("F12", "the body of a let that has another type than is named there", '(func probe : int [] (let : int [b : int := 3] "x"))'),
              ("F12", "the branch of a conditional that has another type than is named there", '(func probe : int [c : boolean] (if : int (then c "x") (else 3)))'),
              ("F13", "a call with the prefix of no library", '(func probe : string [] (zz/up "x"))'),
              ("F14", "an unknown or ill-typed property given to a struct", '(func probe : lib/pet [] (lib/pet :nosuch 3))'),
              ("F14", "an element of another type given to a list", '(func probe : intlist [] (intlist "a"))')]
    plain = vxlib.project_text(("js",))
    shop = Pair(ctx)
    try:
        jobs = [(plain, HEAD + "".join(func("f%d" % i, d) for i, d in enumerate(good[k:k + 60]))) for k in range(0, len(good), 60)]
        ngood = len(jobs)
        jobs += [(plain, HEAD + func("wrong", d)) for d in bad]
        for (fid, what, text), (out, gen) in zip(probes, shop.each([(plain, HEAD + x[2] + "\n") for x in probes])):
            ctx.finding(fid, gen, "%s is accepted: %s" % (what, text))
        res = shop.each(jobs)
        for k, (out, gen) in enumerate(res[:ngood]):
            if gen and "Error" not in out:
                continue
            part = good[k * 60:k * 60 + 60]
            for d, (o, g) in zip(part, shop.each([(plain, HEAD + func("f0", d)) for d in part])):
                if not g or "Error" in o:
                    ctx.fail("[compiler] a sound function is rejected: " + " ".join(func("f", d).split()), o[:1500])
    finally:
        shop.close()
    for d, (out, gen) in zip(bad, res[ngood:]):
        text = " ".join(func("wrong", d).split())
        if gen:
            ctx.fail("[compiler] a function that makes no sense (%s) is accepted: %s" % (d["what"], text), out[:500])
        elif "Error" not in out:
            ctx.fail("[compiler] a function that makes no sense (%s) is rejected without an error: %s" % (d["what"], text), out[:1500])
        elif "vp/one" not in out:
            ctx.fail("[compiler] the error does not name the package (%s): %s" % (d["what"], text), out[:1500])
    ctx.traces += len(good) + len(bad)
    ctx.extra["sound"] = len(good)
    ctx.extra["damaged"] = dict(collections.Counter(d["what"] for d in bad))
    ctx.sample({"function": func("wrong", bad[0]), "damage": bad[0]["what"], "verdict": "bad"})


CHECKS = {"P08": static}
