"""Runs TLC on a module of /verif/spec and reads what it emitted."""
import json
import os
import re
import time

import vxlib

SPEC = os.path.join(vxlib.VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Result:
    def __init__(self):
        self.states = 0        # states TLC generated
        self.distinct = 0      # distinct states (exhaustive runs)
        self.traces = []       # emitted programs / histories
        self.wall = 0.0
        self.exhaustive = False


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    raise ValueError(v)


def run(work, module, constants, invariants=(), properties=(), simulate=None, depth=None, seed=None,
        outconst="OutFile", name=None, timeout=800, workers=1, init="Init", nxt="Next", constraints=(), spec=None,
        postcondition=None, deadlock=False, expect_violation=False, heap="3g"):
    """simulate: number of behaviours (None = exhaustive search)."""
    name = name or module
    d = os.path.join(work, "tlc-" + name)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "out.csv")
    if os.path.exists(out):
        os.remove(out)
    consts = dict(constants)
    if outconst:
        consts[outconst] = out
    cfg = os.path.join(d, name + ".cfg")
    lines = ["SPECIFICATION " + spec] if spec else ["INIT " + init, "NEXT " + nxt]
    lines.append("CONSTANTS")
    lines += ["  %s = %s" % (k, tla(v)) for k, v in consts.items()]
    lines += ["INVARIANT " + i for i in invariants]
    lines += ["PROPERTY " + p for p in properties]
    lines += ["CONSTRAINT " + c for c in constraints]
    if postcondition:
        lines.append("POSTCONDITION " + postcondition)
    with open(cfg, "w") as f:
        f.write("\n".join(lines) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-config", cfg, "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers), "-noGenerateSpecTE"]
    if not deadlock:
        cmd += ["-deadlock"]
    if simulate is not None:
        cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += ["-seed", str(seed or 0)]
    cmd.append(os.path.join(SPEC, module + ".tla"))
    t = time.time()
    rc, o, e = vxlib.run(cmd, cwd=d, timeout=timeout)
    r = Result()
    r.wall = time.time() - t
    r.out = o + e
    r.rc = rc
    if rc != 0 and not (expect_violation and rc in (12, 13)):
        raise vxlib.CheckError("TLC failed on %s (exit %d):\n%s" % (module, rc, (o + e)[-3000:]))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
        r.exhaustive = True
    m = re.findall(r"The number of states generated: (\d+)", o)
    if m:
        r.states = r.distinct = int(m[-1])
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                line = line.rstrip("\n")
                if line:
                    r.traces.append(json.loads(json.loads(line)))
    return r
