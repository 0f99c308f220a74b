"""C01: time grid, checked after every operation of a random history."""
import numpy as np
from common import need, need_close

RULE = "histories of up to 8 set operations (slot count 1-12, total time, explicit durations as list or array, evaluation of reads in any order) on dynamics of the three kinds"


def make(kind):
    import qutip_qtrl.optimconfig as oc
    import qutip_qtrl.dynamics as dynamics
    cfg = oc.OptimConfig()
    return {"gen": dynamics.DynamicsGenMat, "unit": dynamics.DynamicsUnitary, "sympl": dynamics.DynamicsSymplectic}[kind](cfg)


def corner():
    yield {"kind": "gen", "ops": [["read"]]}
    yield {"kind": "gen", "ops": [["n", 5], ["read"]]}
    yield {"kind": "unit", "ops": [["T", 3.5], ["read"]]}
    yield {"kind": "gen", "ops": [["tau", [0.1, 0.4, 0.2], "list"], ["n", 5], ["T", 2.0], ["tau", [1.0], "array"]]}
    yield {"kind": "sympl", "ops": [["n", 1], ["T", 0.5], ["read"], ["n", 4], ["tau", [0.3, 0.3, 0.9, 0.1, 0.2], "array"], ["T", 7]]}
    yield {"kind": "gen", "ops": [["n", 4], ["T", 2], ["init"], ["T", 3], ["n", 7], ["tau", [1, 2, 3], "list"], ["init"]]}
    yield {"kind": "gen", "ops": [["tau", [0.5, 0.25, 0.125, 2.0, 0.1, 0.7], "array"], ["init"], ["T", 1.0]]}
    yield {"kind": "gen", "ops": [["attr_tau", [0.5, 0.25, 0.125]], ["init"], ["read"]]}


def gen(rng):
    ops = []
    for _ in range(rng.randint(1, 8)):
        k = rng.choice(["n", "T", "tau", "init", "read"])
        if k == "n":
            ops.append(["n", rng.randint(1, 12)])
        elif k == "T":
            ops.append(["T", rng.choice([rng.uniform(0.01, 20), rng.randint(1, 9)])])
        elif k == "tau":
            ops.append(["tau", [rng.uniform(0.01, 3) for _ in range(rng.randint(1, 9))], rng.choice(["list", "array"])])
        else:
            ops.append([k])
    return {"kind": rng.choice(["gen", "unit", "sympl"]), "ops": ops}


def run(case):
    d = make(case["kind"])
    n, T, tau = None, None, None         # the requested grid
    inited = False
    for op in case["ops"]:
        given = None
        if op[0] == "n":
            n = op[1]
            if inited:
                tau = None
            d.num_tslots = op[1]
        elif op[0] == "T":
            T = op[1]
            if inited:
                tau = None
            d.evo_time = op[1]
        elif op[0] == "tau":
            given = op[1] if op[2] == "list" else np.array(op[1])
            keep = np.array(op[1], dtype=float)
            d.tau = given
            tau, n, T, inited = keep, len(keep), float(keep.sum()), True
            need_close(np.asarray(given, dtype=float), keep, "argument changed", "the durations given", 0)
        elif op[0] == "attr_tau":
            d._tau = np.array(op[1])
            tau, n, T = np.array(op[1]), len(op[1]), float(sum(op[1]))
        elif op[0] == "init":
            d.init_timeslots()
            inited = True
        elif op[0] == "read":
            d.num_tslots
            inited = True
        if not inited:
            continue
        gn, gT, gt, gtime = d.num_tslots, d.evo_time, np.asarray(d.tau, dtype=float), np.asarray(d.time, dtype=float)
        what = "after %s:" % op
        need(len(gt) == gn, "slot count", "%s %d durations, %d slots" % (what, len(gt), gn))
        need(len(gtime) == gn + 1, "boundary count", "%s %d boundaries, %d slots" % (what, len(gtime), gn))
        need(gtime[0] == 0, "start", "%s starts at %r" % (what, gtime[0]))
        need_close(np.diff(gtime), gt, "boundaries", what + " boundary differences", 1e-6)
        need_close(gtime[-1], gT, "total time", what + " last boundary", 1e-6)
        if n is not None:
            need(gn == n, "requested slots", "%s got %d slots, requested %d" % (what, gn, n))
        if T is not None:
            need_close(gT, T, "requested time", what + " total time", 1e-6)
        if tau is not None:
            need_close(gt, tau, "requested durations", what + " durations", 1e-12)
        else:
            need_close(gt, np.full(gn, gT / gn), "equal durations", what + " durations", 1e-6)
    return []
