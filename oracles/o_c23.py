"""C23: malformed operator containers are rejected, valid ones used as given."""
import copy
import numpy as np
from common import Fail, Skip, need, need_close
from prob import Prob, arr

RULE = ("valid problems (constant / time dependent drift and controls as lists, tuples, arrays) and single defects planted at random places: wrong element "
        "types, ragged or wrong-length containers, wrong array dimensions, non-quantum-object initial / target / drift / controls; through "
        "create_pulse_optimizer and through Dynamics attributes")
DEFECTS = ["none", "drift_type", "drift_elem", "drift_len", "drift_empty", "ctrl_type", "ctrl_elem", "ctrl_ragged", "ctrl_len", "ctrl_1d", "ctrl_3d",
           "initial", "target"]
BAD = ["ndarray", "None", "str", "int", "list"]


def corner():
    i = 0
    for via in ("create", "attrs"):
        for de in DEFECTS:
            for b in BAD:
                for pos in (0, 1, 2):
                    i += 1
                    yield base(i, via, de, b, pos, i % 3)


def base(seed, via, de, bad, pos, form):
    return {"kind": "cont", "dyn": ["GEN_MAT", "UNIT"][seed % 2], "seed": seed, "N": 2, "m": 3, "n": 3, "tdd": de.startswith("drift_e") or de == "drift_len" or seed % 5 == 0,
            "tdc": ["list", "array", "tuple"][form] if de in ("ctrl_elem", "ctrl_ragged", "ctrl_len") and seed % 4 else False, "od": ["qobj", "nd", None][form],
            "prop": "DEF", "tau": "var", "spec": "rand", "amp": 1.0, "memopt": None, "cphase": None, "state": False, "fid": "DEF", "popt": None,
            "via": via, "defect": de, "bad": bad, "pos": pos, "form": form}


def gen(rng):
    c = base(rng.randrange(10**6), rng.choice(["create", "attrs"]), rng.choice(DEFECTS), rng.choice(BAD), rng.randrange(3), rng.randrange(3))
    c["n"], c["m"] = rng.randint(1, 4), rng.randint(1, 4)
    return c


def bad(p, b):
    return {"ndarray": np.array(p.C[0][0]), "None": None, "str": "sigmax", "int": 1, "list": [1, 2]}[b]


def run(case):
    form, de = case["form"], case["defect"]
    case = dict(case)
    if case["tdc"] == "tuple":
        case["tdc"] = "list"
        tup = True
    else:
        tup = False
    p = Prob(case)
    D, C = p.qD, p.qC
    pos = case["pos"]
    if case["tdd"]:
        D = list(D)
    want = True
    b = bad(p, case["bad"])
    if de == "drift_type":
        if case["bad"] == "list":
            b = [b]
        D, want = b, False
    elif de == "drift_elem":
        if not case["tdd"]:
            raise Skip()
        D[pos % len(D)], want = b, False
    elif de == "drift_len":
        if not case["tdd"]:
            raise Skip()
        D = D + [D[0]] if pos else D[:-1]
        want = False
    elif de == "drift_empty":
        D, want = ([], ())[pos % 2], False
    elif de == "ctrl_type":
        if case["bad"] == "list":
            b = p.qC[0] if not case["tdc"] else 3.5       # a single quantum object is no container
        C, want = b, False
    elif de == "ctrl_elem":
        if case["tdc"] == "array":
            C = C.copy()
            C[pos % p.n, (pos + 1) % p.m] = b
        elif case["tdc"]:
            C = [list(r) for r in C]
            C[pos % p.n][(pos + 1) % p.m] = b
        else:
            C = list(C)
            if len(C) == 1 and case["bad"] == "list":
                raise Skip()
            C[pos % p.m] = b
        want = False
    elif de == "ctrl_ragged":
        if case["tdc"] != "list" or p.n < 2:
            raise Skip()
        C = [list(r) for r in C]
        if pos:
            C[1 + pos % (p.n - 1)].append(C[0][0])
        elif p.m > 1:
            C[-1] = C[-1][:-1]
        else:
            raise Skip()
        want = False
    elif de == "ctrl_len":
        if not case["tdc"]:
            raise Skip()
        C = list(C)
        C = C + [C[0]] if pos or p.n == 1 else C[:-1]
        if case["tdc"] == "array":
            a = np.empty((len(C), p.m), dtype=object)
            for k in range(len(C)):
                for j in range(p.m):
                    a[k, j] = C[k][j]
            C = a
        want = False
    elif de in ("ctrl_1d", "ctrl_3d"):
        shp = (p.m,) if de == "ctrl_1d" else (p.n, p.m, 1)
        a = np.empty(shp, dtype=object)
        for ix in np.ndindex(shp):
            a[ix] = p.qC[0] if not case["tdc"] else p.qC[0][0]
        C, want = a, False
    if tup and isinstance(C, list) and C and isinstance(C[0], list):
        C = tuple(tuple(r) for r in C)
    X0, XT = p.qX0, p.qXT
    if de == "initial":
        X0, want = b, False
    if de == "target":
        XT, want = b, False
    p.qD, p.qC, p.qX0, p.qXT = D, C, X0, XT
    ccopy = [[x for x in r] for r in C] if case["tdc"] and want else None
    d = None
    err = None
    try:
        if case["via"] == "create":
            d = p.optim().dynamics
        else:
            import qutip_qtrl.dynamics as dyns
            import qutip_qtrl.optimconfig as oc
            from qutip import Qobj
            d = (dyns.DynamicsUnitary if case["dyn"] == "UNIT" else dyns.DynamicsGenMat)(oc.OptimConfig())
            if case["od"]:
                d.oper_dtype = Qobj if case["od"] == "qobj" else np.ndarray
            d.drift_dyn_gen, d.ctrl_dyn_gen, d.initial, d.target = D, C, X0, XT
            d.tau = p.tau
        d.initialize_controls(p.amps.copy())
    except (TypeError, ValueError) as e:
        err = e
    except Exception as e:
        if want:
            raise
        raise Fail("wrong exception for %s" % de, "%s: %s" % (type(e).__name__, e))
    if not want:
        need(err is not None, "accepted: %s" % de, "defect %s (%s) at %d via %s was accepted" % (de, case["bad"], pos, case["via"]))
        return []
    need(err is None, "rejected valid containers", "%s" % err)
    for k in range(p.n):
        d.compute_evolution()
        need_close(arr(d.dyn_gen[k]), p.gen(k, p.amps), "operators used as given", "slot %d" % k)
    if ccopy:
        for k in range(p.n):
            for j in range(p.m):
                need(C[k][j] is ccopy[k][j], "container changed", "slot %d control %d" % (k, j))
    return []
