"""C02: slot generator, phase, unmodified operators."""
import numpy as np
import scipy.linalg as la
from common import need, need_close
from prob import Prob, rand_case, arr

RULE = ("random drift / control operators (constant and time dependent, list and array containers), dynamics types, storage types, memory and "
        "caching options, phase application side, custom phases; amplitudes changed twice; generators, propagators and control operators compared")


def corner():
    for i, (dyn, od) in enumerate([("UNIT", "qobj"), ("UNIT", "nd"), ("GEN_MAT", "qobj"), ("GEN_MAT", "nd"), ("SYMPL", "qobj"), ("SYMPL", "nd")]):
        for tdd, tdc in ((False, False), (True, "list"), (True, False), (False, "array")):
            for cph in (True, False):
                yield {"kind": "gen", "dyn": dyn, "seed": 11 * i + cph, "N": 2, "m": 2, "n": 3, "tdd": tdd, "tdc": tdc, "od": od, "prop": "DEF",
                       "tau": "var", "spec": "rand", "amp": 1.0, "memopt": None, "cphase": cph, "state": False, "fid": "DEF", "popt": None,
                       "app": "preop" if dyn == "SYMPL" and cph else None, "custom": None}


def gen(rng):
    c = rand_case(rng)
    c["kind"] = "gen"
    c["app"] = rng.choice([None, "preop", "postop"]) if c["dyn"] == "SYMPL" else None
    c["custom"] = rng.choice([None, None, "scalar", "matrix_pre", "matrix_post"]) if c["dyn"] == "GEN_MAT" else None
    return c


def run(case):
    p = Prob(case)
    keepD = [x.full() for x in (p.qD if case["tdd"] else [p.qD])]
    keepC = [[x.full() for x in row] for row in (p.qC if case["tdc"] else [p.qC])]
    dp = {}
    ph = p.ph
    if case.get("app"):
        dp["phase_application"] = case["app"]
        case["phapp"] = case["app"]
    d = p.dynamics(init=False, dyn_params=dp)
    cust = case.get("custom")
    if cust == "scalar":
        d.dyn_gen_phase = 0.3 - 0.8j
        d.phase_application = "preop"
        ph = lambda x: (0.3 - 0.8j) * x
    elif cust:
        from qutip import Qobj
        M = np.array(np.random.default_rng(case["seed"]).normal(size=(p.N, p.N)) + 0j)
        d.dyn_gen_phase = M if case["od"] == "nd" else Qobj(M, dims=p.dims)
        if case["od"] is None:
            d.oper_dtype = Qobj
        d.phase_application = "preop" if cust == "matrix_pre" else "postop"
        ph = (lambda x: M @ x) if cust == "matrix_pre" else (lambda x: x @ M)
    d.initialize_controls(p.amps.copy())
    amps = p.amps
    for rep in range(3):
        if rep:
            amps = p.rand_amps()
            d.update_ctrl_amps(amps.copy())
        d.compute_evolution()
        dg = d.dyn_gen
        need(len(dg) == p.n, "number of generators", "%d != %d" % (len(dg), p.n))
        for k in range(p.n):
            need_close(arr(dg[k]), p.gen(k, amps), "slot generator", "slot %d" % k)
            need_close(arr(d._get_phased_dyn_gen(k)), ph(p.gen(k, amps)), "phased generator", "slot %d" % k)
            need_close(arr(d.prop[k]), la.expm(ph(p.gen(k, amps)) * p.tau[k]), "propagator of phased generator", "slot %d" % k, 1e-6)
            for j in range(p.m):
                need_close(arr(d._get_phased_ctrl_dyn_gen(k, j)), ph(p.ctrl(k, j)), "phased control operator", "slot %d control %d" % (k, j))
        for i, x in enumerate(p.qD if case["tdd"] else [p.qD]):
            need_close(x.full(), keepD[i], "drift operator modified", "drift %d" % i, 0)
        for i, row in enumerate(p.qC if case["tdc"] else [p.qC]):
            for j in range(p.m):
                need_close(row[j].full(), keepC[i][j], "control operator modified", "slot %d control %d" % (i, j), 0)
    return []
