"""C06: gradient of the fidelity error."""
import numpy as np
from common import need, need_close
from prob import Prob, rand_case

RULE = ("random problems for every fidelity measure, propagator method and dynamics type; gradients compared entry by entry with the derivative from "
        "block-matrix exponentials (finite difference quotient for TDAPPROX), gradient norm with the root of the sum of squares; re-read after changes")


def corner():
    i = 0
    for od in ("qobj", "nd"):
        for dyn, fid, prop in (("UNIT", "UNIT", "DIAG"), ("UNIT", "UNIT", "FRECHET"), ("UNIT", "TRACEDIFF", "AUG_MAT"), ("GEN_MAT", "TRACEDIFF", "DEF"),
                               ("SYMPL", "TRACEDIFF", "DEF"), ("GEN_MAT", "TDAPPROX", "APPROX"), ("UNIT", "TDAPPROX", "APPROX")):
            for popt in (("PSU", "SU") if fid == "UNIT" else (None,)):
                for n, m in ((1, 1), (2, 3), (4, 2)):
                    i += 1
                    yield {"kind": "grad", "dyn": dyn, "seed": i, "N": 2, "m": m, "n": n, "tdd": False, "tdc": False, "od": od, "prop": prop,
                           "tau": "var", "spec": "rand", "amp": 1.0, "memopt": 1 if i % 3 == 0 and od == "qobj" else None, "cphase": None,
                           "state": dyn != "SYMPL" and i % 2 == 0, "fid": fid, "popt": popt}


def gen(rng):
    c = rand_case(rng)
    c["kind"] = "grad"
    if c["prop"] == "APPROX":
        c["fid"] = "TDAPPROX"
    if rng.random() < 0.2:
        c["dynp"] = {"cache_prop_grad": rng.random() < 0.5}
    return c


def run(case):
    p = Prob(case)
    kw = {}
    if p.fidkind() == "TDAPPROX":
        kw["fid_params"] = {"epsilon": 0.001}
    d = p.dynamics(**kw)
    fc = d.fid_computer
    for rep in range(2):
        amps = p.amps if rep == 0 else p.rand_amps()
        if rep:
            d.update_ctrl_amps(amps.copy())
        want = p.fid_err_grad(amps)
        g = np.asarray(fc.get_fid_err_gradient())
        need(g.shape == (p.n, p.m), "layout", "%s for %d slots, %d controls" % (g.shape, p.n, p.m))
        need_close(g, want, "gradient", "", 1e-5 if p.fidkind() != "TDAPPROX" else 1e-4)
        need_close(fc.grad_norm, np.sqrt(np.sum(g ** 2)), "gradient norm", "", 1e-9)
    return []
