"""C04: propagators and exact gradients of every applicable method."""
import numpy as np
from common import need, need_close
from prob import Prob, rand_case, arr, PROPS

RULE = ("random, degenerate and nearly degenerate generators (spectra equal up to 1e-6 .. 1e-12), all propagator methods, sparse and dense decomposition, "
        "cached and uncached generators and adjoints, both operator types; compared with block-matrix exponentials")


def corner():
    i = 0
    for dyn in ("UNIT", "GEN_MAT", "SYMPL"):
        for prop in PROPS[dyn]:
            for od in ("qobj", "nd"):
                for spec in (("rand", "degen", "near") if dyn == "UNIT" else ("rand",)):
                    i += 1
                    yield {"kind": "prop", "dyn": dyn, "seed": i, "N": 4 if i % 2 else 2, "m": 2, "n": 2, "tdd": False, "tdc": False, "od": od, "prop": prop,
                           "tau": "var", "spec": spec, "amp": 0.0 if spec == "degen" and i % 3 == 0 else 1.0, "memopt": None, "cphase": None, "state": False,
                           "fid": "UNIT" if dyn == "UNIT" else "TDAPPROX", "popt": "PSU", "dynp": {}}


def gen(rng):
    c = rand_case(rng)
    c["kind"] = "prop"
    c["dynp"] = {}
    if c["dyn"] == "UNIT" and c["prop"] in ("DIAG", "DEF"):
        if rng.random() < 0.4:
            c["dynp"]["sparse_eigen_decomp"] = True
            c["od"] = "qobj"
            c["N"] = max(3, c["N"])
        if rng.random() < 0.4:
            c["dynp"]["cache_dyn_gen_eigenvectors_adj"] = rng.random() < 0.5
    if rng.random() < 0.3:
        c["dynp"]["cache_prop_grad"] = rng.random() < 0.5
    if rng.random() < 0.2:
        c["amp"] = 0.0
    return c


def run(case):
    p = Prob(case)
    d = p.dynamics()
    amps = p.amps
    exact = d.prop_computer.grad_exact
    tol = 1e-5 if case["spec"] == "near" else 1e-6
    for rep in range(2):
        if rep:
            amps = p.rand_amps()
            d.update_ctrl_amps(amps.copy())
        d.compute_evolution()
        for k in range(p.n):
            need_close(arr(d.prop[k]), p.P(k, amps), "propagator", "slot %d" % k, tol)
            need(d.prop[k].dims == p.dims, "propagator dims")
            for j in range(p.m):
                if exact:
                    g = d._get_prop_grad(k, j)
                    need_close(arr(g), p.dP(k, j, amps), "propagator gradient", "slot %d control %d" % (k, j), tol)
                    pg = d.prop_grad
                    if pg is not None:
                        need_close(arr(pg[k, j]), p.dP(k, j, amps), "propagator gradient accessor", "slot %d control %d" % (k, j), tol)
                else:
                    e = 0.01
                    a2 = amps.copy()
                    a2[k, j] += e
                    need_close(arr(d.prop_computer._compute_diff_prop(k, j, e)), p.P(k, a2), "offset propagator", "slot %d control %d" % (k, j), tol)
    return []
