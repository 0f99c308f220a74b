"""C05: fidelity and fidelity error."""
import numpy as np
import scipy.linalg as la
from common import need, need_close
from prob import Prob, rand_case, arr

RULE = ("random problems for every fidelity measure and phase option (operators and states, both operator types); also targets equal to the evolution, "
        "the evolution times a global phase, its negative, and non-unitary (scaled) targets; scale factors set by the caller")


def corner():
    i = 0
    for od in ("qobj", "nd"):
        for popt in ("PSU", "SU"):
            for st in (False, True):
                for tg in ("rand", "same", "phase", "minus", "scaled"):
                    i += 1
                    yield base(i, "UNIT", od, "UNIT", popt, st, tg)
        for dyn in ("GEN_MAT", "SYMPL", "UNIT"):
            for fid in ("TRACEDIFF", "TDAPPROX"):
                for tg in ("rand", "same"):
                    i += 1
                    yield base(i, dyn, od, fid, None, dyn == "GEN_MAT" and i % 2 == 0, tg)


def base(i, dyn, od, fid, popt, st, tg):
    return {"kind": "fid", "dyn": dyn, "seed": i, "N": 2 if i % 2 else 4, "m": 2, "n": 3, "tdd": False, "tdc": False, "od": od,
            "prop": "DEF" if fid != "TDAPPROX" else "APPROX", "tau": "var", "spec": "rand", "amp": 1.0, "memopt": None, "cphase": None, "state": st,
            "fid": fid, "popt": popt, "targ": tg, "scale": None}


def gen(rng):
    c = rand_case(rng)
    c.update(kind="fid", tau="var", targ=rng.choice(["rand", "rand", "same", "phase", "minus", "scaled"]), scale=rng.choice([None, None, 0.37]))
    return c


def run(case):
    p = Prob(case)
    F = p.fwd(p.amps)[-1]
    tg = case["targ"]
    if tg != "rand":
        T = {"same": F, "phase": np.exp(0.7j) * F, "minus": -F, "scaled": 1.7 * p.XT}[tg]
        from qutip import Qobj
        p.XT = T
        p.qXT = Qobj(T, dims=p.sdims)
    kw = {}
    kind = p.fidkind()
    if case.get("scale") and kind != "UNIT":
        kw["fid_params"] = {"scale_factor": case["scale"]}
        p.scale = lambda: case["scale"]
    d = p.dynamics(**kw)
    fc = d.fid_computer
    for rep in range(2):
        amps = p.amps if rep == 0 else p.rand_amps()
        if rep:
            d.update_ctrl_amps(amps.copy())
        want = p.fid_err(amps)
        if kind == "UNIT":
            f = fc.get_fidelity()
            need_close(f, p.fidelity(amps), "fidelity", "target %s" % tg, 1e-7)
            need(np.isrealobj(f), "fidelity is real", repr(f))
            if case["dyn"] == "UNIT" and tg != "scaled":
                need(-1 - 1e-9 <= f <= 1 + 1e-9, "fidelity range", repr(f))
            if rep == 0 and (tg == "same" or (tg in ("phase", "minus") and case["popt"] != "SU")):
                need_close(f, 1.0, "fidelity of equal operators", "target %s" % tg, 1e-9)
                need_close(fc.get_fid_err(), 0.0, "error of equal operators", "target %s" % tg, 1e-9)
        elif rep == 0 and tg == "same":
            need_close(fc.get_fid_err(), 0.0, "error of equal operators", "", 1e-9)
        e = fc.get_fid_err()
        need(np.isrealobj(e) and e >= 0, "error is a non-negative real", repr(e))
        need_close(e, want, "fidelity error", "target %s" % tg, 1e-7)
    return []
