"""C03: chains of propagators and the accessors."""
import numpy as np
from common import need, need_close
from prob import Prob, rand_case, arr

RULE = ("random problems of all dynamics types (operators and states as initial / target); forward, onward and onto evolutions, full evolution and "
        "all accessors compared with ordered products, repeatedly after amplitude changes, accessors read in random order, both evolution lists requested")


def corner():
    i = 0
    for dyn in ("UNIT", "GEN_MAT", "SYMPL"):
        for od in ("qobj", "nd"):
            for n in (1, 2, 4):
                for st in (False, True):
                    if st and dyn == "SYMPL":
                        continue
                    i += 1
                    yield {"kind": "evo", "dyn": dyn, "seed": i, "N": 2 + 2 * (i % 2), "m": 2, "n": n, "tdd": False, "tdc": False, "od": od, "prop": "DEF",
                           "tau": "var", "spec": "rand", "amp": 1.0, "memopt": None, "cphase": None, "state": st, "fid": "DEF", "popt": None,
                           "onwd": True, "onto": True, "order": i}


def gen(rng):
    c = rand_case(rng)
    c.update(kind="evo", onwd=rng.random() < 0.7, onto=rng.random() < 0.7, order=rng.randrange(1000))
    return c


def run(case):
    p = Prob(case)
    d = p.dynamics(flags=(case["onwd"], case["onto"]))
    amps = p.amps
    rr = np.random.default_rng(case["order"])
    td = [p.sdims[1], p.sdims[0]]
    for rep in range(3):
        if rep:
            amps = p.rand_amps()
            d.update_ctrl_amps(amps.copy())
        d.compute_evolution()
        F, ON = p.fwd(amps), p.onwd(amps)
        names = ["prop", "fwd", "full", "onwd", "onto", "target"]
        rr.shuffle(names)
        tol = 1e-6
        for nm in names:
            if nm == "prop":
                q = d.prop
                need(len(q) == p.n, "number of propagators")
                for k in range(p.n):
                    need_close(arr(q[k]), p.P(k, amps), "propagator", "slot %d" % k, tol)
                    need(q[k].dims == p.dims, "propagator dims", str(q[k].dims))
            elif nm == "fwd":
                q = d.fwd_evo
                need(len(q) == p.n + 1, "number of forward evolutions", "%d" % len(q))
                for k in range(p.n + 1):
                    need_close(arr(q[k]), F[k], "forward evolution", "slot %d" % k, tol)
                    need(q[k].dims == p.sdims, "forward dims", str(q[k].dims))
            elif nm == "full":
                need_close(arr(d.full_evo), F[-1], "full evolution", "", tol)
                need(d.full_evo.dims == p.sdims, "full evolution dims")
            elif nm == "onwd" and case["onwd"]:
                q = d.onwd_evo
                need(len(q) == p.n, "number of onward evolutions", "%d" % len(q))
                for k in range(p.n):
                    need_close(arr(q[k]), ON[k], "onward evolution", "slot %d" % k, tol)
                    need(q[k].dims == p.dims, "onward dims", str(q[k].dims))
            elif nm == "onto" and case["onto"]:
                q, O = d.onto_evo, p.onto(amps)
                need(len(q) == p.n + 1, "number of onto evolutions", "%d" % len(q))
                for k in range(p.n + 1):
                    need_close(arr(q[k]), O[k], "onto evolution", "slot %d" % k, tol)
                    need(q[k].dims == td, "onto dims", "%s != %s" % (q[k].dims, td))
                    need_close(arr(q[k]) @ F[k], O[-1] @ F[-1], "onto times forward", "slot %d" % k, tol)
            elif nm == "target":
                t = d.onto_evo_target
                need_close(arr(t), p.target_inv(), "onto target", "", 1e-9)
                need(t.dims == td, "onto target dims", str(t.dims))
    need_close(p.qX0.full(), p.X0, "initial modified", "", 0)
    need_close(p.qXT.full(), p.XT, "target modified", "", 0)
    return []
