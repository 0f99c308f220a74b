"""C07: queries reflect the current amplitudes."""
import numpy as np
from common import need, need_close
from prob import Prob, rand_case, arr

RULE = ("random histories of amplitude updates (all, one entry, equal values, in-place changes of passed or returned arrays) and queries (error, fidelity, "
        "gradient, norm, full evolution, forward list) on one object; every answer compared with the formulas at the latest amplitudes; "
        "recomputation counts checked for repeated queries")


def corner():
    i = 0
    for dyn, fid, prop in (("UNIT", "UNIT", "DIAG"), ("UNIT", "UNIT", "FRECHET"), ("GEN_MAT", "TRACEDIFF", "DEF"), ("GEN_MAT", "TDAPPROX", "APPROX")):
        for od in ("qobj", "nd"):
            for ops in (["err", "grad", "set", "grad", "err"], ["grad", "one", "err", "grad", "full"], ["fid", "set", "fid", "same", "fid", "err"],
                        ["full", "inplace", "full", "err"], ["err", "set", "full", "set", "err", "grad", "norm"], ["set", "fwd", "one", "fwd", "grad", "back", "err"],
                        ["pgacc", "set", "pgacc", "onwd", "tiny", "onwd", "err", "one", "pgacc"], ["err", "tiny", "err", "dg", "tiny", "prop", "dg"]):
                i += 1
                yield {"kind": "hist", "dyn": dyn, "seed": i, "N": 2, "m": 2, "n": 3, "tdd": False, "tdc": False, "od": od, "prop": prop,
                       "tau": "var", "spec": "rand", "amp": 1.0, "memopt": None, "cphase": None, "state": False, "fid": fid,
                       "popt": ["PSU", "SU"][i % 2] if dyn == "UNIT" else None, "ops": ops}


def gen(rng):
    c = rand_case(rng)
    c["kind"] = "hist"
    if c["prop"] == "APPROX":
        c["fid"] = "TDAPPROX"
    c["n"], c["m"] = min(c["n"], 4), min(c["m"], 2)
    c["ops"] = [rng.choice(["set", "one", "same", "inplace", "back", "err", "fid", "grad", "norm", "full", "fwd", "prop", "pgrad", "dg", "onto", "onwd", "pgacc", "pgacc", "tiny", "reinit"]) for _ in range(rng.randint(3, 10))]
    return c


def run(case):
    p = Prob(case)
    d = p.dynamics(gen_stats=True)
    fc = d.fid_computer
    amps = p.amps.copy()
    hist = [amps.copy()]
    last = None
    for op in case["ops"]:
        if op in ("set", "one", "inplace", "back", "same", "tiny", "reinit"):
            if op == "set":
                amps = p.rand_amps()
            elif op in ("one", "inplace"):
                amps = amps.copy()
                amps[p.r.integers(0, p.n), p.r.integers(0, p.m)] += 0.37
            elif op == "tiny":
                amps = amps.copy()
                amps[p.r.integers(0, p.n), p.r.integers(0, p.m)] += p.r.choice([1e-9, -1e-11, 1e-13])
            elif op == "back":
                amps = hist[p.r.integers(0, len(hist))].copy()
            hist.append(amps.copy())
            if op == "inplace" and last is not None:
                last[:, :] = amps           # the caller changes the array passed before and passes it again
            else:
                last = amps.copy()
            if op == "reinit":
                d.initialize_controls(last)
            else:
                d.update_ctrl_amps(last)
            need_close(np.asarray(d.ctrl_amps), amps, "recorded amplitudes", op, 0)
            continue
        tol = 1e-5 if op in ("grad", "norm", "pgrad", "pgacc") else 1e-6
        if op == "fid" and p.fidkind() != "UNIT":
            continue
        what = "query %s in %s" % (op, case["ops"])

        def ask():
            if op == "err":
                return fc.get_fid_err()
            if op == "fid":
                return fc.get_fidelity()
            if op in ("grad", "norm"):
                g = np.array(fc.get_fid_err_gradient())
                return g if op == "grad" else fc.grad_norm
            d.compute_evolution()
            if op == "full":
                return arr(d.full_evo)
            if op == "fwd":
                return np.array([arr(x) for x in d.fwd_evo])
            if op == "prop":
                return np.array([arr(x) for x in d.prop])
            if op == "dg":
                return np.array([arr(x) for x in d.dyn_gen])
            if op == "pgrad":
                return np.array([[arr(d._get_prop_grad(k, j)) for j in range(p.m)] for k in range(p.n)]) if d.prop_computer.grad_exact else None
            if op == "pgacc":
                return np.array([[arr(x) for x in row] for row in d.prop_grad]) if d.prop_computer.grad_exact and d.cache_prop_grad else None
            if op == "onwd":
                return np.array([arr(x) for x in d.onwd_evo]) if fc.uses_onwd_evo else None
            if op == "onto":
                return np.array([arr(x) for x in d.onto_evo]) if fc.uses_onto_evo else None
        got = ask()
        if got is None:
            continue
        if op == "err":
            want = p.fid_err(amps)
        elif op == "fid":
            want = p.fidelity(amps)
        elif op in ("grad", "norm"):
            want = p.fid_err_grad(amps)
            if op == "norm":
                want = np.sqrt(np.sum(want ** 2))
            if p.fidkind() == "TDAPPROX":
                tol = 1e-4
        elif op == "full":
            want = p.fwd(amps)[-1]
        elif op == "fwd":
            want = np.array(p.fwd(amps))
        elif op == "prop":
            want = np.array([p.P(k, amps) for k in range(p.n)])
        elif op == "dg":
            want = np.array([p.gen(k, amps) for k in range(p.n)])
        elif op == "onwd":
            want = np.array(p.onwd(amps))
        elif op in ("pgrad", "pgacc"):
            want = np.array([[p.dP(k, j, amps) for j in range(p.m)] for k in range(p.n)])
        elif op == "onto":
            want = np.array(p.onto(amps))
        need_close(got, want, "query", what, tol)
        s = d.stats
        before = (s.num_tslot_recompute, s.num_fidelity_computes, s.num_grad_computes)
        again = ask()
        need_close(again, got, "repeated query", what, 0)
        need((s.num_tslot_recompute, s.num_fidelity_computes, s.num_grad_computes) == before, "recomputation without change",
             "%s: counters %s" % (what, before))
        d.update_ctrl_amps(amps.copy())
        need_close(ask(), got, "query after re-setting equal amplitudes", what, 0)
        need((s.num_tslot_recompute, s.num_fidelity_computes, s.num_grad_computes) == before, "recomputation after equal amplitudes", what)
    return []
