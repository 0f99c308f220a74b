"""C10: termination conditions against a reference rule."""
import numpy as np
from common import need, need_close, Skip
from prob import Prob, rand_case
import o_c09

RULE = ("random sequences of cost, gradient and iteration calls with prescribed errors, gradient norms and clock readings (values below, at and above the "
        "thresholds): each call must end the run exactly when the reference rule says so; real runs of every method with random limits; options handed to "
        "the minimisers")
VALS = [0.0, 0.5, 0.5, 1.0, 1.0 - 1e-12, 1.0 + 1e-12, 2.0]


def corner():
    for e in VALS:
        for g in VALS:
            yield {"kind": "seq", "targ": 1.0, "ming": 1.0, "maxf": 2, "wall": 5.0, "ops": [["f", e], ["g", g], ["c", 1.0], ["f", 3.0], ["f", 3.0], ["c", 6.0]],
                   "crab": False, "n": 2, "m": 1, "goal": None}
    for t in (4.9, 5.0, 5.1):
        yield {"kind": "seq", "targ": 0.1, "ming": 0.0, "maxf": 1e10, "wall": 5.0, "ops": [["f", 1.0], ["c", t / 2], ["f", 0.9], ["c", t]], "crab": False, "n": 1, "m": 2, "goal": None}
    for i in range(4):
        yield {"kind": "seq", "targ": None, "goal": [0.99, 1.5, 0.5, 1.0][i], "ming": 1e-3, "maxf": 10, "wall": 10, "n": 2, "m": 2, "crab": bool(i % 2),
               "ops": [["f", 0.6], ["f", 0.5], ["f", 0.49], ["f", 0.02], ["f", 0.0]]}
    for c in o_c09.corner():
        c["kind"] = "run"
        yield c


def gen(rng):
    if rng.random() < 0.15:
        return o_c09.gen(rng)
    ops = []
    t = 0.0
    for _ in range(rng.randint(1, 12)):
        k = rng.choice("ffgc")
        if k == "c":
            t += rng.choice([0.0, 0.5, 1.0, 2.0])
            ops.append(["c", t])
        else:
            ops.append([k, rng.choice(VALS + [rng.uniform(0, 3)])])
    return {"kind": "seq", "targ": rng.choice([1.0, 0.5, 0.0, -1.0]), "ming": rng.choice([1.0, 0.5, 0.0]), "maxf": rng.choice([0, 1, 2, 3, 5, 1e10]),
            "wall": rng.choice([0.0, 1.0, 2.0, 3.5]), "ops": ops, "crab": rng.random() < 0.3, "n": rng.randint(1, 3), "m": rng.randint(1, 2),
            "goal": None, "stats": rng.random() < 0.3}


def run(case):
    if case["kind"] == "run":
        return o_c09.run(case)
    import timeit
    import qutip_qtrl.errors as er, qutip_qtrl.termcond as tcm
    p = Prob(o_c09.base(n=max(case["n"], 2), m=case["m"]))
    kw = dict(alg="CRAB", alg_params={"num_coeffs": 2}, init_pulse_type=None) if case["crab"] else {}
    if case.get("stats"):
        kw["gen_stats"] = True
    o = p.optim(**kw)
    d = o.dynamics
    A = p.amps.copy()
    if case["crab"]:
        for j, g in enumerate(o.pulse_generator):
            g.init_pulse()
            A[:, j] = g.gen_pulse()
    d.initialize_controls(A)
    tc = tcm.TerminationConditions()
    tc.fid_err_targ, tc.min_gradient_norm, tc.max_fid_func_calls, tc.max_wall_time, tc.max_iterations = case["targ"], case["ming"], case["maxf"], case["wall"], 1000
    tc.fid_goal = case["goal"]
    targ = case["targ"] if case["targ"] is not None else abs(1 - case["goal"])
    fc = d.fid_computer
    ops = list(case["ops"])
    clock, calls = [1000.0], [0]

    def now():
        calls[0] += 1
        return clock[0]
    keep = timeit.default_timer
    timeit.default_timer = now
    x = np.array(o._get_optim_var_vals())
    state = {}

    def drive(fun, jac, cb):
        nf = ng = ni = 0
        for k, v in ops:
            x2 = x + (nf + ng) * 0.01
            exp = None
            try:
                if k == "f":
                    nf += 1
                    fc.get_fid_err = lambda: v
                    exp = er.GoalAchievedTerminate if v <= targ else (er.MaxFidFuncCallTerminate if nf > case["maxf"] else None)
                    got = fun(x2)
                    need(exp is None, "evaluation accepted although a condition is met", "error %r target %r call %d of %s" % (v, targ, nf, case["maxf"]))
                    need(got == v, "error handed to the minimiser", "%r" % got)
                elif k == "g":
                    if jac is None:
                        continue
                    ng += 1
                    G = np.full((p.n, p.m), v / np.sqrt(p.n * p.m))

                    def grad():
                        fc.grad_norm = v
                        return G
                    fc.get_fid_err_gradient = grad
                    exp = er.GradMinReachedTerminate if v < case["ming"] else None
                    got = jac(x2)
                    need(exp is None, "gradient accepted although its norm is below the minimum", "%r < %r" % (v, case["ming"]))
                    need(np.array_equal(np.asarray(got), G.reshape(-1)), "gradient handed to the minimiser", "")
                else:
                    clock[0] = start[0] + v
                    ni += 1
                    before = calls[0]
                    exp = er.MaxWallTimeTerminate if v > case["wall"] else None
                    cb(x2)
                    if calls[0] > before:
                        need(exp is None, "iteration accepted although the wall time is exceeded", "%r > %r" % (v, case["wall"]))
            except er.OptimizationTerminate as e:
                if k == "c" and calls[0] == before:
                    raise Skip()
                need(exp is not None and type(e) is exp, "run ended without its condition", "%s at %s %r (targ %r ming %r maxf %r wall %r calls %d)" % (
                    type(e).__name__, k, v, targ, case["ming"], case["maxf"], case["wall"], nf))
                state.update(exc=e, nf=nf, ni=ni, ng=ng, k=k, v=v)
                raise
        state.update(exc=None, nf=nf, ni=ni, ng=ng)
    start = [clock[0]]
    try:
        try:
            o.init_optim(tc)
            o.wall_time_optimize_start = clock[0]
            jac = None if o.approx_grad else o.fid_err_grad_wrapper
            drive(o.fid_err_func_wrapper, jac, o.iter_step_callback_func)
        except er.OptimizationTerminate:
            pass
        need(o.num_fid_func_calls == state["nf"] and o.num_iter == state["ni"] and o.num_grad_func_calls == state["ng"], "counters",
             "%s" % [o.num_fid_func_calls, o.num_iter, o.num_grad_func_calls, state["nf"], state["ni"], state["ng"]])
        if case.get("stats"):
            s = o.stats
            need((s.num_fidelity_func_calls, s.num_iter, s.num_grad_func_calls) == (state["nf"], state["ni"], state["ng"]), "statistics counters", "")
        # conditions of a second run start afresh
        o.init_optim(tc)
        need(o.num_fid_func_calls == 0 and o.num_iter == 0, "counters of a new run", "")
    finally:
        timeit.default_timer = keep
    return []
