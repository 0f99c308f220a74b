"""C09: the result of a run against an independent evaluation of the run."""
import numpy as np
from common import need, need_close, Skip
from prob import Prob, rand_case, arr

RULE = ("real runs of every optimiser and method on random problems, limits and targets (reached at once, by iteration, call, wall time or gradient limit, "
        "not at all), repeated on the same object; every call of the cost, gradient and iteration callables recorded; all result fields recomputed from "
        "the recorded calls and the closed formulas")
METHODS = ["DEF", "FMIN_L_BFGS_B", "FMIN_BFGS", "L-BFGS-B", "BFGS", "CG", "NELDER-MEAD", "TNC", "POWELL"]


def base(**k):
    c = {"kind": "run", "dyn": "UNIT", "seed": 1, "N": 2, "m": 2, "n": 3, "tdd": False, "tdc": False, "od": None, "prop": "DEF", "tau": "var",
         "spec": "rand", "amp": 1.0, "memopt": None, "cphase": None, "state": False, "fid": "UNIT", "popt": "PSU", "alg": "GRAPE", "meth": "DEF",
         "targ": [1e-6], "maxit": [20], "maxfun": [None], "mingrad": [1e-12], "wall": [None], "stats": False, "approx": False}
    c.update(k)
    return c


def corner():
    i = 0
    for meth in METHODS:
        for lim in ({"targ": [1e-12], "maxit": [3]}, {"targ": [0.9]}, {"targ": [-1.0], "maxfun": [4]}, {"targ": [-1.0], "mingrad": [0.5], "maxit": [200]},
                    {"targ": [-1.0], "wall": [0.0]}, {"targ": [1e-2, -1.0, 1e-2], "maxit": [50, 4, 2]}, {"targ": [-1.0], "maxit": [1], "maxfun": [1]}):
            i += 1
            yield base(meth=meth, seed=i, stats=bool(i % 2), od=["qobj", "nd"][i % 2], **lim)
    for dyn, fid, prop in (("GEN_MAT", "TRACEDIFF", "DEF"), ("GEN_MAT", "TDAPPROX", "APPROX"), ("SYMPL", "TRACEDIFF", "DEF")):
        for meth in ("DEF", "FMIN_BFGS", "L-BFGS-B"):
            yield base(dyn=dyn, fid=fid, prop=prop, popt=None, meth=meth, seed=i, maxit=[4], stats=True)
    for meth in ("FMIN", "NELDER-MEAD", "BFGS"):
        for lim in ({"maxit": [5]}, {"targ": [0.95]}, {"targ": [-1.0], "maxfun": [6]}, {"targ": [-1.0], "wall": [0.0]}, {"maxit": [40, 3]}):
            i += 1
            yield base(alg="CRAB", meth=meth, seed=i, n=5, stats=bool(i % 2), **lim)


def gen(rng):
    alg = rng.choice(["GRAPE", "GRAPE", "CRAB"])
    dyn = rng.choice(["UNIT", "UNIT", "GEN_MAT", "SYMPL"])
    c = rand_case(rng, dyn=dyn, n=rng.randint(2, 5), m=rng.randint(1, 3), amp=1.0)
    if alg == "CRAB" and c["fid"] != "TDAPPROX":
        # CRAB asks for approximate gradients, which the trace difference fidelity does not offer
        c["fid"], c["prop"] = ("UNIT" if dyn == "UNIT" else "TDAPPROX"), "APPROX"
        c["popt"] = c.get("popt") or "PSU"
    c["N"] = min(c["N"], 3) if dyn != "SYMPL" else 2
    k = rng.randint(1, 2)
    pick = lambda *v: [rng.choice(v) for _ in range(k)]
    c.update(kind="run", alg=alg, meth=rng.choice(METHODS) if alg == "GRAPE" else rng.choice(["FMIN", "NELDER-MEAD", "BFGS", "POWELL"]),
             targ=pick(1e-8, 1e-3, 0.3, 0.9, -1.0, -1.0), maxit=pick(1, 2, 5, 30), maxfun=pick(None, None, 1, 3, 10), mingrad=pick(1e-12, 1e-4, 0.3),
             wall=pick(None, None, None, 0.0, 0.02), stats=rng.random() < 0.4, approx=rng.random() < 0.1)
    if c["prop"] == "APPROX" and c["fid"] != "TDAPPROX":
        c["approx"] = True
    return c


def run(case):
    import qutip_qtrl.errors as er, qutip_qtrl.termcond as tcm
    p = Prob(case)
    meth = case["meth"]
    kw = {} if meth == "DEF" else {"optim_method": meth}
    if meth == "DEF":
        kw["optim_method"] = "fmin_l_bfgs_b"
    if case["alg"] == "CRAB":
        kw.update(alg="CRAB", alg_params={"num_coeffs": 2}, init_pulse_type=None)
    if case["stats"]:
        kw["gen_stats"] = True
    d = p.dynamics(init=False, **kw)
    o = p.opt
    np.random.seed(case["seed"] % 2**31)
    if case["alg"] == "CRAB":
        A = np.zeros((p.n, p.m))
        for j, g in enumerate(o.pulse_generator):
            g.init_pulse()
            A[:, j] = g.gen_pulse()
    else:
        A = p.amps.copy()
    if case["approx"]:
        o.approx_grad = True
    d.initialize_controls(A.copy())
    rec = []

    def wrap(name):
        f = getattr(o, name)

        def g(*a):
            x = np.array(a[0])
            try:
                r = f(*a)
            except er.OptimizationTerminate as e:
                rec.append((name, x, e, np.array(d.ctrl_amps)))
                raise
            rec.append((name, x, r, np.array(d.ctrl_amps)))
            return r
        setattr(o, name, g)
    for nm in ("fid_err_func_wrapper", "fid_err_grad_wrapper", "iter_step_callback_func"):
        wrap(nm)
    ends = []
    import scipy.optimize as so

    def spy(name, pos):
        f = getattr(so, name)

        def g(*a, **k):
            r = f(*a, **k)
            x = r.x if pos is None else (r[pos] if isinstance(r, tuple) else r)
            ends.append(np.array(x))
            return r
        setattr(so, name, g)
        return name, f
    real = [spy("minimize", None), spy("fmin", 0), spy("fmin_bfgs", 0), spy("fmin_l_bfgs_b", 0)]
    try:
        return runs(p, o, d, case, rec, ends)
    finally:
        for nm, f in real:
            setattr(so, nm, f)


def runs(p, o, d, case, rec, ends):
    import qutip_qtrl.termcond as tcm
    for targ, maxit, maxfun, mg, wall in zip(case["targ"], case["maxit"], case["maxfun"], case["mingrad"], case["wall"]):
        tc = tcm.TerminationConditions()
        tc.fid_err_targ, tc.max_iterations, tc.min_gradient_norm = targ, maxit, mg
        tc.max_fid_func_calls = maxfun if maxfun is not None else 400
        if wall is not None:
            tc.max_wall_time = wall
        A = np.array(d.ctrl_amps)
        del rec[:], ends[:]
        try:
            res = o.run_optimization(tc)
        except (ValueError, TypeError, RuntimeError, ArithmeticError, np.linalg.LinAlgError) as e:
            tb = e.__traceback__
            fr = []
            while tb is not None:
                fr.append(tb.tb_frame.f_code.co_filename)
                tb = tb.tb_next
            if "scipy" in fr[-1]:
                raise Skip()
            raise
        if np.abs(res.final_amps).max() > 1e4:
            # phases of that size are not determined by their floating point values to the accuracy compared here
            raise Skip()
        judge(p, o, d, tc, A, rec, res, case)
        if ends:
            judge_end(p, o, rec, res, ends[-1], case)
    return []


def judge_end(p, o, rec, res, x, case):
    """a minimiser that ended by itself: the final amplitudes are those of the point it returned"""
    import qutip_qtrl.errors as er
    if rec and isinstance(rec[-1][2], er.OptimizationTerminate):
        return
    if case["alg"] != "CRAB":
        need_close(np.asarray(res.final_amps).reshape(-1), x, "final amplitudes are the minimiser's", "", 1e-12)
        return
    for nm, y, r, amps in rec:
        if y.shape == x.shape and np.array_equal(y, x):
            need_close(np.asarray(res.final_amps), amps, "final amplitudes are the minimiser's", "", 1e-12)
            return


def judge(p, o, d, tc, A, rec, res, case):
    import qutip_qtrl.errors as er
    kind = p.fidkind()
    final = np.array(res.final_amps)
    tol = 1e-6
    need_close(final, np.asarray(d.ctrl_amps), "final amplitudes", "", 0)
    e = p.fid_err(final)
    if not np.isfinite(e):
        raise Skip("amplitudes beyond the range of the arithmetic")
    need(abs(res.fid_err - e) <= tol * (1 + e), "final error of the final amplitudes", "%r, final amplitudes give %r" % (res.fid_err, e))
    if kind == "UNIT":
        f = p.fidelity(final)
        need(abs(res.fidelity - f) <= tol * (1 + abs(f)), "fidelity of the final amplitudes", "%r %r" % (res.fidelity, f))
    need_close(arr(res.evo_full_final), p.fwd(final)[-1], "final evolution", "", tol)
    need(res.evo_full_final.dims == p.sdims, "final evolution dimensions", "%s" % (res.evo_full_final.dims,))
    need_close(res.initial_amps, A, "initial amplitudes", "", 0)
    e0 = p.fid_err(A)
    need(abs(res.initial_fid_err - e0) <= tol * (1 + e0), "initial error of the initial amplitudes", "%r %r" % (res.initial_fid_err, e0))
    need_close(arr(res.evo_full_initial), p.fwd(A)[-1], "initial evolution", "", tol)
    need_close(res.time, np.concatenate(([0.0], np.cumsum(p.tau))), "slot boundaries", "", 1e-6)
    need(bool(res.goal_achieved) == bool(res.fid_err <= tc.fid_err_targ), "goal flag", "goal %s, error %r, target %r, reason %r" % (res.goal_achieved, res.fid_err, tc.fid_err_targ, res.termination_reason))
    nf = sum(1 for r in rec if r[0] == "fid_err_func_wrapper")
    ni = sum(1 for r in rec if r[0] == "iter_step_callback_func")
    need(nf > 0, "cost function used", "") if nf == 0 else None
    need(res.num_fid_func_calls == nf, "number of cost function calls", "%d, made %d" % (res.num_fid_func_calls, nf))
    need(res.num_iter == ni, "number of iterations", "%d, callbacks %d" % (res.num_iter, ni))
    need(res.wall_time >= 0, "wall time", "")
    need(res.optimizer is o, "optimiser", "")
    flags = {"goal": res.goal_achieved, "grad": res.grad_norm_min_reached, "iter": res.max_iter_exceeded, "func": res.max_fid_func_exceeded, "wall": res.wall_time_limit_exceeded}
    flags = {k for k, v in flags.items() if v}
    last = rec[-1][2]
    info = "flags %s reason %r, last event %r" % (sorted(flags), res.termination_reason, last)
    want = {er.GoalAchievedTerminate: "goal", er.MaxFidFuncCallTerminate: "func", er.MaxWallTimeTerminate: "wall", er.GradMinReachedTerminate: "grad"}
    if isinstance(last, er.OptimizationTerminate):
        need(flags == {want[type(last)]}, "flags of an early termination", info)
        need(str(res.termination_reason).lower()[:4] == {"goal": "goal", "func": "numb", "wall": "max ", "grad": "grad"}[want[type(last)]], "termination reason", info)
        need_close(final, rec[-1][3], "final amplitudes are those at termination", info, 0)
        if isinstance(last, er.GradMinReachedTerminate):
            need(res.grad_norm_final < tc.min_gradient_norm, "final gradient norm", info)
        if isinstance(last, er.MaxWallTimeTerminate):
            need(res.wall_time > tc.max_wall_time, "wall time beyond its limit", info)
        if isinstance(last, er.MaxFidFuncCallTerminate):
            need(nf > tc.max_fid_func_calls, "call limit exceeded", info)
    else:
        need(not (flags & {"goal", "wall"}), "flags of a minimiser's return", info)
        need(len(flags) <= 1, "one cause of termination", info)
        if "iter" in flags:
            # L-BFGS-B reports iteration and call limits with one code
            need(ni >= tc.max_iterations - 1 or nf >= tc.max_fid_func_calls, "iteration limit reported", info + " %d iterations of %s" % (ni, tc.max_iterations))
        if "func" in flags:
            need(nf >= tc.max_fid_func_calls, "call limit reported", info)
    if ni > tc.max_iterations + 1 and case["meth"] != "TNC":
        # (TNC has no limit on iterations)
        need(False, "iteration limit not passed on", "%d iterations, limit %s" % (ni, tc.max_iterations))
    # accepted evaluations
    c = g = 0
    for nm, x, r, amps in rec:
        if nm == "fid_err_func_wrapper":
            c += 1
            ee = p.fid_err(amps)
            if isinstance(r, er.OptimizationTerminate):
                if isinstance(r, er.GoalAchievedTerminate):
                    need(ee <= tc.fid_err_targ + tol * (1 + ee), "goal reported while the error is above the target", "%r" % ee)
                else:
                    need(c > tc.max_fid_func_calls and ee > tc.fid_err_targ - tol * (1 + ee), "call limit exceeded while it is not", "%d" % c)
            else:
                need(abs(r - ee) <= tol * (1 + ee), "error returned to the minimiser", "%r %r" % (r, ee))
                need(r > tc.fid_err_targ and c <= tc.max_fid_func_calls, "evaluation accepted beyond a termination condition", "error %r target %r call %d limit %s" % (r, tc.fid_err_targ, c, tc.max_fid_func_calls))
            if case["alg"] != "CRAB":
                need_close(amps.reshape(-1), x, "amplitudes are the variables", "", 0)
        elif nm == "fid_err_grad_wrapper":
            if not isinstance(r, er.OptimizationTerminate):
                need(np.sqrt(np.sum(np.asarray(r) ** 2)) >= tc.min_gradient_norm * (1 - 1e-9), "gradient accepted below the minimum norm", "")
                g += 1
                if g <= 3 and kind != "TDAPPROX":
                    need_close(np.asarray(r).reshape(amps.shape), p.fid_err_grad(amps), "gradient returned to the minimiser", "", 1e-4)
    if case["stats"]:
        s = res.stats
        need(s.num_fidelity_func_calls == nf and s.num_iter == ni, "statistics of the run", "%s %s" % (s.num_fidelity_func_calls, s.num_iter))
        need(s.num_grad_func_calls == sum(1 for r in rec if r[0] == "fid_err_grad_wrapper"), "gradient calls in the statistics", "")
        need(0 <= s.wall_time_optim <= res.wall_time + 1e-6 and s.wall_time_optim >= res.wall_time - 1e-6, "wall time in the statistics", "%r %r" % (s.wall_time_optim, res.wall_time))
