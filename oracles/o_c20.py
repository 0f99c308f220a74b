"""C20: every requested option reaches the component it configures."""
import copy
import json
import warnings
import numpy as np
from qutip import Qobj
import calls
from calls import PULSES, PROPC, FIDC, materials, real_args, rand_opts, corner_opts, describe, differ
from common import need, need_close, Skip

RULE = ("create_pulse_optimizer with random options of every kind (all selector values, bounds per control, zero/negative/None numbers, parameter dictionaries for every component, CRAB options, guess and ramping pulses, "
        "time grids, time-dependent operators): classes and values found in the built objects; the four wrappers, and deprecated arguments, against the general function with the documented translations "
        "(same configured optimiser, same starting amplitudes, same result); unknown types and missing arguments rejected")
BAD = [("dyn_type", "BOGUS", "UsageError"), ("prop_type", "BOGUS", "UsageError"), ("fid_type", "BOGUS", "UsageError"), ("alg", "BOGUS", "UsageError"), ("alg", None, "UsageError"), ("optim_method", "", "UsageError"),
       ("optim_method", "FMIN", "UsageError"), ("optim_method", "fmin", "UsageError"), ("init_pulse_type", "BOGUS", "ValueError"), ("initial", "nd", "TypeError"), ("target", "nd", "TypeError"), ("drift", "nd", "TypeError"),
       ("ctrls", "nd", "TypeError"), ("time", "none", "UsageError"), ("time", "no_evo", "UsageError"), ("time", "no_n", "UsageError"), ("time", "zero", "UsageError")]


def corner():
    for o in corner_opts():
        yield {"kind": "create", "o": o}
    for b in BAD:
        yield {"kind": "bad", "b": list(b)}
    import random
    rng = random.Random(11)
    for w in WRAP:
        for _ in range(5):
            yield rand_wrap(rng, w)
    for d in DEPR:
        for w in ("create_pulse_optimizer", "optimize_pulse", "optimize_pulse_unitary"):
            for given in (None, "other", "same"):
                yield {"kind": "depr", "d": d, "w": w, "given": given}


WRAP = ["optimize_pulse", "optimize_pulse_unitary", "opt_pulse_crab", "opt_pulse_crab_unitary"]
DEPR = ["optim_alg", "max_metric_corr", "accuracy_factor", "phase_option", "fid_err_scale_factor"]


def rand_wrap(rng, w):
    unit = w.endswith("unitary")
    o = rand_opts(rng, alg="CRAB" if "crab" in w else None, unit=unit)
    o["tdd"] = False
    if o["dyn_type"] == "SYMPL":
        o["dyn_type"] = "UNIT"
    a = o["args"]
    a["max_iter"] = rng.randint(1, 3)
    a["fid_err_targ"] = 1e-9
    a.setdefault("max_wall_time", 60)
    a["max_wall_time"] = max(a["max_wall_time"], 60)
    ap = a.get("alg_params")
    c = {"kind": "wrap", "w": w, "o": o}
    if "crab" in w:
        c["top"] = {k: v for k, v in (("num_coeffs", rng.choice([1, 2, 3])), ("init_coeff_scaling", rng.choice([0.5, 0.0, None])), ("guess_pulse_scaling", rng.choice([0.5, 0.0, None])),
                                      ("guess_pulse_offset", rng.choice([0.3, None])), ("guess_pulse_action", rng.choice(["ADD", "MODULATE", None]))) if rng.random() < 0.5}
        a.pop("min_grad", None)
        a.pop("pulse_scaling", None)
        a.pop("pulse_offset", None)
    if unit:
        c["phase"] = rng.choice(["PSU", "SU", None, "unset"])
    return c


def gen(rng):
    k = rng.random()
    if k < 0.65:
        return {"kind": "create", "o": rand_opts(rng)}
    return rand_wrap(rng, rng.choice(WRAP))


def run(c):
    return {"create": run_create, "bad": run_bad, "wrap": run_wrap, "depr": run_depr}[c["kind"]](c)


def incompatible(o, a):
    """combinations of gradient method and fidelity that are documented as unusable"""
    p = a.get("prop_type", "DEF")
    approx = p == "APPROX" or (o["alg"].upper() == "CRAB" and (p is None or p.upper() == "DEF"))
    f = (a.get("fid_type") or "").upper()
    return (f == "TRACEDIFF" and approx) or (f in ("TDAPPROX", "TD_APPROX") and not approx)


def cls(x):
    return type(x).__name__


def run_create(c):
    import qutip_qtrl.pulseoptim as cpo
    from qutip_qtrl import logging_utils
    o = c["o"]
    a = real_args(o)
    drift, ctrls, X0, XT, t = materials(o)
    cpo.logger.setLevel(30)
    try:
        opt = cpo.create_pulse_optimizer(drift, ctrls, X0, XT, alg=o["alg"], dyn_type=o["dyn_type"], **t, **a)
    except Exception as e:
        if type(e).__name__ == "UsageError" and incompatible(o, a):
            raise Skip()
        raise
    check(opt, o, a, drift, ctrls, X0, XT, t)
    return []


def check(opt, o, a, drift, ctrls, X0, XT, t):
    crab = o["alg"].upper() == "CRAB"
    d = opt.dynamics
    up = lambda s: s.upper() if isinstance(s, str) else s
    # ---- algorithm and optimiser
    meth = a.get("optim_method", "DEF")
    if up(meth) in (None, "DEF"):
        meth = "FMIN" if crab else "FMIN_L_BFGS_B"
    want = {"FMIN_BFGS": "OptimizerBFGS", "LBFGSB": "OptimizerLBFGSB", "FMIN_L_BFGS_B": "OptimizerLBFGSB", "FMIN": "OptimizerCrabFmin"}.get(up(meth), "OptimizerCrab" if crab else "Optimizer")
    need(cls(opt) == want, "optimiser class", "%s for %s/%s" % (cls(opt), o["alg"], meth))
    if "optim_params" not in a or "method" not in a["optim_params"]:
        need(opt.method == meth and opt.alg == o["alg"], "method and algorithm", "%s %s" % (opt.method, opt.alg))
    need(opt.amp_lbound == a.get("amp_lbound") and opt.amp_ubound == a.get("amp_ubound"), "bounds", "%s %s" % (opt.amp_lbound, opt.amp_ubound))
    # ---- dynamics
    dt = o["dyn_type"]
    need(cls(d) == {"UNIT": "DynamicsUnitary", "SYMPL": "DynamicsSymplectic"}.get(dt, "DynamicsGenMat"), "dynamics class", "%s for %s" % (cls(d), dt))
    pt, ft = a.get("prop_type", "DEF"), up(a.get("fid_type", "DEF"))
    if crab and up(pt) in (None, "DEF"):
        pt = "APPROX"
    need(cls(d.prop_computer) == (PROPC.get(pt) or ("PropCompDiag" if dt == "UNIT" else "PropCompFrechet")), "propagator class", "%s for %s" % (cls(d.prop_computer), pt))
    need(cls(d.fid_computer) == (FIDC.get(ft) or ("FidCompUnitary" if dt == "UNIT" else "FidCompTraceDiff")), "fidelity class", "%s for %s" % (cls(d.fid_computer), ft))
    need(cls(d.tslot_computer) == "TSlotCompUpdateAll", "timeslot class", cls(d.tslot_computer))
    for comp in (d.prop_computer, d.fid_computer, d.tslot_computer):
        need(comp.parent is d, "component belongs to another object", cls(comp))
    for p, ob in (("dyn_params", d), ("prop_params", d.prop_computer), ("fid_params", d.fid_computer), ("tslot_params", d.tslot_computer)):
        for k, v in (a.get(p) or {}).items():
            need(getattr(ob, k) == v, p, "%s=%r, found %r" % (k, v, getattr(ob, k)))
    # ---- termination conditions and options of the method
    mp = dict(a.get("method_params") or {})
    tc = opt.termination_conditions
    dflt = {"fid_err_targ": 1e-10, "min_grad": 1e-10, "max_iter": 500, "max_wall_time": 180}
    for k, at in (("fid_err_targ", "fid_err_targ"), ("min_grad", "min_gradient_norm"), ("max_iter", "max_iterations"), ("max_wall_time", "max_wall_time")):
        v = mp.get(at, a.get(k, dflt[k]))
        need(getattr(tc, at) == v and type(getattr(tc, at)) is type(v), "termination " + at, "%r instead of %r" % (getattr(tc, at), v))
    if "max_fid_func_calls" in mp:
        need(tc.max_fid_func_calls == mp["max_fid_func_calls"], "termination max_fid_func_calls")
    else:
        need(tc.max_fid_func_calls == 1e10, "termination max_fid_func_calls", tc.max_fid_func_calls)
    for k, v in (a.get("optim_params") or {}).items():
        need(getattr(opt, k) == mp.get(k, v), "optim_params", "%s=%r, found %r" % (k, v, getattr(opt, k)))
    from qutip_qtrl import optimizer, optimconfig
    lb = want == "OptimizerLBFGSB"
    fresh = getattr(optimizer, want)(optimconfig.OptimConfig(), d)
    tcn = {"fid_err_targ", "min_gradient_norm", "max_iterations", "max_wall_time", "max_fid_func_calls", "fid_goal"}
    rest = {}
    for k, v in mp.items():
        if hasattr(fresh, k) or k in (a.get("optim_params") or {}):
            need(getattr(opt, k) == v, "method_params", "%s=%r, found %r" % (k, v, getattr(opt, k)))
        elif k not in tcn:
            rest[k] = v
    got = opt.method_options or {}
    need({k: got[k] for k in got if k in rest} == rest, "method options", "%s instead of %s" % (got, rest))
    need(all(k in mp for k in got) or lb or want == "OptimizerBFGS", "method options nobody asked for", "%s of %s" % (got, mp))
    # ---- statistics
    if a.get("gen_stats"):
        need(opt.stats is not None and opt.stats is d.stats and cls(opt.stats) == "Stats", "statistics")
    else:
        need(opt.stats is None and d.stats is None, "statistics")
    # ---- problem
    need(d.initial is X0 and d.target is XT, "initial and target")
    if o["tdd"]:
        need(len(d.drift_dyn_gen) == len(drift) and all(x is y for x, y in zip(d.drift_dyn_gen, drift)), "drift")
    else:
        need(d.drift_dyn_gen is drift, "drift")
    need(d.num_ctrls == o["m"], "number of controls", d.num_ctrls)
    if o["tdc"]:
        need(all(d.ctrl_dyn_gen[k][j] is ctrls[k][j] for k in range(o["n"]) for j in range(o["m"])), "controls")
    else:
        need(len(d.ctrl_dyn_gen) == o["m"] and all(d.ctrl_dyn_gen[j] is ctrls[j] for j in range(o["m"])), "controls")
    d.init_timeslots()
    if "tau" in t:
        need_close(np.asarray(d.tau), t["tau"], "tau", "", 0)
        need(d.num_tslots == len(t["tau"]), "num_tslots", d.num_tslots)
        need_close(d.evo_time, np.sum(t["tau"]), "evo_time", "", 1e-12)
    else:
        need(d.num_tslots == t["num_tslots"] and abs(d.evo_time - t["evo_time"]) < 1e-6 * t["evo_time"], "time grid", "%s %s" % (d.num_tslots, d.evo_time))
        need_close(np.asarray(d.tau, dtype=float), np.full(t["num_tslots"], t["evo_time"] / t["num_tslots"]), "tau", "", 1e-6)
    # ---- pulses
    pg, ip = opt.pulse_generator, up(a.get("init_pulse_type", "DEF"))
    ipp = a.get("init_pulse_params") or {}
    cb = lambda b, j: b[min(j, len(b) - 1)] if isinstance(b, list) else b
    if not crab:
        ip = "RND" if ip in (None, "DEF") else ip
        need(cls(pg) == "PulseGen" + PULSES[ip], "pulse class", "%s for %s" % (cls(pg), ip))
        need(pg.scaling == a.get("pulse_scaling", 1.0) and pg.offset == a.get("pulse_offset", 0.0), "pulse scaling and offset", "%s %s" % (pg.scaling, pg.offset))
        need(pg.lbound == a.get("amp_lbound") and pg.ubound == a.get("amp_ubound"), "pulse bounds", "%s %s" % (pg.lbound, pg.ubound))
        for k, v in ipp.items():
            need(getattr(pg, k) == v, "init_pulse_params", "%s=%r, found %r" % (k, v, getattr(pg, k)))
        need(pg.num_tslots == d.num_tslots, "pulse slots", pg.num_tslots)
        need_close(pg.pulse_time, d.evo_time, "pulse time", "", 1e-6)
        return
    ap = a.get("alg_params") or {}
    need(isinstance(pg, list) and len(pg) == o["m"] and len(set(map(id, pg))) == o["m"], "one pulse generator per control", str(pg))
    for j, g in enumerate(pg):
        cp = ap.get("crab_pulse_params") or {}
        need(cls(g) == "PulseGenCrabFourier", "CRAB generator", cls(g))
        need(g.lbound == cb(a.get("amp_lbound"), j) and g.ubound == cb(a.get("amp_ubound"), j), "CRAB bounds", "control %d: %s %s" % (j, g.lbound, g.ubound))
        need(g.fix_freqs == ap.get("fix_frequency", True), "fix_frequency")
        if ap.get("num_coeffs") is not None:
            need(g.num_coeffs == ap["num_coeffs"], "num_coeffs", g.num_coeffs)
        else:
            need(g.num_coeffs is None or g.num_coeffs > 0, "estimated num_coeffs", g.num_coeffs)
        need(g.num_basis_funcs == (2 if g.fix_freqs else 3), "basis functions", g.num_basis_funcs)
        if ap.get("init_coeff_scaling") is not None:
            need(g.scaling == ap["init_coeff_scaling"], "init_coeff_scaling", g.scaling)
        else:
            need(g.scaling == 1.0, "coefficient scaling", g.scaling)
        for k, v in cp.items():
            need(getattr(g, k) == v, "crab_pulse_params", "%s=%r, found %r" % (k, v, getattr(g, k)))
        need(g.num_tslots == d.num_tslots, "pulse slots", g.num_tslots)
        if ip in PULSES:
            need(g.guess_pulse is not None and np.shape(g.guess_pulse) == (d.num_tslots,), "guess pulse", str(g.guess_pulse))
            l, u = cb(a.get("amp_lbound"), j), cb(a.get("amp_ubound"), j)
            need((l is None or np.all(g.guess_pulse >= l - 1e-9)) and (u is None or np.all(g.guess_pulse <= u + 1e-9)), "guess pulse bounds", "%s not in %s %s" % (g.guess_pulse, l, u))
            need(g.guess_pulse_action == ipp.get("pulse_action", "MODULATE"), "guess action", g.guess_pulse_action)
            if ip in ("ZERO", "LIN", "SINE", "TRIANGLE"):
                from qutip_qtrl import pulsegen
                h = pulsegen.create_pulse_gen(ip, dyn=d)
                h.apply_params({k: v for k, v in ipp.items() if k not in ("pulse_action",)} or None)
                h.scaling, h.offset = ipp.get("scaling", a.get("pulse_scaling", 1.0)), ipp.get("offset", a.get("pulse_offset", 0.0))
                h.lbound, h.ubound = l, u
                h.init_pulse()
                need_close(g.guess_pulse, h.gen_pulse(), "guess pulse values", "control %d" % j, 1e-5)
        else:
            need(g.guess_pulse is None, "guess pulse nobody asked for")
        if a.get("ramping_pulse_type"):
            from qutip_qtrl import pulsegen
            h = pulsegen.create_pulse_gen("GAUSSIAN_EDGE", dyn=d, pulse_params=a.get("ramping_pulse_params"))
            need_close(g.ramping_pulse, h.gen_pulse(), "ramping pulse", "", 1e-5)
        else:
            need(g.ramping_pulse is None, "ramping pulse nobody asked for")


def run_bad(c):
    import qutip_qtrl.pulseoptim as cpo
    k, v, exc = c["b"]
    o = {"alg": "GRAPE", "m": 2, "seed": 1, "N": 2, "dyn_type": "UNIT", "tdd": False, "tdc": False, "ctr": "list", "n": 3, "num_tslots": 3, "evo_time": 2.0, "args": {}}
    drift, ctrls, X0, XT, t = materials(o)
    kw = dict(alg="GRAPE", dyn_type="UNIT", **t)
    if k == "initial":
        X0 = X0.full()
    elif k == "target":
        XT = XT.full()
    elif k == "drift":
        drift = drift.full()
    elif k == "ctrls":
        ctrls = [x.full() for x in ctrls]
    elif k == "time":
        kw.update({"none": dict(num_tslots=None, evo_time=None), "no_evo": dict(evo_time=None), "no_n": dict(num_tslots=None), "zero": dict(num_tslots=0)}[v])
    else:
        kw[k] = v
    for f in ("create_pulse_optimizer", "optimize_pulse"):
        try:
            getattr(cpo, f)(drift, ctrls, X0, XT, **kw)
            err = None
        except Exception as e:
            err = e
        need(type(err).__name__ == exc, "rejection", "%s with %s=%r: %s" % (f, k, v, err))
    return []


def general(w, o, a, top, phase):
    """the arguments of create_pulse_optimizer a wrapper documents to be equivalent to"""
    g = dict(a, alg=o["alg"], dyn_type=o["dyn_type"])
    if "crab" in w:
        g["alg"], g["min_grad"] = "CRAB", 0.0
        g.setdefault("fid_err_targ", 1e-5)
        ap = dict(g.get("alg_params") or {})
        if top.get("num_coeffs") is not None:
            ap.setdefault("num_coeffs", top["num_coeffs"])
        s = top.get("init_coeff_scaling", 1.0)
        if s is not None:
            ap.setdefault("init_coeff_scaling", s)
        g["alg_params"] = ap
        if g.get("init_pulse_type"):
            ip = dict(g.get("init_pulse_params") or {})
            for k, n, dv in (("guess_pulse_scaling", "scaling", 1.0), ("guess_pulse_offset", "offset", 0.0), ("guess_pulse_action", "pulse_action", "MODULATE")):
                if top.get(k, dv) is not None:
                    ip.setdefault(n, top.get(k, dv))
            g["init_pulse_params"] = ip
        g.setdefault("optim_method", "fmin")
    if w.endswith("unitary"):
        g["dyn_type"] = "UNIT"
        p = "PSU" if phase == "unset" else phase
        if p is not None:
            g["fid_params"] = dict({"phase_option": p}, **(g.get("fid_params") or {}))
    return g


class Hook:
    """records the optimiser whose run_optimization is called"""
    def __enter__(self):
        from qutip_qtrl import optimizer
        self.o, self.saved, self.seen = optimizer, {}, []
        for n in ("Optimizer", "OptimizerBFGS", "OptimizerLBFGSB", "OptimizerCrab", "OptimizerCrabFmin"):
            C = getattr(optimizer, n)
            if "run_optimization" in vars(C):
                self.saved[C] = vars(C)["run_optimization"]

                def f(s, *a, _r=self.saved[C], **k):
                    if not self.seen or self.seen[-1][0] is not s:
                        self.seen.append((s, describe(s), np.array(s.dynamics.ctrl_amps)))
                    return _r(s, *a, **k)
                C.run_optimization = f
        return self

    def __exit__(self, *a):
        for C, f in self.saved.items():
            C.run_optimization = f


RES = ["fid_err", "num_iter", "num_fid_func_calls", "termination_reason", "goal_achieved"]


def run_wrap(c):
    import qutip_qtrl.pulseoptim as cpo
    o, w = c["o"], c["w"]
    a = real_args(o)
    drift, ctrls, X0, XT, t = materials(o)
    top, phase = c.get("top", {}), c.get("phase", "unset")
    kw = dict(a, **t)
    if "crab" in w:
        if "init_pulse_type" in kw:
            kw["guess_pulse_type"] = kw.pop("init_pulse_type")
        if "init_pulse_params" in kw:
            kw["guess_pulse_params"] = kw.pop("init_pulse_params")
        kw.update(top)
        if w == "opt_pulse_crab":
            kw["dyn_type"] = o["dyn_type"]
    elif w == "optimize_pulse":
        kw.update(alg=o["alg"], dyn_type=o["dyn_type"])
    else:
        kw["alg"] = o["alg"]
    if w.endswith("unitary") and phase != "unset":
        kw["phase_option"] = phase
    if "crab" in w and kw.get("guess_pulse_type") in ("def", "DEF"):
        kw["guess_pulse_type"] = a["init_pulse_type"] = None
    cpo.logger.setLevel(30)
    g = general(w, o, a, top, phase)
    np.random.seed(o["seed"])
    err = res = None
    with Hook() as h:
        try:
            res = getattr(cpo, w)(drift, ctrls, X0, XT, **kw)
        except Exception as e:
            err = e
        try:
            np.random.seed(o["seed"])
            opt = cpo.create_pulse_optimizer(drift, ctrls, X0, XT, **t, **g)
            d = opt.dynamics
            d.init_timeslots()
            amps = np.zeros((d.num_tslots, d.num_ctrls))
            for j in range(d.num_ctrls):
                if isinstance(opt.pulse_generator, list):
                    pg = opt.pulse_generator[j]
                    pg.init_pulse()
                else:
                    pg = opt.pulse_generator
                    lb, ub = a.get("amp_lbound"), a.get("amp_ubound")
                    if isinstance(lb, list) or isinstance(ub, list):
                        pg.lbound = lb[j] if isinstance(lb, list) else lb
                        pg.ubound = ub[j] if isinstance(ub, list) else ub
                        pg.init_pulse()
                amps[:, j] = pg.gen_pulse()
            d.initialize_controls(amps)
            res2, err2 = opt.run_optimization(), None
        except Exception as e:
            res2, err2 = None, e
    need(type(err) is type(err2), "wrapper and general function disagree on acceptance", "%s: %r / %r" % (w, err, err2))
    if err is not None:
        raise Skip()
    (s1, d1, a1), (s2, d2, a2) = h.seen
    df = [k for k in differ(d1, d2)]
    need(not df, "configured optimiser", "%s: %s" % (w, [(k, str(d1.get(k))[:80], str(d2.get(k))[:80]) for k in df[:6]]))
    need_close(a1, a2, "starting amplitudes", w, 0)
    for k in RES:
        need(getattr(res, k) == getattr(res2, k) or (getattr(res, k) != getattr(res, k)), "result " + k, "%s: %s / %s" % (w, getattr(res, k), getattr(res2, k)))
    need_close(res.final_amps, res2.final_amps, "result amplitudes", w, 0)
    return []


def run_depr(c):
    """deprecated arguments"""
    import qutip_qtrl.pulseoptim as cpo
    d, w = c["d"], c["w"]
    val = {"optim_alg": "FMIN_BFGS", "max_metric_corr": 7, "accuracy_factor": 321.0, "phase_option": "SU", "fid_err_scale_factor": 0.0625}[d]
    o = {"alg": "GRAPE", "m": 2, "seed": 1, "N": 2, "dyn_type": "UNIT", "tdd": False, "tdc": False, "ctr": "list", "n": 3, "num_tslots": 3, "evo_time": 2.0, "args": {}}
    drift, ctrls, X0, XT, t = materials(o)
    if d == "fid_err_scale_factor" and w == "optimize_pulse_unitary":
        return []
    kw = dict(t, max_iter=1)
    if w != "optimize_pulse_unitary":
        kw["dyn_type"] = "UNIT"
    if d == "fid_err_scale_factor":
        kw["fid_type"] = "TRACEDIFF"
    key = {"max_metric_corr": "method_params", "accuracy_factor": "method_params", "phase_option": "fid_params", "fid_err_scale_factor": "fid_params"}.get(d)
    name = {"fid_err_scale_factor": "scale_factor"}.get(d, d)
    want = val
    if key and c["given"]:
        if c["given"] == "other":
            kw[key] = {"user_tag": 5} if key == "fid_params" else {"max_iterations": 1}
        else:
            want = {"phase_option": "PSU", "scale_factor": 0.25}.get(name, 11)
            kw[key] = {name: want}
    kw[d] = val
    cpo.logger.setLevel(30)
    before = copy.deepcopy(kw.get(key))
    with Hook() as h, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = getattr(cpo, w)(drift, ctrls, X0, XT, **kw)
    opt = r if w == "create_pulse_optimizer" else h.seen[-1][0]
    need(kw.get(key) == before, "deprecated argument changed the caller's dictionary", str(kw.get(key)))
    if d == "optim_alg":
        need(cls(opt) == "OptimizerBFGS" and opt.method == val, "optim_alg", cls(opt))
    elif key == "method_params":
        got = getattr(opt, name, (opt.method_options or {}).get(name))
        need(got == want, name, "%r instead of %r" % (got, want))
    else:
        need(getattr(opt.dynamics.fid_computer, name) == want, name, "%r instead of %r" % (getattr(opt.dynamics.fid_computer, name), want))
    return []
