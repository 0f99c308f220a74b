"""C09, C10, C21: the callables given to the minimiser, results, runs."""
from .dynstate import *
from .optim import opt_dyn, crab, ghost, vec
from pyvc.vc import Contract
from pyvc.core import PyExc, Pruned
from pyvc.compare import eq_val
import z3


def mk_real(eng):
    return lambda nm: Sc("r", z3.Real(nm))


def fid_model(eng, d, cls):
    """the fidelity computer and the evolution as functions of the
    amplitudes: E (error), F (fidelity), GRAD, GN (gradient norm), EVO"""
    n, m, N = d.f["_num_tslots"], d.f["_num_ctrls"], nat(eng, "N")
    A = lambda: d.f["ctrl_amps"]
    fc = d.f["fid_computer"]
    E = lambda a: ghost(eng, "E", a, mk_real(eng))
    F = lambda a: ghost(eng, "F", a, mk_real(eng))
    GN = lambda a: ghost(eng, "GN", a, mk_real(eng))
    GR = lambda a: ghost(eng, "GRAD", a, lambda nm: arr2(eng, nm, n, m))
    kd = d.f["_kd"]
    EV = lambda a: ghost(eng, "EVO", a, lambda nm: MatObj(eng, MT.atom(nm), kd, (N, N), d.f["sys_dims"] if kd == "qobj" else None))

    def grad(e, a, k):
        e.write(fc, "grad_norm", GN(A()))
        return GR(A())
    c = eng.contracts
    for q in (cls, "FidelityComputer"):
        c["fidcomp.%s.get_fid_err" % q] = lambda e, a, k: E(A())
        c["fidcomp.%s.get_fidelity" % q] = lambda e, a, k: F(A())
        c["fidcomp.%s.get_fid_err_gradient" % q] = grad
    c["dynamics.Dynamics.full_evo"] = c["dynamics.Dynamics.full_evo.fget"] = lambda e, a, k: EV(A())
    sf = eng.specfns
    for nm, g in (("E", E), ("F", F), ("GN", GN), ("GRAD", GR), ("EVO", EV)):
        sf[nm] = (lambda g: lambda e, a, k: g(lib.to_array(e, a[0])))(g)


def term(eng):
    return obj(eng, "termcond", "TerminationConditions", False, fid_err_targ=real(eng, "targ"), fid_goal=real(eng, "goal"),
               max_wall_time=real(eng, "maxwall"), min_gradient_norm=real(eng, "mingn"), max_iterations=real(eng, "maxit"),
               max_fid_func_calls=real(eng, "maxfun"))


def new_stats(eng, cls="Stats"):
    I = "num_iter num_fidelity_func_calls num_grad_func_calls num_tslot_recompute num_fidelity_computes num_grad_computes num_ctrl_amp_updates num_timeslot_changes num_ctrl_amp_changes"
    I += " num_dyn_gen_computes num_prop_computes num_fwd_prop_step_computes num_onwd_prop_step_computes" if cls != "Stats" else ""
    W = "wall_time_optim_start wall_time_optim_end wall_time_optim wall_time_dyn_gen_compute wall_time_prop_compute wall_time_fwd_prop_compute wall_time_onwd_prop_compute wall_time_gradient_compute " \
        "mean_num_ctrl_amp_updates_per_iter mean_num_timeslot_changes_per_update mean_num_ctrl_amp_changes_per_update"
    return obj(eng, "stats", cls, **{x: nat(eng, "s_" + x, 0) for x in I.split()}, **{x: real(eng, "s_" + x) for x in W.split()})


def run_opt(eng, cls="Optimizer", fid="FidCompUnitary", stats=None, dump=None, **kw):
    fresh_roots(eng)
    d = opt_dyn(eng, fid)
    n, m = d.f["_num_tslots"], d.f["_num_ctrls"]
    o = obj(eng, "optimizer", cls, dynamics=d, log_level=30)
    if cls.startswith("OptimizerCrab"):
        # amplitudes as a function of the CRAB parameters (its contract: C08)
        x = vec(eng, "x", nat(eng, "nvars", 0))

        def amps(e, a, k):
            e.write(a[0], "optim_var_vals", a[1])
            return ghost(e, "CRABAMPS", a[1], lambda nm: arr2(e, nm, n, m))
        eng.contracts["optimizer.OptimizerCrab._get_ctrl_amps"] = amps
        eng.contracts["optimizer.OptimizerCrab._get_optim_var_vals"] = lambda e, a, k: vec(e, "xcur", x.f["shape"][0])
    else:
        x = vec(eng, "x", S.mul(n, m))
    eng.shared.append(x)
    d.f["_kd"] = kw.pop("kd", None) or opt(eng, "nd", "qobj")
    d.f["fid_computer"] = obj(eng, "fidcomp", fid, False, parent=d, grad_norm=real(eng, "gn0"))
    fid_model(eng, d, fid)
    o.f.update(stats=new_stats(eng) if (flag(eng) if stats is None else stats) else None, termination_conditions=term(eng), id_text="OPTIM", alg="GRAPE",
               method="BFGS", num_iter=nat(eng, "NI", 0), num_fid_func_calls=nat(eng, "NF", 0), num_grad_func_calls=nat(eng, "NG", 0),
               wall_time_optimize_start=real(eng, "wstart"), optim_var_vals=Opq("old variables") if cls[9:13] != "Crab" else vec(eng, "xold", x.f["shape"][0]))
    o.f["log_level"] = 30
    o.f["iter_summary"] = o.f["dump"] = None
    if flag(eng) if dump is None else dump:
        o.f["iter_summary"] = obj(eng, "optimizer", "OptimIterSummary", idx=nat(eng, "sidx", 0), iter_num=None, fid_func_call_num=None, grad_func_call_num=None,
                                  fid_err=None, grad_norm=None, wall_time=0.0)
        o.f["dump"] = obj(eng, "dump", "OptimDump", parent=o, dump_fid_err=sbool(eng, "d1"), dump_grad_norm=sbool(eng, "d2"), dump_grad=sbool(eng, "d3"),
                          dump_summary=sbool(eng, "d4"))
        for nm in ("update_fid_err_log", "update_grad_norm_log", "update_grad_log"):
            eng.contracts["dump.OptimDump." + nm] = (lambda nm: lambda e, a, k: e.events_add((nm, a[1])))(nm)
        eng.contracts["dump.OptimDump.add_iter_summary"] = lambda e, a, k: e.events_add(("add_iter_summary",))
    clock(eng)
    return o, d, x


def clock(eng):
    """clock readings: the i-th reading of a call is CLK(i), nondecreasing"""
    C = z3.Function("CLK", z3.IntSort(), z3.RealSort())

    def tick(e, a, k):
        t = e.clockh.f.get("t", 0)
        e.write(e.clockh, "t", t + 1)
        v = C(z3.IntVal(t))
        if t:
            e.fact(v >= C(z3.IntVal(t - 1)))
        return Sc("r", v)
    eng.libhooks["clock"] = tick
    eng.specfns["CLK"] = lambda e, a, k: Sc("r", C(z3.IntVal(a[0])))
    eng.specfns["NCLK"] = lambda e, a, k: e.clockh.f.get("t", 0)


def s_wrap(cls):
    def s(eng):
        o, d, x = run_opt(eng, cls, fid=opt(eng, "FidCompUnitary", "FidCompTraceDiff") if cls == "Optimizer" else "FidCompUnitary", kd="nd",
                          **({} if cls == "Optimizer" else dict(stats=False, dump=False)))
        return [o, x], {}
    return s


def s_exc(eng):
    fresh_roots(eng)
    k = opt(eng, "Goal", "Wall", "Grad", "Max")
    nm = {"Goal": "GoalAchievedTerminate", "Wall": "MaxWallTimeTerminate", "Grad": "GradMinReachedTerminate", "Max": "MaxFidFuncCallTerminate"}[k]
    ex = eng.call(eng.get_class("errors", nm), [real(eng, "v")] if k in ("Goal", "Grad") else [])
    o = obj(eng, "optimizer", "Optimizer", log_level=30)
    r = eng.call(eng.get_class("optimresult", "OptimResult"), [])
    eng.roots.append(r)
    return [o, ex, r], {}


def s_common(eng):
    o, d, x = run_opt(eng, "Optimizer", fid=opt(eng, "FidCompUnitary", "FidCompTraceDiff"), dump=False)
    r = eng.call(eng.get_class("optimresult", "OptimResult"), [])
    eng.roots.append(r)
    return [o, r, real(eng, "t0"), real(eng, "t1")], {}


def s_create(eng):
    o, d, x = run_opt(eng, "Optimizer", dump=False, stats=False)
    return [o], {}


def s_stats(cls):
    def s(eng):
        fresh_roots(eng)
        return [new_stats(eng, cls)], {}
    return s


def built(eng, cls, d, **cfg):
    """an optimiser as its constructor leaves it (the real reset is run)"""
    from pyvc.core import Obj
    o = Obj(eng, eng.get_class("optimizer", cls), False)
    o.f.update(dynamics=d, params=None, config=obj(eng, "optimconfig", "OptimConfig", False, log_level=30, **cfg))
    eng.roots.append(o)
    eng.call(eng.getattr_(o, "reset"), [])
    if d is not None:
        d.f["parent"] = o
    return o


SIG = {
    "minimize": "fun x0 args method jac hess hessp bounds constraints tol callback options",
    "fmin_bfgs": "fun x0 jac args gtol norm epsilon maxiter full_output disp retall callback xrtol c1 c2 hess_inv0",
    "fmin": "fun x0 args xtol ftol maxiter maxfun full_output disp retall callback initial_simplex",
    "fmin_l_bfgs_b": "fun x0 jac args approx_grad bounds m factr pgtol epsilon iprint maxfun maxiter disp callback maxls",
}


def minimisers(eng, o, d, tc, x0want, amps_of, crabopt):
    """SciPy's minimisers: any sequence of calls of the callables given, then
    one of: normal return of an evaluated point, or one of the callables
    ending the run with an exception"""
    g = eng.specfns
    nx = x0want.f["shape"][0]
    st = o.f["stats"]
    fc = d.f["fid_computer"]
    n, m = d.f["_num_tslots"], d.f["_num_ctrls"]
    tick = eng.libhooks["clock"]
    E = lambda a: g["E"](eng, [a], {})
    gt = lambda a, b: S.cmp(">", a, b)
    ob = lambda nm, c: eng.check("minimiser: " + nm, c if S.is_num(c) else eng.truth(c))
    G = {}

    def same(nm, a, b):
        s_, det = eq_val(eng, a, b)
        eng.oblige("minimiser: " + nm, s_, det)

    def run(which):
        def h(e, a, k):
            names = SIG[which].split()
            A = dict(zip(names, a))
            ren = {"f": "fun", "func": "fun", "fprime": "jac"}
            A.update({ren.get(x, x): v for x, v in k.items()})
            targ = tc.f["fid_err_targ"]
            ob("iterations counted from zero", S.cmp("==", o.f["num_iter"], 0))
            ob("cost function calls counted from zero", S.cmp("==", o.f["num_fid_func_calls"], 0))
            ob("gradient calls counted from zero", S.cmp("==", o.f["num_grad_func_calls"], 0))
            same("starts at the current variables", A["x0"], x0want)
            T0 = tick(e, [], {})
            w = o.f["wall_time_optimize_start"]
            ob("the run's start time is known to the callback", S.and_(S.cmp("<=", w, T0), S.cmp(">=", w, g["CLK"](e, [0], {}))))
            lim = lambda nm, v, want: same(nm, v, want)
            if which == "minimize":
                same("method", A.get("method"), o.f["method"])
                op = A.get("options")
                it = op.f["items"] if isinstance(op, PyDict) else {}
                for key, at in (("maxiter", "max_iterations"), ("maxfev", "max_fid_func_calls"), ("gtol", "min_gradient_norm")):
                    if e.branch(S.cmp(">", tc.f[at], 0)):
                        lim("option %s" % key, it.get(key), G["user"] if key == "maxiter" and G.get("user") is not None else tc.f[at])
                if not crabopt:
                    same("bounds", A.get("bounds"), Opq("bounds"))
                else:
                    same("no bounds", A.get("bounds"), None)
            elif which == "fmin_bfgs":
                lim("gradient norm limit", A.get("gtol"), tc.f["min_gradient_norm"])
                lim("iteration limit", A.get("maxiter"), tc.f["max_iterations"])
            elif which == "fmin":
                lim("iteration limit", A.get("maxiter"), tc.f["max_iterations"])
                lim("cost function call limit", A.get("maxfun"), tc.f["max_fid_func_calls"])
            else:
                lim("gradient norm limit", A.get("pgtol"), tc.f["min_gradient_norm"])
                lim("iteration limit", A.get("maxiter"), tc.f["max_iterations"])
                lim("cost function call limit", A.get("maxfun"), tc.f["max_fid_func_calls"])
                same("bounds", A.get("bounds"), Opq("bounds"))
            jac = A.get("jac")
            if which != "fmin":
                ob("gradient given unless approximated", (jac is None) == (o.f["approx_grad"] is True))
            if which == "fmin_l_bfgs_b":
                ob("approximation of the gradient requested iff set", A.get("approx_grad", 0) == o.f["approx_grad"])
            ob("callback given", A.get("callback") is not None)
            kind = opt(e, "ret", "fun", "jac", "cb")
            if kind == "jac" and (jac is None or which == "fmin"):
                raise Pruned()
            # any history of calls
            NI, NF, NG = nat(e, "NIrun", 0), nat(e, "NFrun", 0 if kind == "fun" else 1), nat(e, "NGrun", 0)

            def havoc():
                for at, v in (("num_iter", NI), ("num_fid_func_calls", NF), ("num_grad_func_calls", NG)):
                    e.write(o, at, v)
                if st is not None:
                    for at, v in (("num_iter", NI), ("num_fidelity_func_calls", NF), ("num_grad_func_calls", NG)):
                        e.write(st, at, v)
                e.write(d, "ctrl_amps", arr2(e, "Alast", n, m))
                e.write(fc, "grad_norm", real(e, "GNlast"))
                e.assume(gt(E(d.f["ctrl_amps"]), targ))
                if crabopt:
                    e.write(o, "optim_var_vals", vec(e, "xlast", nx))
            havoc()
            e.assume(S.cmp("<=", NF, tc.f["max_fid_func_calls"]))
            xx = vec(e, "xn", nx)
            T1 = tick(e, [], {})
            G.update(kind=kind, T0=T0, T1=T1, which=which, NI=NI, NF=NF, xx=xx)
            if kind == "fun":
                G["NF"] = S.add(NF, 1)
                try:
                    r = e.call(A["fun"], [xx])
                except PyExc:
                    same("the callable is the cost function (amplitudes)", d.f["ctrl_amps"], amps_of(xx))
                    raise
                same("the callable is the cost function", r, E(amps_of(xx)))
                ob("calls are counted", S.cmp("==", o.f["num_fid_func_calls"], S.add(NF, 1)))
                raise Pruned()
            if kind == "jac":
                Ax = amps_of(xx)
                e.write(d, "ctrl_amps", Ax)
                e.assume(gt(E(Ax), targ))
                r = e.call(jac, [xx])
                GR = g["GRAD"](e, [Ax], {})
                if not crabopt:
                    same("the callable is the gradient", r, lib.reshape(e, GR, (nx,), True))
                raise Pruned()
            if kind == "cb":
                G["NI"] = S.add(NI, 1)
                e.call(A["callback"], [xx])
                ob("iterations are counted", S.cmp("==", o.f["num_iter"], S.add(NI, 1)))
                raise Pruned()
            e.assume(gt(E(amps_of(xx)), targ))
            nit, warn = nat(e, "nit", 0), None
            G.update(nit=nit)
            if which == "minimize":
                res = dict(x=xx, nit=nit, success=flag(e), message=Opq("message"), nfev=NF, fun=E(amps_of(xx)))
                G.update(success=res["success"], message=res["message"])
                for at in res:
                    e.opqattrs[at] = lambda e_, r_, v=res[at]: v
                return Opq("optimize result")
            f, it = E(amps_of(xx)), nit
            if which == "fmin_bfgs":
                warn = opt(e, 0, 1, 2, 3)
                G["warn"] = warn
                return Seq(e, "tuple", items=[xx, f, vec(e, "gopt", nx), Opq("Bopt"), NF, NG, warn])
            if which == "fmin":
                warn = opt(e, 0, 1, 2)
                G["warn"] = warn
                its = [xx, f, nit, NF, warn]
                if A.get("retall"):
                    its.append(Opq("allvecs"))
                return Seq(e, "tuple", items=its)
            warn = opt(e, 0, 1, 2)
            task = {0: opt(e, "CONVERGENCE: NORM OF PROJECTED GRADIENT <= PGTOL", "CONVERGENCE: RELATIVE REDUCTION OF F <= FACTR*EPSMCH") if warn == 0 else "",
                    1: "STOP: TOTAL NO. OF ITERATIONS REACHED LIMIT", 2: "ABNORMAL: "}[warn]
            G.update(warn=warn, task=task)
            return Seq(e, "tuple", items=[xx, f, PyDict(e, {"grad": vec(e, "gopt", nx), "task": task, "funcalls": NF, "nit": nit, "warnflag": warn})])
        return h
    for w in SIG:
        eng.libhooks["scipy.optimize." + w] = run(w)
    def get(e, a, k):
        if a[0] not in G:
            raise Unsupported("the run does not use a modelled SciPy minimiser")
        return G[a[0]]
    g["G"] = get
    g["AMPS"] = lambda e, a, k: amps_of(a[0])
    return G


def s_run(cls):
    def s(eng):
        fresh_roots(eng)
        fid = "FidCompUnitary"
        d = opt_dyn(eng, fid)
        d.f["_kd"] = "nd"
        n, m = d.f["_num_tslots"], d.f["_num_ctrls"]
        o = built(eng, cls, d)
        d.f["fid_computer"] = obj(eng, "fidcomp", fid, False, parent=d, grad_norm=real(eng, "gn0"))
        fid_model(eng, d, fid)
        A0 = d.f["ctrl_amps"]
        crabopt = cls.startswith("OptimizerCrab")
        if crabopt:
            xcur = vec(eng, "xcur", nat(eng, "nvars", 0))

            def amps_of(x):
                return ghost(eng, "CRABAMPS", x, lambda nm: arr2(eng, nm, n, m))

            def ca(e, a, k):
                e.write(a[0], "optim_var_vals", a[1])
                return amps_of(a[1])
            eng.contracts["optimizer.OptimizerCrab._get_ctrl_amps"] = ca
            eng.contracts["optimizer.OptimizerCrab._get_optim_var_vals"] = lambda e, a, k: xcur
            o.f["pulse_generator"] = Seq(eng, "list", items=[])
            eng.contracts["optimizer.OptimizerCrab.init_optim"] = lambda e, a, k: e.call(eng.getattr_(eng.get_class("optimizer", "Optimizer"), "init_optim"), list(a), k)
        else:
            xcur = lib.reshape(eng, A0, (S.mul(n, m),), True)
            amps_of = lambda x: lib.reshape(eng, x, (n, m), True)
        tc = term(eng)
        sc = opt(eng, (True, False, "given"), (False, True, "set"), (True, True, "given"), (False, False, "set"))
        o.f.update(stats=new_stats(eng) if sc[0] else None, num_iter=nat(eng, "NI", 0), num_fid_func_calls=nat(eng, "NF", 0),
                   num_grad_func_calls=nat(eng, "NG", 0), method="BFGS", alg="CRAB" if crabopt else "GRAPE",
                   approx_grad=crabopt or sc[1])
        if crabopt and cls.endswith("Fmin"):
            o.f["record_iteration_steps"] = sc[0]
        how = sc[2]
        if not sc[0]:
            for at in ("max_iterations", "max_fid_func_calls", "min_gradient_norm"):
                eng.assume(S.cmp(">", tc.f[at], 0))
        if how == "set":
            o.f["termination_conditions"] = tc

        def ib(e, a, k):
            if not crabopt:
                e.write(o, "bounds", Opq("bounds"))
        eng.contracts["optimizer.Optimizer._init_bounds"] = ib
        clock(eng)
        minimisers(eng, o, d, tc, xcur, amps_of, crabopt)
        eng.specfns["A0"] = lambda e, a, k: A0
        return [o, tc if how == "given" else None], {}
    return s


def s_mparams(eng):
    fresh_roots(eng)
    o = built(eng, "Optimizer", None)
    tc = term(eng)
    o.f["termination_conditions"] = tc
    P = lambda: PyDict(eng, {"max_iterations": real(eng, "p1"), "amp_lbound": real(eng, "p2"), "newopt": real(eng, "p3"), "oldopt": real(eng, "p4")})
    o.f["method_options"] = mo = opt(eng, None, lambda: PyDict(eng, {"oldopt": real(eng, "o1"), "other": real(eng, "o2")}))
    how = opt(eng, "given", "set", "own", "none", "empty")
    params = {"given": P, "empty": lambda: PyDict(eng, {})}.get(how, lambda: None)()
    if how == "given" or how == "set":
        o.f["method_params"] = PyDict(eng, {"max_wall_time": real(eng, "p5"), "xtol": real(eng, "p6")})
    if how == "own":
        o.f["method_params"] = PyDict(eng, {"alg": "X", "fid_err_targ": real(eng, "p7")})
    for x in (mo, params, o.f["method_params"]):
        if x is not None:
            eng.shared.append(x)
    return [o, params], {}


def s_mopts(eng):
    fresh_roots(eng)
    o = built(eng, opt(eng, "Optimizer", "OptimizerLBFGSB"), None)
    if "max_metric_corr" in o.f:
        o.f["max_metric_corr"] = nat(eng, "mmc")
    tc = term(eng)
    if flag(eng):
        tc.f["accuracy_factor"] = real(eng, "acc")
    o.f["termination_conditions"] = tc
    o.f["disp_conv_msg"] = sbool(eng, "disp")
    v = {x: real(eng, "o_" + x) for x in ("maxcor", "ftol", "maxiter", "maxfev", "gtol", "disp", "max_metric_corr", "accuracy_factor", "other")}
    keys = opt(eng, None, (), ("maxiter",), ("maxfev", "other"), ("gtol", "disp"), ("max_metric_corr", "accuracy_factor"), ("maxcor", "ftol", "max_metric_corr", "accuracy_factor"))
    o.f["method_options"] = None if keys is None else PyDict(eng, {k: v[k] for k in keys})
    if keys is not None:
        eng.shared.append(o.f["method_options"])
    return [o], {}


def s_init(cls):
    def s(eng):
        fresh_roots(eng)
        d = opt_dyn(eng)
        sc = opt(eng, "ok", "notc", "badtc", "nodyn", "notinit")
        cfg = {}
        if cls == "OptimizerLBFGSB":
            k = opt(eng, "none", "zero", "set")
            if k != "none":
                cfg = dict(max_metric_corr=0 if k == "zero" else nat(eng, "cmm"), accuracy_factor=None if k == "zero" else pos(eng, "cacc"))
        o = built(eng, cls, d, **cfg)
        for at in ("num_iter", "num_fid_func_calls", "num_grad_func_calls"):
            o.f[at] = nat(eng, at + "0", 0)
        o.f["iteration_steps"] = Opq("old steps")
        tc = term(eng)
        arg = None if sc == "notc" else (Opq("something else") if sc == "badtc" else tc)
        if sc == "nodyn":
            o.f["dynamics"] = None
        if sc == "notinit":
            d.f["_ctrls_initialized"] = False
        if sc == "ok":
            how = opt(eng, "both", "goal", "targ", "neither", "set", "method")
            if how in ("goal", "neither"):
                tc.f["fid_err_targ"] = None
            if how in ("targ", "neither"):
                tc.f["fid_goal"] = None
            if how in ("set", "goal"):
                o.f["termination_conditions"], arg = tc, None
            if how == "method":
                o.f["method_params"] = PyDict(eng, {"fid_err_targ": real(eng, "p1"), "some_option": real(eng, "p2")})
                eng.shared.append(o.f["method_params"])
            o.f["alg"] = opt(eng, "GRAPE", "CRAB")
            o.f["stats"] = opt(eng, None, lambda: new_stats(eng))
            dm = opt(eng, "none", "dump", "file", "dumpfile")
            if dm in ("dump", "dumpfile"):
                o.f["dump"] = obj(eng, "dump", "OptimDump", parent=o, write_to_file=False)
            o.f["dump_to_file"] = dm in ("file", "dumpfile")
            o.f["iter_summary"] = opt(eng, None, Opq("old summary"))
        eng.contracts["dump.Dump.create_dump_dir"] = lambda e, a, k: e.events_add(("create_dump_dir",))
        eng.contracts["dump.Dump.dump_dir"] = eng.contracts["dump.Dump.dump_dir.fget"] = lambda e, a, k: Opq("dump dir")
        if cls.startswith("OptimizerCrab"):
            m = d.f["_num_ctrls"]
            eng.nonneg_fns = ("nv",)
            nv = z3.Function("nv", z3.IntSort(), z3.IntSort())
            gk = opt(eng, "ok", "none", "count", "notiter", "other") if sc == "ok" and how == "both" else "ok"

            def gen(j):
                g = obj(eng, "pulsegen", "PulseGenCrab")
                g.f["num_optim_vars"] = Sc("i", nv(S.zi(j)))
                eng.fact(nv(S.zi(j)) >= 0)
                return g
            if gk == "none":
                o.f["pulse_generator"] = None
            elif gk == "notiter":
                o.f["pulse_generator"] = obj(eng, "pulsegen", "PulseGen")
            elif gk == "other":
                o.f["pulse_generator"] = Seq(eng, "list", items=[obj(eng, "pulsegen", "PulseGen")])
                eng.assume(S.cmp("==", m, 1))
            else:
                k = S.add(m, 1) if gk == "count" else m
                o.f["pulse_generator"] = Seq(eng, "list", shape=(k,), base=lambda ix: gen(ix[0])) if not S.is_conc(k) else Seq(eng, "list", items=[gen(j) for j in range(k)])
            o.f["num_optim_vars"] = nat(eng, "oldvars", 0)
            eng.specfns["GENS"] = lambda e, a, k: gk
            eng.specfns["NV"] = lambda e, a, k: Sc("i", nv(S.zi(a[0])))
        return [o, arg], {}
    return s


O = "optimizer.Optimizer."
RUN = [Contract("optimizer.%s.run_optimization" % c, s_run(c), None, ["optrun:ens_run"], ["C09", "C10", "C21"], weight=6) for c in
       ("Optimizer", "OptimizerBFGS", "OptimizerLBFGSB", "OptimizerCrabFmin")]
RUN.append(Contract("optimizer.OptimizerCrab.run_optimization", s_run("OptimizerCrab"), None, ["optrun:ens_run"], ["C09", "C10", "C21"]))
CONTRACTS = RUN + [
    Contract(O + "fid_err_func_wrapper", s_wrap("Optimizer"), "optrun:fid_err_func", ["optrun:ens_func"], ["C09", "C10", "C21", "C17"]),
    Contract(O + "fid_err_func_wrapper", s_wrap("OptimizerCrab"), "optrun:fid_err_func", ["optrun:ens_func"], ["C09", "C10"],
             name="optimizer.OptimizerCrab.fid_err_func_wrapper"),
    Contract(O + "fid_err_grad_wrapper", s_wrap("Optimizer"), "optrun:fid_err_grad", ["optrun:ens_grad"], ["C09", "C10", "C21", "C17", "C08"]),
    Contract(O + "iter_step_callback_func", s_wrap("Optimizer"), "optrun:callback", [], ["C09", "C10", "C21", "C17"]),
    Contract(O + "_interpret_term_exception", s_exc, "optrun:interpret", [], ["C09", "C10"]),
    Contract(O + "_add_common_result_attribs", s_common, None, ["optrun:ens_common"], ["C09", "C21"]),
    Contract(O + "_create_result", s_create, None, ["optrun:ens_create"], ["C09"]),
    Contract(O + "apply_method_params", s_mparams, "optrun:apply_method_params", [], ["C10", "C19"]),
    Contract(O + "_build_method_options", s_mopts, "optrun:method_options", [], ["C10", "C19"]),
    Contract(O + "init_optim", s_init("Optimizer"), "optrun:init_optim", [], ["C09", "C10", "C19", "C21"]),
    Contract("optimizer.OptimizerLBFGSB.init_optim", s_init("OptimizerLBFGSB"), "optrun:init_optim_lbfgsb", [], ["C09", "C10"]),
    Contract("optimizer.OptimizerCrab.init_optim", s_init("OptimizerCrab"), "optrun:init_optim_crab", [], ["C08", "C10"]),
    Contract("stats.Stats.clear", s_stats("Stats"), "optrun:stats_clear", [], ["C21"]),
    Contract("stats.Stats.calculate", s_stats("Stats"), "optrun:stats_calc", [], ["C21"]),
    Contract("stats.StatsDynTsUpdate.clear", s_stats("StatsDynTsUpdate"), "optrun:stats_ts_clear", [], ["C21"]),
]
