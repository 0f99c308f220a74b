"""C19, C20: the entry points."""
import ast
from .dynstate import *
from pyvc.vc import Contract
from pyvc.interp import LibFn


def start(eng, level=False):
    fresh_roots(eng)
    eng.libhooks["warnings.warn"] = lambda e, a, k: None
    eng.specfns["LEVEL"] = lambda e, a, k: e.loglevel if a[0] == 0 else a[0]


def params_of(eng, qual):
    mod, name = qual.split(".")
    f = eng.module_get(eng.module(mod), name)
    return [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]


def given(eng, qual, **fix):
    """every argument an arbitrary value, unless a choice is stated; dicts belong to the caller"""
    kw = {}
    for n in params_of(eng, qual):
        v = fix[n](eng) if n in fix else Opq("arg", n)
        if isinstance(v, PyDict):
            eng.shared.append(v)
            eng.shared.extend(x for x in v.f["items"].values() if isinstance(x, PyDict))
        elif isinstance(v, Seq):
            eng.shared.append(v)
        kw[n] = v
    return [], kw


def calls(eng, *quals):
    """the functions called are abstracted: their arguments are recorded"""
    log = Seq(eng, "list", items=[])
    log.f["items"] = []
    eng.roots.append(log)

    def hook(qual):
        def h(e, a, k):
            mod, name = qual.split(".")
            env = e.bind(e.module_get(e.module(mod), name), a, k)
            i = len(log.f["items"])
            r = Opq("result", i)
            e.write(log, "items", log.f["items"] + [Seq(e, "tuple", items=[PyDict(e, env), r])])
            return r
        return h
    for q in quals:
        eng.contracts[q] = hook(q)
    eng.specfns["NCALLS"] = lambda e, a, k: len(log.f["items"])
    eng.specfns["CALL"] = lambda e, a, k: log.f["items"][a[0]].f["items"][0]
    eng.specfns["RESULT"] = lambda e, a, k: log.f["items"][a[0]].f["items"][1]


def one_of(*vals):
    def f(eng):
        v = opt(eng, *vals)
        return PyDict(eng, v) if isinstance(v, dict) else v
    return f


def val(n):
    """some value that is neither None nor of a type asked for"""
    return Opq("typed", "value", n)


def dict_with(*keys, none=True, other="some_option"):
    """no options, options without, or with, each of the keys"""
    vals = [None] if none else []
    base = {other: val(other)}
    vals.append(base)
    for r in range(1, 1 << len(keys)):
        d = dict(base)
        for i, k in enumerate(keys):
            if r >> i & 1:
                d[k] = "SU" if k == "phase_option" else val(k)
        vals.append(d)
    return one_of(*vals)


def real_arg(n):
    return lambda eng: real(eng, n)


MAYBE = lambda n: one_of(None, val(n))
P = "pulseoptim."
LV = {"log_level": one_of(0, 30)}


def s_unitary(part):
    def s(eng):
        start(eng)
        calls(eng, P + "optimize_pulse")
        fix = dict(optim_alg=one_of(None), max_metric_corr=one_of(None), accuracy_factor=one_of(None), amp_update_mode=one_of(None),
                   log_level=one_of(30))
        if part == "deprecated":
            fix.update(optim_alg=MAYBE("optim_alg"), max_metric_corr=MAYBE("mmc"), accuracy_factor=MAYBE("af"),
                       method_params=dict_with("max_metric_corr", "accuracy_factor"), fid_params=one_of(None), phase_option=one_of(None))
        else:
            fix.update(amp_update_mode=one_of(None, "ALL", "all", "DYNAMIC"), phase_option=MAYBE("phase_option"),
                       fid_params=dict_with("phase_option"), method_params=dict_with(), **LV)
        return given(eng, P + "optimize_pulse_unitary", **fix)
    return s


def s_crab(name, part):
    def s(eng):
        start(eng)
        calls(eng, P + ("optimize_pulse_unitary" if "unitary" in name else "optimize_pulse"))
        fix = dict(log_level=one_of(30), method_params=dict_with(none=False), fid_params=dict_with(none=False))
        if "unitary" in name:
            fix.update(phase_option=one_of("PSU"))
        if part == "fidelity":
            fix.update(alg_params=one_of(None), guess_pulse_type=one_of(None), fid_params=dict_with("phase_option"), phase_option=one_of(None, "PSU"))
        elif part == "options":
            fix.update(alg_params=dict_with("num_coeffs", "init_coeff_scaling"), num_coeffs=MAYBE("num_coeffs"),
                       init_coeff_scaling=MAYBE("init_coeff_scaling"), guess_pulse_type=one_of(None, "LIN"),
                       guess_pulse_params=one_of(None), **LV)
        else:
            fix.update(alg_params=one_of(None), guess_pulse_type=one_of(None, "", "LIN"), guess_pulse_params=dict_with("scaling", "offset", "pulse_action"),
                       guess_pulse_scaling=MAYBE("gs"), guess_pulse_offset=MAYBE("go"), guess_pulse_action=MAYBE("ga"))
        return given(eng, P + name, **fix)
    return s


def s_optimize(part):
    """create_pulse_optimizer abstracted: any optimiser with its dynamics and
    pulse generators"""
    def s(eng):
        start(eng)
        n, m, k = nat(eng, "n"), nat(eng, "m"), nat(eng, "k")
        calls(eng, P + "create_pulse_optimizer")
        fix = dict(log_level=one_of(30), method_params=one_of(None), fid_params=one_of(None), optim_alg=one_of(None), max_metric_corr=one_of(None),
                   accuracy_factor=one_of(None), amp_update_mode=one_of(None), phase_option=one_of(None), fid_err_scale_factor=one_of(None),
                   out_file_ext=one_of(None), alg=one_of("GRAPE"), amp_lbound=real_arg("lb"), amp_ubound=real_arg("ub"))
        lst = lambda nm: (lambda e: opt(e, None, lambda: real(e, nm), lambda: vec(e, nm, k, kind="list")))
        if part == "method":
            fix.update(optim_alg=MAYBE("optim_alg"), max_metric_corr=MAYBE("mmc"), accuracy_factor=MAYBE("af"),
                       method_params=dict_with("max_metric_corr", "accuracy_factor"), **LV)
        elif part == "fidelity":
            fix.update(phase_option=one_of(None, "PSU"), fid_err_scale_factor=MAYBE("scale"), fid_params=dict_with("phase_option", "scale_factor"),
                       amp_update_mode=one_of(None, "all", "DYNAMIC"))
        else:
            fix.update(alg=one_of("GRAPE", "grape", "CRAB", "crab"), amp_lbound=lst("lb"), amp_ubound=lst("ub"), out_file_ext=one_of(None, "x.txt"))
        a, kw = given(eng, P + "optimize_pulse", **fix)
        d = obj(eng, "dynamics", "DynamicsUnitary", _num_tslots=n, _num_ctrls=m, log_level=30, _timeslots_initialized=True,
                _dyn_gen_mapped=True)
        o = obj(eng, "optimizer", "Optimizer", dynamics=d)
        crab = kw["alg"].upper() == "CRAB"
        I, R = z3.IntSort(), z3.RealSort()
        if crab:
            o.f["pulse_generator"] = Seq(eng, "list", shape=(m,), base=lambda ix: Opq("obj", "pgen", ix[0]))
            cf = z3.Function("CRABPULSE", I, I, R)
            eng.opqhooks.update(init_pulse=lambda e, r, a, k: None, gen_pulse=lambda e, r, a, k: Seq(
                e, "ndarray", shape=(n,), base=lambda ix: Sc("r", cf(S.zi(r.tag[2]), S.zi(ix[0]))), dtype="float"))
        else:
            lb, ub = kw["amp_lbound"], kw["amp_ubound"]
            pg = obj(eng, "pulsegen", "PulseGenSine", open_=False, lbound=lb, ubound=ub, log_level=30)
            o.f["pulse_generator"] = pg
            gf = z3.Function("GENPULSE", R, z3.BoolSort(), R, z3.BoolSort(), I, R)

            def pulse(l, u):
                z = lambda b: (z3.RealVal(0), z3.BoolVal(True)) if b is None else (S.zr(b), z3.BoolVal(False))
                return lambda ix: Sc("r", gf(*z(l), *z(u), S.zi(ix[0])))
            eng.contracts["pulsegen.PulseGenPeriodic.init_pulse"] = lambda e, a, k: None
            eng.contracts["pulsegen.PulseGenSine.gen_pulse"] = lambda e, a, k: Seq(
                e, "ndarray", shape=(n,), base=pulse(e.getattr_(pg, "lbound"), e.getattr_(pg, "ubound")), dtype="float")
            eng.specfns["GENERATED"] = lambda e, a, k: pulse(a[0], a[1])((a[2],))
        eng.specfns["CRABPULSE"] = lambda e, a, k: Sc("r", cf(S.zi(a[0]), S.zi(a[1])))
        created = eng.contracts[P + "create_pulse_optimizer"]

        def create(e, a, k):
            created(e, a, k)
            return o
        eng.contracts[P + "create_pulse_optimizer"] = create

        def init(e, a, k):
            e.events_add(("initialize_controls", a[1]))
        res = Opq("obj", "result")

        def run(e, a, k):
            e.events_add(("run_optimization", tuple(a[1:]) == () and not k))
            return res
        eng.contracts["dynamics.Dynamics.init_timeslots"] = lambda e, a, k: None
        eng.contracts["dynamics.DynamicsUnitary.initialize_controls"] = init
        eng.contracts["dynamics.Dynamics.save_amps"] = lambda e, a, k: e.events_add(("save_amps", a[1]))
        eng.contracts["optimizer.Optimizer.run_optimization"] = run
        sf = eng.specfns
        sf.update(RES=lambda e, a, k: res, NSLOTS=lambda e, a, k: n, NCTRLS=lambda e, a, k: m)
        return a, kw
    return s


def sym(eng, nm):
    """symbolic also where other sizes are bounded"""
    v = Sc("i", z3.Int(nm))
    eng.assume(S.cmp(">=", v, 1))
    return v


def s_create(part):
    def s(eng):
        start(eng)
        N, m, n = sym(eng, "N"), nat(eng, "m"), sym(eng, "n")
        shp = (N, N)
        q = lambda nm: (lambda e: mat(e, nm, kind="qobj", shape=shp))
        none = one_of(None)
        fix = dict(drift=q("DRIFT"), ctrls=lambda e: matlist(e, "CTRL", m, kind="qobj", shape=shp), initial=q("INITIAL"), target=q("TARGET"),
                   alg=one_of("GRAPE"), optim_method=one_of("DEF"), optim_alg=none, method_params=none, max_metric_corr=none,
                   accuracy_factor=none, amp_update_mode=none, phase_option=none, fid_err_scale_factor=none, fid_params=none, optim_params=none,
                   dyn_params=none, prop_params=none, tslot_params=none, alg_params=none, log_level=one_of(30), gen_stats=one_of(False),
                   dyn_type=one_of("GEN_MAT"), prop_type=one_of("DEF"), fid_type=one_of("DEF"), init_pulse_type=one_of("DEF"),
                   init_pulse_params=none, ramping_pulse_type=none, ramping_pulse_params=none, tau=none,
                   num_tslots=lambda e: n, evo_time=real_arg("T"), amp_lbound=one_of(val("lb")), amp_ubound=one_of(val("ub")))
        for k in ("fid_err_targ", "min_grad", "max_iter", "max_wall_time", "pulse_scaling", "pulse_offset"):
            fix[k] = real_arg(k)
        if part == "types":
            fix.update(dyn_type=one_of("GEN_MAT", "", None, "UNIT", "SYMPL", "OTHER"),
                       prop_type=one_of("DEF", "", None, "APPROX", "DIAG", "AUG_MAT", "FRECHET", "OTHER"),
                       fid_type=one_of("DEF", "def", "", None, "TDAPPROX", "td_approx", "TRACEDIFF", "UNIT", "unit", "OTHER"))
        elif part == "methods":
            fix.update(alg=one_of("GRAPE", "grape", None, "OTHER"), optim_method=one_of("DEF", None, "", "FMIN_BFGS", "LBFGSB", "fmin_l_bfgs_b", "FMIN", "CG"),
                       optim_alg=one_of(None, "fmin_bfgs"), dyn_type=one_of("UNIT"))
        elif part == "pulses":
            fix.update(init_pulse_type=one_of(None, "DEF", "RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2", "LIN", "ZERO", "SINE", "SQUARE",
                                              "SAW", "TRIANGLE", "GAUSSIAN", "CRAB_FOURIER", "GAUSSIAN_EDGE", "OTHER"),
                       init_pulse_params=dict_with(), gen_stats=sb("gen_stats"), amp_update_mode=one_of(None, "DYNAMIC"),
                       ramping_pulse_type=one_of(None, "GAUSSIAN_EDGE", "OTHER"), ramping_pulse_params=dict_with())
        elif part == "grid":
            fix.update(tau=lambda e: opt(e, None, lambda: vec(e, "tau", n)), evo_time=lambda e: opt(e, None, lambda: real(e, "T")),
                       num_tslots=lambda e: opt(e, None, 0, lambda: n), dyn_type=one_of("GEN_MAT", "UNIT", "SYMPL"), gen_stats=sb("gen_stats"))
        elif part == "options":
            fix.update(dyn_params=dict_with(), prop_params=dict_with(), fid_params=dict_with("phase_option", "scale_factor"), tslot_params=dict_with(),
                       dyn_type=one_of("GEN_MAT", "UNIT"), phase_option=one_of(None, "PSU"), fid_err_scale_factor=MAYBE("scale"))
        elif part == "method options":
            fix.update(optim_params=dict_with("amp_lbound"), method_params=dict_with("max_metric_corr", "accuracy_factor", "fid_err_targ", "max_iterations", other="scipy_option"),
                       max_metric_corr=MAYBE("mmc"), accuracy_factor=MAYBE("af"), optim_method=one_of("DEF", "CG"))
        elif part.startswith("crab"):
            # bounded: number of controls
            fix.update(alg=one_of("CRAB"), ctrls=lambda e: matlist(e, "CTRL", m, kind="qobj", shape=shp))
            bd = lambda nm: (lambda e: opt(e, None, lambda: real(e, nm), lambda: vec(e, nm, m, kind="list"), lambda: vec(e, nm, 1, kind="list")))
            if part == "crab algorithm":
                fix.update(optim_method=one_of("DEF", "fmin", "FMIN_BFGS", "LBFGSB", "CG"), prop_type=one_of("DEF", None, "FRECHET"),
                           dyn_type=one_of("GEN_MAT", "UNIT"), alg=one_of("CRAB", "crab"),
                           alg_params=one_of(None, {}, dict(num_coeffs=3, init_coeff_scaling=val("ics")),
                                             dict(fix_frequency=False, crab_pulse_params=PyDict(eng, dict(some_option=val("cp"), scaling=val("cs"))))))
            else:
                fix.update(init_pulse_type=one_of(None, "DEF", "LIN"), amp_lbound=bd("lb"), amp_ubound=bd("ub"),
                           init_pulse_params=one_of(None, dict(start_val=val("sv"), pulse_action="ADD"), dict(scaling=Fraction(3), offset=Fraction(1))),
                           ramping_pulse_type=one_of(None, "GAUSSIAN_EDGE"), ramping_pulse_params=one_of(dict(decay_time=val("dt"))))

        def pulse(tag):
            def h(e, a, k):
                g = a[0]
                at = lambda nm: e.getattr_(g, nm)
                r = Seq(e, "ndarray", shape=(n,), base=lambda ix: Sc("r", z3.Function(tag, z3.IntSort(), z3.RealSort())(S.zi(ix[0]))), dtype="float")
                e.write(r, "made", PyDict(e, {nm: at(nm) for nm in ("lbound", "ubound", "scaling", "offset", "params")}))
                return r
            return h
        eng.contracts["pulsegen.PulseGenLinear.init_pulse"] = lambda e, a, k: None
        eng.contracts["pulsegen.PulseGenLinear.gen_pulse"] = pulse("GUESS")
        eng.contracts["pulsegen.PulseGenGaussianEdge.gen_pulse"] = pulse("RAMP")
        eng.specfns["MADE"] = lambda e, a, k: a[0].f["made"]
        return given(eng, P + "create_pulse_optimizer", **fix)
    return s


def sb(n):
    return lambda eng: sbool(eng, n)


def s_bound(eng):
    fresh_roots(eng)
    j = nat(eng, "j", 0)
    n = nat(eng, "nb", 0)
    b = opt(eng, None, lambda: real(eng, "b"), lambda: Seq(eng, "list", items=[]), lambda: vec(eng, "b", n, kind="list"))
    return [b, j], {}


def s_upper(eng):
    fresh_roots(eng)
    return [opt(eng, None, "", "def", "Approx", "UNIT", 3)], {}


APPLY = {
    "dynamics.Dynamics": ("dynamics", "DynamicsGenMat"), "propcomp.PropagatorComputer": ("propcomp", "PropCompFrechet"),
    "fidcomp.FidelityComputer": ("fidcomp", "FidCompTraceDiff"), "tslotcomp.TimeslotComputer": ("tslotcomp", "TSlotCompUpdateAll"),
    "optimizer.Optimizer": ("optimizer", "Optimizer"), "pulsegen.PulseGen": ("pulsegen", "PulseGenSine"),
}


def s_apply(mod, cls):
    def s(eng):
        fresh_roots(eng)
        v = lambda *ks: {k: val(k) for k in ks}
        par = opt(eng, None, {}, v("a"), v("a", "b"), v("b", "new"))
        own = opt(eng, None, v("a"), v("a", "c"))
        par, own = [PyDict(eng, x) if isinstance(x, dict) else x for x in (par, own)]
        for x in (par, own):
            if x is not None:
                eng.shared.append(x)
        o = obj(eng, mod, cls, open_=False, params=own, a=Opq("old", "a"), b=Opq("old", "b"), c=Opq("old", "c"), d=Opq("old", "d"))
        return [o, par], {}
    return s


PR = ["C19", "C20"]
CONTRACTS = [
    Contract(P + "_get_ctrl_bound", s_bound, "route:ctrl_bound", [], ["C20"]),
    Contract(P + "_upper_safe", s_upper, None, ["route:ens_upper"], ["C20"]),
] + [
    Contract(q + ".apply_params", s_apply(*mc), "route:apply_params", [], PR) for q, mc in APPLY.items()
] + [
    Contract(P + "optimize_pulse_unitary", s_unitary(p), None, ["route:ens_unitary"], PR, name="optimize_pulse_unitary[%s]" % p)
    for p in ("deprecated", "other")
] + [
    Contract(P + "optimize_pulse", s_optimize(p), None, ["route:ens_optimize"], PR + ["C11"], name="optimize_pulse[%s]" % p)
    for p in ("method", "fidelity", "pulses")
] + [
    Contract(P + "create_pulse_optimizer", s_create(p), None, ["route:ens_create"], PR, name="create_pulse_optimizer[%s]" % p, checkexc=None)
    for p in ("types", "methods", "pulses", "grid", "options", "method options")
] + [
    Contract(P + "create_pulse_optimizer", s_create(p), None, ["route:ens_create"], PR, name="create_pulse_optimizer[%s]" % p, checkexc=None, bounded=3)
    for p in ("crab algorithm", "crab pulses")
] + [
    Contract(P + f, s_crab(f, p), None, ["route:" + e], PR, name="%s[%s]" % (f, p))
    for f, e in (("opt_pulse_crab", "ens_crab"), ("opt_pulse_crab_unitary", "ens_crab_unitary"))
    for p in ("options", "guess") + (("fidelity",) if "unitary" in f else ())
]
