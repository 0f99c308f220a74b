"""C19, C20: options given to the entry points reach the components they name."""
from qutip_qtrl.errors import UsageError




def ctrl_bound(bound, ctrl):
    if isinstance(bound, list):
        if len(bound) == 0:
            return None
        return bound[ite(ctrl < len(bound) - 1, ctrl, len(bound) - 1)]
    return bound


def ens_upper(s, result):
    if isinstance(s, str):
        check("upper case", result == s.upper())
    else:
        check("other values as they are", is_same(result, s))


def apply_params(self, params):
    if params:
        p = params
    else:
        p = self.params
    if isinstance(p, dict):
        self.params = p
        for k in p:
            setattr(self, k, p[k])


def plus(d, key, v):
    """the options with one more, unless it is given already"""
    if v is None:
        return d
    if not isinstance(d, dict):
        return {key: v}
    if key in d:
        return d
    out = {}
    for k in d:
        out[k] = d[k]
    out[key] = v
    return out


def same_options(what, given, want):
    """options absent and options that are None mean the same"""
    w = {} if want is None else want
    g = {} if given is None else given
    check(what + ": a dict or nothing", isinstance(g, dict))
    for k in w:
        if w[k] is not None:
            check(what + ": option is there: " + k, k in g)
            check_eq(what + ": option " + k, g[k], w[k])
    for k in g:
        if g[k] is not None:
            check(what + ": no other option", k in w)


PLAIN = ("num_tslots", "evo_time", "tau", "amp_lbound", "amp_ubound", "fid_err_targ", "max_iter", "max_wall_time",
         "optim_params", "dyn_params", "tslot_params", "ramping_pulse_type", "ramping_pulse_params",
         "gen_stats")


def forwarded(c, want):
    for k in want:
        check("argument " + k, k in c)
        check_eq("argument " + k, c[k], want[k])


def no_deprecated(c):
    for k in ("optim_alg", "max_metric_corr", "accuracy_factor", "fid_err_scale_factor", "amp_update_mode"):
        if k in c:
            check("deprecated argument not given again: " + k, c[k] is None)


def ens_unitary(H_d, H_c, U_0, U_targ, num_tslots, evo_time, tau, amp_lbound, amp_ubound, fid_err_targ, min_grad, max_iter, max_wall_time,
                alg, alg_params, optim_params, optim_method, method_params, optim_alg, max_metric_corr, accuracy_factor, phase_option,
                dyn_params, prop_params, fid_params, tslot_type, tslot_params, amp_update_mode, init_pulse_type, init_pulse_params,
                pulse_scaling, pulse_offset, ramping_pulse_type, ramping_pulse_params, log_level, out_file_ext, gen_stats, result):
    check("one call", NCALLS() == 1)
    c = CALL(0)
    check("the result is passed on", is_same(result, RESULT(0)))
    forwarded(c, dict(drift=H_d, ctrls=H_c, initial=U_0, target=U_targ, num_tslots=num_tslots, evo_time=evo_time, tau=tau,
                      amp_lbound=amp_lbound, amp_ubound=amp_ubound, fid_err_targ=fid_err_targ, min_grad=min_grad, max_iter=max_iter,
                      max_wall_time=max_wall_time, alg=alg, alg_params=alg_params, optim_params=optim_params,
                      dyn_type="UNIT", dyn_params=dyn_params, prop_type="DEF", prop_params=prop_params, fid_type="DEF",
                      tslot_params=tslot_params, init_pulse_type=init_pulse_type, init_pulse_params=init_pulse_params,
                      pulse_scaling=pulse_scaling, pulse_offset=pulse_offset, ramping_pulse_type=ramping_pulse_type,
                      ramping_pulse_params=ramping_pulse_params, log_level=log_level, out_file_ext=out_file_ext, gen_stats=gen_stats))
    # the deprecated ones may be translated here or by the function called
    check_eq("optimisation method", optim_method if optim_alg is None else optim_alg, c["optim_method"] if c["optim_alg"] is None else c["optim_alg"])
    same_options("method options", plus(plus(c["method_params"], "max_metric_corr", c["max_metric_corr"]), "accuracy_factor", c["accuracy_factor"]),
                 plus(plus(method_params, "max_metric_corr", max_metric_corr), "accuracy_factor", accuracy_factor))
    same_options("fidelity options", plus(c["fid_params"], "phase_option", c["phase_option"]), plus(fid_params, "phase_option", phase_option))


def crab_options(alg_params, num_coeffs, init_coeff_scaling):
    return plus(plus(alg_params, "num_coeffs", num_coeffs), "init_coeff_scaling", init_coeff_scaling)


def crab_checks(c, alg_params, num_coeffs, init_coeff_scaling, guess_pulse_type, guess_pulse_params, guess_pulse_scaling, guess_pulse_offset,
                guess_pulse_action):
    check_eq("minimum gradient", c["min_grad"], 0.0)
    check_eq("algorithm", c["alg"], "CRAB")
    same_options("algorithm options", c["alg_params"], crab_options(alg_params, num_coeffs, init_coeff_scaling))
    check_eq("type of the guess pulse", c["init_pulse_type"], guess_pulse_type)
    if guess_pulse_type:
        same_options("guess pulse options", c["init_pulse_params"],
                     plus(plus(plus(guess_pulse_params, "scaling", guess_pulse_scaling), "offset", guess_pulse_offset),
                          "pulse_action", guess_pulse_action))


def ens_crab(drift, ctrls, initial, target, num_tslots, evo_time, tau, amp_lbound, amp_ubound, fid_err_targ, max_iter, max_wall_time,
             alg_params, num_coeffs, init_coeff_scaling, optim_params, optim_method, method_params, dyn_type, dyn_params, prop_type,
             prop_params, fid_type, fid_params, tslot_type, tslot_params, guess_pulse_type, guess_pulse_params, guess_pulse_scaling,
             guess_pulse_offset, guess_pulse_action, ramping_pulse_type, ramping_pulse_params, log_level, out_file_ext, gen_stats, result):
    check("one call", NCALLS() == 1)
    c = CALL(0)
    check("the result is passed on", is_same(result, RESULT(0)))
    forwarded(c, dict(drift=drift, ctrls=ctrls, initial=initial, target=target, num_tslots=num_tslots, evo_time=evo_time, tau=tau,
                      amp_lbound=amp_lbound, amp_ubound=amp_ubound, fid_err_targ=fid_err_targ, max_iter=max_iter,
                      max_wall_time=max_wall_time, optim_params=optim_params, optim_method=optim_method, method_params=method_params,
                      dyn_type=dyn_type, dyn_params=dyn_params, prop_type=prop_type, prop_params=prop_params, fid_type=fid_type,
                      fid_params=fid_params, tslot_params=tslot_params, ramping_pulse_type=ramping_pulse_type,
                      ramping_pulse_params=ramping_pulse_params, log_level=LEVEL(log_level), out_file_ext=out_file_ext, gen_stats=gen_stats))
    no_deprecated(c)
    check("phase option not given", c["phase_option"] is None)
    crab_checks(c, alg_params, num_coeffs, init_coeff_scaling, guess_pulse_type, guess_pulse_params, guess_pulse_scaling, guess_pulse_offset,
                guess_pulse_action)


def ens_crab_unitary(H_d, H_c, U_0, U_targ, num_tslots, evo_time, tau, amp_lbound, amp_ubound, fid_err_targ, max_iter, max_wall_time,
                     alg_params, num_coeffs, init_coeff_scaling, optim_params, optim_method, method_params, phase_option, dyn_params,
                     prop_params, fid_params, tslot_type, tslot_params, guess_pulse_type, guess_pulse_params, guess_pulse_scaling,
                     guess_pulse_offset, guess_pulse_action, ramping_pulse_type, ramping_pulse_params, log_level, out_file_ext,
                     gen_stats, result):
    check("one call", NCALLS() == 1)
    c = CALL(0)
    check("the result is passed on", is_same(result, RESULT(0)))
    forwarded(c, dict(H_d=H_d, H_c=H_c, U_0=U_0, U_targ=U_targ, num_tslots=num_tslots, evo_time=evo_time, tau=tau,
                      amp_lbound=amp_lbound, amp_ubound=amp_ubound, fid_err_targ=fid_err_targ, max_iter=max_iter,
                      max_wall_time=max_wall_time, optim_params=optim_params, optim_method=optim_method, method_params=method_params,
                      dyn_params=dyn_params, prop_params=prop_params,
                      tslot_params=tslot_params, ramping_pulse_type=ramping_pulse_type,
                      ramping_pulse_params=ramping_pulse_params, log_level=LEVEL(log_level), out_file_ext=out_file_ext, gen_stats=gen_stats))
    no_deprecated(c)
    same_options("fidelity options", plus(c["fid_params"], "phase_option", c["phase_option"]), plus(fid_params, "phase_option", phase_option))
    crab_checks(c, alg_params, num_coeffs, init_coeff_scaling, guess_pulse_type, guess_pulse_params, guess_pulse_scaling, guess_pulse_offset,
                guess_pulse_action)


def ens_optimize(drift, ctrls, initial, target, num_tslots, evo_time, tau, amp_lbound, amp_ubound, fid_err_targ, min_grad, max_iter,
                 max_wall_time, alg, alg_params, optim_params, optim_method, method_params, optim_alg, max_metric_corr, accuracy_factor,
                 dyn_type, dyn_params, prop_type, prop_params, fid_type, fid_params, phase_option, fid_err_scale_factor, tslot_type,
                 tslot_params, amp_update_mode, init_pulse_type, init_pulse_params, pulse_scaling, pulse_offset, ramping_pulse_type,
                 ramping_pulse_params, log_level, out_file_ext, gen_stats, result):
    check("one call", NCALLS() == 1)
    c = CALL(0)
    forwarded(c, dict(drift=drift, ctrls=ctrls, initial=initial, target=target, num_tslots=num_tslots, evo_time=evo_time, tau=tau,
                      amp_lbound=amp_lbound, amp_ubound=amp_ubound, fid_err_targ=fid_err_targ, min_grad=min_grad, max_iter=max_iter,
                      max_wall_time=max_wall_time, alg=alg, alg_params=alg_params, optim_params=optim_params,
                      dyn_type=dyn_type, dyn_params=dyn_params, prop_type=prop_type, prop_params=prop_params, fid_type=fid_type,
                      tslot_params=tslot_params, init_pulse_type=init_pulse_type, init_pulse_params=init_pulse_params,
                      pulse_scaling=pulse_scaling, pulse_offset=pulse_offset, ramping_pulse_type=ramping_pulse_type,
                      ramping_pulse_params=ramping_pulse_params, log_level=LEVEL(log_level), gen_stats=gen_stats))
    check_eq("optimisation method", optim_method if optim_alg is None else optim_alg, c["optim_method"] if c["optim_alg"] is None else c["optim_alg"])
    same_options("method options", plus(plus(c["method_params"], "max_metric_corr", c["max_metric_corr"]), "accuracy_factor", c["accuracy_factor"]),
                 plus(plus(method_params, "max_metric_corr", max_metric_corr), "accuracy_factor", accuracy_factor))
    same_options("fidelity options", plus(plus(c["fid_params"], "phase_option", c["phase_option"]), "scale_factor", c["fid_err_scale_factor"]),
                 plus(plus(fid_params, "phase_option", phase_option), "scale_factor", fid_err_scale_factor))
    check("the result of the run is returned", is_same(result, RES()))
    ev = events()
    names = [e[0] for e in ev]
    n, m = NSLOTS(), NCTRLS()
    if out_file_ext is None:
        check("the controls are set, then the optimiser runs", names == ["initialize_controls", "run_optimization"])
        check("run with the stored conditions", ev[1][1])
    else:
        check("the controls are set and saved, the optimiser runs, the controls are saved",
              names == ["initialize_controls", "save_amps", "run_optimization", "save_amps"])
        check_eq("file of the initial amplitudes", ev[1][1], "ctrl_amps_initial_" + out_file_ext)
        check_eq("file of the final amplitudes", ev[3][1], "ctrl_amps_final_" + out_file_ext)
        check("run with the stored conditions", ev[2][1])
    A = ev[0][1]
    check("shape of the initial amplitudes", A.shape == (n, m))
    k, j = any_int(0, n), any_int(0, m)
    if alg.upper() == "CRAB":
        check_eq("initial amplitudes: those of the generator of the control", A[k, j], CRABPULSE(j, k))
    else:
        check_eq("initial amplitudes: generated within the bounds of the control", A[k, j],
                 GENERATED(ctrl_bound(amp_lbound, j), ctrl_bound(amp_ubound, j), k))


def upper(s):
    return s.upper() if isinstance(s, str) else s


DYN = {"GEN_MAT": "DynamicsGenMat", "": "DynamicsGenMat", None: "DynamicsGenMat", "UNIT": "DynamicsUnitary", "SYMPL": "DynamicsSymplectic"}
PROP = {"APPROX": "PropCompApproxGrad", "DIAG": "PropCompDiag", "AUG_MAT": "PropCompAugMat", "FRECHET": "PropCompFrechet"}
FID = {"TDAPPROX": "FidCompTraceDiffApprox", "TD_APPROX": "FidCompTraceDiffApprox", "TRACEDIFF": "FidCompTraceDiff", "UNIT": "FidCompUnitary"}
PULSE = {"RND": "PulseGenRandom", "RNDFOURIER": "PulseGenRndFourier", "RNDWAVES": "PulseGenRndWaves", "RNDWALK1": "PulseGenRndWalk1",
         "RNDWALK2": "PulseGenRndWalk2", "LIN": "PulseGenLinear", "ZERO": "PulseGenZero", "SINE": "PulseGenSine", "SQUARE": "PulseGenSquare",
         "SAW": "PulseGenSaw", "TRIANGLE": "PulseGenTriangle", "GAUSSIAN": "PulseGenGaussian", "CRAB_FOURIER": "PulseGenCrabFourier",
         "GAUSSIAN_EDGE": "PulseGenGaussianEdge"}


def optimizer_class(method, crab):
    """None: not a valid choice"""
    if method == "FMIN_BFGS":
        return "OptimizerBFGS"
    if method in ("LBFGSB", "FMIN_L_BFGS_B"):
        return "OptimizerLBFGSB"
    if method == "FMIN":
        return "OptimizerCrabFmin" if crab else None
    if method == "":
        return None
    return "OptimizerCrab" if crab else "Optimizer"


def is_default(s):
    return s is None or upper(s) == "DEF"


def options_set(what, o, opts, but):
    if isinstance(opts, dict):
        for k in opts:
            if k not in but:
                check_eq(what + ": " + k, getattr(o, k), opts[k])


def ens_create(drift, ctrls, initial, target, num_tslots, evo_time, tau, amp_lbound, amp_ubound, fid_err_targ, min_grad, max_iter,
               max_wall_time, alg, alg_params, optim_params, optim_method, method_params, optim_alg, max_metric_corr, accuracy_factor,
               dyn_type, dyn_params, prop_type, prop_params, fid_type, fid_params, phase_option, fid_err_scale_factor, tslot_type,
               tslot_params, amp_update_mode, init_pulse_type, init_pulse_params, pulse_scaling, pulse_offset, ramping_pulse_type,
               ramping_pulse_params, log_level, gen_stats, result):
    crab = upper(alg) == "CRAB"
    method = optim_method if optim_alg is None else optim_alg
    if is_default(method):
        method = "FMIN" if crab else "FMIN_L_BFGS_B"
    prop = "APPROX" if crab and is_default(prop_type) else prop_type
    pulse = init_pulse_type
    if is_default(pulse):
        pulse = None if crab else "RND"
    want_opt = optimizer_class(upper(method), crab)
    unknown = alg is None or upper(alg) not in ("GRAPE", "CRAB") or dyn_type not in DYN or want_opt is None
    unknown = unknown or (prop not in PROP and prop not in ("DEF", "", None))
    unknown = unknown or (upper(fid_type) not in FID and upper(fid_type) not in ("DEF", "", None))
    grid = tau is not None or (evo_time is not None and num_tslots is not None and cond(num_tslots != 0))
    if unknown or not grid:
        check("unusable options are refused", isinstance(result, UsageError))
        return
    if (pulse is not None and pulse not in PULSE) or (ramping_pulse_type is not None and ramping_pulse_type not in PULSE):
        check("an unknown type of pulse is refused", isinstance(result, ValueError))
        return
    if isinstance(result, UsageError) and upper(fid_type) in ("TDAPPROX", "TD_APPROX", "TRACEDIFF"):
        approx = (PROP[prop] if prop in PROP else "") == "PropCompApproxGrad"
        check("only approximate gradients with the approximate computer", approx != (upper(fid_type) != "TRACEDIFF"))
        return
    check("an optimiser is returned", not isinstance(result, Exception))
    o = result
    check("class of the optimiser", type(o).__name__ == want_opt)
    d = o.dynamics
    check("class of the dynamics", type(d).__name__ == DYN[dyn_type])
    defprop = "PropCompDiag" if dyn_type == "UNIT" else "PropCompFrechet"
    deffid = "FidCompUnitary" if dyn_type == "UNIT" else "FidCompTraceDiff"
    check("class of the propagator computer", type(d.prop_computer).__name__ == (PROP[prop] if prop in PROP else defprop))
    f = upper(fid_type)
    check("class of the fidelity computer", type(d.fid_computer).__name__ == (FID[f] if f in FID else deffid))
    check("computers belong to the dynamics", all_of(is_same(d.prop_computer.parent, d), is_same(d.fid_computer.parent, d),
                                                     is_same(d.tslot_computer.parent, d)))
    check("dynamics belong to the optimiser", is_same(d.parent, o))
    check_eq("method", upper(o.method), upper(method))
    check_eq("algorithm", upper(o.alg), upper(alg))
    mp = plus(plus(method_params, "max_metric_corr", max_metric_corr), "accuracy_factor", accuracy_factor)
    fp = plus(plus(fid_params, "phase_option", phase_option), "scale_factor", fid_err_scale_factor)
    mk = mp if isinstance(mp, dict) else {}
    opk = optim_params if isinstance(optim_params, dict) else {}
    options_set("dynamics option", d, dyn_params, ())
    options_set("propagator option", d.prop_computer, prop_params, ())
    options_set("fidelity option", d.fid_computer, fp, ())
    options_set("timeslot option", d.tslot_computer, tslot_params, ())
    options_set("optimiser option", o, optim_params, mk)
    if "amp_lbound" not in opk and "amp_lbound" not in mk:
        check_eq("lower bound of the optimiser", o.amp_lbound, amp_lbound)
    if "amp_ubound" not in opk and "amp_ubound" not in mk:
        check_eq("upper bound of the optimiser", o.amp_ubound, amp_ubound)
    tc = o.termination_conditions
    conds = dict(fid_err_targ=fid_err_targ, min_gradient_norm=min_grad, max_iterations=max_iter, max_wall_time=max_wall_time)
    for k in conds:
        if k not in mk:
            check_eq("termination condition " + k, getattr(tc, k), conds[k])
    for k in mk:
        if k in ("amp_lbound", "amp_ubound") or (k == "max_metric_corr" and want_opt == "OptimizerLBFGSB"):
            check_eq("method option " + k, getattr(o, k), mk[k])
        elif k in ("fid_err_targ", "min_gradient_norm", "max_iterations", "max_wall_time", "fid_goal", "max_fid_func_calls"):
            check_eq("method option " + k, getattr(tc, k), mk[k])
        else:
            check_eq("method option " + k, o.method_options[k], mk[k])
    if cond(gen_stats):
        check("statistics are shared", is_same(d.stats, o.stats))
        check("statistics", type(o.stats).__name__ == ("StatsDynTsUpdate" if amp_update_mode == "DYNAMIC" else "Stats"))
    else:
        check("no statistics", all_of(d.stats is None, o.stats is None))
    check_eq("drift", d.drift_dyn_gen, drift)
    check_eq("controls", d.ctrl_dyn_gen, ctrls)
    check_eq("initial", d.initial, initial)
    check_eq("target", d.target, target)
    if tau is None:
        check_eq("number of slots", d.num_tslots, num_tslots)
        check_eq("evolution time", d.evo_time, evo_time)
    else:
        check_eq("slot durations", d.tau, tau)
    if crab:
        crab_generators(o.pulse_generator, d, len(ctrls), alg_params, pulse, init_pulse_params, pulse_scaling, pulse_offset, amp_lbound, amp_ubound,
                        ramping_pulse_type, ramping_pulse_params)
        return
    g = o.pulse_generator
    check("class of the pulse generator", type(g).__name__ == PULSE[pulse])
    check("generator of the dynamics", is_same(g.parent, d))
    options_set("pulse option", g, init_pulse_params, ("scaling", "offset", "lbound", "ubound"))
    check_eq("scaling", g.scaling, pulse_scaling)
    check_eq("offset", g.offset, pulse_offset)
    check_eq("lower bound of the pulse", g.lbound, amp_lbound)
    check_eq("upper bound of the pulse", g.ubound, amp_ubound)
    check_eq("slots of the pulse", g.num_tslots, d.num_tslots)
    check_eq("duration of the pulse", g.pulse_time, d.evo_time)


def crab_generators(gs, d, m, alg_params, pulse, init_pulse_params, pulse_scaling, pulse_offset, amp_lbound, amp_ubound,
                    ramping_pulse_type, ramping_pulse_params):
    ap = alg_params if isinstance(alg_params, dict) else {}
    cp = ap["crab_pulse_params"] if "crab_pulse_params" in ap else {}
    check("one generator per control", len(gs) == m)
    for j in range(m):
        g = gs[j]
        check("class of the generators", type(g).__name__ == "PulseGenCrabFourier")
        check("generators are separate", all_of(*[distinct(g, gs[i]) for i in range(j)]))
        check("generator of the dynamics", is_same(g.parent, d))
        check_eq("number of coefficients", g.num_coeffs, ap["num_coeffs"] if "num_coeffs" in ap else None)
        free = "fix_frequency" in ap and not ap["fix_frequency"]
        check_eq("number of basis functions", g.num_basis_funcs, 3 if free else 2)
        options_set("CRAB pulse option", g, cp, ())
        if "scaling" not in cp:
            check_eq("scaling of the coefficients", g.scaling, ap["init_coeff_scaling"] if "init_coeff_scaling" in ap else 1.0)
        lb, ub = ctrl_bound(amp_lbound, j), ctrl_bound(amp_ubound, j)
        check_eq("lower bound of the control", g.lbound, lb)
        check_eq("upper bound of the control", g.ubound, ub)
        if pulse is None:
            check("no guess pulse", g.guess_pulse is None)
        else:
            w = MADE(g.guess_pulse)
            ip = init_pulse_params if isinstance(init_pulse_params, dict) else {}
            check_eq("scaling of the guess pulse", w["scaling"], ip["scaling"] if "scaling" in ip else pulse_scaling)
            check_eq("offset of the guess pulse", w["offset"], ip["offset"] if "offset" in ip else pulse_offset)
            check_eq("guess pulse made within the bounds of its control", [w["lbound"], w["ubound"]], [lb, ub])
            check_eq("action of the guess pulse", g.guess_pulse_action, ip["pulse_action"] if "pulse_action" in ip else "MODULATE")
        if ramping_pulse_type is None:
            check("no ramping pulse", g.ramping_pulse is None)
        else:
            check_eq("options of the ramping pulse", MADE(g.ramping_pulse)["params"], ramping_pulse_params)
        check_eq("slots of the pulses", g.num_tslots, d.num_tslots)
