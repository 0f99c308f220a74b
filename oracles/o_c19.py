"""C19: calls do not alter the caller's arguments or influence each other."""
import copy
import numpy as np
import calls
from calls import materials, real_args, rand_opts, snap, describe, differ
from common import need, need_close, Skip
from o_c20 import WRAP, rand_wrap, Hook

RULE = ("sequences of calls of create_pulse_optimizer and the optimize_pulse / opt_pulse_crab wrappers that share operators, arrays and option dictionaries, each combined with other calls in between (also failing ones): "
        "deep comparison of every argument before and after each call, and the same call made again builds an identically configured optimiser with equal starting amplitudes and result; "
        "GRAPE functions, create_pulse_gen, apply_params / apply_method_params, initialize_controls and dictionary-driven settings likewise")


def corner():
    import random
    rng = random.Random(3)
    for w in ["create_pulse_optimizer"] * 4 + WRAP * 4:
        yield seq(rng, w)
    for k in ("dict", "twice", "pgen", "conf"):
        for s in range(4):
            yield {"kind": "direct", "what": k, "seed": s}


def one(rng, w):
    c = {"w": "create_pulse_optimizer", "o": rand_opts(rng)} if w == "create_pulse_optimizer" else rand_wrap(rng, w)
    o = c["o"]
    for k in ("fid_params", "method_params", "dyn_params", "optim_params"):
        if rng.random() < 0.5:
            o["args"].setdefault(k, {})
    if rng.random() < 0.5 and "crab" in w:
        o["args"].setdefault("alg_params", {})
        o["args"].setdefault("init_pulse_type", "LIN")
        o["args"].setdefault("init_pulse_params", {})
    c["depr"] = {k: v for k, v in (("optim_alg", "Nelder-Mead"), ("max_metric_corr", 7), ("accuracy_factor", 99.0), ("phase_option", "SU"), ("fid_err_scale_factor", 0.25)) if rng.random() < 0.25} if "crab" not in w else {}
    if "unitary" in w:
        c["depr"].pop("fid_err_scale_factor", None)
        c["depr"].pop("phase_option", None)
    if rng.random() < 0.15:
        c["bad"] = rng.choice(["prop_type", "fid_type", "time"]) if "unitary" not in w else "time"
    return c


def seq(rng, w):
    return {"kind": "seq", "first": one(rng, w), "between": [one(rng, rng.choice(["create_pulse_optimizer"] + WRAP)) for _ in range(rng.randint(0, 2))], "share": rng.random() < 0.6}


def gen(rng):
    if rng.random() < 0.1:
        return {"kind": "direct", "what": rng.choice(["dict", "twice", "pgen", "conf"]), "seed": rng.randrange(10**6)}
    return seq(rng, rng.choice(["create_pulse_optimizer", "create_pulse_optimizer"] + WRAP))


def build(c, base=None):
    """(function name, positional, keywords) of a call; option dictionaries and operators of base are reused when given"""
    o, w = c["o"], c["w"]
    a = real_args(o)
    drift, ctrls, X0, XT, t = materials(o)
    kw = dict(a, **t)
    kw.pop("log_level", None)
    if "crab" in w:
        for k in ("init_pulse_type", "init_pulse_params"):
            if k in kw:
                kw[k.replace("init_", "guess_")] = kw.pop(k)
        kw.update(c.get("top", {}))
        if w == "opt_pulse_crab":
            kw["dyn_type"] = o["dyn_type"]
    elif w in ("optimize_pulse", "create_pulse_optimizer"):
        kw.update(alg=o["alg"], dyn_type=o["dyn_type"])
    else:
        kw["alg"] = o["alg"]
    if w.endswith("unitary") and c.get("phase", "unset") != "unset":
        kw["phase_option"] = c["phase"]
    kw.update(c.get("depr", {}))
    b = c.get("bad")
    if b in ("prop_type", "fid_type"):
        kw[b] = "BOGUS"
    elif b == "time":
        kw.pop("tau", None)
        kw["num_tslots"] = None
    pos = [drift, ctrls, X0, XT]
    if base is not None:
        bo, bpos, bkw = base
        for k in list(bkw):
            if k in kw and isinstance(bkw[k], dict) and isinstance(kw[k], dict):
                kw[k] = bkw[k]
    return w, pos, kw


def call(cpo, w, pos, kw, seed):
    np.random.seed(seed)
    with Hook() as h:
        try:
            r = getattr(cpo, w)(*pos, **kw)
            if w == "create_pulse_optimizer":
                return ("ok", describe(r), None, None)
            return ("ok", h.seen[-1][1], h.seen[-1][2], (r.fid_err, r.num_iter, r.termination_reason, np.array(r.final_amps), r.num_fid_func_calls))
        except Exception as e:
            return ("exc", type(e).__name__, None, str(e)[:80])


def run(c):
    return run_seq(c) if c["kind"] == "seq" else run_direct(c)


def slow(res):
    return res is not None and not isinstance(res, str) and "time" in str(res[2]).lower()


def run_seq(c):
    import qutip_qtrl.pulseoptim as cpo
    cpo.logger.setLevel(30)
    w, pos, kw = build(c["first"])
    objs = {"positional %d" % i: p for i, p in enumerate(pos)}
    objs.update({k: v for k, v in kw.items()})
    before = {k: snap(v) for k, v in objs.items()}
    keys = list(kw)
    r1 = call(cpo, w, pos, kw, 5)

    def unchanged(what):
        need(list(kw) == keys, "arguments", what)
        for k, v in objs.items():
            need(snap(v) == before[k], "the caller's argument changed", "%s after %s: now %s" % (k, what, str(v)[:200]))
    unchanged(w)
    for b in c["between"]:
        w2, pos2, kw2 = build(b, (w, pos, kw) if c["share"] else None)
        bef2 = {k: snap(v) for k, v in list(kw2.items()) + [("positional %d" % i, p) for i, p in enumerate(pos2)]}
        call(cpo, w2, pos2, kw2, 9)
        for k, v in list(kw2.items()) + [("positional %d" % i, p) for i, p in enumerate(pos2)]:
            need(snap(v) == bef2[k], "the caller's argument changed", "%s after %s" % (k, w2))
        unchanged(w2)
    r2 = call(cpo, w, pos, kw, 5)
    unchanged(w + " again")
    need(r1[0] == r2[0], "the second call does something else", "%s / %s" % (str(r1)[:200], str(r2)[:200]))
    if r1[0] == "exc":
        need(r1[1] == r2[1], "the second call fails differently", "%s / %s" % (r1, r2))
        return []
    df = differ(r1[1], r2[1])
    need(not df, "the second call configures another optimiser", str([(k, str(r1[1].get(k))[:80], str(r2[1].get(k))[:80]) for k in df[:6]]))
    if r1[2] is not None:
        need_close(r1[2], r2[2], "starting amplitudes of the second call", "", 0)
        if not (slow(r1[3]) or slow(r2[3])):
            need(r1[3][:3] == r2[3][:3] and np.array_equal(r1[3][3], r2[3][3]) and r1[3][4] == r2[3][4], "result of the second call", "%s / %s" % (r1[3], r2[3]))
    return []


def run_direct(c):
    import random
    import qutip_qtrl.pulseoptim as cpo
    from qutip_qtrl import pulsegen, optimizer, optimconfig, dynamics, termcond
    rng = random.Random(c["seed"])
    cpo.logger.setLevel(30)
    o = rand_opts(rng, alg="GRAPE")
    o["dyn_type"], o["tdd"], o["tdc"] = "UNIT", False, False
    drift, ctrls, X0, XT, t = materials(o)
    mk = lambda **k: cpo.create_pulse_optimizer(drift, ctrls, X0, XT, dyn_type="UNIT", alg="GRAPE", **t, **k)
    if c["what"] == "dict":
        mp = {"max_metric_corr": 5, "ftol": 1e-3, "fid_err_targ": 0.25}
        mo = {"disp": False}
        s = snap([mp, mo])
        o1, o2 = mk(), mk()
        d1 = describe(o2)
        o1.method_options = mo
        o1.apply_method_params(mp)
        o1.apply_method_params(mp)
        need(snap([mp, mo]) == s, "apply_method_params changed its dictionary", "%s %s" % (mp, mo))
        need(not differ(d1, describe(o2)), "another optimiser changed", str(differ(d1, describe(o2))[:4]))
        for ob in (o1, o1.dynamics, o1.dynamics.prop_computer, o1.dynamics.fid_computer, o1.dynamics.tslot_computer, o1.pulse_generator):
            p = {"user_tag": [1, 2], "other_tag": {"a": 1}}
            s = snap(p)
            ob.apply_params(p)
            need(snap(p) == s and ob.user_tag is p["user_tag"], "apply_params changed its dictionary")
        need(not differ(d1, describe(o2)), "another optimiser changed", str(differ(d1, describe(o2))[:4]))
    elif c["what"] == "twice":
        # two optimisers made from the same operators run without touching each other
        o1, o2 = mk(max_iter=2), mk(max_iter=2)
        A = np.random.default_rng(c["seed"]).normal(size=(o1.dynamics.num_tslots or len(o["tau"] if "tau" in o else []), o["m"]))
        A0 = A.copy()
        o1.dynamics.initialize_controls(A)
        need(np.array_equal(A, A0), "initialize_controls changed the array")
        d1 = describe(o2)
        r1 = o1.run_optimization()
        need(np.array_equal(A, A0), "optimisation changed the array of starting amplitudes")
        need(not differ(d1, describe(o2)), "another optimiser changed", str(differ(d1, describe(o2))[:4]))
        o2.dynamics.initialize_controls(A)
        r2 = o2.run_optimization()
        if not (slow((0, 0, r1.termination_reason)) or slow((0, 0, r2.termination_reason))):
            need(np.array_equal(r1.final_amps, r2.final_amps) and r1.fid_err == r2.fid_err, "the second optimiser gives another result")
    elif c["what"] == "pgen":
        d = mk().dynamics
        d.init_timeslots()
        for ty in calls.PULSES:
            p = {"scaling": 0.5, "offset": 0.1, "lbound": -0.2, "user_tag": [1]}
            s = snap(p)
            dd = describe(d)
            g = pulsegen.create_pulse_gen(ty, dyn=d, pulse_params=p)
            np.random.seed(1)
            a = g.gen_pulse()
            need(snap(p) == s, "create_pulse_gen changed its dictionary", ty)
            need(not differ(dd, describe(d)), "a pulse generator changed the dynamics", "%s %s" % (ty, differ(dd, describe(d))[:4]))
            h = pulsegen.create_pulse_gen(ty, dyn=d)
            need(h.scaling != 0.5 and h.lbound is None and not hasattr(h, "user_tag"), "pulse parameters persist", ty)
            np.random.seed(1)
            need_close(pulsegen.create_pulse_gen(ty, dyn=d, pulse_params=p).gen_pulse(), a, "second pulse generator", ty, 0)
    else:
        c1, c2 = optimconfig.OptimConfig(), optimconfig.OptimConfig()
        c1.user_tag, c1.fid_type = 3, "UNIT"
        need(not hasattr(c2, "user_tag") and c2.fid_type == "DEF" and not hasattr(optimconfig.OptimConfig(), "user_tag"), "configurations share values")
        t1, t2 = termcond.TerminationConditions(), termcond.TerminationConditions()
        t1.max_iterations = 3
        need(t2.max_iterations == 1e10 and termcond.TerminationConditions().max_iterations == 1e10, "termination conditions share values")
        x = mk()
        x.pulse_generator.user_tag = 1
        x.dynamics.user_tag = 1
        x.dynamics.fid_computer.user_tag = 1
        y = mk()
        need(not any(hasattr(z, "user_tag") for z in (y.pulse_generator, y.dynamics, y.dynamics.fid_computer)), "optimisers share components")
        need(y.termination_conditions is not x.termination_conditions and y.config is not x.config, "optimisers share components")
    return []
