"""Random calls of the pulse-optimisation entry points and a description of the optimiser they configure."""
import copy
import numpy as np
import qutip
from qutip import Qobj
from common import need, Skip

PULSES = {"RND": "Random", "RNDFOURIER": "RndFourier", "RNDWAVES": "RndWaves", "RNDWALK1": "RndWalk1", "RNDWALK2": "RndWalk2", "LIN": "Linear", "ZERO": "Zero", "SINE": "Sine", "SQUARE": "Square",
          "SAW": "Saw", "TRIANGLE": "Triangle", "GAUSSIAN": "Gaussian", "GAUSSIAN_EDGE": "GaussianEdge"}
PROPC = {"APPROX": "PropCompApproxGrad", "DIAG": "PropCompDiag", "AUG_MAT": "PropCompAugMat", "FRECHET": "PropCompFrechet"}
FIDC = {"TDAPPROX": "FidCompTraceDiffApprox", "TD_APPROX": "FidCompTraceDiffApprox", "TRACEDIFF": "FidCompTraceDiff", "UNIT": "FidCompUnitary"}
SCIPY = ["BFGS", "L-BFGS-B", "CG", "Nelder-Mead", "nelder-mead", "Powell", "TNC"]


def pick(rng, xs, p=0.5):
    return rng.choice(xs) if rng.random() < p else None


def method_params(rng):
    d = {}
    for k, v in (("max_metric_corr", [5, 20]), ("accuracy_factor", [1e3, 10.0]), ("fid_err_targ", [0.25]), ("max_iterations", [4]), ("min_gradient_norm", [0.125]), ("max_wall_time", [33]), ("ftol", [1e-4]),
                 ("disp", [False]), ("maxfun", [7]), ("approx_grad", [False]), ("max_fid_func_calls", [50]), ("gtol", [1e-3])):
        if rng.random() < 0.2:
            d[k] = rng.choice(v)
    return d


def bound(rng, m, sign):
    k = rng.random()
    if k < 0.35:
        return None
    if k < 0.7:
        return sign * rng.choice([0.0, 0.5, 1.0, 3.0])
    return [sign * rng.choice([0.25, 1.0, 2.0, float("inf")]) for _ in range(m)]


def rand_opts(rng, alg=None, unit=False):
    """arguments of create_pulse_optimizer in a form that can be saved (operators described by a seed)"""
    alg = alg or rng.choice(["GRAPE", "GRAPE", "CRAB"])
    crab = alg.upper() == "CRAB"
    m = rng.randint(1, 3)
    o = {"alg": alg, "m": m, "seed": rng.randrange(10**6), "N": rng.choice([2, 2, 3]), "dyn_type": "UNIT" if unit else rng.choice(["UNIT", "UNIT", "GEN_MAT", "SYMPL", None, ""])}
    if o["dyn_type"] == "SYMPL":
        o["N"] = 2
    o["tdd"], o["tdc"], o["ctr"] = rng.random() < 0.2, rng.random() < 0.2, rng.choice(["list", "list", "tuple", "array"])
    n = rng.randint(1, 6)
    if rng.random() < 0.4:
        o["tau"] = [rng.uniform(0.1, 0.6) for _ in range(n)]
    else:
        o["num_tslots"], o["evo_time"] = n, rng.uniform(0.5, 4)
        if rng.random() < 0.1:
            o["tau"] = [rng.uniform(0.1, 0.6) for _ in range(n)]
    o["n"] = n
    a = {}
    a["amp_lbound"], a["amp_ubound"] = bound(rng, m, -1), bound(rng, m, 1)
    for k, v in (("fid_err_targ", [0.0, 1e-3, 0.25, -1]), ("max_iter", [0, 1, 3, 7]), ("max_wall_time", [0, 30, 600.0]), ("min_grad", [0.0, 1e-3, -1.0, None])):
        if rng.random() < 0.6:
            a[k] = rng.choice(v)
    if rng.random() < 0.5:
        a["method_params"] = method_params(rng)
    if rng.random() < 0.3:
        a["optim_params"] = {k: v for k, v in (("disp_conv_msg", False), ("max_metric_corr", 9), ("user_tag", "u"), ("record_iteration_steps", False)) if rng.random() < 0.5}
    if rng.random() < 0.4:
        a["dyn_params"] = {k: v for k, v in (("memory_optimization", 1), ("oper_dtype", "Qobj"), ("user_tag", 3), ("fact_mat_round_prec", 1e-9), ("sparse_eigen_decomp", False)) if rng.random() < 0.4}
    if rng.random() < 0.4:
        a["prop_params"] = {"user_tag": rng.randint(0, 9)}
    if rng.random() < 0.4:
        a["fid_params"] = {k: v for k, v in (("phase_option", "SU"), ("scale_factor", 0.125), ("user_tag", 4), ("local", False)) if rng.random() < 0.5}
    if rng.random() < 0.2:
        a["tslot_params"] = {"user_tag": rng.randint(0, 9)}
    if rng.random() < 0.7:
        a["optim_method"] = rng.choice(["DEF", "def", None, "FMIN_L_BFGS_B", "fmin_l_bfgs_b", "LBFGSB", "FMIN_BFGS"] + SCIPY if not crab else ["DEF", None, "FMIN", "fmin", "Nelder-Mead", "Powell", "nelder-mead"])
    if not unit and rng.random() < 0.7:
        a["prop_type"] = rng.choice(["DEF", "", None, "APPROX", "AUG_MAT", "FRECHET"] + (["DIAG"] if o["dyn_type"] == "UNIT" else []))
    if not unit and rng.random() < 0.7:
        a["fid_type"] = rng.choice(["DEF", "", None, "TRACEDIFF", "tracediff", "TDAPPROX", "TD_APPROX", "def"] + (["UNIT", "unit"] if o["dyn_type"] == "UNIT" else []))
    if rng.random() < 0.7:
        a["init_pulse_type"] = rng.choice(sorted(PULSES) + ["DEF", None, "def"])
        if a["init_pulse_type"] in PULSES and rng.random() < 0.5:
            a["init_pulse_params"] = {"user_tag": 6}
            if crab:
                a["init_pulse_params"].update({k: v for k, v in (("scaling", 0.7), ("offset", 0.1), ("pulse_action", rng.choice(["ADD", "MODULATE"]))) if rng.random() < 0.5})
            if a["init_pulse_type"] in ("SINE", "SQUARE", "SAW", "TRIANGLE") and rng.random() < 0.5:
                a["init_pulse_params"]["num_waves"] = 2.0
    if rng.random() < 0.5:
        a["pulse_scaling"] = rng.choice([0.5, 2.0, 0.0, -1.0])
    if rng.random() < 0.5:
        a["pulse_offset"] = rng.choice([0.25, -0.5, 0.0])
    if crab:
        if rng.random() < 0.7:
            a["alg_params"] = {k: v for k, v in (("num_coeffs", 2), ("fix_frequency", rng.random() < 0.5), ("init_coeff_scaling", rng.choice([0.5, 0.0, 2.0])),
                                                 ("crab_pulse_params", {"randomize_coeffs": True, "opt_freqs": False, "user_tag": 8} if rng.random() < 0.5 else {})) if rng.random() < 0.6}
        if rng.random() < 0.3:
            a["ramping_pulse_type"] = "GAUSSIAN_EDGE"
            if rng.random() < 0.7:
                a["ramping_pulse_params"] = {"decay_time": 0.3}
    if rng.random() < 0.4:
        a["gen_stats"] = True
    if rng.random() < 0.2:
        a["log_level"] = rng.choice([30, 40])
    o["args"] = a
    return o


def corner_opts():
    """every value of every selector at least once"""
    import random
    rng = random.Random(5)
    for alg in ("GRAPE", "CRAB", "grape", "crab"):
        for _ in range(6):
            yield rand_opts(rng, alg)
    sel = {"dyn_type": ["UNIT", "GEN_MAT", "SYMPL", None, ""], "prop_type": ["DEF", "", None, "APPROX", "DIAG", "AUG_MAT", "FRECHET"], "fid_type": ["DEF", "", None, "TRACEDIFF", "TDAPPROX", "TD_APPROX", "UNIT", "unit"],
           "optim_method": ["DEF", None, "FMIN_L_BFGS_B", "LBFGSB", "FMIN_BFGS", "fmin_bfgs", "BFGS", "Nelder-Mead"], "init_pulse_type": sorted(PULSES) + ["DEF", None],
           "amp_lbound": [None, -0.5, 0.0, [-0.5, -1.0, -2.0]], "amp_ubound": [None, 0.5, 0.0, [0.5, 1.0, 2.0]], "gen_stats": [True, False], "fid_err_targ": [0, 0.0, -1, 0.5], "min_grad": [0, None, 0.5], "max_iter": [0, 1, 5],
           "max_wall_time": [0, 5], "pulse_scaling": [0.0, -2.0], "pulse_offset": [0.0, 3.0], "tslot_params": [{"user_tag": 1}], "method_params": [{"max_metric_corr": 4}, {"ftol": 0.1, "fid_err_targ": 0.3}, {}],
           "dyn_params": [{"memory_optimization": 1}, {}, {"user_tag": 1}], "prop_params": [{"user_tag": 1}], "fid_params": [{"user_tag": 1}, {"scale_factor": 0.2}], "optim_params": [{"user_tag": 1}]}
    for k, vs in sel.items():
        for v in vs:
            o = {"alg": "GRAPE", "m": 3, "seed": 1, "N": 2, "dyn_type": "UNIT", "tdd": False, "tdc": False, "ctr": "list", "n": 3, "num_tslots": 3, "evo_time": 2.0, "args": {}}
            if k == "dyn_type":
                o["dyn_type"] = v
            else:
                o["args"][k] = v
            yield o
    for ap in ({}, {"num_coeffs": 3}, {"fix_frequency": False}, {"fix_frequency": True, "num_coeffs": 2}, {"init_coeff_scaling": 0.0}, {"init_coeff_scaling": 0.5}, {"crab_pulse_params": {"user_tag": 2, "randomize_freqs": False}}):
        for ex in ({}, {"init_pulse_type": "LIN", "init_pulse_params": {"scaling": 0.5, "pulse_action": "ADD"}}, {"init_pulse_type": "SINE", "pulse_scaling": 0.25, "pulse_offset": 1.0, "amp_lbound": [-1.0, -2.0, 0.0], "amp_ubound": 2.0},
                   {"ramping_pulse_type": "GAUSSIAN_EDGE", "ramping_pulse_params": {"decay_time": 0.25}}, {"optim_method": "Nelder-Mead"}, {"optim_method": "fmin", "prop_type": "FRECHET"}):
            yield {"alg": "CRAB", "m": 3, "seed": 2, "N": 2, "dyn_type": "UNIT", "tdd": False, "tdc": False, "ctr": "list", "n": 4, "num_tslots": 4, "evo_time": 2.0, "args": {"alg_params": copy.deepcopy(ap), **copy.deepcopy(ex)}}


def materials(o):
    """(drift, ctrls, initial, target) and timing arguments"""
    r = np.random.default_rng(o["seed"])
    N, m, n = o["N"], o["m"], o["n"]
    sym = o["dyn_type"] == "SYMPL"

    def op():
        a = r.normal(size=(N, N)) + (0 if sym else 1j) * r.normal(size=(N, N))
        return Qobj((a + a.conj().T) / 2)
    drift = [op() for _ in range(n)] if o["tdd"] else op()
    if o["tdc"]:
        ctrls = [[op() for _ in range(m)] for _ in range(n)]
        if o["ctr"] == "array":
            c = np.empty((n, m), dtype=object)
            for k in range(n):
                for j in range(m):
                    c[k, j] = ctrls[k][j]
            ctrls = c
    else:
        ctrls = [op() for _ in range(m)]
        if o["ctr"] == "tuple":
            ctrls = tuple(ctrls)
    u = (-1j * op()).expm()
    t = {k: o[k] for k in ("num_tslots", "evo_time") if k in o}
    if "tau" in o:
        t["tau"] = np.array(o["tau"])
    return drift, ctrls, qutip.qeye(N), u, t


def real_args(o):
    a = copy.deepcopy(o["args"])
    if isinstance(a.get("dyn_params"), dict) and a["dyn_params"].get("oper_dtype") == "Qobj":
        a["dyn_params"]["oper_dtype"] = Qobj
    return a


def snap(x):
    """a value that changes whenever the object's content does"""
    if isinstance(x, dict):
        return ("dict", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [(id(v) if not isinstance(v, (int, float, str, complex)) else 0, snap(v)) for v in x])
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.str, [(id(v), snap(v)) for v in x.flat] if x.dtype == object else x.tobytes())
    if isinstance(x, Qobj):
        return ("Qobj", x.full().tobytes(), str(x.dims), type(x.data).__name__)
    return repr(x)


SKIP = {"parent", "_timeslot_computer", "wall_time_optim_start", "wall_time_optim_end", "wall_time_optimize_start", "log_level", "logger"}


def describe(x, seen=None, path="optim", out=None):
    """flat description of every attribute reachable from an object"""
    out = {} if out is None else out
    seen = {} if seen is None else seen
    if isinstance(x, Qobj):
        out[path] = (str(x.dims), x.full().tobytes())
    elif isinstance(x, np.ndarray):
        if x.dtype == object:
            for i, v in enumerate(x.flat):
                describe(v, seen, "%s<%d>" % (path, i), out)
            out[path] = x.shape
        else:
            out[path] = (x.shape, x.dtype.str, x.tobytes())
    elif isinstance(x, (list, tuple)):
        out[path] = (type(x).__name__, len(x))
        for i, v in enumerate(x):
            describe(v, seen, "%s[%d]" % (path, i), out)
    elif isinstance(x, dict):
        out[path] = sorted(map(str, x))
        for k, v in x.items():
            describe(v, seen, "%s{%s}" % (path, k), out)
    elif type(x).__module__.startswith("qutip_qtrl"):
        if id(x) in seen:
            out[path] = "-> " + seen[id(x)]
            return out
        seen[id(x)] = path
        out[path] = type(x).__name__
        for k in sorted(vars(x)):
            if k not in SKIP and "wall_time" not in k:
                describe(vars(x)[k], seen, path + "." + k, out)
    else:
        out[path] = x.__name__ if isinstance(x, type) else repr(x) if isinstance(x, (int, float, str, complex, bool, np.generic, type(None))) else type(x).__name__
    return out


def differ(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k, "-") != b.get(k, "-")]
