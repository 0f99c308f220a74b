"""C08: optimisation variables, gradients and bounds against amplitudes."""
import copy
import numpy as np
from common import need, need_close, Skip
from prob import Prob, rand_case

RULE = ("random shapes and amplitudes: flatten/unflatten round trips, value, gradient and bound of variable slot*controls+control compared with the "
        "amplitude it denotes for every bound specification (none, scalar, per control, infinite, explicit list); bounded L-BFGS-B runs stay within each "
        "control's bounds; CRAB parameters of random sizes handed to fresh copies of the generators")
INF = float("inf")


def base(**k):
    c = {"dyn": "UNIT", "seed": 1, "N": 2, "m": 2, "n": 3, "tdd": False, "tdc": False, "od": None, "prop": "DEF", "tau": None, "spec": "rand",
         "amp": 1.0, "memopt": None, "cphase": None, "state": False, "fid": "UNIT", "popt": "PSU"}
    c.update(k)
    return c


def bcase(rng, m):
    def one():
        return rng.choice([None, INF, -INF, 0.0, rng.uniform(-2, 2)])
    return one() if rng.random() < 0.5 else [one() for _ in range(m)]


def corner():
    for n, m in ((1, 1), (3, 2), (2, 3), (4, 1), (5, 3)):
        for lb, ub in ((None, None), (-1.0, 1.0), ([-0.1 * (j + 1) for j in range(m)], [0.2 * (j + 1) for j in range(m)]), (-INF, INF), ([None] * m, 0.5),
                       (0.0, None), ([0.0] * m, [INF] * m)):
            yield base(kind="pack", n=n, m=m, lb=lb, ub=ub)
    for alg in ("def", "lbfgsb"):
        for meth in ("bounds", "user"):
            yield base(kind="run", n=4, m=3, alg=alg, mode=meth, lb=[-0.3, -0.6, -0.9], ub=[0.1, 0.4, 0.8])
            yield base(kind="run", n=3, m=2, alg=alg, mode=meth, lb=[-0.05, -2.0], ub=[0.05, 2.0])
    for n, m in ((4, 1), (4, 2), (6, 3)):
        for nc in (None, 2, 3):
            for fix in (True, False):
                for opt in ("fmin", "base"):
                    yield base(kind="crab", n=n, m=m, nc=nc, fix=fix, opt=opt, nctrl=[1, 3, 2][:m])


def gen(rng):
    k = rng.choice(["pack", "pack", "pack", "crab", "run"])
    c = rand_case(rng, dyn=rng.choice(["UNIT", "GEN_MAT"]), n=rng.randint(1, 6), m=rng.randint(1, 4))
    c["kind"] = k
    if k == "pack":
        c["lb"], c["ub"] = bcase(rng, c["m"]), bcase(rng, c["m"])
    elif k == "run":
        c.update(base(seed=c["seed"], n=c["n"], m=c["m"]), kind="run")
        c["mode"], c["alg"] = rng.choice(["bounds", "user"]), rng.choice(["def", "lbfgsb"])
        c["lb"] = [-rng.uniform(0.01, 1.5) for _ in range(c["m"])]
        c["ub"] = [rng.uniform(0.01, 1.5) for _ in range(c["m"])]
    else:
        c.update(base(seed=c["seed"], n=max(c["n"], 2), m=c["m"]), kind="crab")
        c.update(nc=rng.choice([None, 1, 2, 3]), fix=rng.random() < 0.6, opt=rng.choice(["fmin", "base"]), nctrl=[rng.randint(1, 4) for _ in range(c["m"])])
    return c


def bound(b, j):
    b = b[j] if isinstance(b, list) else b
    return None if b is None or np.isinf(b) else b


def run(case):
    return globals()["k_" + case["kind"]](case)


def k_pack(case):
    p = Prob(case)
    d = p.dynamics(init=False)
    o = p.opt
    A = p.amps.copy()
    d.initialize_controls(A.copy())
    n, m = p.n, p.m
    x = np.array(o._get_optim_var_vals())
    need(x.shape == (n * m,), "one variable per amplitude", str(x.shape))
    for k in range(n):
        for j in range(m):
            need(x[k * m + j] == A[k, j], "variable layout", "slot %d control %d" % (k, j))
    need_close(np.array(o._get_ctrl_amps(x)), A, "round trip", "", 0)
    y = np.arange(n * m) * 0.1 + 0.3
    B = np.array(o._get_ctrl_amps(y.copy()))
    need(B.shape == (n, m), "amplitude shape", str(B.shape))
    for k in range(n):
        for j in range(m):
            need(B[k, j] == y[k * m + j], "amplitude layout", "slot %d control %d" % (k, j))
    need_close(np.asarray(d.ctrl_amps), A, "amplitudes changed by packing", "", 0)
    for rep in range(2):
        o.amp_lbound, o.amp_ubound = case["lb"], case["ub"]
        if rep and isinstance(case["lb"], list):
            o.amp_lbound = [bound(case["lb"], j) if j else -3.0 for j in range(m)]
        o._init_bounds()
        b = o.bounds
        need(len(b) == n * m, "one bound pair per variable", "%d" % len(b))
        for k in range(n):
            for j in range(m):
                want = (bound(o.amp_lbound, j), bound(o.amp_ubound, j))
                need(tuple(b[k * m + j]) == want, "bounds layout", "slot %d control %d: %s, want %s" % (k, j, b[k * m + j], want))
    ub = [(-1.0 - i, 2.0 + i) for i in range(n * m)]
    o.bounds = ub
    o._init_bounds()
    need(list(o.bounds) == [(-1.0 - i, 2.0 + i) for i in range(n * m)], "explicit bounds unchanged", str(o.bounds)[:200])
    if case["prop"] == "APPROX":
        return []
    import qutip_qtrl.termcond as tcm
    tc = tcm.TerminationConditions()
    tc.fid_err_targ, tc.min_gradient_norm, tc.max_fid_func_calls = -1.0, 0.0, 1000
    o.init_optim(tc)
    x = p.rand_amps().reshape(-1)
    x0 = x.copy()
    err = o.fid_err_func_wrapper(x)
    C = np.array([[x0[k * m + j] for j in range(m)] for k in range(n)])
    need_close(np.asarray(d.ctrl_amps), C, "amplitudes from variables", "", 0)
    need_close(err, p.fid_err(C), "error at the variables", "", 1e-6)
    g = np.asarray(o.fid_err_grad_wrapper(x))
    need(g.shape == (n * m,), "gradient shape", str(g.shape))
    G = p.fid_err_grad(C)
    need_close(g, np.array([G[i // m, i % m] for i in range(n * m)]), "gradient layout", "", 1e-5)
    need_close(x, x0, "variables changed by the wrappers", "", 0)
    return []


def k_run(case):
    import qutip_qtrl.optimizer as om, qutip_qtrl.termcond as tcm
    p = Prob(case)
    kw = {} if case["alg"] == "lbfgsb" else {"optim_method": "L-BFGS-B"}
    o = p.optim(amp_lbound=list(case["lb"]), amp_ubound=list(case["ub"]), max_iter=6, fid_err_targ=1e-14, **kw)
    d = o.dynamics
    lb, ub = np.array(case["lb"]), np.array(case["ub"])
    if case["mode"] == "user":
        n, m = p.n, p.m
        r = np.random.default_rng(case["seed"])
        w = r.uniform(0.1, 1, size=(n, m))
        o.bounds = [(case["lb"][i % m] * w[i // m, i % m], case["ub"][i % m] * w[i // m, i % m]) for i in range(n * m)]
        keep = list(o.bounds)
        lb, ub = lb * w, ub * w
    r = np.random.default_rng(case["seed"] + 1)
    A = np.clip(r.normal(size=(p.n, p.m)), lb, ub)
    seen = []
    f = d.update_ctrl_amps

    def rec(a):
        seen.append(np.array(a))
        return f(a)
    d.initialize_controls(A)
    d.update_ctrl_amps = rec
    res = o.run_optimization()
    if case["mode"] == "user":
        need(list(o.bounds) == keep, "explicit bounds unchanged", "")
    e = 1e-9
    for a in seen + [res.final_amps]:
        need(bool(np.all(a >= lb - e) and np.all(a <= ub + e)), "amplitudes within their own bounds", "%s not within %s %s" % (a.tolist(), lb.tolist(), ub.tolist()))
    return []


def k_crab(case):
    p = Prob(case)
    m, n = p.m, p.n
    ap = {"fix_frequency": case["fix"]}
    if case["nc"]:
        ap["num_coeffs"] = case["nc"]
    kw = dict(alg="CRAB", alg_params=ap, init_pulse_type=None, prop_type="DEF")
    if case["opt"] == "base":
        kw["optim_method"] = "nelder-mead"
    o = p.optim(**kw)
    d = o.dynamics
    np.random.seed(case["seed"] % 2**31)
    A = np.zeros((n, m))
    for j, g in enumerate(o.pulse_generator):
        if not case["nc"]:
            g.num_coeffs = case["nctrl"][j]           # different sizes
            g.num_optim_vars = 0
        g.fix_frequency = case["fix"]
        g.init_pulse(num_coeffs=case["nc"] or case["nctrl"][j])
        A[:, j] = g.gen_pulse()
    d.initialize_controls(A)
    nv = [g.num_optim_vars for g in o.pulse_generator]
    vals = [np.array(g.get_optim_var_vals()) for g in o.pulse_generator]
    x = np.array(o._get_optim_var_vals())
    need(x.shape == (sum(nv),), "one variable per pulse parameter", "%s %s" % (x.shape, nv))
    need([len(v) for v in vals] == nv, "parameter counts", "")
    off = np.cumsum([0] + nv)
    for j in range(m):
        need_close(x[off[j]:off[j + 1]], vals[j], "variables of pulse %d" % j, "", 0)
    need_close(np.array(o._get_ctrl_amps(x.copy())), A, "round trip of the initial pulse", "", 1e-12)
    y = np.random.default_rng(case["seed"]).normal(size=sum(nv))
    ref = [copy.deepcopy(g) for g in o.pulse_generator]
    y0 = y.copy()
    B = np.array(o._get_ctrl_amps(y))
    need_close(y, y0, "variables changed", "", 0)
    for j in range(m):
        need_close(o.pulse_generator[j].get_optim_var_vals(), y[off[j]:off[j + 1]], "parameters handed to pulse %d" % j, "", 0)
        ref[j].set_optim_var_vals(y[off[j]:off[j + 1]].copy())
        need_close(B[:, j], ref[j].gen_pulse(), "amplitudes of control %d" % j, "", 1e-12)
    need_close(np.array(o._get_optim_var_vals()), y, "round trip of the variables", "", 0)
    need_close(np.array(o._get_ctrl_amps(y)), B, "round trip of the amplitudes", "", 0)
    return []
