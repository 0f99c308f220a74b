"""C12: CRAB pulses."""
import numpy as np
from common import Skip, need, need_close
from pulses import INF, inside

RULE = ("CRAB Fourier generators with random numbers of terms, coefficients (given to init_pulse, to gen_pulse, as optimisation variables or random), fixed or free frequencies, guess pulses "
        "(modulate/add), ramping pulses and bounds (absent, infinite, one-sided, two-sided): expansion at the slots' start times when unbounded, bounds otherwise, order of the variables")


def base(**k):
    c = {"kind": "crab", "n": 6, "T": 2.0, "tau": None, "nc": 3, "fix": True, "scaling": 1.0, "lb": None, "ub": None, "guess": None, "action": "MODULATE", "ramp": None, "how": "vars", "big": 1.0,
         "seed": 3, "rc": True, "rf": True}
    c.update(k)
    return c


def corner():
    for n in (1, 2, 10):
        for nc in (1, 2, 5):
            for fix in (True, False):
                for lb, ub in ((None, None), (-0.5, 0.5), (None, 0.2), (-0.1, None), (None, -0.3), (0.4, None), (-INF, INF), (-INF, 0.3), (0.1, INF), (2.0, 3.0), (0.0, 1.0), (-1.0, 0.0),
                               (0.0, None), (None, 0.0), (-2.0, 2.0)):
                    for g, act in ((None, "MODULATE"), ("rand", "MODULATE"), ("rand", "ADD"), ("neg", "add"), ("zero", "modulate")):
                        yield base(n=n, nc=nc, fix=fix, lb=lb, ub=ub, guess=g, action=act, ramp="rand" if g and nc == 2 else None)
    for how in ("vars", "init", "gen", "first", "random", "ones", "default"):
        for big in (0.1, 1.0, 40.0):
            for b in ((None, None), (-0.5, 0.5), (None, -0.2)):
                yield base(how=how, big=big, lb=b[0], ub=b[1], fix=how != "init")


def gen(rng):
    c = base(n=rng.choice([1, 2, 3, 6, 15]), nc=rng.choice([1, 2, 3, 4, 7]), fix=rng.random() < 0.6, scaling=rng.choice([1.0, rng.uniform(0.1, 4), -1.0]), seed=rng.randrange(10**6),
             guess=rng.choice([None, None, "rand", "neg", "zero", "pos"]), action=rng.choice(["MODULATE", "ADD", "add", "modulate"]), ramp=rng.choice([None, None, "rand", "edge"]),
             how=rng.choice(["vars", "vars", "init", "gen", "first", "random", "ones"]), big=rng.choice([0.01, 1.0, 1.0, 10.0, 200.0]), rc=rng.random() < 0.8, rf=rng.random() < 0.8)
    c["T"] = rng.choice([1.0, rng.uniform(0.2, 20)])
    if rng.random() < 0.6:
        c["tau"] = [rng.uniform(0.05, 1.5) for _ in range(c["n"])]
        c["T"] = sum(c["tau"])
    mid, w = rng.uniform(-4, 4), rng.choice([rng.uniform(0.1, 6), rng.uniform(0.01, 0.5)])
    c["lb"] = rng.choice([None, None, -INF, mid - w, -w, 0.0])
    c["ub"] = rng.choice([None, None, INF, max(mid + w, 0.1), w, -0.05 if c["lb"] is None else w])
    if c["lb"] is not None and c["ub"] is not None and not c["lb"] < c["ub"]:
        c["ub"] = c["lb"] + 0.7
    return c


def vec(kind, n, r):
    if kind == "zero":
        return np.zeros(n)
    if kind == "pos":
        return r.uniform(0.1, 2, n)
    if kind == "neg":
        return -r.uniform(0.1, 2, n)
    if kind == "edge":
        return np.minimum(1.0, np.linspace(0, 4, n))
    return r.normal(size=n)


def run(c):
    import qutip_qtrl.pulsegen as pg
    n, nc, fix, T = c["n"], c["nc"], c["fix"], c["T"]
    r = np.random.default_rng(c["seed"])
    nb = 2 if fix else 3
    g = pg.PulseGenCrabFourier(None, None if c["how"] == "default" else nc, {"randomize_coeffs": c["how"] != "ones" and c["rc"], "randomize_freqs": c["rf"]}, fix_freqs=fix)
    if c["how"] == "default":
        nc = 4
    g.num_tslots, g.pulse_time, g.scaling = n, T, c["scaling"]
    if c["tau"] is not None:
        g.tau = np.array(c["tau"])
    g.lbound, g.ubound = c["lb"], c["ub"]
    guess = ramp = None
    if c["guess"]:
        guess = vec(c["guess"], n, r)
        g.guess_pulse, g.guess_pulse_action = guess.copy(), c["action"]
    if c["ramp"]:
        ramp = vec(c["ramp"], n, r)
        g.ramping_pulse = ramp.copy()
    np.random.seed(c["seed"])
    C = c["big"] * r.normal(size=(nc, nb))
    first = None
    if c["how"] == "init":
        g.init_pulse(num_coeffs=nc, init_coeffs=C.ravel())
    elif c["how"] == "first":
        first = g.gen_pulse(C.copy())
    else:
        g.init_pulse()
        need(g.num_coeffs == nc, "number of coefficients", str(g.num_coeffs))
        need(np.shape(g.coeffs) == (nc, nb), "shape of the coefficients", str(np.shape(g.coeffs)))
        need(bool(np.all(np.abs(g.coeffs) <= abs(c["scaling"]) * (1 + 1e-12))), "random coefficients within the scaling", str(g.coeffs))
        if c["how"] == "ones" or not c["rc"]:
            need_close(g.coeffs, np.full((nc, nb), c["scaling"]), "coefficients without randomisation", "", 1e-12)
    need(g.num_optim_vars == nc * nb, "number of variables", str(g.num_optim_vars))
    need(len(g.freqs) == nc, "number of frequencies", str(g.freqs))
    h = 2 * np.pi / T * np.arange(1, nc + 1)
    if c["rf"]:
        need(bool(np.all(np.abs(g.freqs - h) <= 0.5 + 1e-9)), "frequencies", "%s %s" % (g.freqs, h))
    else:
        need_close(g.freqs, h, "harmonics", "", 1e-12)
    if c["how"] == "vars":
        v = g.get_optim_var_vals()
        need_close(np.asarray(v), np.asarray(g.coeffs).ravel(), "reported variables", "", 0)
        x = C.ravel().copy()
        g.set_optim_var_vals(x)
        need_close(np.asarray(g.get_optim_var_vals()), C.ravel(), "variables reported as given", "", 0)
        need_close(x, C.ravel(), "caller's variables", "", 0)
    elif c["how"] == "gen":
        first = g.gen_pulse(C.copy())
    if c["how"] in ("vars", "init", "gen", "first"):
        need_close(np.asarray(g.coeffs), C, "coefficients used", "", 0)
    else:
        C = np.array(g.coeffs, float)
    F = np.array(g.freqs, float)
    if first is not None:
        p = np.array(first, float)
    else:
        p = np.array(g.gen_pulse(), float)
    need_close(np.asarray(g.coeffs), C, "coefficients changed by generating the pulse", "", 0)
    need_close(np.asarray(g.freqs), F, "frequencies changed by generating the pulse", "", 0)
    if guess is not None:
        need_close(g.guess_pulse, guess, "guess pulse changed", "", 0)
    if ramp is not None:
        need_close(g.ramping_pulse, ramp, "ramping pulse changed", "", 0)
    lb = None if c["lb"] is None or np.isinf(c["lb"]) else c["lb"]
    ub = None if c["ub"] is None or np.isinf(c["ub"]) else c["ub"]
    need(p.shape == (n,), "one value per slot", str(p.shape))
    inside(p, lb, ub, "crab", 1e-6 * max(abs(x) for x in (lb, ub, 1) if x is not None) if c["tau"] is None else 0)
    tau = np.full(n, T / n) if c["tau"] is None else np.array(c["tau"])
    t = np.concatenate([[0], np.cumsum(tau)[:-1]])
    w = np.zeros(n)
    for k in range(nc):
        f = F[k] if fix else C[k, 2]
        w = w + C[k, 0] * np.sin(f * t) + C[k, 1] * np.cos(f * t)
    if guess is not None:
        w = w + guess if c["action"].upper() == "ADD" else (1 + w) * guess
    if ramp is not None:
        w = w * ramp
    fm = max(1, float(np.max(np.abs(C[:, 2]))) if not fix else float(np.max(np.abs(F))))
    tol = 1e-6 * (1 + fm * T) if c["tau"] is None else 1e-9 * (1 + fm * T)
    scale = 1 + np.max(np.abs(C)) * nc * (1 + (np.max(np.abs(guess)) if guess is not None else 0)) * (1 + (np.max(np.abs(ramp)) if ramp is not None else 0))
    if lb is None and ub is None:
        d = np.max(np.abs(p - w))
        need(d <= tol * scale, "Fourier expansion", "%s: got %s, want %s" % (d, p[:8], w[:8]))
    q = np.array(g.gen_pulse(), float)
    need_close(q, p, "same coefficients, same pulse", "", 0)
    # other coefficients on the same generator
    C2 = c["big"] * r.normal(size=(nc, nb))
    g.set_optim_var_vals(C2.ravel())
    inside(g.gen_pulse(), lb, ub, "second", 1e-6 * max(abs(x) for x in (lb, ub, 1) if x is not None) if c["tau"] is None else 0)
    need_close(p, q, "earlier pulse changed", "", 0)
    return []
