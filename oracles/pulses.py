"""Pulse generators: case generation and independent waveforms."""
import numpy as np
from common import need, need_close

INF = float("inf")
TYPES = ["RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2", "LIN", "ZERO", "SINE", "SQUARE", "SAW", "TRIANGLE", "GAUSSIAN", "GAUSSIAN_EDGE"]
RANDOM = TYPES[:5]
PERIODIC = ["SINE", "SQUARE", "SAW", "TRIANGLE"]


def rnd_params(rng, typ, T):
    """(attributes set at creation, arguments of gen_pulse)"""
    at, ar = {}, {}

    def some(**kw):
        for k, v in kw.items():
            x = rng.random()
            if x < 0.35:
                at[k] = v()
            elif x < 0.6:
                ar[k] = v()
            elif x < 0.7:
                at[k] = v()
                ar[k] = v()
    if typ == "RNDFOURIER":
        some(min_wavelen=lambda: T * rng.uniform(0.02, 1))
    elif typ == "RNDWAVES":
        some(num_comp_waves=lambda: rng.randint(1, 9), min_wavelen=lambda: T * rng.uniform(0.02, 0.9), max_wavelen=lambda: T * rng.uniform(1, 3))
    elif typ == "RNDWALK1":
        some(max_d_amp=lambda: rng.uniform(0, 2))
    elif typ == "RNDWALK2":
        some(max_d2_amp=lambda: rng.uniform(0, 2))
    elif typ == "LIN":
        some(gradient=lambda: rng.uniform(-3, 3), start_val=lambda: rng.choice([0.0, rng.uniform(-2, 2)]), end_val=lambda: rng.choice([0.0, rng.uniform(-2, 2)]))
        if "gradient" in at and "end_val" not in at:
            at["end_val"] = None
    elif typ in PERIODIC:
        some(num_waves=lambda: rng.choice([rng.randint(1, 5), rng.uniform(0.1, 6)]), wavelen=lambda: T * rng.uniform(0.1, 3), freq=lambda: rng.uniform(0.05, 9),
             start_phase=lambda: rng.choice([0.0, rng.uniform(0, 7), -rng.uniform(0, 2)]))
    elif typ == "GAUSSIAN":
        some(mean=lambda: rng.choice([0.0, T * rng.uniform(-0.2, 1.2)]), variance=lambda: T * rng.uniform(0.01, 2))
    elif typ == "GAUSSIAN_EDGE":
        some(decay_time=lambda: T * rng.uniform(0.01, 1))
    return at, ar


def rnd_case(rng, types=TYPES):
    typ = rng.choice(types)
    n = rng.choice([1, 2, 3, 5, 10, 17])
    T = rng.choice([1.0, rng.uniform(0.2, 20)])
    tau = None
    if rng.random() < 0.5:
        tau = [rng.uniform(0.05, 1.5) for _ in range(n)]
        T = sum(tau)
    at, ar = rnd_params(rng, typ, T)
    return {"type": typ, "n": n, "T": T, "tau": tau, "aslist": rng.random() < 0.4, "attrs": at, "args": ar, "scaling": rng.choice([1.0, rng.uniform(0.1, 4), -1.5, 0.0 if rng.random() < 0.2 else 2.0]),
            "offset": rng.choice([0.0, rng.uniform(-3, 3)]), "lb": None, "ub": None, "seed": rng.randrange(10**6)}


def make(c, **over):
    import qutip_qtrl.pulsegen as pg
    c = dict(c, **over)
    g = pg.create_pulse_gen(c["type"], pulse_params=dict(c["attrs"]) if c.get("asparams", True) else None)
    if not c.get("asparams", True):
        for k, v in c["attrs"].items():
            setattr(g, k, v)
    g.num_tslots, g.pulse_time = c["n"], c["T"]
    if c["tau"] is not None:
        g.tau = list(c["tau"]) if c["aslist"] else np.array(c["tau"])
    g.scaling, g.offset, g.lbound, g.ubound = c["scaling"], c["offset"], c["lb"], c["ub"]
    for k in ("min_wavelen", "max_wavelen", "mean", "variance", "decay_time"):
        # defaults refer to the pulse time at creation
        if hasattr(g, k) and k not in c["attrs"]:
            v = getattr(g, k)
            if k == "max_wavelen":
                v = 2.0 * c["T"]
            elif k in ("mean", "variance"):
                v = 0.5 * c["T"]
            else:
                v = c["T"] / 10.0
            setattr(g, k, v)
    return g


def draw(g, c, args=None):
    np.random.seed(c["seed"] % 2**31)
    p = g.gen_pulse(**(c["args"] if args is None else args))
    return p


def times(g):
    t = np.asarray(g.tau, float)
    return np.concatenate([[0.0], np.cumsum(t)[:-1]])


def inside(p, lb, ub, what, tol=0.0):
    p = np.asarray(p, float)
    e = 1e-9 * (1 + np.max(np.abs(p))) + tol
    need(bool(np.all(np.isfinite(p))), "finite", "%s: %s" % (what, p))
    if lb is not None:
        need(bool(np.all(p >= lb - e)), "lower bound", "%s: min %r < %r" % (what, p.min(), lb))
    if ub is not None:
        need(bool(np.all(p <= ub + e)), "upper bound", "%s: max %r > %r" % (what, p.max(), ub))


def expected(c, g):
    """independent waveform and a mask of the slots away from jumps"""
    a = dict(c["attrs"])
    r = c["args"]
    t = times(g)
    T, typ = c["T"], c["type"]
    ok = np.ones(len(t), bool)
    if typ == "ZERO":
        return np.zeros(len(t)), ok
    if typ == "LIN":
        st = r["start_val"] if r.get("start_val") is not None else a.get("start_val", -1.0)
        if r.get("end_val") is not None:
            en = r["end_val"]
        elif r.get("gradient") is not None:
            en = None
        else:
            en = a.get("end_val", 1.0)
        if en is None:
            gr = r["gradient"] if r.get("gradient") is not None else a["gradient"]
            return st + gr * t, ok
        if len(t) == 1:
            return np.array([st]), ok
        return st + (en - st) * t / t[-1], ok
    if typ in PERIODIC:
        f = freq(c)
        ph = r["start_phase"] if r.get("start_phase") is not None else a.get("start_phase", 0.0)
        x = f * t + ph / (2 * np.pi)
        fr = x - np.floor(x)

        def away(*pts):
            return np.all([np.abs(fr - p) > 1e-5 * (1 + abs(f) * T) for p in pts], axis=0)
        if typ == "SINE":
            return np.sin(2 * np.pi * x), ok
        if typ == "SQUARE":
            return np.where(fr < 0.5, 1.0, -1.0), away(0, 0.5, 1)
        if typ == "SAW":
            return np.where(fr < 0.5, 2 * fr, 2 * fr - 2), away(0.5)
        return np.where(fr < 0.25, 4 * fr, np.where(fr < 0.75, 2 - 4 * fr, 4 * fr - 4)), ok
    if typ == "GAUSSIAN":
        m = r["mean"] if r.get("mean") is not None else a.get("mean", 0.5 * T)
        v = r["variance"] if r.get("variance") is not None else a.get("variance", 0.5 * T)
        return np.exp(-((t - m) ** 2) / (2 * v)), ok
    if typ == "GAUSSIAN_EDGE":
        d = r["decay_time"] if r.get("decay_time") is not None else a.get("decay_time", T / 10)
        return 1 - np.exp(-(t**2) / d) - np.exp(-((t - T) ** 2) / d), ok
    raise AssertionError(typ)


def freq(c):
    """driver: number of waves, else wavelength, else frequency; arguments replace attributes together"""
    a, r = c["attrs"], c["args"]
    src = a
    if any(r.get(k) is not None for k in ("num_waves", "wavelen", "freq")):
        src = r
    if src.get("num_waves") is not None:
        return src["num_waves"] / c["T"]
    if src.get("wavelen") is not None:
        return 1 / src["wavelen"]
    return src.get("freq", 1.0) if src.get("freq") is not None else 1.0
