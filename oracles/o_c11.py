"""C11: bounds of generated pulses."""
import numpy as np
from common import need, need_close
from pulses import *

RULE = ("every non-CRAB pulse type with random slots, durations, parameters, scalings, offsets and bounds (absent, infinite, one-sided, two-sided, tight, equal; set at "
        "creation or changed afterwards): length, finiteness, bounds; the unbounded pulse with the same random state plus the offset whenever that fits; linear in scaling")


def corner():
    for typ in TYPES:
        for n in (1, 2, 10):
            for lb, ub in ((None, None), (-0.5, 0.5), (None, 0.2), (-0.1, None), (-INF, INF), (-INF, 0.3), (0.1, INF), (2.0, 3.0), (-3.0, -2.9), (1.0, 1.0), (-10.0, 10.0),
                           (None, 10.0), (-10.0, None), (0.0, 1.0), (-1.0, 0.0), (0.0, None), (None, 0.0), (-0.5, INF)):
                for how in ("set", "later"):
                    yield {"kind": "one", "type": typ, "n": n, "T": 2.0, "tau": None, "aslist": False, "attrs": {}, "args": {}, "scaling": 1.0, "offset": 0.25, "lb": lb, "ub": ub,
                           "how": how, "seed": 5}


def gen(rng):
    c = rnd_case(rng)
    c["kind"] = "one"
    mid, w = rng.uniform(-4, 4), rng.choice([rng.uniform(0, 6), rng.uniform(0, 0.5), 0.0])
    lb, ub = mid - w, mid + w
    if rng.random() < 0.2:
        lb = 0.0
        ub = abs(ub)
    elif rng.random() < 0.1:
        lb, ub = -abs(lb), 0.0
    c["lb"] = rng.choice([None, -INF, lb, lb, lb])
    c["ub"] = rng.choice([None, INF, ub, ub, ub])
    c["how"] = rng.choice(["set", "later", "params"])
    return c


def tolb(c, p):
    """default slot durations give values in single precision"""
    return 0 if c["tau"] is not None else 1e-6 * (1 + max(abs(c[k]) for k in ("lb", "ub") if c[k] is not None and np.isfinite(c[k])) if any(
        c[k] is not None and np.isfinite(c[k]) for k in ("lb", "ub")) else 1)


def run(c):
    lb = None if c["lb"] is None or np.isinf(c["lb"]) else c["lb"]
    ub = None if c["ub"] is None or np.isinf(c["ub"]) else c["ub"]
    free = make(c, lb=None, ub=None, offset=0.0)
    w = np.array(draw(free, c), float)
    need(w.shape == (c["n"],), "one value per slot", str(w.shape))
    inside(w, None, None, "unbounded")
    g = make(c, lb=None, ub=None)
    off = np.array(draw(g, c), float)
    need_close(off, w + c["offset"], "waveform plus offset", "", 1e-6 if c["tau"] is None else 1e-9)
    if c["type"] != "RNDWALK2" and c["scaling"]:
        one = np.array(draw(make(c, lb=None, ub=None, offset=0.0, scaling=1.0), c), float)
        need_close(w, c["scaling"] * one, "proportional to the scaling", "", 1e-6)
    if c["how"] == "later":
        g.lbound, g.ubound = c["lb"], c["ub"]
    elif c["how"] == "params":
        g = make(dict(c, attrs=dict(c["attrs"], lbound=c["lb"], ubound=c["ub"])))
    else:
        g = make(c)
    p = np.array(draw(g, c), float)
    need(p.shape == (c["n"],), "one value per slot", str(p.shape))
    inside(p, lb, ub, "bounded", tolb(c, p))
    e = 1e-6
    if (lb is None or np.all(off >= lb + e)) and (ub is None or np.all(off <= ub - e)):
        need_close(p, off, "a pulse within the bounds is left alone", "", 1e-6 if c["tau"] is None else 1e-9)
    q = np.array(draw(g, c), float)
    need_close(q, p, "same random state, same pulse", "", 0)
    if c["type"] in RANDOM:
        c2 = dict(c, seed=c["seed"] + 1)
        inside(draw(g, c2), lb, ub, "other random state", tolb(c, p))
    # narrower bounds on the same generator
    if lb is not None and ub is not None and ub > lb:
        m = 0.5 * (lb + ub)
        g.lbound = m
        inside(draw(g, c), m, ub, "bounds changed", tolb(c, p))
    return []
