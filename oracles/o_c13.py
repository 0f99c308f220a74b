"""C13: waveforms and parameters."""
import numpy as np
from common import need, need_close
from pulses import *

RULE = ("every non-random pulse type with random slots, durations and parameters (as attributes at creation, as attributes afterwards or as arguments) against an independent waveform at "
        "the slots' start times; the reported parameters are related to each other and to the ones used; second calls with other parameters")
NR = ["LIN", "ZERO", "SINE", "SQUARE", "SAW", "TRIANGLE", "GAUSSIAN", "GAUSSIAN_EDGE"]


def base(**k):
    c = {"kind": "wave", "type": "SINE", "n": 10, "T": 2.0, "tau": None, "aslist": False, "attrs": {}, "args": {}, "scaling": 1.0, "offset": 0.0, "lb": None, "ub": None, "seed": 1, "args2": {}}
    c.update(k)
    return c


def corner():
    for n in (1, 2, 10, 37):
        for typ in PERIODIC:
            for at, ar in (({}, {}), ({"num_waves": 3}, {}), ({"wavelen": 0.7}, {}), ({"freq": 1.3}, {}), ({"num_waves": 2, "wavelen": 9.0}, {}), ({}, {"num_waves": 3}),
                           ({}, {"wavelen": 0.7}), ({}, {"freq": 1.3}), ({"num_waves": 2}, {"freq": 1.3}), ({"wavelen": 0.7}, {"num_waves": 1.5}), ({"freq": 3.3}, {"wavelen": 0.31}),
                           ({"start_phase": 0.4}, {}), ({}, {"start_phase": 0.4}), ({"start_phase": 2.0}, {"start_phase": 0.0}), ({}, {"freq": 2.2, "start_phase": 3.0})):
                for tau in (None, "u"):
                    ta = None if tau is None else [0.1 + 0.05 * ((7 * k) % 5) for k in range(n)]
                    yield base(type=typ, n=n, attrs=at, args=ar, tau=ta, T=sum(ta) if ta else 2.0, scaling=1.7, args2=ar)
        for at, ar in (({}, {}), ({"start_val": 0.0}, {}), ({"end_val": 0.0}, {}), ({"start_val": 0.3, "end_val": -2.0}, {}), ({"gradient": 0.8, "end_val": None}, {}), ({}, {"gradient": 0.8}),
                       ({}, {"gradient": 0.0}), ({}, {"start_val": 0.0}), ({}, {"end_val": 0.0}), ({}, {"start_val": 0.5, "gradient": -1.0}), ({}, {"start_val": 2.0, "end_val": -1.0, "gradient": 5.0})):
            for tau in (None, "u"):
                ta = None if tau is None else [0.1 + 0.05 * ((7 * k) % 5) for k in range(n)]
                yield base(type="LIN", n=n, attrs=at, args=ar, tau=ta, T=sum(ta) if ta else 2.0, scaling=1.3, offset=0.2, args2=ar)
        for at, ar in (({}, {}), ({"mean": 0.0}, {}), ({"mean": 0.3, "variance": 0.2}, {}), ({}, {"mean": 0.0}), ({}, {"mean": 1.5, "variance": 0.05})):
            yield base(type="GAUSSIAN", n=n, attrs=at, args=ar, scaling=2.0)
        for at, ar in (({}, {}), ({"decay_time": 0.5}, {}), ({}, {"decay_time": 0.05})):
            yield base(type="GAUSSIAN_EDGE", n=n, attrs=at, args=ar, scaling=2.0)


def gen(rng):
    c = rnd_case(rng, NR)
    c["kind"] = "wave"
    c["asparams"] = rng.random() < 0.5
    c["args2"] = rnd_params(rng, c["type"], c["T"])[1] if rng.random() < 0.5 else {}
    c["init"] = rng.random() < 0.3
    return c


def reported(g, c):
    """the reported parameters"""
    T = c["T"]
    if c["type"] in PERIODIC:
        f = freq(c)
        need_close(g.freq, f, "frequency", "", 1e-9)
        need_close(g.wavelen, 1 / f, "wavelength", "", 1e-9)
        need_close(g.num_waves, f * T, "number of waves", "", 1e-9)
        ph = c["args"].get("start_phase")
        need(g.start_phase == (c["attrs"].get("start_phase", 0.0) if ph is None else ph), "start phase", str(g.start_phase))


def check(g, c, p, what):
    w, ok = expected(c, g)
    p = np.asarray(p, float)
    need(p.shape == (c["n"],), "one value per slot", str(p.shape))
    want = c["scaling"] * w + c["offset"]
    # default slot durations are in single precision
    cyc = abs(freq(c)) * c["T"] if c["type"] in PERIODIC else 1
    tol = 1e-6 * (1 + cyc) * (1 + c["n"]) if c["tau"] is None else 1e-8
    d = np.abs(p - want)[ok]
    need(not d.size or d.max() <= tol * (1 + np.max(np.abs(want)) + 10 * abs(c["scaling"])), "waveform of " + c["type"],
         "%s: got %s, want %s" % (what, p.tolist()[:8], want.tolist()[:8]))
    reported(g, c)


def run(c):
    g = make(c)
    if c.get("init"):
        # parameters given to init_pulse
        k = {x: c["args"][x] for x in c["args"]} if c["type"] in PERIODIC + ["LIN"] else {}
        g.init_pulse(**k)
        reported(g, c) if k or not c["args"] else None
        p = g.gen_pulse(**({} if k else c["args"]))
    else:
        p = g.gen_pulse(**c["args"])
    check(g, c, p, "first")
    p0 = np.array(p, float)
    q = g.gen_pulse() if c["type"] in PERIODIC + ["LIN"] else g.gen_pulse(**c["args"])
    need_close(np.asarray(q, float), p0, "repeated call gives the same pulse", "", 0)
    need_close(np.asarray(p, float), p0, "the first pulse changed afterwards", "", 0)
    # cumulative grid
    need(g.tau is not None and len(g.tau) == c["n"], "slot durations", str(g.tau))
    need_close(np.asarray(g.tau, float), np.asarray(c["tau"], float) if c["tau"] is not None else np.full(c["n"], c["T"] / c["n"]), "slot durations", "", 1e-6)
    if c["type"] == "LIN" and c["n"] > 1 and c["args"].get("end_val") is not None and c["scaling"]:
        need_close((p0[-1] - c["offset"]) / c["scaling"], c["args"]["end_val"], "end value in the last slot", "", 1e-4)
    if c["args2"]:
        # attributes after the first call are the driver of the second
        if c["type"] in PERIODIC:
            at = {"num_waves": c["T"] * freq(c), "start_phase": g.start_phase}
        elif c["type"] == "LIN":
            at = {"start_val": g.start_val, "end_val": g.end_val, "gradient": g.gradient}
        else:
            at = c["attrs"]
        c2 = dict(c, attrs=at, args=c["args2"])
        check(g, c2, g.gen_pulse(**c["args2"]), "second")
    return []
