"""C18: parameter files."""
import os
import tempfile
import numpy as np
import qutip
from common import need

RULE = ("parameter files with random sections, names (existing and unknown attributes) and values of every attribute type loaded into configuration, termination, dynamics, optimiser, pulse "
        "generator and general objects; exactly the named attributes change, with their type; writing all simple attributes of an object and loading them back gives the same values")
SECS = {"config": "optimconfig", "term_conds": "termconds", "dynamics": "dynamics", "optim": "optimizer", "pulsegen": "pulsegen", "obj": "mysect"}
FIXED = {
    "config": {"fid_type": "UNIT", "dyn_type": "GEN_MAT", "amp_lbound": -1.5, "test_out_dir": "x/y"},
    "term_conds": {"fid_err_targ": 1e-4, "min_gradient_norm": 1e-3, "max_wall_time": 12.5, "max_fid_func_calls": 77, "max_iterations": 13, "fid_goal": 0.5},
    "dynamics": {"num_tslots": 9, "evo_time": 3.25, "memory_optimization": 1, "def_amps_fname": "zz.txt", "cache_dyn_gen_eigenvectors_adj": True, "fact_mat_round_prec": 1e-8, "dumping_level": None},
    "optim": {"approx_grad": True, "num_iter": 4, "method": "BFGS", "amp_lbound": -2.5, "log_level": 40, "bounds": None},
    "pulsegen": {"scaling": 2.5, "offset": -0.5, "num_tslots": 5, "periodic": True, "lbound": 0.0},
}


def corner():
    for o in SECS:
        yield {"kind": "load", "objs": [o], "entries": {o: [["fixed", k, v] for k, v in FIXED.get(o, {}).items()]}, "order": 0, "drop": None}
        yield {"kind": "load", "objs": [o], "entries": {k: [] for k in SECS}, "order": 0, "drop": o}
    for typ in TYPES:
        for s in range(12):
            yield {"kind": "gen", "type": typ, "seed": s}
    for o in ("config", "term_conds", "dynamics", "optim", "pulsegen", "crab", "lin"):
        yield {"kind": "trip", "obj": o, "seed": 1, "pert": False}
        yield {"kind": "trip", "obj": o, "seed": 2, "pert": True}
    for e in ("missing", "nosection", "badsection"):
        yield {"kind": "err", "what": e}


TYPES = ["int", "float", "complex", "bool", "str", "list", "array", "iarray", "carray", "qobj", "none", "nonetext", "nonebool", "floateval", "array2", "absent"]


def gen(rng):
    k = rng.choice(["gen", "gen", "load", "trip"])
    if k == "gen":
        return {"kind": "gen", "type": rng.choice(TYPES), "seed": rng.randrange(10**6)}
    if k == "trip":
        return {"kind": "trip", "obj": rng.choice(["config", "term_conds", "dynamics", "optim", "pulsegen", "crab", "lin"]), "seed": rng.randrange(10**6), "pert": rng.random() < 0.7}
    objs = [o for o in SECS if rng.random() < 0.6] or ["config"]
    ent = {}
    for o in SECS:
        if rng.random() < 0.8:
            es = [["fixed", a, v] for a, v in FIXED.get(o, {}).items() if rng.random() < 0.5]
            for i in range(rng.randint(0, 3)):
                es.append(["unknown", "no_such_%s_%d" % (o, i), rng.choice(["1", "abc", "2.5", "True"])])
            if o == "obj":
                es += [["mine", a, rng.randint(-9, 9)] for a in ("ia", "ib", "ic") if rng.random() < 0.6]
            rng.shuffle(es)
            ent[o] = es
    return {"kind": "load", "objs": objs, "entries": ent, "order": rng.randrange(100), "drop": None}


class Thing:
    def __init__(self):
        self.ia, self.ib, self.ic, self.keep = 1, 2, 3, "keep"


def make(o):
    from qutip_qtrl import dynamics, optimconfig, termcond, optimizer, pulsegen
    cfg = optimconfig.OptimConfig()
    if o == "config":
        return cfg
    if o == "term_conds":
        return termcond.TerminationConditions()
    if o == "obj":
        return Thing()
    if o == "crab":
        return pulsegen.PulseGenCrabFourier()
    if o == "lin":
        return pulsegen.PulseGenLinear()
    if o == "pulsegen":
        return pulsegen.PulseGenSine()
    d = dynamics.DynamicsUnitary(cfg)
    return d if o == "dynamics" else optimizer.Optimizer(cfg, d)


def show(v):
    if isinstance(v, qutip.Qobj):
        return ("Qobj", v.full().tolist(), v.dims)
    if isinstance(v, np.ndarray):
        return ("ndarray", v.dtype.str, v.tolist())
    if isinstance(v, (int, float, str, bool, complex, list, tuple, type(None))):
        return (type(v).__name__, repr(v))
    return ("obj", id(v))


def state(o):
    return {k: show(v) for k, v in vars(o).items()}


def write(path, secs):
    with open(path, "w") as f:
        for s, es in secs:
            f.write("[%s]\n" % s)
            for k, v in es:
                f.write("%s = %s\n" % (k, v))


def getv(o, k):
    return getattr(o, k)


def k_load(c, top):
    from qutip_qtrl import loadparams
    p = os.path.join(top, "p.ini")
    secs = [(SECS[o], [(e[1], e[2]) for e in c["entries"][o]]) for o in SECS if o in c["entries"] and o != c["drop"]]
    k = c["order"] % max(1, len(secs))
    secs = secs[k:] + secs[:k]
    write(p, secs)
    obs = {o: make(o) for o in SECS}
    attrs = {o: {e[1]: show(getattr(obs[o], e[1])) for e in c["entries"].get(o, []) if hasattr(obs[o], e[1])} for o in SECS}
    before = {o: state(x) for o, x in obs.items()}
    kw = {o: obs[o] for o in c["objs"]}
    if "obj" in kw:
        kw["section"] = "mysect"
    loadparams.load_parameters(p, **kw)
    for o, x in obs.items():
        after = state(x)
        named = {}
        if o in c["objs"] and o != c["drop"]:
            named = {e[1]: e[2] for e in c["entries"].get(o, []) if e[1] in attrs[o]}
        need(set(after) == set(before[o]), "no attribute is created or removed", "%s: %s" % (o, set(after) ^ set(before[o])))
        for a, v in named.items():
            t = attrs[o][a][0]
            got = getattr(x, a)
            if t == "NoneType":
                want = v if isinstance(v, str) else (str(v) if v is None else float(v))
            else:
                want = {"int": int, "float": float, "str": str, "bool": lambda z: z if isinstance(z, bool) else bool(int(z))}.get(t, lambda z: z)(v)
            if isinstance(want, bool) and t == "NoneType":
                want = v
            if t == "NoneType" and isinstance(v, bool):
                want = v
            need(type(got).__name__ == (t if t != "NoneType" else type(want).__name__), "type of %s attribute" % t, "%s.%s: %r for text %r" % (o, a, got, v))
            need(got == want, "value of %s attribute" % t, "%s.%s: %r for text %r" % (o, a, got, v))
        # setting the slots or the duration of a Dynamics object resets its time grid
        grid = {"time", "_tau", "_num_tslots", "_evo_time", "evo_time", "_timeslots_initialized"} if {"num_tslots", "evo_time"} & set(named) else set()
        for a in before[o]:
            if a in grid:
                continue
            if a.lstrip("_") not in named and a not in named:
                need(after[a] == before[o][a], "other attributes are unchanged", "%s.%s: %s became %s" % (o, a, before[o][a], after[a]))


def k_gen(c, top):
    from qutip_qtrl import loadparams
    import random
    r = random.Random(c["seed"])
    o = Thing()
    t = c["type"]
    fl = r.choice([0.0, r.uniform(-5, 5), 10 ** r.uniform(-12, 12), -3.0, 7.0])
    ll = [r.uniform(-1, 1) for _ in range(r.randint(0, 4))]
    if t == "int":
        o.x, txt, want = 3, str(fl_ := r.choice([0, 1, -7, r.randint(-10**9, 10**9)])), None
        want = fl_
    elif t == "float":
        o.x, txt, want = 0.5, repr(fl), fl
    elif t == "floateval":
        o.x, txt, want = 0.5, r.choice(["1/4", "2*3.5", "None"]), None
        want = eval(txt)
    elif t == "complex":
        z = complex(fl, r.uniform(-2, 2))
        o.x, txt, want = 1j, str(z), z
    elif t == "bool":
        txt = r.choice(["True", "False", "yes", "no", "on", "off", "1", "0", "true", "FALSE"])
        o.x, want = r.random() < 0.5, txt.lower() in ("true", "yes", "on", "1")
    elif t == "str":
        txt = r.choice(["abc", "a b c", "1", "1.5", "True", "None", "/x/y.txt", "[1, 2]", "a=b", "x: y"])
        o.x, want = "old", txt
    elif t == "list":
        v = r.choice([ll, [1, 2, 3], ["a", "b"], [], [[1], [2, 3]]])
        o.x, txt, want = [9], repr(v), v
    elif t == "array" and r.random() < 0.4:
        v = [r.randint(-9, 9) for _ in range(r.randint(1, 4))]
        o.x, txt, want = np.zeros(2, dtype=r.choice([float, complex])), repr(v), None
        want = np.array(v, dtype=o.x.dtype)
    elif t == "array":
        o.x, txt, want = np.zeros(2), repr(ll), np.array(ll, float)
    elif t == "array2":
        v = [[r.uniform(-1, 1) for _ in range(3)] for _ in range(2)]
        o.x, txt, want = np.zeros(2), repr(v), np.array(v)
    elif t == "iarray":
        v = [r.randint(-9, 9) for _ in range(3)]
        o.x, txt, want = np.zeros(2, dtype=int), repr(v), np.array(v, dtype=int)
    elif t == "carray":
        v = [complex(r.randint(-9, 9), 1) for _ in range(3)]
        o.x, txt, want = np.zeros(2, dtype=complex), repr(v), np.array(v)
    elif t == "qobj":
        v = [[r.uniform(-1, 1) for _ in range(2)] for _ in range(2)]
        o.x, txt, want = qutip.qeye(2), repr(v), qutip.Qobj(v)
    elif t == "none":
        o.x, txt, want = None, repr(fl), fl
    elif t == "nonetext":
        txt = r.choice(["abc", "DEF", "a b", "1,2"])
        o.x, want = None, txt
    elif t == "nonebool":
        txt = r.choice(["True", "no", "off", "yes", "FALSE"])
        o.x, want = None, txt.lower() in ("true", "yes")
    else:
        txt, want = r.choice(["1", "x"]), None
    before = state(o)
    p = os.path.join(top, "p.ini")
    ks = [("ia", "5"), ("x", txt), ("ic", "6"), ("nosuch", "4")]
    r.shuffle(ks)
    write(p, [("other", [("ia", "99"), ("keep", "bad")]), ("mysect", ks)])
    loadparams.load_parameters(p, obj=o, section="mysect")
    after = state(o)
    if t == "absent":
        need("x" not in after, "unknown names are ignored", str(after))
    else:
        need("x" in after and after["x"] == show(want), "value of %s attribute" % t, "text %r gave %s, expected %s" % (txt, after.get("x"), show(want)))
    need(after["ia"] == ("int", "5") and after["ic"] == ("int", "6"), "other named attributes", str(after))
    need(after["ib"] == before["ib"] and after["keep"] == before["keep"] and "nosuch" not in after, "nothing else", str(after))


def k_trip(c, top):
    """write the simple attributes of an object, load them into a fresh one"""
    from qutip_qtrl import loadparams
    import random
    r = random.Random(c["seed"])
    a, b = make(c["obj"]), make(c["obj"])
    names = [k for k, v in vars(a).items() if k == k.lower() and k[0] != "_" and not isinstance(getattr(type(a), k, None), property)]
    es = []
    for k in names:
        v = getattr(a, k)
        if c["pert"]:
            if isinstance(v, bool):
                v = r.random() < 0.5
            elif isinstance(v, int):
                v = r.randint(0, 50)
            elif isinstance(v, float):
                v = r.choice([0.0, r.uniform(-5, 5), 10 ** r.uniform(-9, 9)])
            elif isinstance(v, str):
                v = "t%d" % r.randrange(100)
            setattr(a, k, v)
        if isinstance(v, (bool, int, float, complex)) or isinstance(v, str) and v.strip():
            es.append((k, v if isinstance(v, (str, complex)) else repr(v)))
    r.shuffle(es)
    p = os.path.join(top, "p.ini")
    write(p, [("mysect", es)])
    before = state(b)
    loadparams.load_parameters(p, obj=b, section="mysect")
    A, B = state(a), state(b)
    d = dict(es)
    for k in B:
        if k in d:
            need(B[k] == A[k], "same value back", "%s.%s: wrote %s, loaded %s" % (c["obj"], k, A[k], B[k]))
        else:
            need(B[k] == before[k], "other attributes are unchanged", "%s: %s" % (k, B[k]))


def k_err(c, top):
    from qutip_qtrl import loadparams
    p = os.path.join(top, "p.ini")
    o = Thing()
    before = state(o)
    write(p, [("mysect", [("ia", "7")])])
    try:
        if c["what"] == "missing":
            loadparams.load_parameters(os.path.join(top, "nope.ini"), obj=o, section="mysect")
        elif c["what"] == "nosection":
            loadparams.load_parameters(p, obj=o)
        else:
            loadparams.load_parameters(p, obj=o, section="elsewhere")
        need(c["what"] == "badsection", "refused", c["what"])
    except ValueError:
        need(c["what"] != "badsection", "missing section", "")
    need(state(o) == before, "nothing is changed", str(state(o)))


def run(c):
    with tempfile.TemporaryDirectory(prefix="c18_") as top:
        {"load": k_load, "gen": k_gen, "trip": k_trip, "err": k_err}[c["kind"]](c, top)
    return []
