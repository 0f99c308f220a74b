"""C24: saved amplitude files."""
import os
import tempfile
import numpy as np
import qutip
from common import need, need_close

RULE = ("save_amps of Dynamics objects of random slot counts, control counts, time grids (uniform, given slot durations) and amplitudes (several magnitudes), with every combination of given or "
        "default file name, times, amplitudes and column option: the file read back, the object and the arguments unchanged")
TIMES = [None, "exclude", "EXCLUDE", "bogus", "given", "givenlist"]


def base(**k):
    c = {"kind": "save", "n": 3, "m": 2, "tau": None, "T": 2.0, "mag": 1.0, "times": None, "amps": False, "fname": "f.txt", "verbose": False, "cls": "DynamicsUnitary", "seed": 1, "optim": False, "whole": False}
    c.update(k)
    return c


def corner():
    for n in (1, 2, 7):
        for m in (1, 2, 3):
            for t in TIMES:
                for a in (False, True):
                    yield base(n=n, m=m, times=t, amps=a, fname=None if a else "f.txt", tau=[0.2 + 0.1 * i for i in range(n)] if n == 2 else None, optim=not a, whole=bool(a and (n + m) % 2))


def gen(rng):
    n = rng.choice([1, 2, 3, 5, 12])
    return base(n=n, m=rng.choice([1, 2, 3, 4]), tau=[rng.uniform(0.01, 30) for _ in range(n)] if rng.random() < 0.5 else None, T=rng.uniform(0.1, 50), mag=10 ** rng.uniform(-6, 7),
                times=rng.choice(TIMES), amps=rng.random() < 0.4, fname=rng.choice([None, "f.txt", "x.dat"]), verbose=rng.random() < 0.3, cls=rng.choice(["DynamicsUnitary", "DynamicsGenMat"]),
                seed=rng.randrange(10**6), optim=rng.random() < 0.3, whole=rng.random() < 0.25)


def run(c):
    from qutip_qtrl import dynamics, optimconfig
    n, m = c["n"], c["m"]
    r = np.random.default_rng(c["seed"])
    d = getattr(dynamics, c["cls"])(optimconfig.OptimConfig())
    ops = [qutip.sigmax(), qutip.sigmay(), qutip.sigmaz(), qutip.sigmax() + qutip.sigmaz()][:m]
    if c["cls"] == "DynamicsUnitary":
        d.drift_ham, d.ctrl_ham = qutip.sigmaz(), ops
    else:
        d.drift_dyn_gen, d.ctrl_dyn_gen = -1j * qutip.sigmaz(), [-1j * o for o in ops]
    d.initial, d.target = qutip.qeye(2), qutip.sigmax()
    d.num_tslots, d.evo_time = n, c["T"]
    if c["tau"]:
        d.tau = np.array(c["tau"])
    A = c["mag"] * r.normal(size=(n, m))
    if n > 1:
        A[0, 0] = 0.0
    d.initialize_controls(A.copy())
    tau = np.array(c["tau"]) if c["tau"] else np.full(n, c["T"] / n)
    start = np.concatenate([[0], np.cumsum(tau)[:-1]])
    kw = {}
    t = c["times"]
    given = None
    if t in ("given", "givenlist"):
        given = r.uniform(-5, 50, n)
        kw["times"] = given.copy() if t == "given" else given.tolist()
        start = given
    elif t is not None:
        kw["times"] = t
    B = A
    if c["amps"]:
        B = c["mag"] * r.normal(size=(n, m))
        if c.get("whole"):
            B = r.integers(-99, 99, (n, m))
        kw["amps"] = B.copy()
    if c["verbose"]:
        kw["verbose"] = True
    time0, fid = d.time.copy(), float(d.fid_computer.get_fid_err()) if c["mag"] < 100 else None
    with tempfile.TemporaryDirectory(prefix="c24_") as top:
        cwd = os.getcwd()
        os.chdir(top)
        try:
            if c["fname"] is None:
                d.def_amps_fname = "default_amps.txt"
            else:
                kw["file_name"] = os.path.join(top, c["fname"])
            d.save_amps(**kw)
            want = "default_amps.txt" if c["fname"] is None else c["fname"]
            need(os.listdir(top) == [want], "file written", "%s instead of %s" % (os.listdir(top), want))
            D = np.loadtxt(want, ndmin=2)
        finally:
            os.chdir(cwd)
    inc = not (isinstance(t, str) and t.lower() == "exclude")
    need(D.shape == (n, m + inc), "one row per slot, one column per control", "%s" % (D.shape,))

    def same(x, y, key):
        need(bool(np.all(np.abs(x - y) <= 6e-6 * np.abs(y) + 1e-300 + (1e-7 if key == "times" and t is None and not c["tau"] else 0))), key, "file %s, object %s" % (x.tolist(), y.tolist()))
    same(D[:, int(inc):], B, "amplitudes")
    if inc:
        x = D[:, 0]
        e = np.abs(x - start)
        need(bool(np.all(e <= 1e-5 * np.abs(start) + (2e-6 * c["T"] if not c["tau"] else 1e-12))), "times", "file %s, object %s" % (x.tolist(), start.tolist()))
    need_close(d.ctrl_amps, A, "amplitudes of the object changed", "", 0)
    need_close(d.time, time0, "times of the object changed", "", 0)
    if c["amps"]:
        need_close(kw["amps"], B, "caller's amplitudes changed", "", 0)
    if given is not None:
        need_close(np.asarray(kw["times"]), given, "caller's times changed", "", 0)
    if fid is not None:
        need_close(float(d.fid_computer.get_fid_err()), fid, "fidelity changed", "", 0)
    return []
