"""C14: each GRAPE step is the stated gradient step."""
import copy
import numpy as np
import grapeprob
from common import need, need_close, Skip
from grapeprob import G

RULE = ("single calls of cy_grape_inner on random operators, pulses, rows, limits and penalties (whole array compared, all other rows unchanged), and runs of the three GRAPE functions on random problems "
        "(dimension, slots, controls, iterations, step, limits, starting pulses as array/list/none, interpolation, penalties, phase option, operator data type): every row of the pulse history "
        "recomputed from the row before it by a separate evaluation of the step; caller's arguments unchanged")


def corner():
    yield from ({"kind": "run", **c} for c in grapeprob.corner())
    i = 0
    for ps in (True, False):
        for lim in (None, [-0.1, 0.1], [0.2, 0.4]):
            for al, be in ((0.0, 0.0), (0.4, 0.0), (0.0, 0.3), (0.2, 0.1)):
                for r in (0, 2):
                    i += 1
                    yield inner(seed=i, ps=ps, lim=lim, alpha=al, beta=be, r=r, J=1 + i % 3, M=2 + i % 4)


def inner(**k):
    c = {"kind": "inner", "N": 2, "J": 2, "M": 4, "R": 4, "r": 1, "seed": 1, "ps": True, "lim": None, "alpha": 0.0, "beta": 0.0, "dt": 0.3, "eps": 0.2, "data": "Dense"}
    c.update(k)
    return c


def gen(rng):
    if rng.random() < 0.4:
        R = rng.randint(2, 6)
        lo = rng.uniform(-1, 1)
        return inner(N=rng.choice([2, 3, 4]), J=rng.randint(1, 4), M=rng.randint(2, 8), R=R, r=rng.randint(0, R - 2), seed=rng.randrange(10**6), ps=rng.random() < 0.5,
                     lim=rng.choice([None, [lo, lo + rng.uniform(0, 1)]]), alpha=rng.choice([0.0, 0.3, 2.0]), beta=rng.choice([0.0, 0.3, -0.2]), dt=rng.choice([0.01, 0.3, 2.0]), eps=rng.choice([0.05, 1.0, -0.5, 5.0]),
                     data=rng.choice(["Dense", "CSR"]))
    return {"kind": "run", **grapeprob.rand(rng)}


def run(c):
    return run_inner(c) if c["kind"] == "inner" else run_run(c)


def run_inner(c):
    from qutip import Qobj
    from qutip_qtrl.cy_grape import cy_grape_inner, cy_overlap
    r = np.random.default_rng(c["seed"])
    N, J, M, R = c["N"], c["J"], c["M"], c["R"]
    mk = lambda: r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))
    U, B, F, H = mk(), [mk() for _ in range(M - 1)], [mk() for _ in range(M - 1)], [mk() for _ in range(J)]
    dat = lambda x: Qobj(x).to(c["data"]).data
    u = r.normal(size=(R, J, M))
    want, row, before = u.copy(), c["r"], None
    args = [dat(U), u, row, J, M, [dat(x) for x in B], [dat(x) for x in F], [dat(x) for x in H]]
    lo, hi = c["lim"] or [0.0, 0.0]
    ov = lambda a, b: np.trace(a.conj().T @ b) / N
    for j in range(J):
        for m in range(M - 1):
            P, Q = B[m] @ U, 1j * c["dt"] * H[j] @ F[m]
            d = -ov(P, Q) if c["ps"] else -2 * ov(P, Q) * ov(F[m], P)
            v = u[row, j, m] + c["eps"] * (np.real(d) - 2 * c["alpha"] * u[row, j, m] * c["dt"] - 2 * c["beta"] * m ** 2 * u[row, j, m] * c["dt"])
            want[row + 1, j, m] = min(max(v, lo), hi) if c["lim"] else v
        want[row + 1, j, M - 1] = want[row + 1, j, M - 2]
    cy_grape_inner(*args, c["dt"], c["eps"], c["alpha"], c["beta"], c["ps"], 1 if c["lim"] else 0, lo, hi)
    for k in range(R):
        need_close(u[k], want[k], "updated row" if k == row + 1 else "another row changed", "row %d of step %d" % (k, row), 1e-10 if k == row + 1 else 0)
    for a, b in ((args[0], U),) + tuple(zip(args[5], B)) + tuple(zip(args[6], F)) + tuple(zip(args[7], H)):
        need(np.array_equal(a.to_array(), b), "an operand changed")
    x = cy_overlap(args[0], args[5][0])
    need_close(x, ov(U, B[0]), "cy_overlap", "", 1e-10)
    return []


def run_run(c):
    g = G(c)
    us0, t0, lim0 = copy.deepcopy(g.us), g.times.copy(), copy.deepcopy(g.lim)
    res = g.call()
    need(np.array_equal(np.asarray(us0, dtype=object), np.asarray(g.us, dtype=object)) if us0 is not None else g.us is None, "u_start changed")
    need(np.array_equal(t0, g.times), "times changed")
    for a, b in [(g.qH0, g.H0), (g.qU, g.U)] + list(zip(g.qH, g.H)):
        need(np.array_equal(a.full(), b), "operator changed")
    u = np.asarray(res.u)
    tol = 1e-7
    if c["fn"] != "grape_unitary_adaptive":
        need(u.shape == (c["R"], c["J"], c["M"]), "history shape", str(u.shape))
        need_close(u[0], g.u0(), "starting row", "", 1e-14)
        for r in range(c["R"] - 1):
            if np.max(np.abs(u[r])) > 1e4:
                raise Skip()
            need_close(u[r + 1], g.step(u[r], g.grad(u[r]), g.eps), "step", "row %d" % (r + 1), tol)
    else:
        w, best, last, elog, olog = g.adaptive()
        if np.max(np.abs(w)) > 1e3:
            raise Skip()
        need(u.shape == (last + 2, c["J"], c["M"]), "history shape", "%s, last row %d" % (u.shape, last))
        for r in range(last + 2):
            need_close(u[r], w[r, :, :, best], "starting row" if r == 0 else "step", "row %d column %d" % (r, best), 1e-6)
    if g.lim and not (c["fn"] == "grape_unitary_adaptive" and not c["ustart"]):
        e = 0 if c["ustart"] else 1
        need(np.all(u[e:] >= g.lim[0]) and np.all(u[e:] <= g.lim[1]), "limits", "%s outside %s" % (u, g.lim))
    return []
