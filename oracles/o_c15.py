"""C15: a GRAPE result describes one consistent evolution."""
import numpy as np
import scipy.linalg as la
import grapeprob
from common import need, need_close, Skip
from grapeprob import G, KINDS

RULE = ("runs of the three GRAPE functions on random problems (as for C14): the returned operator against the product of slot exponentials of the recorded rows, operator dimensions, the returned "
        "Hamiltonian list (drift, operators, coefficient values or functions at the grid times), starting row, and for the adaptive function the logs of step sizes and overlaps; "
        "_overlap and cy_overlap on random operators; progress bar calls")


def corner():
    yield from ({"kind": "run", **c} for c in grapeprob.corner())
    for n in (3, 2, 5):
        yield {"kind": "ov", "N": n, "seed": n, "data": "Dense"}
        yield {"kind": "ov", "N": n, "seed": n, "data": "CSR"}


def gen(rng):
    if rng.random() < 0.05:
        return {"kind": "ov", "N": rng.randint(2, 6), "seed": rng.randrange(10**6), "data": rng.choice(["Dense", "CSR"])}
    return {"kind": "run", **grapeprob.rand(rng)}


def run(c):
    if c["kind"] == "ov":
        from qutip import Qobj
        from qutip_qtrl.grape import _overlap
        from qutip_qtrl.cy_grape import cy_overlap
        r = np.random.default_rng(c["seed"])
        A, B = (r.normal(size=(c["N"],) * 2) + 1j * r.normal(size=(c["N"],) * 2) for _ in range(2))
        w = np.trace(A.conj().T @ B) / c["N"]
        q = lambda x: Qobj(x).to(c["data"])
        need_close(_overlap(q(A), q(B)), w, "_overlap", "", 1e-10)
        need_close(cy_overlap(q(A).data, q(B).data), w, "cy_overlap", "", 1e-10)
        return []
    g = G(c)
    res = g.call()
    u = np.asarray(res.u)
    if np.max(np.abs(u)) > 50:
        raise Skip()
    need(u.ndim == 3 and u.shape[1:] == (c["J"], c["M"]), "history shape", str(u.shape))
    need_close(u[0], g.u0(), "starting row", "", 1e-14)
    need(list(res.U_f.dims) == list(g.qU.dims), "dims", "%s %s" % (res.U_f.dims, g.qU.dims))
    Uf = res.U_f.full()
    adaptive = c["fn"] == "grape_unitary_adaptive"
    row = len(u) - (1 if adaptive else 2)
    need_close(Uf, g.evolve(u[row]), "U_f is not the evolution of row %s" % ("-1" if adaptive else "-2"), "", 1e-6)
    H = res.H_t
    need(len(H) == 1 + c["J"], "entries of H_t", len(H))
    need_close(H[0].full(), g.H0, "drift of H_t", "", 0)
    for j in range(c["J"]):
        op, co = H[1 + j]
        need_close(op.full(), g.H[j], "operator of H_t", j, 0)
        vals = np.array([float(co(t, {})) for t in g.times]) if callable(co) else np.asarray(co)
        need(callable(co) == bool(c["interp"]), "kind of coefficient")
        need_close(vals, u[-1, j], "coefficient of H_t", "control %d" % j, 1e-9)
    if adaptive:
        x = g.ov(Uf, g.U)
        rep = np.real(x) if g.ps else abs(x) ** 2
        last = len(u) - 2
        need_close(res.overlap[last], rep, "reported overlap of the last iteration", "", 1e-7)
        need(len(res.overlap) == c["R"] and len(res.eps) == c["R"], "logs", "%d %d" % (len(res.overlap), len(res.eps)))
        need(np.all(np.asarray(res.overlap)[last + 1:] == 0) and np.all(np.asarray(res.eps)[last + 1:] == 0), "logs after the last iteration")
        if last < c["R"] - 2:
            need(c["term"] is not None and res.overlap[last] > c["term"], "stopped early without reaching the overlap", "%s %s" % (res.overlap, c["term"]))
        elif c["term"] is not None:
            need(np.all(np.asarray(res.overlap)[:last] <= c["term"]), "did not stop at the overlap", "%s %s" % (res.overlap, c["term"]))
        w, best, l2, elog, olog = g.adaptive()
        need(l2 == last, "iterations", "%d %d" % (l2, last))
        need_close(res.overlap, olog, "overlap log", "", 1e-6)
        need_close(res.eps, elog, "step log", "", 1e-12)
    return []
