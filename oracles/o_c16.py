"""C16: the symplectic form."""
import numpy as np
from common import need, need_close

RULE = "number of modes 1..60 (every number up to 40), also as numpy integers"


def corner():
    for n in range(1, 41):
        yield {"kind": "n", "n": n}
    yield {"kind": "np", "n": 3}
    yield {"kind": "qobj", "n": 2}


def gen(rng):
    return {"kind": "n", "n": rng.randint(1, 60)}


def run(case):
    import qutip_qtrl.symplectic as sy
    n = case["n"]
    om = np.asarray(sy.calc_omega(np.int64(n) if case["kind"] == "np" else n))
    want = np.zeros((2 * n, 2 * n))
    for i in range(n):
        want[2 * i, 2 * i + 1], want[2 * i + 1, 2 * i] = 1, -1
    need(om.shape == (2 * n, 2 * n), "shape", str(om.shape))
    need_close(om, want, "entries", "n=%d" % n, 0)
    need_close(om.T, -om, "antisymmetric", "n=%d" % n, 0)
    need_close(om @ om, -np.eye(2 * n), "square", "n=%d" % n, 1e-12)
    need_close(np.linalg.det(om), 1.0, "determinant", "n=%d" % n, 1e-9)
    if case["kind"] == "qobj":
        import qutip_qtrl.optimconfig as oc
        import qutip_qtrl.dynamics as dynamics
        d = dynamics.DynamicsSymplectic(oc.OptimConfig())
        import qutip
        d.drift_dyn_gen = qutip.Qobj(np.eye(2 * n))
        d.ctrl_dyn_gen = [qutip.Qobj(np.eye(2 * n))]
        d.initial = d.target = qutip.Qobj(np.eye(2 * n))
        om2 = d.omega
        need_close(om2.full() if hasattr(om2, "full") else np.asarray(om2), want, "dynamics omega", "", 0)
    return []
