"""Random problems for the GRAPE functions and a separate evaluation of the method."""
import numpy as np
import scipy.linalg as la
from common import Skip

KINDS = ["linear", "nearest", "cubic", "quadratic", "zero", "previous", "next", "slinear"]


def base(**k):
    c = {"fn": "grape_unitary", "N": 2, "J": 2, "M": 4, "R": 3, "seed": 1, "eps": None, "ustart": "rand", "lim": None, "interp": False, "kind_ip": "linear", "alpha": None, "beta": None, "ps": None,
         "herm": True, "dt": "uni", "data": "Dense", "tensor": False, "term": None, "T": 1.0, "tlist": False, "bar": False, "scale": 1.0}
    c.update(k)
    return c


def rand(rng, fns=("grape_unitary", "cy_grape_unitary", "grape_unitary_adaptive")):
    N = rng.choice([2, 2, 3, 4])
    lo = rng.uniform(-1.5, 0.3)
    return base(fn=rng.choice(fns), N=N, J=rng.randint(1, 3), M=rng.randint(2, 7), R=rng.randint(2, 5), seed=rng.randrange(10**6), eps=rng.choice([None, None, 0.01, 0.3, 2.0, 10.0]),
                ustart=rng.choice([None, "rand", "rand", "list", "big", "int", "nested", "fortran"]), lim=rng.choice([None, None, [lo, lo + rng.uniform(0.01, 2)], [-0.05, 0.05]]),
                interp=rng.random() < 0.3, kind_ip=rng.choice(KINDS), alpha=rng.choice([None, None, 0.0, 0.1, 2.0]), beta=rng.choice([None, None, 0.0, 0.2, -0.3]), ps=rng.choice([None, True, False]),
                herm=rng.random() < 0.85, dt=rng.choice(["uni", "uni", "var", "off"]), data=rng.choice(["Dense", "Dense", "CSR"]), tensor=N == 4 and rng.random() < 0.5,
                term=rng.choice([None, None, 0.5, 0.99, 0.2]), T=rng.choice([0.3, 1.0, 3.0]), tlist=rng.random() < 0.3, bar=rng.random() < 0.2, scale=rng.choice([1.0, 1.0, 3.0]))


def corner():
    i = 0
    for fn in ("grape_unitary", "cy_grape_unitary", "grape_unitary_adaptive"):
        for k in ({}, {"ps": True}, {"ps": False}, {"alpha": 0.5}, {"beta": 0.2}, {"alpha": 0.3, "beta": 0.1, "ps": False}, {"lim": [-0.2, 0.1]}, {"lim": [0.1, 0.5], "ustart": None}, {"lim": [-0.05, 0.05], "eps": 3.0},
                  {"interp": True}, {"interp": True, "kind_ip": "cubic", "M": 5}, {"ustart": None}, {"ustart": "list", "lim": [-0.3, 0.3]}, {"M": 2}, {"M": 3, "R": 2}, {"J": 1}, {"J": 3, "R": 5}, {"N": 3, "M": 6},
                  {"N": 4, "tensor": True}, {"data": "CSR", "N": 3}, {"dt": "var"}, {"dt": "off"}, {"eps": 0.05, "R": 4}, {"eps": 20.0, "R": 5}, {"term": 0.3}, {"term": 0.9, "R": 6, "ps": True}, {"bar": True},
                  {"lim": [0.0, 1.0]}, {"lim": [-1.0, 0.0]}, {"herm": False}, {"R": 2, "ps": True, "eps": 5.0, "scale": 3.0}):
            i += 1
            yield base(fn=fn, seed=i, **k)


class G:
    def __init__(self, c):
        from qutip import Qobj
        self.c = c
        r = self.r = np.random.default_rng(c["seed"])
        N, J, M = c["N"], c["J"], c["M"]
        dims = [[2, 2], [2, 2]] if c["tensor"] else [[N], [N]]

        def h():
            a = (r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))) * 0.7
            return (a + a.conj().T) / 2 if c["herm"] else a * 0.2
        self.H0, self.H = h() * (r.random() < 0.8), [h() for _ in range(J)]
        a = r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))
        self.U = la.expm(-1j * (a + a.conj().T) * 0.5)
        self.dims = dims
        q = lambda x: Qobj(x, dims=dims).to(c["data"])
        self.qH0, self.qH, self.qU = q(self.H0), [q(x) for x in self.H], q(self.U)
        t = np.linspace(0, c["T"], M)
        if c["dt"] == "var":
            t = np.concatenate([[0], np.cumsum(r.uniform(0.05, 0.5, M - 1))])
        if c["dt"] == "off":
            t = t + 0.4
        self.times = t
        lim = self.lim = c["lim"]
        us = c["ustart"]
        self.us = None
        if us:
            u = r.normal(size=(J, M)) * c["scale"] * (5 if us == "big" else 0.6)
            if us == "int":
                u = np.round(u * 3)
            self.us = u.tolist() if us in ("list", "nested") else u.astype(int) if us == "int" else np.asfortranarray(u) if us == "fortran" else u
            if us == "nested":
                self.us = [np.array(x) for x in self.us]
        self.eps = c["eps"] if c["eps"] is not None else 0.1 * 2 * np.pi / t[-1]
        self.ps = c["ps"] if c["ps"] is not None else c["fn"] != "grape_unitary_adaptive"

    def u0(self):
        if self.us is None:
            return np.zeros((self.c["J"], self.c["M"]))
        u = np.array(self.us, dtype=float)
        return np.clip(u, *self.lim) if self.lim else u

    def call(self):
        from qutip_qtrl import grape
        c = self.c
        if c["interp"] and c["M"] < {"cubic": 4, "quadratic": 3}.get(c["kind_ip"], 2):
            raise Skip()
        kw = dict(eps=c["eps"], u_start=self.us, u_limits=list(self.lim) if self.lim else None, use_interp=c["interp"], interp_kind=c["kind_ip"], alpha=c["alpha"], beta=c["beta"])
        if c["ps"] is not None:
            kw["phase_sensitive"] = c["ps"]
        if c["term"] is not None and c["fn"] == "grape_unitary_adaptive":
            kw["overlap_terminate"] = c["term"]
        if c["bar"]:
            from qutip.ui.progressbar import BaseProgressBar
            kw["progress_bar"] = BaseProgressBar(c["R"])
        np.seterr(all="ignore")
        fn = getattr(grape, c["fn"])
        try:
            res = fn(self.qU, self.qH0, self.qH, c["R"], self.times.tolist() if c["tlist"] else self.times, **kw)
        except OverflowError:
            if c["herm"]:
                raise
            raise Skip()
        if not np.all(np.isfinite(res.u)) or np.max(np.abs(res.u)) > 200:
            raise Skip()        # not stable: rounding decides the numbers
        return res

    # ------------------------------------------------------------------ reference
    def slots(self, u):
        dt = self.times[1] - self.times[0]
        return [la.expm(-1j * dt * (self.H0 + sum(u[j, k] * self.H[j] for j in range(self.c["J"])))) for k in range(self.c["M"] - 1)]

    def evolve(self, u):
        x = np.eye(self.c["N"])
        for p in self.slots(u):
            x = p @ x
        return x

    def ov(self, A, B):
        return np.trace(A.conj().T @ B) / self.c["N"]

    def grad(self, u, alpha=None, beta=None):
        """real part of du for every control and slot at the pulses u"""
        c = self.c
        alpha, beta = c["alpha"] or 0, c["beta"] or 0
        dt = self.times[1] - self.times[0]
        S, N = self.slots(u), c["N"]
        n = len(S)
        F, B = [], [None] * n
        x = np.eye(N)
        for s in S:
            x = s @ x
            F.append(x)
        x = np.eye(N)
        for m in range(n - 1, -1, -1):
            B[m] = x
            x = S[m].conj().T @ x
        g = np.zeros((c["J"], n))
        for j in range(c["J"]):
            for m in range(n):
                P, Q = B[m] @ self.U, 1j * dt * self.H[j] @ F[m]
                d = -self.ov(P, Q) if self.ps else -2 * self.ov(P, Q) * self.ov(F[m], P)
                g[j, m] = np.real(d) - 2 * alpha * u[j, m] * dt - 2 * beta * m ** 2 * u[j, m] * dt
        return g

    def step(self, u, g, eps):
        v = np.empty_like(u)
        v[:, :-1] = u[:, :-1] + eps * g
        if self.lim:
            v[:, :-1] = np.clip(v[:, :-1], *self.lim)
        v[:, -1] = v[:, -2]
        return v

    def adaptive(self):
        """the stated adaptive method: (rows u[r, j, m, k], best column, last row, eps log, overlap log)"""
        c = self.c
        R = c["R"]
        u = np.zeros((R, c["J"], c["M"], 3))
        u[0] = self.u0()[:, :, None]
        ev, best, prev = np.array([self.eps / 2, self.eps, 2 * self.eps]), 1, 0
        elog, olog, last = np.zeros(R), np.zeros(R), 0

        def ovs(row):
            o = []
            for k in range(3):
                x = self.ov(self.evolve(u[row, :, :, k]), self.U)
                o.append(np.real(x) if self.ps else abs(x) ** 2)
            return np.array(o)

        def pick(o):
            b = int(np.argmax(o))
            for k in range(3):
                if k != b and abs(o[k] - o[b]) < 1e-9 and not (np.array_equal(u[last + 1, :, :, k], u[last + 1, :, :, b]) and k > b):
                    raise Skip()
            return b
        for r in range(R - 1):
            last = r
            elog[r] = ev[best]
            g = self.grad(u[r, :, :, best])
            for k in range(3):
                u[r + 1, :, :, k] = self.step(u[r, :, :, k], g, ev[k])
            o = ovs(r + 1)
            best = pick(o)
            if abs(prev - o[best]) < 1e-9:
                raise Skip()
            if prev > o[best]:
                u[r + 1] = u[r]
                ev = ev / 2
                o = ovs(r + 1)
                best = pick(o)
            else:
                if best == 0:
                    ev = ev / 2
                elif best == 2:
                    ev = ev * 2
                prev = o[best]
            olog[r] = o[best]
            if c["term"] is not None and abs(o[best] - c["term"]) < 1e-9:
                raise Skip()
            if c["term"] is not None and c["term"] < 1 and o[best] > c["term"]:
                break
        return u, best, last, elog, olog
