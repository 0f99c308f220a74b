"""Random control problems, the library's dynamics object for each, and an
independent evaluation of everything the properties speak about."""
import numpy as np
import scipy.linalg as la
from common import Skip

PROPS = {"UNIT": ["DIAG", "FRECHET", "AUG_MAT", "APPROX"], "GEN_MAT": ["FRECHET", "AUG_MAT", "APPROX"],
         "SYMPL": ["FRECHET", "AUG_MAT", "APPROX"]}


def rand_case(rng, **fix):
    dyn = fix.get("dyn") or rng.choice(["UNIT", "UNIT", "GEN_MAT", "SYMPL"])
    c = {"dyn": dyn, "seed": rng.randrange(10**6), "N": rng.choice([2, 2, 3, 4]) if dyn != "SYMPL" else rng.choice([2, 4]),
         "m": rng.randint(1, 3), "n": rng.randint(1, 6), "tdd": rng.random() < 0.3, "tdc": rng.choice([False, False, "list", "array"]),
         "od": rng.choice(["qobj", "nd", None]), "prop": rng.choice(PROPS[dyn] + ["DEF"]), "tau": rng.choice([None, "var", "var"]),
         "spec": rng.choice(["rand", "rand", "degen", "near", "int"]), "amp": rng.choice([1.0, 1.0, 0.1, 3.0]),
         "memopt": rng.choice([None, None, 1]), "cphase": rng.choice([None, None, True, False]), "state": False, "fid": "DEF", "popt": None}
    if dyn == "UNIT":
        c["fid"] = rng.choice(["UNIT", "UNIT", "DEF", "TRACEDIFF"])
        if c["prop"] == "APPROX" and rng.random() < 0.5:
            c["fid"] = "TDAPPROX"
        c["popt"] = rng.choice(["PSU", "SU"])
        c["state"] = rng.random() < 0.3
    elif c["prop"] == "APPROX":
        c["fid"] = "TDAPPROX"
    else:
        c["fid"] = rng.choice(["TRACEDIFF", "DEF"])
    if dyn == "GEN_MAT":
        c["state"] = rng.random() < 0.3
    if c["fid"] == "TRACEDIFF" and c["prop"] == "APPROX":
        c["fid"] = "UNIT" if dyn == "UNIT" else "TDAPPROX"
    if dyn != "UNIT" and c["amp"] > 1:
        c["amp"] = 1.0
    c.update(fix)
    return c


def herm(r, N, spec):
    if spec == "degen" and r.random() < 0.5:
        return np.diag(np.where(np.arange(N) % 2, -1.0, 1.0)).astype(complex)
    if spec == "int":
        a = r.integers(-1, 2, (N, N)) + 1j * r.integers(-1, 2, (N, N))
        return ((a + a.conj().T) / 2).astype(complex)
    a = r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))
    h = (a + a.conj().T) / 2
    if spec in ("degen", "near"):
        w, v = la.eigh(h)
        w = np.round(w)
        w[1:] = w[:1] if N == 2 else np.sort(w)[np.array([1] * (N - 1))]
        if spec == "near":
            w = w + r.normal(size=N) * r.choice([1e-6, 1e-9, 1e-12])
        h = (v * w) @ v.conj().T
        h = (h + h.conj().T) / 2
    return h


class Prob:
    def __init__(self, c):
        from qutip import Qobj
        self.c = c
        r = np.random.default_rng(c["seed"])
        N, m, n = c["N"], c["m"], c["n"]
        self.N, self.m, self.n = N, m, n
        d = c["dyn"]

        def op():
            if d == "UNIT":
                return herm(r, N, c["spec"])
            if d == "SYMPL":
                a = r.normal(size=(N, N))
                return ((a + a.T) / 2 * 0.7).astype(complex)
            a = r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))
            return a * 0.5
        self.D = [op() for _ in range(n if c["tdd"] else 1)]
        if c["spec"] in ("degen", "near") and d == "UNIT" and r.random() < 0.3:
            self.D = [x * 0 for x in self.D]
        self.C = [[op() for _ in range(m)] for _ in range(n if c["tdc"] else 1)]
        dims = [[N], [N]]
        if N == 4 and r.random() < 0.5:
            dims = [[2, 2], [2, 2]]
        self.dims = dims
        q = lambda x: Qobj(x, dims=dims)
        self.qD = [q(x) for x in self.D] if c["tdd"] else q(self.D[0])
        if c["tdc"]:
            qc = [[q(x) for x in row] for row in self.C]
            if c["tdc"] == "array":
                a = np.empty((n, m), dtype=object)
                for k in range(n):
                    for j in range(m):
                        a[k, j] = qc[k][j]
                qc = a
            self.qC = qc
        else:
            self.qC = [q(x) for x in self.C[0]]
        if d == "UNIT":
            u = lambda: la.expm(-1j * herm(r, N, "rand"))
        elif d == "SYMPL":
            om = omega(N // 2)

            def u():
                a = r.normal(size=(N, N))
                return la.expm(om @ (a + a.T) * 0.2).astype(complex)
        else:
            u = lambda: la.expm(0.4 * (r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))))
        self.X0, self.XT = (u() if r.random() < 0.5 else np.eye(N, dtype=complex)), u()
        sd = dims
        if c["state"]:
            v = lambda: (lambda x: x / la.norm(x))(r.normal(size=(N, 1)) + 1j * r.normal(size=(N, 1)))
            self.X0, self.XT = v(), v()
            sd = [dims[0], [1] * len(dims[0])]
            self.qX0, self.qXT = Qobj(self.X0, dims=sd), Qobj(self.XT, dims=sd)
        else:
            self.qX0, self.qXT = q(self.X0), q(self.XT)
        self.sdims = self.qX0.dims
        if c["tau"] == "var":
            self.tau = r.uniform(0.05, 0.9, size=n)
            self.T = float(np.sum(self.tau))
        else:
            self.T = float(r.uniform(0.3, 3.0))
            self.tau = np.full(n, self.T / n)
        self.amps = self.rand_amps(r)
        self.r = r

    def rand_amps(self, r=None):
        r = r or self.r
        a = r.normal(size=(self.n, self.m)) * self.c["amp"]
        if r.random() < 0.2:
            a[r.integers(0, self.n)] = 0
        return a

    # ---------------------------------------------------------- library side
    def optim(self, **kw):
        import qutip_qtrl.pulseoptim as cpo
        from qutip import Qobj
        c = self.c
        dp = dict(kw.pop("dyn_params", {}))
        if c["od"]:
            dp["oper_dtype"] = Qobj if c["od"] == "qobj" else np.ndarray
        if c.get("memopt") is not None:
            dp["memory_optimization"] = c["memopt"]
        if c.get("cphase") is not None:
            dp["cache_phased_dyn_gen"] = c["cphase"]
        dp.update(c.get("dynp", {}))
        if dp.get("sparse_eigen_decomp"):
            dp["oper_dtype"] = Qobj
        a = dict(drift=self.qD, ctrls=self.qC, initial=self.qX0, target=self.qXT, dyn_type=c["dyn"], dyn_params=dp or None,
                 prop_type=c["prop"], fid_type=c["fid"], init_pulse_type="ZERO")
        if c["popt"] and c["dyn"] == "UNIT" and c["fid"] in ("DEF", "UNIT"):
            a["fid_params"] = {"phase_option": c["popt"]}
        if c["tau"] == "var":
            a["tau"] = self.tau
        else:
            a["num_tslots"], a["evo_time"] = self.n, self.T
        a.update(kw)
        return cpo.create_pulse_optimizer(**a)

    def dynamics(self, init=True, **kw):
        flags = kw.pop("flags", None)
        o = self.optim(**kw)
        d = o.dynamics
        if flags:
            d.fid_computer.uses_onwd_evo, d.fid_computer.uses_onto_evo = flags
        # equal durations are stored in single precision: the reference uses the stored values
        if self.c["tau"] is None:
            t = np.asarray(d.tau, dtype=float)
            if t.shape != self.tau.shape or not np.allclose(t, self.tau, rtol=1e-5):
                raise Skip()
            self.tau = t
        if init:
            d.initialize_controls(self.amps.copy())
        self.opt = o
        return d

    # -------------------------------------------------------- reference side
    def drift(self, k):
        return self.D[k if self.c["tdd"] else 0]

    def ctrl(self, k, j):
        return self.C[k if self.c["tdc"] else 0][j]

    def gen(self, k, amps):
        g = self.drift(k).copy()
        for j in range(self.m):
            g = g + amps[k, j] * self.ctrl(k, j)
        return g

    def ph(self, x):
        d = self.c["dyn"]
        if d == "UNIT":
            return -1j * x
        if d == "SYMPL":
            om = omega(self.N // 2)
            return om @ x if self.c.get("phapp") == "preop" else -x @ om
        return x

    def P(self, k, amps):
        return la.expm(self.ph(self.gen(k, amps)) * self.tau[k])

    def dP(self, k, j, amps):
        N = self.N
        b = np.zeros((2 * N, 2 * N), dtype=complex)
        a = self.ph(self.gen(k, amps)) * self.tau[k]
        b[:N, :N] = b[N:, N:] = a
        b[:N, N:] = self.ph(self.ctrl(k, j)) * self.tau[k]
        return la.expm(b)[:N, N:]

    def fwd(self, amps):
        f = [self.X0]
        for k in range(self.n):
            f.append(self.P(k, amps) @ f[-1])
        return f

    def onwd(self, amps):
        o = [None] * self.n
        x = np.eye(self.N)
        for k in range(self.n - 1, -1, -1):
            x = x @ self.P(k, amps)
            o[k] = x
        return o

    def target_inv(self):
        if self.XT.shape[0] != self.XT.shape[1] or self.c["dyn"] == "UNIT":
            return self.XT.conj().T
        return la.inv(self.XT)

    def onto(self, amps):
        t = self.target_inv()
        return [t @ x for x in self.onwd(amps)] + [t]

    def fidkind(self):
        f = self.c["fid"]
        if f == "DEF":
            return "UNIT" if self.c["dyn"] == "UNIT" else "TRACEDIFF"
        return f

    def overlap(self, amps):
        X = self.fwd(amps)[-1]
        return np.trace(self.XT.conj().T @ X) / np.real(np.trace(self.XT.conj().T @ self.XT))

    def fidelity(self, amps):
        g = self.overlap(amps)
        return abs(g) if self.c["popt"] != "SU" else g.real

    def scale(self):
        return 1.0 / (2 * self.N)

    def fid_err(self, amps):
        if self.fidkind() == "UNIT":
            return abs(1 - self.fidelity(amps))
        d = self.XT - self.fwd(amps)[-1]
        return self.scale() * np.real(np.trace(d.conj().T @ d))

    def fid_err_grad(self, amps, eps=0.001):
        n, m = self.n, self.m
        f, o = self.fwd(amps), self.onwd(amps) + [np.eye(self.N)]
        g = np.zeros((n, m))
        kind = self.fidkind()
        for k in range(n):
            for j in range(m):
                if kind == "TDAPPROX":
                    a2 = amps.copy()
                    a2[k, j] += eps
                    g[k, j] = (self.fid_err(a2) - self.fid_err(amps)) / eps
                    continue
                dX = o[k + 1] @ self.dP(k, j, amps) @ f[k]
                if kind == "UNIT":
                    ov = self.overlap(amps)
                    dg = np.trace(self.XT.conj().T @ dX) / np.real(np.trace(self.XT.conj().T @ self.XT))
                    if self.c["popt"] != "SU":
                        if abs(ov) < 1e-3:
                            raise Skip()
                        df = np.real(np.conj(ov) * dg) / abs(ov)
                    else:
                        df = dg.real
                    fd = self.fidelity(amps)
                    if abs(1 - fd) < 1e-6:
                        raise Skip()
                    g[k, j] = -df if fd < 1 else df
                else:
                    d = self.XT - f[-1]
                    g[k, j] = -2 * self.scale() * np.real(np.trace(d.conj().T @ dX))
        return g


def omega(n):
    o = np.zeros((2 * n, 2 * n))
    for i in range(n):
        o[2 * i, 2 * i + 1], o[2 * i + 1, 2 * i] = 1, -1
    return o


def arr(x):
    return x.full() if hasattr(x, "full") else np.asarray(x)
