"""Contracts of the fidelity computers (C05, C06, C07)."""
import numpy as np
from qutip import Qobj
from qutip_qtrl import fidcomp, errors
from spec_evo import prop_grad_value


def mul(dyn, a, b):
    return a * b if dyn.oper_dtype == Qobj else a.dot(b)


def tr(a):
    return a.tr() if isinstance(a, Qobj) else np.trace(a)


def adj(a):
    return a.dag() if isinstance(a, Qobj) else a.conj().T


# ---- pure formulas: functions of the amplitudes (through FWD, ONTO, PG)
def prenorm_value(dyn):
    """overlap trace of the target's adjoint and the full evolution"""
    n = dyn._num_tslots
    return tr(mul(dyn, ONTO(n), FWD(n)))


def norm_fid(fc, f):
    if fc._phase_option == "PSU":
        return np.abs(f) / fc.dimensional_norm
    return np.real(f) / fc.dimensional_norm


def fidelity_value(fc):
    return norm_fid(fc, prenorm_value(fc.parent))


def grad_op(dyn, k, j):
    return PG(k, j) if dyn.cache_prop_grad else prop_grad_value(dyn, k, j)


def prenorm_grad_entry(dyn, k, j):
    """tr(T^+ P_{n-1}..P_{k+1} dP_k P_{k-1}..X0): product rule"""
    return tr(mul(dyn, mul(dyn, ONTO(k + 1), grad_op(dyn, k, j)), FWD(k)))


def prenorm_grad(dyn):
    return array2(dyn._num_tslots, dyn._num_ctrls, lambda k, j: prenorm_grad_entry(dyn, k, j))


def norm_grad_entry(fc, f, g):
    """derivative of the normalised fidelity: Re(g e^{-i arg f}) / N  or  Re(g) / N"""
    if fc._phase_option == "PSU":
        return np.real(g * np.exp(-1j * np.angle(f)) / fc.dimensional_norm)
    return np.real(g) / fc.dimensional_norm


def err_grad_value(fc):
    """derivative of |1 - fidelity|"""
    dyn = fc.parent
    f = prenorm_value(dyn)
    g = array2(dyn._num_tslots, dyn._num_ctrls, lambda k, j: norm_grad_entry(fc, f, prenorm_grad_entry(dyn, k, j)))
    return g if fidelity_value(fc) >= 1 else -g


def norm_of(dyn, g):
    return np.sqrt(Sum(0, dyn._num_tslots, lambda k: Sum(0, dyn._num_ctrls, lambda j: g[k, j]**2)))


# ---- unitary
def get_prenorm(self):
    dyn = self.parent
    if not self.fidelity_prenorm_current:
        dyn.compute_evolution()
        self.fidelity_prenorm = prenorm_value(dyn)
        self.fidelity_prenorm_current = True
        if dyn.stats is not None:
            dyn.stats.num_fidelity_computes = dyn.stats.num_fidelity_computes + 1
    return prenorm_value(dyn)


def get_fidelity(self):
    if not self.fidelity_current:
        get_prenorm(self)
        self.fidelity = fidelity_value(self)
        self.fidelity_current = True
    return fidelity_value(self)


def get_fid_err(self):
    get_fidelity(self)
    return np.abs(1 - fidelity_value(self))


def compute_fid_grad(self):
    dyn = self.parent
    dyn.compute_evolution()
    if dyn.stats is not None:
        havoc(dyn.stats, "wall_time_gradient_compute")
    return prenorm_grad(dyn)


def old_time(self):
    s = self.parent.stats
    return None if s is None else s.wall_time_gradient_compute


def ens_time(self, result, old):
    s = self.parent.stats
    if s is not None:
        check("gradient time only grows", s.wall_time_gradient_compute >= old)


def get_err_grad(self):
    dyn = self.parent
    if not self.fid_err_grad_current:
        compute_fid_grad(self)
        get_fidelity(self)
        if self._phase_option == "PSU":
            get_prenorm(self)
        self.fid_err_grad = err_grad_value(self)
        self.fid_err_grad_current = True
        self.grad_norm = norm_of(dyn, self.fid_err_grad)
        if dyn.stats is not None:
            dyn.stats.num_grad_computes = dyn.stats.num_grad_computes + 1
    return self.fid_err_grad


def normalize(self, A):
    """|tr A| / N or Re tr A / N (A may already be the trace)"""
    if isinstance(A, Qobj) or np.ndim(A) > 0:
        if A.shape[0] != A.shape[1]:
            raise TypeError()
        return norm_fid(self, tr(A))
    return norm_fid(self, A)


def normalize_grad(self, grad):
    f = get_prenorm(self)
    dyn = self.parent
    return array2(dyn._num_tslots, dyn._num_ctrls, lambda k, j: norm_grad_entry(self, f, grad[k, j]))


def normalize_grad_su(self, grad):
    dyn = self.parent
    return array2(dyn._num_tslots, dyn._num_ctrls, lambda k, j: norm_grad_entry(self, 1, grad[k, j]))


def init_normalization(self):
    t = self.parent.target
    self.dimensional_norm = 1.0
    self.dimensional_norm = norm_fid(self, (t.dag() * t).tr())


def init_phase(self, value):
    self._phase_option = value
    if value == "PSU":
        self.fid_norm_func = self.normalize_PSU
        self.grad_norm_func = self.normalize_gradient_PSU
    elif value == "SU":
        self.fid_norm_func = self.normalize_SU
        self.grad_norm_func = self.normalize_gradient_SU
    else:
        raise errors.UsageError("")


def init_comp(self):
    if self.fid_norm_func is None or self.grad_norm_func is None:
        raise errors.UsageError("")
    init_normalization(self)


# ---- trace difference
def td_of(fc, x):
    """scale factor times squared Frobenius distance to the target"""
    d = fc.parent._target - x
    return fc.scale_factor * np.real(tr(mul(fc.parent, adj(d), d)))


def td_err_value(fc):
    return td_of(fc, FWD(fc.parent._num_tslots))


def td_get_err(self):
    dyn = self.parent
    if not self.fidelity_current:
        dyn.compute_evolution()
        self.fid_err = td_err_value(self)
        self.fidelity_current = True
        if dyn.stats is not None:
            dyn.stats.num_fidelity_computes = dyn.stats.num_fidelity_computes + 1
    return td_err_value(self)


def through(dyn, k, p):
    """full evolution with slot k's propagator replaced by p"""
    n = dyn._num_tslots
    x = mul(dyn, p, FWD(k))
    return mul(dyn, ONWD(k + 1), x) if k + 1 < n else x


def td_grad_entry(fc, k, j):
    """-2 s Re tr((T - X)^+ dX/du)"""
    dyn = fc.parent
    d = dyn._target - FWD(dyn._num_tslots)
    return -2 * fc.scale_factor * np.real(tr(mul(dyn, adj(d), through(dyn, k, grad_op(dyn, k, j)))))


def td_grad_value(fc):
    return array2(fc.parent._num_tslots, fc.parent._num_ctrls, lambda k, j: td_grad_entry(fc, k, j))


def td_compute_grad(self):
    dyn = self.parent
    dyn.compute_evolution()
    if dyn.stats is not None:
        havoc(dyn.stats, "wall_time_gradient_compute")
    return td_grad_value(self)


def ap_entry(fc, k, j):
    """finite-difference quotient of the error"""
    dyn = fc.parent
    p = dyn.prop_computer._compute_diff_prop(k, j, fc.epsilon)
    return (td_of(fc, through(dyn, k, p)) - td_err_value(fc)) / fc.epsilon


def ap_compute_grad(self):
    dyn = self.parent
    dyn.compute_evolution()
    td_get_err(self)
    if dyn.stats is not None:
        havoc(dyn.stats, "wall_time_gradient_compute")
    return array2(dyn._num_tslots, dyn._num_ctrls, lambda k, j: ap_entry(self, k, j))


def td_get_grad(self):
    dyn = self.parent
    if not self.fid_err_grad_current:
        self.fid_err_grad = self.compute_fid_err_grad()
        self.fid_err_grad_current = True
        self.grad_norm = norm_of(dyn, self.fid_err_grad)
        if dyn.stats is not None:
            dyn.stats.num_grad_computes = dyn.stats.num_grad_computes + 1
    return self.fid_err_grad


def td_init_comp(self):
    if self.scale_factor is None:
        self.scale_factor = 1 / (2 * self.parent.dyn_shape[0])
