"""Contracts of the propagator computers (C04)."""
import numpy as np
import scipy.linalg as la
from qutip import Qobj
from spec_dyngen import get_phased, get_phased_ctrl


def typed(dyn, x):
    """x in the internal operator type"""
    return Qobj(x, dims=dyn.dyn_dims) if dyn.oper_dtype == Qobj else x


def dense(dyn, x):
    return x.full() if dyn.oper_dtype == Qobj else x


def expm_of(dyn, x):
    return x.expm() if dyn.oper_dtype == Qobj else la.expm(x)


def expm_prop(self, k):
    """exponential of the phased generator times the slot duration"""
    dyn = self.parent
    return expm_of(dyn, get_phased(dyn, k) * dyn._tau[k])


def diff_prop(self, k, j, epsilon):
    """propagator of the slot with control j raised by epsilon"""
    dyn = self.parent
    return expm_of(dyn, (get_phased(dyn, k) + epsilon * get_phased_ctrl(dyn, k, j)) * dyn._tau[k])


def frechet(self, k, j, compute_prop):
    """exponential and its directional (Frechet) derivative along the
    phased control operator"""
    dyn = self.parent
    a = dense(dyn, get_phased(dyn, k)) * dyn._tau[k]
    e = dense(dyn, get_phased_ctrl(dyn, k, j)) * dyn._tau[k]
    p, g = la.expm_frechet(a, e)
    if compute_prop:
        return typed(dyn, p), typed(dyn, g)
    return typed(dyn, g)


# ---- diagonalisation: lambda, V = eigenvalues / eigenvectors of the slot
#      Hamiltonian; by the spectral theorem exp(-i H tau) = V exp(-i lambda tau) V^+
#      and (Daleckii-Krein) its derivative along E is V((V^+ E V) o F)V^+
def eigvals(dyn, k):
    return la.eigh(dense(dyn, dyn._dyn_gen[k]))[0]


def dec_vec(dyn, k):
    return typed(dyn, la.eigh(dense(dyn, dyn._dyn_gen[k]))[1])


def dec_adj(dyn, k):
    v = dec_vec(dyn, k)
    return v.dag() if dyn.oper_dtype == Qobj else v.conj().T


def expo(dyn, k, i):
    return -1j * eigvals(dyn, k)[i] * dyn._tau[k]


def dec_prop(dyn, k):
    n = dyn.dyn_shape[0]
    return typed(dyn, np.diagflat(array(n, lambda i: np.exp(expo(dyn, k, i)))))


def dec_fac(dyn, k):
    n = dyn.dyn_shape[0]

    def f(i, j):
        li = expo(dyn, k, i)
        lj = expo(dyn, k, j)
        close = abs(lj - li) < dyn.fact_mat_round_prec
        return ite(close, np.exp(lj), (np.exp(lj) - np.exp(li)) / ite(close, 1, lj - li))
    return array2(n, n, f)


def spectral_decomp(self, k):
    self._decomp_curr[k] = True
    self._prop_eigen[k] = dec_prop(self, k)
    self._dyn_gen_eigenvectors[k] = dec_vec(self, k)
    self._dyn_gen_factormatrix[k] = dec_fac(self, k)
    if self._dyn_gen_eigenvectors_adj is not None:
        self._dyn_gen_eigenvectors_adj[k] = dec_adj(self, k)


def ensure_decomp(self, k):
    if not self._decomp_curr[k]:
        spectral_decomp(self, k)


def diag_value(dyn, k):
    """V exp(-i lambda tau) V^+"""
    if dyn.oper_dtype == Qobj:
        return dec_vec(dyn, k) * dec_prop(dyn, k) * dec_adj(dyn, k)
    return dec_vec(dyn, k).dot(dec_prop(dyn, k)).dot(dec_adj(dyn, k))


def diag_prop(self, k):
    dyn = self.parent
    ensure_decomp(dyn, k)
    return diag_value(dyn, k)


def diag_grad_value(dyn, k, j):
    v = dense(dyn, dec_vec(dyn, k))
    va = dense(dyn, dec_adj(dyn, k))
    c = va.dot(dense(dyn, get_phased_ctrl(dyn, k, j))).dot(v)
    return typed(dyn, v.dot(np.multiply(c * dyn._tau[k], dec_fac(dyn, k))).dot(va))


def diag_grad(self, k, j, compute_prop):
    dyn = self.parent
    ensure_decomp(dyn, k)
    g = diag_grad_value(dyn, k, j)
    if compute_prop:
        return diag_value(dyn, k), g
    return g
