"""Contracts of the public accessors and of the onto-evolution target (C03)."""
import numpy as np
import scipy.linalg as la
from qutip import Qobj


def rev(dims):
    return [dims[1], dims[0]]


def as_list(self, internal, dims):
    """entry by entry the internal operators, as quantum objects"""
    if self.oper_dtype == Qobj:
        return internal
    return listof(len(internal), lambda k: Qobj(internal[k], dims=dims))


def dyn_gen(self):
    if self._dyn_gen is not None and self._dyn_gen_qobj is None:
        self._dyn_gen_qobj = as_list(self, self._dyn_gen, self.dyn_dims)
    return self._dyn_gen_qobj


def prop(self):
    if self._prop is not None and self._prop_qobj is None:
        self._prop_qobj = as_list(self, self._prop, self.dyn_dims)
    return self._prop_qobj


def onwd_evo(self):
    if self._onwd_evo is not None and self._onwd_evo_qobj is None:
        self._onwd_evo_qobj = as_list(self, self._onwd_evo, self.dyn_dims)
    return self._onwd_evo_qobj


def prop_grad(self):
    g, dims = self._prop_grad, self.dyn_dims
    if g is not None and self._prop_grad_qobj is None:
        if self.oper_dtype == Qobj:
            self._prop_grad_qobj = g
        else:
            self._prop_grad_qobj = array2(self._num_tslots, self._num_ctrls, lambda k, j: Qobj(g[k, j], dims=dims))
    return self._prop_grad_qobj


def fwd_evo(self):
    f, x0, dims = self._fwd_evo, self.initial, self.sys_dims
    if f is not None and self._fwd_evo_qobj is None:
        if self.oper_dtype == Qobj:
            self._fwd_evo_qobj = f
        else:
            self._fwd_evo_qobj = listof(self._num_tslots + 1, lambda k: x0 if k == 0 else Qobj(f[k], dims=dims))
    return self._fwd_evo_qobj


def full_evo(self):
    return fwd_evo(self)[self._num_tslots]


def get_full_evo(self):
    return self._fwd_evo[self._num_tslots]


def set_target(self):
    """inverse of the target (adjoint for states)"""
    t = self.target
    if t.shape[0] == t.shape[1]:
        inv = la.inv(t.full())
        self._onto_evo_target = Qobj(inv, dims=rev(t.dims)) if self.oper_dtype == Qobj else inv
    else:
        self._onto_evo_target = t.dag() if self.oper_dtype == Qobj else t.dag().full()
    return self._onto_evo_target


def set_target_unitary(self):
    """adjoint of the target"""
    self._onto_evo_target = self.target.dag() if self.oper_dtype == Qobj else self.target.full().T.conj()
    return self._onto_evo_target


def onto_target(self):
    if self._onto_evo_target is None:
        self._get_onto_evo_target()
    if self._onto_evo_target_qobj is None:
        t = self._onto_evo_target
        self._onto_evo_target_qobj = t if isinstance(t, Qobj) else Qobj(t, dims=rev(self.sys_dims))
    return self._onto_evo_target_qobj


def onto_evo(self):
    o, n = self._onto_evo, self._num_tslots
    if o is not None and self._onto_evo_qobj is None:
        if self.oper_dtype == Qobj:
            self._onto_evo_qobj = o
        else:
            t = self.onto_evo_target
            dims = rev(self.sys_dims)
            self._onto_evo_qobj = listof(n + 1, lambda k: t if k == n else Qobj(o[k], dims=dims))
    return self._onto_evo_qobj


def get_prop_grad(self, k, j):
    """gradient of propagator k along control j"""
    if self.cache_prop_grad:
        return self._prop_grad[k, j]
    return self.prop_computer._compute_prop_grad(k, j, compute_prop=False)
