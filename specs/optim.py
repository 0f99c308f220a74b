"""Contracts of the optimiser classes (C08, C09, C10, C19, C21)."""
import numpy as np
from qutip_qtrl import errors, optimresult, termcond


# ------------------------------------------------------- variable packing (C08)
def get_vals(self):
    A = self.dynamics.ctrl_amps
    n, m = A.shape
    return array(n * m, lambda i: A[i // m, i % m])


def ens_get_vals(self, result):
    A = self.dynamics.ctrl_amps
    n, m = A.shape
    k, j = any_int(0, n), any_int(0, m)
    check("one variable per amplitude", len(result) == n * m)
    check("variable k*m+j is the amplitude of slot k, control j", result[k * m + j] == A[k, j])
    B = self._get_ctrl_amps(result)
    check("unflattening undoes flattening", B[k, j] == A[k, j])


def get_amps(self, optim_var_vals):
    n, m = self.dynamics.ctrl_amps.shape
    return array2(n, m, lambda k, j: optim_var_vals[k * m + j])


def ens_get_amps(self, optim_var_vals, result):
    n, m = self.dynamics.ctrl_amps.shape
    k, j = any_int(0, n), any_int(0, m)
    check("shape", result.shape[0] == n and result.shape[1] == m)
    check("amplitude of slot k, control j is variable k*m+j", result[k, j] == optim_var_vals[k * m + j])
    v = result.reshape([-1])
    check("flattening undoes unflattening", v[k * m + j] == optim_var_vals[k * m + j])


def bound_of(b, j):
    b = b[j] if isinstance(b, list) else b
    if b is None or np.isinf(b):
        return None
    return b


def build_bounds(self):
    n, m = self.dynamics.num_tslots, self.dynamics.num_ctrls
    lb, ub = self.amp_lbound, self.amp_ubound
    self.bounds = listof(n * m, lambda i: (bound_of(lb, i % m), bound_of(ub, i % m)))


def ens_bounds(self, result):
    n, m = self.dynamics.num_tslots, self.dynamics.num_ctrls
    check("one pair per variable", len(self.bounds) == n * m)
    k, j = any_int(0, n), any_int(0, m)
    lo, hi = self.bounds[k * m + j]
    check_eq("lower bound of variable k*m+j is the one of control j", lo, bound_of(self.amp_lbound, j))
    check_eq("upper bound of variable k*m+j is the one of control j", hi, bound_of(self.amp_ubound, j))


def old_bounds(self):
    return (self.bounds, self.bounds is not None and self.bounds is not self._built_bounds)


def ens_init_bounds(self, result, old):
    b, user = old
    if user:
        check("explicit bounds are kept", is_same(self.bounds, b))
        check("explicit bounds are not taken for built ones", not is_same(self._built_bounds, b))
    else:
        ens_bounds(self, result)
        check("built bounds are remembered as built", is_same(self.bounds, self._built_bounds))


# ------------------------------------------------------------------- CRAB (C08)
def crab_offset(self, j):
    """index of the first variable of pulse generator j"""
    g = self.pulse_generator
    return Sum(0, j, lambda i: g[i].num_optim_vars)


def crab_get_vals(self):
    pass


def ens_crab_vals(self, result):
    m = len(self.pulse_generator)
    check("one variable per pulse parameter", len(result) == crab_offset(self, m))
    j = any_int(0, m)
    g = self.pulse_generator[j]
    i = any_int(0, g.num_optim_vars)
    check("parameter i of pulse j is variable offset(j)+i", result[crab_offset(self, j) + i] == g.get_optim_var_vals()[i])


def ens_crab_amps(self, optim_var_vals, result):
    n, m = self.dynamics.num_tslots, self.dynamics.num_ctrls
    check("shape", result.shape[0] == n and result.shape[1] == m)
    j, k = any_int(0, m), any_int(0, n)
    off, nv = crab_offset(self, j), self.pulse_generator[j].num_optim_vars
    check("pulse j is given exactly its own variables", GIVEN_START(j) == off and GIVEN_LEN(j) == nv)
    check("the amplitudes of control j are its pulse", result[k, j] == PULSE(j, k, off, nv))
    check("current variables recorded", is_same(self.optim_var_vals, optim_var_vals))
