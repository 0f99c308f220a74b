"""Contracts of container checks and initialisation (C02, C03, C23)."""
import numpy as np
from qutip import Qobj
from qutip_qtrl import propcomp
from spec_dyngen import phased


def check_drift(drift):
    if isinstance(drift, Qobj):
        return None
    if not isinstance(drift, (list, tuple)):
        raise TypeError("drift")
    if len(drift) == 0:
        raise ValueError("drift")
    if exists(0, len(drift), lambda i: not isinstance(drift[i], Qobj)):
        raise TypeError("drift")


def check_ctrls(ctrls):
    if isinstance(ctrls, (list, tuple)) and len(ctrls) > 0 and isinstance(ctrls[0], (list, tuple)):
        n, m = len(ctrls), len(ctrls[0])
        if exists(0, n, lambda i: len(ctrls[i]) != m):
            raise ValueError("ragged controls")
        if exists(0, n, lambda k: exists(0, m, lambda j: not isinstance(ctrls[k][j], Qobj))):
            raise TypeError("ctrls")
        return array2(n, m, lambda k, j: ctrls[k][j])
    if isinstance(ctrls, (list, tuple)):
        if exists(0, len(ctrls), lambda i: not isinstance(ctrls[i], Qobj)):
            raise TypeError("ctrls")
        return ctrls
    if isinstance(ctrls, np.ndarray):
        if len(ctrls.shape) != 2:
            raise TypeError("ctrls")
        if exists(0, ctrls.shape[0], lambda k: exists(0, ctrls.shape[1], lambda j: not isinstance(ctrls[k, j], Qobj))):
            raise TypeError("ctrls")
        return ctrls
    raise TypeError("ctrls")


def refresh(self):
    td = isinstance(self.drift_dyn_gen, (list, tuple))
    d0 = self.drift_dyn_gen[0] if td else self.drift_dyn_gen
    self.time_depend_drift = td
    if not isinstance(d0, Qobj):
        raise TypeError("drift")
    self.dyn_shape = d0.shape
    self.dyn_dims = d0.dims


def get_num_ctrls(self):
    if not self._ctrl_dyn_gen_checked:
        self.ctrl_dyn_gen = check_ctrls(self.ctrl_dyn_gen)
        self._ctrl_dyn_gen_checked = True
    if isinstance(self.ctrl_dyn_gen, np.ndarray):
        self._num_ctrls = self.ctrl_dyn_gen.shape[1]
        self.time_depend_ctrl_dyn_gen = True
    else:
        self._num_ctrls = len(self.ctrl_dyn_gen)
    return self._num_ctrls


def set_mem(self):
    require(self.oper_dtype is not None, "operator type chosen")
    opt = self.memory_optimization > 0
    if self.cache_phased_dyn_gen is None:
        self.cache_phased_dyn_gen = not opt
    if self.cache_prop_grad is None:
        self.cache_prop_grad = not opt
    if self.cache_dyn_gen_eigenvectors_adj is None:
        self.cache_dyn_gen_eigenvectors_adj = not opt
    if self.sparse_eigen_decomp is None:
        self.sparse_eigen_decomp = self.memory_optimization > 1


def ens_dtype(self, result):
    check("operator type is Qobj or ndarray", result == Qobj or result == np.ndarray)
    check("and recorded", self.oper_dtype == result)


def config_phase(self, ph_app=None):
    if ph_app is None:
        ph_app = self._phase_application
    if not isinstance(ph_app, str):
        raise ValueError("phase application")
    p = ph_app.lower()
    if p == "preop":
        self._apply_phase = self._apply_phase_preop
    elif p == "postop":
        self._apply_phase = self._apply_phase_postop
    elif p != "custom":
        raise ValueError("phase application")


def set_phase(self, value):
    config_phase(self, value)
    self._phase_application = value


def init_phase(self):
    if self.dyn_gen_phase is not None:
        config_phase(self)
    else:
        self.cache_phased_dyn_gen = False


def sympl_get_phase(self):
    """-omega after the generator, omega before it, none if customised"""
    if self._phase_application == "postop":
        return -self._omega
    if self._phase_application == "preop":
        return self._omega
    if self._phase_application == "custom":
        return None
    raise ValueError("phase application")


def sympl_phase(self):
    if self._dyn_gen_phase is None:
        self._dyn_gen_phase = sympl_get_phase(self)
    return self._dyn_gen_phase


def sympl_set_phase(self, value):
    set_phase(self, value)
    if self._evo_initialized:
        ph = sympl_get_phase(self)
        if ph is not None:
            self._dyn_gen_phase = ph


def ens_omega(self, result):
    n = self.dyn_shape[0]
    check("cached", is_same(self._omega, result))
    i = any_int(0, n)
    j = any_int(0, n)
    up = all_of(i % 2 == 0, j == i + 1)
    dn = all_of(i % 2 == 1, j == i - 1)
    e = elt(result, i, j)
    check("symplectic form", e == ite(up, 1, ite(dn, -1, 0)))


def map_ham(self):
    if self.drift_dyn_gen is None:
        self.drift_dyn_gen = self.drift_ham
    else:
        self.drift_ham = self.drift_dyn_gen
    if self.ctrl_dyn_gen is None:
        self.ctrl_dyn_gen = self.ctrl_ham
    else:
        self.ctrl_ham = self.ctrl_dyn_gen
    self._dyn_gen_mapped = True


def internal(self, x):
    """operator x in the internal operator data type"""
    return x if self.oper_dtype == Qobj else x.full()


def onto_target(self):
    """target's adjoint (unitary dynamics, states) or inverse"""
    if self.id_unitary:
        return self.target.dag()


def init_evo(self):
    if not isinstance(self.initial, Qobj):
        raise TypeError("initial")
    if not isinstance(self.target, Qobj):
        raise TypeError("target")
    refresh(self)
    self.sys_dims = self.initial.dims
    self.sys_shape = self.initial.shape
    set_mem(self)
    init_phase(self)
    if self.sparse_eigen_decomp and self.sys_shape[0] <= 2:
        raise ValueError("sparse decomposition")
    self._onto_evo_target = None
    self._onto_evo_target_qobj = None
    n, m = self._num_tslots, self._num_ctrls
    if self.time_depend_drift and len(self.drift_dyn_gen) != n:
        raise ValueError("drift length")
    if self.time_depend_ctrl_dyn_gen and len(self.ctrl_dyn_gen) != n:
        raise ValueError("ctrls length")
    drift, ctrl = self.drift_dyn_gen, self.ctrl_dyn_gen
    if self.oper_dtype == Qobj:
        self._initial, self._target, self._drift_dyn_gen, self._ctrl_dyn_gen = self.initial, self.target, drift, ctrl
    elif self.oper_dtype == np.ndarray:
        self._initial = self.initial.full()
        self._target = self.target.full()
        self._drift_dyn_gen = listof(n, lambda k: drift[k].full()) if self.time_depend_drift else drift.full()
        if self.time_depend_ctrl_dyn_gen:
            self._ctrl_dyn_gen = array2(n, m, lambda k, j: ctrl[k, j].full())
        else:
            self._ctrl_dyn_gen = listof(m, lambda j: ctrl[j].full())
    else:
        raise ValueError("oper_dtype")
    ic = self._ctrl_dyn_gen
    if self.cache_phased_dyn_gen:
        if self.time_depend_ctrl_dyn_gen:
            self._phased_ctrl_dyn_gen = array2(n, m, lambda k, j: self._apply_phase(ic[k, j]))
        else:
            self._phased_ctrl_dyn_gen = listof(m, lambda j: self._apply_phase(ic[j]))
    self._dyn_gen = listof(n, lambda k: object)
    if self.cache_phased_dyn_gen:
        self._phased_dyn_gen = listof(n, lambda k: object)
    self._prop = listof(n, lambda k: object)
    if self.prop_computer.grad_exact and self.cache_prop_grad:
        self._prop_grad = np.empty([n, m], dtype=object)
    x0 = self._initial
    self._fwd_evo = listof(n + 1, lambda k: x0 if k == 0 else object)
    if self.fid_computer.uses_onwd_evo:
        self._onwd_evo = listof(n, lambda k: object)
    if self.fid_computer.uses_onto_evo:
        t = self._get_onto_evo_target()
        self._onto_evo = listof(n + 1, lambda k: t if k == n else object)
    if isinstance(self.prop_computer, propcomp.PropCompDiag):
        self._decomp_curr = listof(n, lambda k: False)
        self._prop_eigen = listof(n, lambda k: object)
        self._dyn_gen_eigenvectors = listof(n, lambda k: object)
        if self.cache_dyn_gen_eigenvectors_adj:
            self._dyn_gen_eigenvectors_adj = listof(n, lambda k: object)
        self._dyn_gen_factormatrix = listof(n, lambda k: object)
    if self.dump_to_file:
        self.dump.write_to_file = True
        self.dump.create_dump_dir()
    self._evo_initialized = True
