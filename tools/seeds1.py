H = '''
import numpy as np, qutip, logging
from qutip_qtrl import dynamics, propcomp, fidcomp, tslotcomp, optimconfig, errors
X, Y, Z = qutip.sigmax(), qutip.sigmay(), qutip.sigmaz()

def dyn(cls="DynamicsGenMat", prop=None, fid=None, drift=None, ctrls=None, n=4, T=1.3, x0=None, xt=None, amps=None, seed=1, **kw):
    d = getattr(dynamics, cls)(optimconfig.OptimConfig())
    for k, v in kw.items():
        setattr(d, k, v)
    if prop: d.prop_computer = getattr(propcomp, prop)(d)
    if fid: d.fid_computer = getattr(fidcomp, fid)(d)
    f = 1 if cls == "DynamicsUnitary" else -1j
    if cls == "DynamicsUnitary":
        d.drift_ham, d.ctrl_ham = drift or Z, ctrls or [X, Y]
    else:
        d.drift_dyn_gen, d.ctrl_dyn_gen = drift or f*Z, ctrls or [f*X, f*Y]
    d.initial, d.target = x0 or qutip.qeye(2), xt or (1j*X*0.7).expm()
    d.num_tslots, d.evo_time = n, T
    if amps is None:
        amps = np.random.default_rng(seed).normal(size=(n, 2))
    d.initialize_controls(amps)
    return d

def close(a, b, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    assert np.max(np.abs(a-b)) <= tol*max(1, np.max(np.abs(b))), (a, b)
'''
SEEDS = [
 dict(id="b01", property="C07",
      edits=[("tslotcomp.py", "            changed_amps = dyn.ctrl_amps != new_amps\n            if np.any(changed_amps):",
              "            changed_amps = np.abs(dyn.ctrl_amps - new_amps) > 1e-10\n            if np.any(changed_amps):")],
      needs="an update whose amplitudes differ from the current ones by less than 1e-10 (absolute)",
      breaks="the change is not noticed: the amplitudes, evolution and fidelity of the previous update are kept",
      demo=H + '''
d = dyn("DynamicsUnitary", n=3)
a = d.ctrl_amps.copy()
d.fid_computer.get_fid_err()
b = a.copy(); b[1, 0] += 3e-11
d.update_ctrl_amps(b)
assert np.array_equal(d.ctrl_amps, b)
e = dyn(drift=-1e9j*Z, ctrls=[-1e10j*X, -1e9j*Y], T=1e-9, n=2, amps=np.zeros((2, 2)))
e.compute_evolution()
e.update_ctrl_amps(np.full((2, 2), 9e-11))
e.compute_evolution()
assert e.evo_current and np.array_equal(e.ctrl_amps, np.full((2, 2), 9e-11))
'''),
 dict(id="b02", property="C07",
      edits=[("tslotcomp.py", "        dyn._prop_qobj = None\n        dyn._prop_grad_qobj = None\n        dyn._fwd_evo_qobj = None\n        dyn._onwd_evo_qobj = None\n        dyn._onto_evo_qobj = None\n\n        if (dyn.stats",
              "        dyn._prop_qobj = None\n        dyn._fwd_evo_qobj = None\n        dyn._onwd_evo_qobj = None\n        dyn._onto_evo_qobj = None\n\n        if (dyn.stats")],
      needs="prop_grad is read, the amplitudes are updated, and prop_grad is read again",
      breaks="the public propagator gradients stay those of the earlier amplitudes",
      demo=H + '''
d = dyn(prop="PropCompFrechet", fid="FidCompTraceDiff")
d.compute_evolution(); d.prop_grad
d.update_ctrl_amps(d.ctrl_amps + 1.0)
d.compute_evolution()
f = dyn(prop="PropCompFrechet", fid="FidCompTraceDiff", amps=d.ctrl_amps)
f.compute_evolution()
for k in range(4):
    for j in range(2):
        close(d.prop_grad[k, j].full(), f.prop_grad[k, j].full())
'''),
 dict(id="b03", property="C03",
      edits=[("tslotcomp.py", "            R = range(n_ts - 2, -1, -1)\n", "            R = range(n_ts - 2, 0, -1)\n")],
      needs="the whole onward evolution is read (the gradients only use its later entries)",
      breaks="the first onward evolution operator is never computed",
      demo=H + '''
d = dyn(prop="PropCompFrechet", fid="FidCompTraceDiff")
d.compute_evolution()
u = qutip.qeye(2)
for p in d.prop: u = p*u
close(d.onwd_evo[0].full(), u.full())
'''),
 dict(id="b04", property="C05",
      edits=[("fidcomp.py", "        return np.abs(1 - self.get_fidelity())", "        return 1 - self.get_fidelity()")],
      needs="dynamics that are not unitary, so that the fidelity exceeds 1",
      breaks="the fidelity error is negative instead of the absolute error",
      demo=H + '''
d = dyn("DynamicsGenMat", prop="PropCompFrechet", fid="FidCompUnitary", drift=qutip.qeye(2)*0.9, ctrls=[0.1*X, 0.1*Y], xt=qutip.qeye(2))
f = d.fid_computer.get_fidelity()
assert f > 1
close(d.fid_computer.get_fid_err(), f - 1)
'''),
 dict(id="b05", property="C06",
      edits=[("dynamics.py", "        degen_mask = np.abs(eig_val_diffs) < self.fact_mat_round_prec", "        degen_mask = np.eye(n, dtype=bool)")],
      needs="a Hamiltonian with a repeated eigenvalue",
      breaks="the gradient of unitary dynamics is not a number for degenerate Hamiltonians",
      demo=H + """
d = dyn("DynamicsUnitary", drift=qutip.qeye(2), n=2, amps=np.zeros((2, 2)))
g = d.fid_computer.get_fid_err_gradient()
assert np.all(np.isfinite(g)), g
"""),
 dict(id="b06", property="C01",
      edits=[("dynamics.py", "            self._num_tslots = len(self._tau)\n            self._evo_time = np.sum(self._tau)\n",
              "            self._num_tslots = len(self._tau)\n            if not self._timeslots_initialized:\n                self._evo_time = np.sum(self._tau)\n")],
      needs="durations assigned after the time slots were initialised once",
      breaks="evo_time is not the sum of the durations",
      demo=H + '''
d = dynamics.Dynamics(optimconfig.OptimConfig())
d.num_tslots, d.evo_time = 3, 2.0
d.init_timeslots()
d.tau = np.array([0.5, 0.25, 1.0, 3.0])
close(d.evo_time, d.time[-1])
'''),
 dict(id="b07", property="C04",
      edits=[("propcomp.py", "            dyn._get_phased_dyn_gen(k)\n            + epsilon * dyn._get_phased_ctrl_dyn_gen(k, j)",
              "            dyn._get_phased_dyn_gen(k)\n            + epsilon * dyn._get_phased_ctrl_dyn_gen(0, j)")],
      needs="approximate gradients and control generators that depend on the time slot",
      breaks="the difference propagator uses the first slot's control generator",
      demo=H + '''
n = 3
cs = [[-1j*X*(k+1), -1j*(Y + k*Z)] for k in range(n)]
d = dyn(prop="PropCompApproxGrad", fid="FidCompTraceDiffApprox", ctrls=cs, n=n)
d.compute_evolution()
p = d.prop_computer._compute_diff_prop(2, 1, 0.3)
g = (d._dyn_gen[2] + 0.3*cs[2][1].full())*d.tau[2]
import scipy.linalg as la
close(p, la.expm(g))
'''),
 dict(id="b08", property="C02",
      edits=[("dynamics.py", "        if hasattr(self.dyn_gen_phase, \"dot\"):\n            phased_dg = dg.dot(self._dyn_gen_phase)\n        else:\n            phased_dg = dg * self._dyn_gen_phase",
              "        if hasattr(self.dyn_gen_phase, \"dot\"):\n            phased_dg = self._dyn_gen_phase.dot(dg)\n        else:\n            phased_dg = dg * self._dyn_gen_phase")],
      needs="a matrix phase operator with phase_application='postop' that does not commute with the generator",
      breaks="the phase is applied from the left",
      demo=H + '''
d = dynamics.DynamicsGenMat(optimconfig.OptimConfig())
w = np.array([[1, 2j], [0.3, -1]])
d.dyn_gen_phase = w
d.phase_application = "postop"
g = np.array([[0.2, 1], [5j, 3]])
d._config_phase_application()
close(d._apply_phase(g), g.dot(w))
'''),
 dict(id="b09", property="C04",
      edits=[("dynamics.py", "        return self._dyn_gen_eigenvectors[k].conj().T\n\n    def check_unitarity", "        return self._dyn_gen_eigenvectors[k].T\n\n    def check_unitarity")],
      needs="array operators, cache_dyn_gen_eigenvectors_adj=False and a Hamiltonian with complex eigenvectors",
      breaks="the propagator is built with the transpose instead of the adjoint of the eigenvectors",
      demo=H + """
d = dyn("DynamicsUnitary", cache_dyn_gen_eigenvectors_adj=False, oper_dtype=np.ndarray)
d.compute_evolution()
close(d.prop[0].full(), (-1j*d.dyn_gen[0]*d.tau[0]).expm().full())
"""),
]
