P = '''
import numpy as np, qutip, logging, os, sys, tempfile, shutil, warnings
warnings.simplefilter("ignore")
from qutip_qtrl import (dynamics, propcomp, fidcomp, tslotcomp, optimconfig, errors, optimizer, pulsegen, pulseoptim,
                        termcond, stats, symplectic, dump, io as qio, loadparams, grape, cy_grape)
X, Y, Z = qutip.sigmax(), qutip.sigmay(), qutip.sigmaz()
T2 = (-0.6j * (X + 0.4 * Z)).expm()

def close(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape and np.all(np.abs(a - b) <= tol * max(1, np.max(np.abs(b)))), (a, b)
'''
SEEDS = [
 dict(id="g08", property="C08",
      edits=[("optimizer.py", "            param_idx_end = param_idx_st + p_gen.num_optim_vars\n",
              "            param_idx_end = param_idx_st + 2 * p_gen.num_coeffs\n")],
      needs="CRAB with frequencies optimised too (fix_frequency False: three parameters per coefficient)",
      breaks="the parameters of each pulse are not handed back to the pulse they came from",
      demo=P + '''
np.random.seed(3)
o = pulseoptim.create_pulse_optimizer(Z, [X, Y], qutip.qeye(2), T2, num_tslots=5, evo_time=2.0, dyn_type="UNIT", alg="CRAB",
    prop_type="DIAG", alg_params={"num_coeffs": 3, "fix_frequency": False})
for g in o.pulse_generator:
    g.init_pulse()
o.dynamics.initialize_controls(np.column_stack([g.gen_pulse() for g in o.pulse_generator]))
want = np.column_stack([g.gen_pulse() for g in o.pulse_generator])
close(o._get_ctrl_amps(o._get_optim_var_vals()), want)
'''),
 dict(id="g09", property="C09",
      edits=[("optimizer.py", "            amps = self._get_ctrl_amps(final_param_vals)\n            dyn.update_ctrl_amps(amps)\n",
              "            amps = dyn.ctrl_amps\n            if self.num_iter == 0:\n                amps = self._get_ctrl_amps(final_param_vals)\n            dyn.update_ctrl_amps(amps)\n")],
      needs="CRAB with fmin, ended by its own criteria at a point that is not the last one evaluated",
      breaks="the result describes the last point tried rather than the best one that fmin returned",
      demo=P + '''
best = []
for s in range(4):
    np.random.seed(s)
    o = pulseoptim.create_pulse_optimizer(Z, [X], qutip.qeye(2), T2, num_tslots=4, evo_time=2.0, dyn_type="UNIT", alg="CRAB",
        fid_err_targ=1e-14, max_iter=7 + s, alg_params={"num_coeffs": 2})
    for g in o.pulse_generator:
        g.init_pulse()
    o.dynamics.initialize_controls(np.column_stack([g.gen_pulse() for g in o.pulse_generator]))
    errs = []
    w = o.fid_err_func_wrapper
    def f(*a):
        e = w(*a); errs.append(e); return e
    o.fid_err_func_wrapper = f
    r = o.run_optimization()
    assert abs(r.fid_err - min(errs)) < 1e-12, (r.fid_err, min(errs))
'''),
 dict(id="g10", property="C10",
      edits=[("optimizer.py", "        if self.num_fid_func_calls > tc.max_fid_func_calls:\n            raise errors.MaxFidFuncCallTerminate()\n",
              "        if self.num_iter + self.num_fid_func_calls > tc.max_fid_func_calls:\n            raise errors.MaxFidFuncCallTerminate()\n")],
      needs="a run with a limit on function calls that has completed iterations before it is reached",
      breaks="the limit on function calls is reported before it was exceeded",
      demo=P + '''
np.random.seed(5)
o = pulseoptim.create_pulse_optimizer(Z, [X, Y], qutip.qeye(2), T2, num_tslots=6, evo_time=2.0, dyn_type="UNIT",
    fid_err_targ=1e-300, min_grad=0.0, max_iter=5000, optim_method="SLSQP")
o.termination_conditions.max_fid_func_calls = 8
o.dynamics.initialize_controls(np.random.normal(size=(6, 2)))
r = o.run_optimization()
assert not r.max_fid_func_exceeded or r.num_fid_func_calls > 8, (r.num_fid_func_calls, r.termination_reason)
assert o.num_iter > 0
'''),
 dict(id="g11", property="C11",
      edits=[("pulsegen.py", "            if max_amp - min_amp > bound_range:\n", "            if max_amp > bound_range or min_amp < -bound_range:\n")],
      needs="two bounds, and a waveform whose range, but neither extreme alone, exceeds the distance between them",
      breaks="the pulse is only shifted, so it leaves the upper bound",
      demo=P + '''
for lb, ub in ((-0.5, 0.5), (0.0, 1.0), (-3.0, -1.9)):
    g = pulsegen.PulseGenSine()
    g.num_tslots, g.pulse_time, g.num_waves, g.scaling, g.lbound, g.ubound = 8, 1.0, 1.0, 0.8, lb, ub
    g.init_pulse()
    p = g.gen_pulse()
    assert np.all(p >= lb - 1e-9) and np.all(p <= ub + 1e-9), p
'''),
 dict(id="g12", property="C12",
      edits=[("pulsegen.py", "                self._bound_mean = abs(self._bound_scale) + self.lbound\n",
              "                self._bound_mean = self._bound_scale + self.lbound\n")],
      needs="only a lower bound, which is not negative, and a negative scaling of the coefficients",
      breaks="values below the lower bound are produced",
      demo=P + '''
for s in range(5):
    np.random.seed(s)
    g = pulsegen.PulseGenCrabFourier(num_coeffs=3)
    g.num_tslots, g.pulse_time, g.scaling, g.lbound = 12, 3.0, -1.5, 0.25
    g.init_pulse()
    p = g.gen_pulse()
    assert len(p) == 12 and np.all(p >= 0.25), p
'''),
 dict(id="g13", property="C13",
      edits=[("pulsegen.py", "                self.time[k + 1] = self.time[k] + self.tau[k]\n",
              "                self.time[k + 1] = (k + 1) * self.tau[0]\n")],
      needs="slots of different durations",
      breaks="time based waveforms (sine, Gaussian, CRAB) are sampled at wrong times",
      demo=P + '''
g = pulsegen.PulseGenSine()
g.num_tslots, g.pulse_time, g.tau, g.num_waves = 4, 4.0, np.array([0.5, 1.5, 0.25, 1.75]), 1.0
g.init_pulse()
close(g.gen_pulse(), np.sin(2 * np.pi * np.array([0, 0.5, 2.0, 2.25]) / 4.0))
h = pulsegen.PulseGenGaussian()
h.num_tslots, h.pulse_time, h.tau = 4, 4.0, np.array([0.5, 1.5, 0.25, 1.75])
h.init_pulse()
close(h.gen_pulse(1.0, 0.7), np.exp(-(np.array([0, 0.5, 2.0, 2.25]) - 1.0) ** 2 / 1.4))
'''),
 dict(id="g14", property="C14",
      edits=[("cy_grape.py", "            if alpha > 0.0:\n", "            if alpha > 0.0 and not use_u_limits:\n")],
      needs="a power penalty together with amplitude limits",
      breaks="the power penalty is left out of the step when there are limits",
      demo=P + '''
def step(lim):
    u = np.zeros((2, 1, 3)); u[0, 0] = [0.3, -0.2, 0.1]
    U = T2.data
    I = qutip.qeye(2).data
    cy_grape.cy_grape_inner(U, u, 0, 1, 3, [I, I], [I, I], [X.data], 0.1, 0.05, 0.7, 0.0, True, int(lim), -9.0, 9.0)
    return u[1]
close(step(True), step(False))
'''),
 dict(id="g15", property="C15",
      edits=[("grape.py", "        u_start[u_start > u_limits[1]] = u_limits[1]\n\n    if u_limits:\n        use_u_limits = 1\n",
              "        u_start[np.abs(u_start) > u_limits[1]] = u_limits[1]\n\n    if u_limits:\n        use_u_limits = 1\n")],
      needs="limits whose lower one is larger in size than the upper one, and a starting value between minus the upper limit and the lower limit",
      breaks="a starting value within the limits is replaced",
      demo=P + '''
t = np.linspace(0, 1, 5)
u0 = [np.array([-3.0, 0.5, 2.0, -6.0, 0.2])]
for f in (grape.grape_unitary, grape.cy_grape_unitary):
    r = f(T2, Z, [X], 3, t, u_start=u0, u_limits=[-5, 1], alpha=0.1)
    close(r.u[0, 0], [-3.0, 0.5, 1.0, -5.0, 0.2])
'''),
 dict(id="g16", property="C16",
      edits=[("symplectic.py", "                omg[j, k] = (1 + (-1) ** j) / 2\n", "                omg[j, k] = (1 + (-1) ** (j + 2 * (j // 8))) / 2\n"),
             ("symplectic.py", "            if k == j - 1:\n", "            if k == j - 1 and j * k < 4032:\n")],
      needs="more than 32 modes",
      breaks="beyond 32 modes the form is no longer antisymmetric",
      demo=P + '''
for n in (1, 2, 5, 31, 33, 40):
    w = symplectic.calc_omega(n)
    close(w.T, -w)
    close(w @ w, -np.eye(2 * n))
'''),
 dict(id="g17", property="C17",
      edits=[("dump.py", "            if len(self.grad_norm_log) == 1:\n", "            if len(self.fid_err_log) == 1:\n")],
      needs="a custom dump of gradient norms only, written to a directory that already has such a file",
      breaks="the values are appended to those of an earlier run",
      demo=P + '''
o = pulseoptim.create_pulse_optimizer(Z, [X, Y], qutip.qeye(2), T2, num_tslots=3, evo_time=2.0, dyn_type="UNIT")
o.dumping = "CUSTOM"
t = tempfile.mkdtemp()
try:
    o.dump.dump_dir = t
    o.dump.write_to_file = True
    o.dump.dump_fid_err, o.dump.dump_grad_norm, o.dump.dump_grad = False, True, False
    open(o.dump.grad_norm_file, "w").write("7.0\\n")
    for v in (3.0, 2.0, 1.0):
        o.dump.update_grad_norm_log(v)
    close(np.loadtxt(o.dump.grad_norm_file), [3.0, 2.0, 1.0])
finally:
    shutil.rmtree(t)
'''),
 dict(id="g18", property="C18",
      edits=[("loadparams.py", "            arr = np.array(eval(val), dtype=a.dtype)\n", "            arr = np.array(eval(val))\n            if arr.dtype.kind != 'i':\n                arr = arr.astype(a.dtype)\n")],
      needs="an array-valued parameter of float type given with whole numbers only",
      breaks="the attribute becomes an integer array",
      demo=P + '''
class A: pass
a = A(); a.v = np.zeros(3); a.w = np.array([1, 2])
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "p.ini")
    open(f, "w").write("[s]\\nv: [1, 2, 3]\\nw: [4, 5]\\n")
    loadparams.load_parameters(f, obj=a, section="s")
    assert a.v.dtype == float and a.w.dtype.kind == "i", (a.v.dtype, a.w.dtype)
    close(a.v, [1, 2, 3])
finally:
    shutil.rmtree(d)
'''),
 dict(id="g19", property="C19",
      edits=[("optimizer.py", "                if lb is not None and np.isinf(lb):\n                    lb = None\n",
              "                if lb is not None and np.isinf(lb):\n                    if isinstance(self.amp_lbound, list):\n                        self.amp_lbound[c] = None\n                    lb = None\n")],
      needs="a list of lower bounds with an infinite entry",
      breaks="the caller's list is changed",
      demo=P + '''
lb, ub = [-np.inf, -1.0], [2.0, np.inf]
for k in range(2):
    np.random.seed(1)
    o = pulseoptim.create_pulse_optimizer(Z, [X, Y], qutip.qeye(2), T2, num_tslots=3, evo_time=2.0, dyn_type="UNIT",
        amp_lbound=lb, amp_ubound=ub, init_pulse_type="ZERO", max_iter=2)
    o.dynamics.initialize_controls(np.zeros((3, 2)))
    o.run_optimization()
    assert lb == [-np.inf, -1.0] and ub == [2.0, np.inf], (lb, ub)
'''),
 dict(id="g20", property="C20",
      edits=[("pulseoptim.py", "                crab_pgen.scaling = init_coeff_scaling\n", "                crab_pgen.scaling = init_coeff_scaling * (pulse_scaling or 1.0)\n")],
      needs="CRAB with a guess pulse scaling and a coefficient scaling both given",
      breaks="the scaling of the coefficients is not the requested one",
      demo=P + '''
o = pulseoptim.create_pulse_optimizer(Z, [X, Y], qutip.qeye(2), T2, num_tslots=5, evo_time=2.0, dyn_type="UNIT", alg="CRAB",
    alg_params={"num_coeffs": 3, "init_coeff_scaling": 0.5}, init_pulse_type="SINE", pulse_scaling=3.0)
assert [g.scaling for g in o.pulse_generator] == [0.5, 0.5]
'''),
 dict(id="g21", property="C21",
      edits=[("tslotcomp.py", "            dyn.stats.num_ctrl_amp_updates += bool(ecs.num_amps_changed)\n",
              "            dyn.stats.num_ctrl_amp_updates += bool(\n                ecs.num_timeslots_changed > 0 and ecs.num_amps_changed > 1\n            )\n")],
      needs="an update in which exactly one amplitude changes",
      breaks="that update is not counted",
      demo=P + '''
o = pulseoptim.create_pulse_optimizer(Z, [X, Y], qutip.qeye(2), T2, num_tslots=3, evo_time=2.0, dyn_type="UNIT", gen_stats=True)
d = o.dynamics
a = np.ones((3, 2)) * 0.2
d.initialize_controls(a)
d.stats.clear()
b = d.ctrl_amps.copy(); b[1, 1] += 0.5
d.update_ctrl_amps(b)
d.update_ctrl_amps(b + 1)
assert (d.stats.num_ctrl_amp_updates, d.stats.num_ctrl_amp_changes, d.stats.num_timeslot_changes) == (2, 7, 4)
'''),
 dict(id="g22", property="C22",
      edits=[("io.py", "            else:\n                dir_ok = False\n                errmsg += \"Underling", "            else:\n                dir_ok = os.path.exists(dir_name)\n                errmsg += \"Underling")],
      needs="a file with the same name appearing between the check and the creation",
      breaks="success is reported though there is a file, not a directory, at the path",
      demo=P + '''
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "out")
    real = os.makedirs
    def late(name, *a, **k):
        open(name, "w").close()
        return real(name, *a, **k)
    os.makedirs = late
    try:
        ok, name, msg = qio.create_dir(p)
    finally:
        os.makedirs = real
    assert ok == os.path.isdir(name), (ok, name)
finally:
    shutil.rmtree(d)
'''),
 dict(id="g23", property="C23",
      edits=[("dynamics.py", "                if not isinstance(ctrls[k, j], Qobj):\n", "                if not isinstance(ctrls[min(k, j), j], Qobj):\n")],
      needs="a time dependent control container whose malformed entry lies in a slot with a greater number than its control",
      breaks="the malformed entry is accepted",
      demo=P + '''
good = [[X, Y]] * 4
a = dynamics._check_ctrls_container(good)
assert a.shape == (4, 2) and a[3, 0] == X and a[3, 1] == Y
for k in range(4):
    for j in range(2):
        bad = [list(r) for r in good]
        bad[k][j] = 1.5
        try:
            dynamics._check_ctrls_container(bad)
        except (TypeError, ValueError):
            pass
        else:
            raise AssertionError((k, j))
'''),
 dict(id="g24", property="C24",
      edits=[("dynamics.py", "                data = np.empty([shp[0], shp[1] + 1], dtype=float)\n", "                data = np.empty([shp[0], shp[1] + 1], dtype=amps.dtype)\n")],
      needs="amplitudes given as integers and slot times that are not whole numbers",
      breaks="the times in the file are cut to whole numbers",
      demo=P + '''
o = pulseoptim.create_pulse_optimizer(Z, [X, Y], qutip.qeye(2), T2, num_tslots=4, evo_time=1.0, dyn_type="UNIT")
d = o.dynamics
d.initialize_controls(np.zeros((4, 2)))
t = tempfile.mkdtemp()
try:
    for a in (np.arange(8).reshape(4, 2), np.arange(8).reshape(4, 2) / 7):
        f = os.path.join(t, "a.txt")
        d.save_amps(f, amps=a)
        m = np.loadtxt(f)
        close(m[:, 0], d.time[:4], 1e-5)
        close(m[:, 1:], a, 1e-5)
finally:
    shutil.rmtree(t)
'''),
]
