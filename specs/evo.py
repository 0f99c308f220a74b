"""Contracts of the evolution: amplitudes, time-slot computer, accessors
(C03, C07, C21)."""
import numpy as np
import scipy.linalg as la
from qutip import Qobj
from qutip_qtrl import fidcomp, propcomp, tslotcomp
from spec_dyngen import slot_generator, phased, get_phased_ctrl
from spec_prop import expm_of, typed, dense, diag_value, diag_grad_value, dec_prop, dec_vec, dec_fac, dec_adj


# ---- ghost definitions: P(k), PG(k, j) as functions of the amplitudes
def gen(dyn, k):
    return phased(dyn, slot_generator(dyn, k))


def prop_value(dyn, k):
    """exp of (phased) slot generator times slot duration"""
    if isinstance(dyn.prop_computer, propcomp.PropCompDiag):
        return diag_value(dyn, k)
    return expm_of(dyn, gen(dyn, k) * dyn._tau[k])


def prop_grad_value(dyn, k, j):
    if isinstance(dyn.prop_computer, propcomp.PropCompDiag):
        return diag_grad_value(dyn, k, j)
    a = dense(dyn, gen(dyn, k)) * dyn._tau[k]
    e = dense(dyn, get_phased_ctrl(dyn, k, j)) * dyn._tau[k]
    return typed(dyn, la.expm_frechet(a, e)[1])


def flag_changed(self):
    self.evo_current = False
    fid_flag_changed(self.fid_computer)


def base_fid_flag_changed(fc):
    fc.fidelity_current = False
    fc.fid_err_grad_current = False


def fid_flag_changed(fc):
    base_fid_flag_changed(fc)
    if isinstance(fc, fidcomp.FidCompUnitary):
        fc.fidelity_prenorm_current = False


def ecs_of(self, dyn):
    """summary of the evolution computation, needed for statistics or dumps"""
    if (dyn.stats is not None or dyn.dump is not None) and self.evo_comp_summary is None:
        self.evo_comp_summary = tslotcomp.EvoCompSummary()
    return self.evo_comp_summary


def compare_amps(self, new_amps):
    dyn = self.parent
    old = dyn.ctrl_amps
    n, m = dyn._num_tslots, dyn._num_ctrls
    ecs = self.evo_comp_summary
    if dyn.stats is not None or dyn.dump is not None:
        if ecs is not None:
            ecs.reset()
        else:
            ecs = self.evo_comp_summary = tslotcomp.EvoCompSummary()
    if old is None:
        na, nt, changed = n * m, n, True
    else:
        na = Sum(0, n, lambda k: Sum(0, m, lambda j: ite(old[k, j] != new_amps[k, j], 1, 0)))
        nt = Sum(0, n, lambda k: ite(exists(0, m, lambda j: old[k, j] != new_amps[k, j]), 1, 0))
        changed = exists(0, n, lambda k: exists(0, m, lambda j: old[k, j] != new_amps[k, j]))
    if ecs is not None:
        if changed:
            ecs.num_amps_changed = na
            ecs.num_timeslots_changed = nt
        else:
            na = nt = 0
    if dyn.stats is not None:
        dyn.stats.num_ctrl_amp_updates = dyn.stats.num_ctrl_amp_updates + (1 if changed else 0)
        dyn.stats.num_ctrl_amp_changes = dyn.stats.num_ctrl_amp_changes + na
        dyn.stats.num_timeslot_changes = dyn.stats.num_timeslot_changes + nt
    if changed:
        dyn.ctrl_amps = array2(n, m, lambda k, j: new_amps[k, j])
        flag_changed(dyn)
        return False
    return True


def ens_own_copy(self, new_amps, result):
    check("the array of the caller is not kept", not shares(self.parent.ctrl_amps, new_amps))


def recompute(self):
    dyn = self.parent
    n, m = dyn._num_tslots, dyn._num_ctrls
    dyn._dyn_gen_qobj = None
    dyn._prop_qobj = None
    dyn._prop_grad_qobj = None
    dyn._fwd_evo_qobj = None
    dyn._onwd_evo_qobj = None
    dyn._onto_evo_qobj = None
    ecs = ecs_of(self, dyn)
    if dyn.stats is not None:
        dyn.stats.num_tslot_recompute = dyn.stats.num_tslot_recompute + 1
        havoc(dyn.stats, "wall_time_dyn_gen_compute", "wall_time_prop_compute", "wall_time_fwd_prop_compute",
              "wall_time_onwd_prop_compute")
    if ecs is not None:
        havoc(ecs, "wall_time_dyn_gen_compute", "wall_time_prop_compute", "wall_time_fwd_prop_compute",
              "wall_time_onwd_prop_compute")
    dyn._dyn_gen = listof(n, lambda k: slot_generator(dyn, k))
    if dyn.cache_phased_dyn_gen:
        dyn._phased_dyn_gen = listof(n, lambda k: gen(dyn, k))
    if isinstance(dyn.prop_computer, propcomp.PropCompDiag):
        dyn._decomp_curr = listof(n, lambda k: True)
        dyn._prop_eigen = listof(n, lambda k: dec_prop(dyn, k))
        dyn._dyn_gen_eigenvectors = listof(n, lambda k: dec_vec(dyn, k))
        dyn._dyn_gen_factormatrix = listof(n, lambda k: dec_fac(dyn, k))
        if dyn._dyn_gen_eigenvectors_adj is not None:
            dyn._dyn_gen_eigenvectors_adj = listof(n, lambda k: dec_adj(dyn, k))
    dyn._prop = listof(n, lambda k: P(k))
    if dyn.prop_computer.grad_exact and dyn.cache_prop_grad:
        dyn._prop_grad = array2(n, m, lambda k, j: PG(k, j))
    dyn._fwd_evo = listof(n + 1, lambda k: FWD(k))
    if dyn.fid_computer.uses_onwd_evo:
        dyn._onwd_evo = listof(n, lambda k: ONWD(k))
    if dyn.fid_computer.uses_onto_evo:
        dyn._onto_evo = listof(n + 1, lambda k: ONTO(k))


def old_times(self):
    s = self.parent.stats
    if s is None:
        return None
    return (s.wall_time_dyn_gen_compute, s.wall_time_prop_compute, s.wall_time_fwd_prop_compute, s.wall_time_onwd_prop_compute)


def ens_times(self, old):
    s = self.parent.stats
    e = self.evo_comp_summary
    if s is not None:
        check("generator time added", s.wall_time_dyn_gen_compute == old[0] + e.wall_time_dyn_gen_compute)
        check("propagator time added", s.wall_time_prop_compute == old[1] + e.wall_time_prop_compute)
        check("forward time added", s.wall_time_fwd_prop_compute == old[2] + e.wall_time_fwd_prop_compute)
        check("onward time added", s.wall_time_onwd_prop_compute == old[3] + e.wall_time_onwd_prop_compute)
    if e is not None:
        check("times are not negative", all_of(e.wall_time_dyn_gen_compute >= 0, e.wall_time_prop_compute >= 0,
                                               e.wall_time_fwd_prop_compute >= 0, e.wall_time_onwd_prop_compute >= 0))


def compute_evolution(self):
    if self.evo_current:
        return False
    self.tslot_computer.recompute_evolution()
    self.evo_current = True
    return True


def update_ctrl_amps(self, new_amps):
    self.tslot_computer.compare_amps(new_amps)
