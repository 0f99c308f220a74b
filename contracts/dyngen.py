"""C02: the slot generator and its phase."""
from .dynstate import *
from pyvc.vc import Contract


def s_apply(eng, pa):
    fresh_roots(eng)
    d = evo_dyn(eng, phase=("scalar", "matrix"), tdd=False, tdc=False)
    return [d, mat(eng, "X", kind=d.f["_kd"], shape=(d.f["_N"], d.f["_N"]))], {}


def s_combine(eng):
    fresh_roots(eng)
    d = evo_dyn(eng)
    n = d.f["_num_tslots"]
    d.f["_dyn_gen"] = matlist(eng, "oldDG", n, d.f["_kd"])
    c = flag(eng) if d.f["_dyn_gen_phase"] is not None else False
    d.f["cache_phased_dyn_gen"] = c
    d.f["_phased_dyn_gen"] = matlist(eng, "oldPDG", n, d.f["_kd"]) if c else None
    k = nat(eng, "k", 0)
    eng.assume(S.cmp("<", k, n))
    return [d, k], {}


def s_getdg(eng):
    fresh_roots(eng)
    d = evo_dyn(eng, tdd=False, tdc=False)
    n = d.f["_num_tslots"]
    d.f["_dyn_gen"] = matlist(eng, "DG", n, d.f["_kd"])
    c = flag(eng) if d.f["_dyn_gen_phase"] is not None else False
    d.f["cache_phased_dyn_gen"] = c
    # the cache holds what _combine_dyn_gen stored
    d.f["_phased_dyn_gen"] = matlist(eng, "PDG", n, d.f["_kd"]) if c else None
    if c:
        d.f["_phased_dyn_gen"] = Seq(eng, "list", shape=(n,), base=lambda ix: eng.call(d.f["_apply_phase"], [eng.sget(d.f["_dyn_gen"], ix)]))
    k = nat(eng, "k", 0)
    eng.assume(S.cmp("<", k, n))
    return [d, k], {}


def s_getctrl(eng):
    fresh_roots(eng)
    d = evo_dyn(eng, tdd=False)
    n, m = d.f["_num_tslots"], d.f["_num_ctrls"]
    c = flag(eng) if d.f["_dyn_gen_phase"] is not None else False
    d.f["cache_phased_dyn_gen"] = c
    d.f["_phased_ctrl_dyn_gen"] = None
    if c:
        C = d.f["_ctrl_dyn_gen"]
        d.f["_phased_ctrl_dyn_gen"] = Seq(eng, C.kind, shape=C.f["shape"], dtype=C.f["dtype"],
                                          base=lambda ix: eng.call(d.f["_apply_phase"], [eng.sget(C, ix)]))
    k, j = nat(eng, "k", 0), nat(eng, "j", 0)
    eng.assume(S.cmp("<", k, n))
    eng.assume(S.cmp("<", j, m))
    return [d, k, j], {}


P = ["C02"]
CONTRACTS = [
    Contract("dynamics.Dynamics._apply_phase_preop", lambda e: s_apply(e, "preop"), "dyngen:apply_preop", props=P),
    Contract("dynamics.Dynamics._apply_phase_postop", lambda e: s_apply(e, "postop"), "dyngen:apply_postop", props=P),
    Contract("dynamics.Dynamics._combine_dyn_gen", s_combine, "dyngen:combine", props=P),
    Contract("dynamics.Dynamics._get_phased_dyn_gen", s_getdg, "dyngen:get_phased", props=P),
    Contract("dynamics.Dynamics._get_phased_ctrl_dyn_gen", s_getctrl, "dyngen:get_phased_ctrl", props=P),
]
