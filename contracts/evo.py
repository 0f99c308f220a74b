"""C03, C07, C21: amplitudes, evolution, accessors."""
from .dynstate import *
from pyvc.vc import Contract


def s_recompute(eng):
    fresh_roots(eng)
    sc = opt(eng, *__import__("os").environ.get("SC","").split()) if __import__("os").environ.get("SC") else opt(eng, "frechet", "approx", "diag", "plain", "stats", "ecs", "nograd", "genmat", "td", "phcache")
    prop = {"approx": "PropCompApproxGrad", "diag": "PropCompDiag"}.get(sc, "PropCompFrechet")
    kw = dict(fid=opt(eng, "FidCompUnitary", "FidCompTraceDiff") if sc == "frechet" else "FidCompUnitary")
    if sc == "plain":
        kw.update(onwd=flag(eng), onto=flag(eng))
    if sc == "td":
        kw.update(tdd=True, tdc=True)
    if sc == "phcache":
        kw.update(phcache=True)
    d = evo_state(eng, prop=prop, od=opt(eng, "nd", "qobj") if sc in ("frechet", "diag", "approx") else "nd",
                  stats=sc == "stats", ecs=sc == "ecs" or (sc == "stats" and flag(eng)),
                  cache_grad=sc != "nograd", phase=("none",) if sc == "genmat" else ("-i",), **kw)
    return [d.f["tslot_computer"]], {}


def s_compare(eng):
    fresh_roots(eng)
    stats = flag(eng)
    d = evo_state(eng, od="nd", stats=stats, ecs=flag(eng), tdd=False, tdc=False,
                  fid=opt(eng, "FidCompUnitary", "FidCompTraceDiff"), current=False)
    d.f["evo_current"] = flag(eng)
    fc = d.f["fid_computer"]
    fc.f["fidelity_current"] = fc.f["fid_err_grad_current"] = d.f["evo_current"]
    if fc.cls.name == "FidCompUnitary":
        fc.f["fidelity_prenorm_current"] = d.f["evo_current"]
    n, m = d.f["_num_tslots"], d.f["_num_ctrls"]
    if flag(eng):
        d.f["ctrl_amps"] = None
    new = arr2(eng, "new", n, m)
    eng.shared.append(new)
    return [d.f["tslot_computer"], new], {}


def s_flag(eng, *fid):
    fresh_roots(eng)
    d = evo_state(eng, od="nd", fid=opt(eng, *(fid or ("FidCompUnitary", "FidCompTraceDiff"))))
    d.f["evo_current"] = flag(eng)
    fc = d.f["fid_computer"]
    fc.f["fidelity_current"], fc.f["fid_err_grad_current"] = flag(eng), flag(eng)
    if fc.cls.name == "FidCompUnitary":
        fc.f["fidelity_prenorm_current"] = flag(eng)
    return [d], {}


def s_fflag(eng):
    (d,), k = s_flag(eng)
    return [d.f["fid_computer"]], {}


def s_uflag(eng):
    (d,), k = s_flag(eng, "FidCompUnitary")
    return [d.f["fid_computer"]], {}


def s_compute(eng):
    fresh_roots(eng)
    d = evo_state(eng, current=flag(eng), fid=opt(eng, "FidCompUnitary", "FidCompTraceDiff"))
    return [d], {}


def s_update(eng):
    (tc, new), k = s_compare(eng)
    return [tc.f["parent"], new], {}


CONTRACTS = [
    Contract("tslotcomp.TSlotCompUpdateAll.compare_amps", s_compare, "evo:compare_amps", ["evo:ens_own_copy"], props=["C07", "C21"]),
    Contract("tslotcomp.TSlotCompUpdateAll.recompute_evolution", s_recompute, "evo:recompute", ["evo:ens_times"], old="evo:old_times",
             result=False, props=["C03", "C07", "C21"], weight=5),
    Contract("dynamics.Dynamics.flag_system_changed", s_flag, "evo:flag_changed", props=["C07"]),
    Contract("fidcomp.FidelityComputer.flag_system_changed", s_fflag, "evo:base_fid_flag_changed", props=["C07"]),
    Contract("fidcomp.FidCompUnitary.flag_system_changed", s_uflag, "evo:fid_flag_changed", props=["C07"]),
    Contract("dynamics.Dynamics.compute_evolution", s_compute, "evo:compute_evolution", props=["C03", "C07"]),
    Contract("dynamics.Dynamics.update_ctrl_amps", s_update, "evo:update_ctrl_amps", props=["C07"]),
]
