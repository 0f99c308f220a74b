"""C05, C06, C07: fidelity computers."""
from .dynstate import *
from pyvc.vc import Contract


def val(eng, f, *a):
    return eng.run_func(eng.module_get(eng.module("spec_fid"), f), list(a), {})


def unit_state(eng, states=("stale", "evo", "pre", "fid", "grad"), stats=None, lean=False, **kw):
    fresh_roots(eng)
    st = opt(eng, *states)
    d = evo_state(eng, current=st != "stale", stats=flag(eng) if stats is None else stats, fid="FidCompUnitary", **kw)
    fc = d.f["fid_computer"]
    ph = "SU" if lean else opt(eng, "PSU", "SU")
    fc.f["_phase_option"] = ph
    fc.f["dimensional_norm"] = pos(eng, "Nrm")
    fc.f["fid_norm_func"] = eng.getattr_(fc, "normalize_" + ph)
    fc.f["grad_norm_func"] = eng.getattr_(fc, "normalize_gradient_" + ph)
    fc.f["grad_norm"] = real(eng, "gnorm_old")
    if st in ("pre", "fid", "grad"):
        fc.f["fidelity_prenorm_current"] = True
        fc.f["fidelity_prenorm"] = val(eng, "prenorm_value", d)
    else:
        fc.f["fidelity_prenorm"] = None if lean else opt(eng, None, Cx(real(eng, "op_re"), real(eng, "op_im")))
    if st in ("fid", "grad"):
        fc.f["fidelity_current"] = True
        fc.f["fidelity"] = val(eng, "fidelity_value", fc)
    else:
        fc.f["fidelity"] = real(eng, "oldfid")
    if st == "grad":
        fc.f["fid_err_grad_current"] = True
        fc.f["fid_err_grad"] = val(eng, "err_grad_value", fc)
        fc.f["grad_norm"] = val(eng, "norm_of", d, fc.f["fid_err_grad"])
    else:
        fc.f["fid_err_grad"] = arr2(eng, "oldgrad", d.f["_num_tslots"], d.f["_num_ctrls"])
    return d, fc


def s_unit(eng):
    return [unit_state(eng)[1]], {}


def s_unit_q(eng):
    return [unit_state(eng, od=opt(eng, "nd", "qobj"))[1]], {}


def s_grad_u(eng):
    sc = opt(eng, "stale", "evo", "nocache", "qobj")
    return [unit_state(eng, lean=True, states=("stale",) if sc == "stale" else ("evo",), stats=sc == "stale",
                       od="qobj" if sc == "qobj" else "nd", cache_grad=sc != "nocache")[1]], {}


def s_err_grad(eng):
    return [unit_state(eng, od="nd")[1]], {}


def s_norm(name):
    def s(eng):
        d, fc = unit_state(eng, states=("evo",), stats=False, od="nd")
        ph = name
        fc.f["_phase_option"] = ph
        N, M = nat(eng, "N"), nat(eng, "M")
        a = opt(eng, lambda: mat(eng, "A", kind="nd", shape=(N, M)), lambda: mat(eng, "A", kind="qobj", shape=(N, M)),
                lambda: Cx(real(eng, "zr"), real(eng, "zi")), lambda: real(eng, "x"))
        return [fc, a], {}
    return s


def s_gnorm(ph):
    def s(eng):
        d, fc = unit_state(eng, states=("stale", "evo", "pre"), stats=False, od="nd")
        fc.f["_phase_option"] = ph
        g = carr2(eng, "g", d.f["_num_tslots"], d.f["_num_ctrls"])
        eng.shared.append(g)
        return [fc, g], {}
    return s


def carr2(eng, name, n, m):
    r, i = arr2(eng, name + "_re", n, m), arr2(eng, name + "_im", n, m)
    return Seq(eng, "ndarray", shape=(n, m), base=lambda ix: Cx(eng.sget(r, ix), eng.sget(i, ix)), dtype="complex")


def s_init_norm(eng):
    d, fc = unit_state(eng, states=("stale",), stats=False, od="nd")
    N, M = d.f["_N"], nat(eng, "M")
    d.f["target"] = mat(eng, "XT", kind="qobj", shape=(N, M))
    return [fc], {}


def s_phase(eng):
    d, fc = unit_state(eng, states=("stale",), stats=False, od="nd")
    return [fc, opt(eng, "PSU", "SU", None, "su", 1)], {}


def s_initc(eng):
    (fc,), k = s_init_norm(eng)
    w = opt(eng, "ok", "nofid", "nograd")
    if w == "nofid":
        fc.f["fid_norm_func"] = None
    if w == "nograd":
        fc.f["grad_norm_func"] = None
    return [fc], {}


def td_state(eng, cls="FidCompTraceDiff", states=("stale", "evo", "fid", "grad"), stats=None, **kw):
    fresh_roots(eng)
    st = opt(eng, *states)
    prop = "PropCompApproxGrad" if cls == "FidCompTraceDiffApprox" else "PropCompFrechet"
    d = evo_state(eng, cls=opt(eng, "DynamicsGenMat", "DynamicsUnitary") if st == "evo" else "DynamicsGenMat", current=st != "stale",
                  stats=flag(eng) if stats is None else stats, fid=cls, prop=kw.pop("prop", prop),
                  phase=("none",), **kw)
    fc = d.f["fid_computer"]
    fc.f["scale_factor"] = real(eng, "scale")
    if cls == "FidCompTraceDiffApprox":
        fc.f["epsilon"] = pos(eng, "eps")
    fc.f["grad_norm"] = real(eng, "gnorm_old")
    if st in ("fid", "grad"):
        fc.f["fidelity_current"] = True
        fc.f["fid_err"] = val(eng, "td_err_value", fc)
    else:
        fc.f["fid_err"] = opt(eng, None, real(eng, "olderr"))
    if st == "grad":
        fc.f["fid_err_grad_current"] = True
        if cls == "FidCompTraceDiff":
            fc.f["fid_err_grad"] = val(eng, "td_grad_value", fc)
        else:
            fc.f["fid_err_grad"] = arr2(eng, "curgrad", d.f["_num_tslots"], d.f["_num_ctrls"])
        fc.f["grad_norm"] = val(eng, "norm_of", d, fc.f["fid_err_grad"])
    else:
        fc.f["fid_err_grad"] = arr2(eng, "oldgrad", d.f["_num_tslots"], d.f["_num_ctrls"])
    return d, fc


def s_td(eng):
    return [td_state(eng)[1]], {}


def s_tdg(eng):
    sc = opt(eng, "stale", "evo", "nocache", "qobj")
    return [td_state(eng, states=("stale",) if sc == "stale" else ("evo",), stats=sc == "stale",
                     od="qobj" if sc == "qobj" else "nd", cache_grad=sc != "nocache")[1]], {}


def s_tdget(eng):
    return [td_state(eng, cls=opt(eng, "FidCompTraceDiff", "FidCompTraceDiffApprox"), od="nd")[1]], {}


def s_ap(eng):
    return [td_state(eng, cls="FidCompTraceDiffApprox", states=("stale", "evo", "fid"))[1]], {}


def s_tdinit(eng):
    d, fc = td_state(eng, states=("stale",), stats=False, od="nd")
    d.f["drift_dyn_gen"] = mat(eng, "D", kind="qobj", shape=(d.f["_N"], d.f["_N"]))
    if flag(eng):
        fc.f["scale_factor"] = None
    return [fc], {}


def s_tr(eng):
    fresh_roots(eng)
    N = nat(eng, "N")
    return [opt(eng, lambda: mat(eng, "X", kind="nd", shape=(N, N)), lambda: mat(eng, "X", kind="qobj", shape=(N, N)),
                lambda: Cx(real(eng, "zr"), real(eng, "zi")), lambda: real(eng, "x"))], {}


U, T = "fidcomp.FidCompUnitary.", "fidcomp.FidCompTraceDiff."
CONTRACTS = [
    Contract(U + "get_fidelity_prenorm", s_unit_q, "fid:get_prenorm", props=["C05", "C07", "C21"]),
    Contract(U + "get_fidelity", s_unit, "fid:get_fidelity", props=["C05", "C07", "C21"]),
    Contract(U + "get_fid_err", s_unit, "fid:get_fid_err", props=["C05", "C07"]),
    Contract(U + "compute_fid_grad", s_grad_u, "fid:compute_fid_grad", ["fid:ens_time"], old="fid:old_time", props=["C06", "C07", "C21"]),
    Contract(U + "get_fid_err_gradient", s_err_grad, "fid:get_err_grad", props=["C06", "C07", "C21"]),
    Contract(U + "normalize_PSU", s_norm("PSU"), "fid:normalize", props=["C05"]),
    Contract(U + "normalize_SU", s_norm("SU"), "fid:normalize", props=["C05"]),
    Contract(U + "normalize_gradient_PSU", s_gnorm("PSU"), "fid:normalize_grad", props=["C06"]),
    Contract(U + "normalize_gradient_SU", s_gnorm("SU"), "fid:normalize_grad_su", props=["C06"]),
    Contract(U + "init_normalization", s_init_norm, "fid:init_normalization", props=["C05"]),
    Contract(U + "_init_phase_option", s_phase, "fid:init_phase", props=["C05", "C20"]),
    Contract(U + "init_comp", s_initc, "fid:init_comp", props=["C05"]),
    Contract(T + "get_fid_err", s_td, "fid:td_get_err", props=["C05", "C07", "C21"]),
    Contract(T + "compute_fid_err_grad", s_tdg, "fid:td_compute_grad", ["fid:ens_time"], old="fid:old_time", props=["C06", "C07", "C21"]),
    Contract(T + "get_fid_err_gradient", s_tdget, "fid:td_get_grad", props=["C06", "C07", "C21"]),
    Contract(T + "init_comp", s_tdinit, "fid:td_init_comp", props=["C05"]),
    Contract("fidcomp.FidCompTraceDiffApprox.compute_fid_err_grad", s_ap, "fid:ap_compute_grad", ["fid:ens_time"], old="fid:old_time", props=["C06", "C07", "C21"]),
]
