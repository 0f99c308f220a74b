"""C03: public accessors of the evolution."""
from .dynstate import *
from pyvc.vc import Contract
from pyvc.core import MatObj


def state(eng, **kw):
    fresh_roots(eng)
    d = evo_state(eng, current=True, fid=opt(eng, "FidCompUnitary", "FidCompTraceDiff"), **kw)
    kd, shp = d.f["_kd"], (d.f["_N"], d.f["_N"])
    d.f["_onto_evo_target"] = mat(eng, "TINV", kind=kd, shape=shp)
    d.f["_onto_evo_target_qobj"] = None
    return d


def getter(attr):
    def s(eng):
        d = state(eng)
        sc = opt(eng, "fresh", "cached", "none")
        if sc == "none":
            d.f[attr] = None
        if sc == "cached":
            # the cache holds the same operators as the internal list
            n = d.f["_num_tslots"]
            d.f[attr + "_qobj"] = matlist(eng, "CACHED", n, "qobj") if attr != "_prop_grad" else matgrid(eng, "CACHED", n, d.f["_num_ctrls"], "qobj")
        return [d], {}
    return s


def s_full(eng):
    return [state(eng)], {}


def s_target(cls):
    def s(eng):
        fresh_roots(eng)
        od = opt(eng, "nd", "qobj")
        N, M = nat(eng, "N"), nat(eng, "M")
        dims = Seq(eng, "list", items=[Opq("dims", "t0"), Opq("dims", "t1")])
        t = mat(eng, "XT", kind="qobj", shape=(N, M), dims=dims)
        d = obj(eng, "dynamics", cls, target=t, oper_dtype=qtype(od), _onto_evo_target=None,
                _target=t if od == "qobj" else mat(eng, "XT", kind="nd", shape=(N, M)),
                _onto_evo_target_qobj=opt(eng, None, lambda: mat(eng, "CACHED", kind="qobj")), sys_dims=dims)
        return [d], {}
    return s


def s_targprop(eng):
    (d,), k = s_target(opt(eng, "DynamicsGenMat", "DynamicsUnitary"))(eng)
    if flag(eng):
        d.f["_onto_evo_target"] = mat(eng, "TINV", kind="qobj" if d.f["oper_dtype"] is qtype("qobj") else "nd")
    return [d], {}


def s_getpg(eng):
    d = state(eng, cache_grad=flag(eng))
    n, m = d.f["_num_tslots"], d.f["_num_ctrls"]
    k, j = nat(eng, "k", 0), nat(eng, "j", 0)
    eng.assume(S.cmp("<", k, n))
    eng.assume(S.cmp("<", j, m))
    return [d, k, j], {}


P = ["C03"]
CONTRACTS = [
    Contract("dynamics.Dynamics.%s.fget" % a, getter("_" + a), "access:" + a, props=P)
    for a in ("dyn_gen", "prop", "prop_grad", "fwd_evo", "onwd_evo", "onto_evo")
] + [
    Contract("dynamics.Dynamics.full_evo.fget", s_full, "access:full_evo", props=P),
    Contract("dynamics.Dynamics._get_full_evo", s_full, "access:get_full_evo", props=P),
    Contract("dynamics.Dynamics._get_onto_evo_target", s_target("DynamicsGenMat"), "access:set_target", props=P),
    Contract("dynamics.DynamicsUnitary._get_onto_evo_target", s_target("DynamicsUnitary"), "access:set_target_unitary", props=P),
    Contract("dynamics.Dynamics.onto_evo_target.fget", s_targprop, "access:onto_target", props=P),
    Contract("dynamics.Dynamics._get_prop_grad", s_getpg, "access:get_prop_grad", props=["C04", "C06"]),
]
