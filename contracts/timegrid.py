from pyvc.setups import *
from pyvc.vc import Contract


def dyn(eng):
    """any reachable state of the grid attributes"""
    fresh_roots(eng)
    init = flag(eng)
    n = nat(eng, "n0")
    m = nat(eng, "n1")
    T = pos(eng, "T0")
    d = obj(eng, "dynamics", "Dynamics", _timeslots_initialized=init)
    if init:
        tau = opt(eng, lambda: vec(eng, "tau0", n), lambda: vec(eng, "tau0", n, "list"))
        d.f.update(_num_tslots=n, _tau=tau)
        d.f["_evo_time"] = eng.ssum(0, n, lambda t: eng.sget(tau, (t,)))
        d.f["time"] = Seq(eng, "ndarray", shape=(S.add(n, 1),),
                          base=lambda ix: eng.ssum(0, ix[0], lambda t: eng.sget(tau, (t,))), dtype="float")
    else:
        d.f["_num_tslots"] = opt(eng, None, lambda: n)
        d.f["_evo_time"] = opt(eng, None, lambda: T)
        d.f["_tau"] = opt(eng, None, lambda: vec(eng, "tau0", m), lambda: vec(eng, "tau0", m, "list"))
        d.f["time"] = None
    return d


def s_self(eng):
    return [dyn(eng)], {}


def s_init(eng):
    """the attributes are arbitrary: setters change one of them and then
    call init_timeslots to restore the invariant"""
    fresh_roots(eng)
    n, m, T = nat(eng, "n0"), nat(eng, "n1"), pos(eng, "T0")
    d = obj(eng, "dynamics", "Dynamics", _timeslots_initialized=flag(eng), _num_tslots=opt(eng, None, lambda: n), _evo_time=opt(eng, None, lambda: T),
            _tau=opt(eng, None, lambda: vec(eng, "tau0", m), lambda: vec(eng, "tau0", m, "list")),
            time=opt(eng, None, lambda: vec(eng, "time0", nat(eng, "n2"))))
    return [d], {}


def s_int(eng):
    return [dyn(eng), nat(eng, "newn")], {}


def s_time(eng):
    return [dyn(eng), opt(eng, lambda: pos(eng, "newT"), lambda: nat(eng, "newTi"))], {}


def s_tau(eng):
    d = dyn(eng)
    m = nat(eng, "newm")
    v = vec(eng, "newtau", m, opt(eng, "ndarray", "list"))
    eng.shared.append(v)
    return [d, v], {}


P = ["C01"]
CONTRACTS = [
    Contract("dynamics.Dynamics.init_timeslots", s_init, "timegrid:init_timeslots", ["timegrid:ens_init"], P),
    Contract("dynamics.Dynamics.num_tslots.fset", s_int, "timegrid:num_tslots_set", ["timegrid:ens_num_set"], P),
    Contract("dynamics.Dynamics.num_tslots.fget", s_self, "timegrid:num_tslots_get", ["timegrid:ens_get"], P),
    Contract("dynamics.Dynamics.evo_time.fset", s_time, "timegrid:evo_time_set", ["timegrid:ens_evo_set"], P),
    Contract("dynamics.Dynamics.evo_time.fget", s_self, "timegrid:evo_time_get", ["timegrid:ens_get"], P),
    Contract("dynamics.Dynamics.tau.fset", s_tau, "timegrid:tau_set", ["timegrid:ens_tau_set"], P),
    Contract("dynamics.Dynamics.tau.fget", s_self, "timegrid:tau_get", ["timegrid:ens_get"], P),
]
