"""C02/C03/C23: initialisation of the evolution containers, phases, checks."""
from .dynstate import *
from pyvc.vc import Contract


def pub_ops(eng, n, m, N, which="any"):
    """public drift / control operators (Qobj)"""
    shp = (N, N)
    tdd, tdc = flag(eng), flag(eng)
    drift = matlist(eng, "D", n, "qobj", shp, cont=opt(eng, "list", "tuple")) if tdd else mat(eng, "D", kind="qobj", shape=shp)
    ctrl = matgrid(eng, "C", n, m, "qobj", shp) if tdc else matlist(eng, "C", m, "qobj", shp)
    return drift, ctrl, tdd, tdc


def s_initevo(eng):
    fresh_roots(eng)
    n, m, N = nat(eng, "n"), nat(eng, "m"), nat(eng, "N")
    n2 = n
    sc = opt(eng, "ok", "flags", "driftlen", "ctrllen", "badinit", "badtarg", "baddtype", "diag", "mem")
    shp = (N, N)
    ok, flags = sc == "ok", sc == "flags"
    nd = nat(eng, "nd") if sc == "driftlen" else n
    nc = nat(eng, "nc") if sc == "ctrllen" else n
    tdd = flag(eng) if ok else sc == "driftlen"
    tdc = flag(eng) if ok else sc == "ctrllen"
    drift = matlist(eng, "D", nd, "qobj", shp) if tdd else mat(eng, "D", kind="qobj", shape=shp)
    ctrl = matgrid(eng, "C", nc, m, "qobj", shp) if tdc else matlist(eng, "C", m, "qobj", shp)
    od = opt(eng, "nd", "qobj") if sc in ("ok", "flags", "diag", "mem") else "nd"
    cls = opt(eng, "DynamicsGenMat", "DynamicsUnitary") if sc in ("ok", "flags", "diag", "mem") else "DynamicsUnitary"
    init = mat(eng, "X0", kind="qobj", shape=shp)
    targ = mat(eng, "XT", kind="qobj", shape=shp)
    onto, onwd = (flag(eng), flag(eng)) if flags else (True, True)
    fc = obj(eng, "fidcomp", "FidelityComputer", uses_onwd_evo=onwd, uses_onto_evo=onto)
    pc = obj(eng, "propcomp", "PropCompDiag" if sc == "diag" else "PropCompFrechet", grad_exact=flag(eng) if flags else True)
    cfgc = flag(eng) if sc == "mem" else None
    d = obj(eng, "dynamics", cls,
            drift_dyn_gen=drift, ctrl_dyn_gen=ctrl, _drift_dyn_gen_checked=True, _ctrl_dyn_gen_checked=True,
            initial=init if sc != "badinit" else opt(eng, None, "x"), target=targ if sc != "badtarg" else opt(eng, None, 3),
            _num_tslots=n, _num_ctrls=m, time_depend_ctrl_dyn_gen=tdc, time_depend_drift=False,
            _timeslots_initialized=True, _dyn_gen_mapped=True,
            oper_dtype=qtype(od) if sc != "baddtype" else 7, memory_optimization=opt(eng, 0, 1, 2) if sc == "mem" else 0,
            cache_phased_dyn_gen=cfgc, cache_prop_grad=cfgc if not flags else flag(eng),
            cache_dyn_gen_eigenvectors_adj=flag(eng) if sc == "diag" else cfgc,
            sparse_eigen_decomp=opt(eng, None, True, False) if sc == "mem" else False,
            _dyn_gen_phase=None if cls == "DynamicsGenMat" else Cx(0, -1),
            _phase_application=None if cls == "DynamicsGenMat" else (opt(eng, "preop", "POSTOP") if ok else "preop"),
            _phased_ctrl_dyn_gen=None, _dyn_gen=None, _phased_dyn_gen=None, _prop=None, _prop_grad=None, _fwd_evo=None,
            _onwd_evo=None, _onto_evo=None, _onto_evo_target=None, _onto_evo_target_qobj=Opq("stale"),
            _decomp_curr=None, _prop_eigen=None, _dyn_gen_eigenvectors=None, _dyn_gen_eigenvectors_adj=None,
            _dyn_gen_factormatrix=None, prop_computer=pc, fid_computer=fc, log_level=30,
            unitarity_check_level=0, dump_to_file=False, dump=None, _evo_initialized=flag(eng) if flags else False,
            dyn_dims=None, dyn_shape=None, sys_dims=None, sys_shape=None)
    if sc == "dump":
        d.f["dump_to_file"] = True
        d.f["dump"] = obj(eng, "dump", "DynamicsDump", write_to_file=False, parent=d)
    return [d], {}


def s_mem(eng):
    fresh_roots(eng)
    d = obj(eng, "dynamics", "DynamicsGenMat", memory_optimization=nat(eng, "mo", 0),
            oper_dtype=opt(eng, lambda: qtype("nd"), lambda: qtype("qobj")),
            cache_phased_dyn_gen=opt(eng, None, True, False), cache_prop_grad=opt(eng, None, True, False),
            cache_dyn_gen_eigenvectors_adj=opt(eng, None, True, False), sparse_eigen_decomp=opt(eng, None, True, False))
    return [d], {}


def s_phaseapp(eng):
    fresh_roots(eng)
    d = obj(eng, "dynamics", opt(eng, "DynamicsGenMat", "DynamicsUnitary"), _phase_application=opt(eng, None, "preop", "postop", "custom"),
            _evo_initialized=flag(eng))
    return [d, opt(eng, None, "preop", "postop", "custom", "PreOp", "other", 3)], {}


def s_setphaseapp(eng):
    (d, v), k = s_phaseapp(eng)
    return [d, v], {}


def s_initphase(eng):
    fresh_roots(eng)
    has = flag(eng)
    d = obj(eng, "dynamics", "DynamicsUnitary", _phase_application=opt(eng, "preop", "postop", "custom"),
            _dyn_gen_phase=Cx(0, -1) if has else None, cache_phased_dyn_gen=flag(eng))
    return [d], {}


def s_sympl(eng):
    fresh_roots(eng)
    N = nat(eng, "N")
    od = opt(eng, "nd", "qobj")
    om = mat(eng, "OMEGA", kind=kindof(od), shape=(S.mul(2, N), S.mul(2, N)))
    d = obj(eng, "dynamics", "DynamicsSymplectic", _phase_application=opt(eng, "preop", "postop", "custom", "bad"),
            _omega=om, _omega_qobj=None, oper_dtype=qtype(od), _dyn_gen_phase=None, _evo_initialized=flag(eng))
    return d


def s_sphase(eng):
    return [s_sympl(eng)], {}


def s_sphase2(eng):
    d = s_sympl(eng)
    d.f["_dyn_gen_phase"] = opt(eng, None, lambda: mat(eng, "PH", kind="nd"))
    return [d], {}


def s_ssetapp(eng):
    d = s_sympl(eng)
    return [d, opt(eng, "preop", "postop", "custom", "zz")], {}


def s_omega(eng):
    fresh_roots(eng)
    N = nat(eng, "N")
    od = opt(eng, "nd", "qobj")
    d = obj(eng, "dynamics", "DynamicsSymplectic", _omega=None, _omega_qobj=None, oper_dtype=qtype(od), dyn_dims=Opq("dyn_dims"),
            dyn_shape=Seq(eng, "tuple", items=[S.mul(2, N), S.mul(2, N)]))
    return [d], {}


def s_map(eng):
    fresh_roots(eng)
    A = lambda: mat(eng, "A", kind="qobj")
    d = obj(eng, "dynamics", "DynamicsUnitary", drift_dyn_gen=opt(eng, None, A), ctrl_dyn_gen=opt(eng, None, lambda: matlist(eng, "C", nat(eng, "m"), "qobj")),
            drift_ham=opt(eng, None, lambda: mat(eng, "Bq", kind="qobj")), ctrl_ham=opt(eng, None, lambda: matlist(eng, "E", nat(eng, "m2"), "qobj")), _dyn_gen_mapped=flag(eng))
    return [d], {}


def s_numctrls(eng):
    fresh_roots(eng)
    n, m = nat(eng, "n"), nat(eng, "m")
    d = obj(eng, "dynamics", opt(eng, "DynamicsGenMat", "DynamicsUnitary"), _ctrl_dyn_gen_checked=True, _dyn_gen_mapped=True,
            ctrl_dyn_gen=opt(eng, lambda: matlist(eng, "C", m, "qobj"), lambda: matgrid(eng, "C", n, m, "qobj")),
            _num_ctrls=None, time_depend_ctrl_dyn_gen=False)
    return [d], {}


def s_refresh(eng):
    fresh_roots(eng)
    n = nat(eng, "n")
    N = nat(eng, "N")
    d = obj(eng, "dynamics", "DynamicsGenMat", drift_dyn_gen=opt(eng, lambda: mat(eng, "D", kind="qobj", shape=(N, N), dims=Opq("dd")),
            lambda: Seq(eng, "list", shape=(n,), base=lambda ix: mat(eng, "D", ix[0], kind="qobj", shape=(N, N), dims=Opq("dd"))),
            lambda: Seq(eng, "tuple", shape=(n,), base=lambda ix: mat(eng, "D", ix[0], kind="qobj", shape=(N, N), dims=Opq("dd"))),
            None, lambda: mat(eng, "D", kind="nd")),
            time_depend_drift=flag(eng), dyn_shape=None, dyn_dims=None)
    return [d], {}


def s_dtype(eng):
    fresh_roots(eng)
    n, m, N = nat(eng, "n"), nat(eng, "m"), nat(eng, "N")
    drift, ctrl, tdd, tdc = pub_ops(eng, n, m, N)
    d = obj(eng, "dynamics", "DynamicsGenMat", drift_dyn_gen=drift, ctrl_dyn_gen=ctrl, time_depend_drift=tdd,
            memory_optimization=nat(eng, "mo", 0), oper_dtype=None)
    return [d], {}


def s_drift(eng):
    fresh_roots(eng)
    n = nat(eng, "n", 0)
    bad = Sc("i", __import__("z3").Int("bad"))
    return [opt(eng, None, 3, "abc", lambda: mat(eng, "D", kind="qobj"), lambda: mat(eng, "D", kind="nd"),
                lambda: matlist(eng, "D", n, "qobj"), lambda: matlist(eng, "D", n, "qobj", cont="tuple"),
                lambda: Seq(eng, "list", shape=(n,), base=lambda ix: mixed(eng, ix[0], bad)),
                lambda: PyDict(eng))], {}


def mixed(eng, i, bad):
    if eng.branch(S.cmp("==", i, bad)):
        return mat(eng, "D", i, kind="nd")
    return mat(eng, "D", i, kind="qobj")


def s_ctrls(eng):
    fresh_roots(eng)
    n, m = nat(eng, "n", 0), nat(eng, "m", 0)
    import z3
    bad = Sc("i", z3.Int("bad"))
    badj = Sc("i", z3.Int("badj"))

    def cell(ix):
        if eng.branch(S.and_(S.cmp("==", ix[0], bad), S.cmp("==", ix[1], badj))):
            return mat(eng, "C", *ix, kind="nd")
        return mat(eng, "C", *ix, kind="qobj")
    mf = z3.Function("rowlen", z3.IntSort(), z3.IntSort())

    def nested(ragged, b):
        def row(ix):
            ln = Sc("i", mf(S.zi(ix[0]))) if ragged else m
            if ragged:
                eng.fact(mf(S.zi(ix[0])) >= 1)
            return Seq(eng, kinds, shape=(ln,), base=lambda jx: mat(eng, "C", ix[0], jx[0], kind="nd" if b else "qobj"))
        kinds = opt(eng, "list", "tuple")
        eng.assume(S.cmp(">=", n, 1))
        return Seq(eng, "list", shape=(n,), base=row)
    return [opt(eng, None, 3, lambda: mat(eng, "C", kind="qobj"),
                lambda: nested(False, False), lambda: nested(True, False), lambda: nested(False, True),
                lambda: matlist(eng, "C", m, "qobj"), lambda: matlist(eng, "C", m, "qobj", cont="tuple"),
                lambda: Seq(eng, "list", shape=(m,), base=lambda ix: mixed(eng, ix[0], bad)),
                lambda: matgrid(eng, "C", n, m, "qobj"),
                lambda: Seq(eng, "ndarray", shape=(n, m), base=cell, dtype="object"),
                lambda: Seq(eng, "ndarray", shape=(m,), base=lambda ix: mat(eng, "C", ix[0], kind="qobj"), dtype="object"))], {}


P2, P3, P23 = ["C02"], ["C03"], ["C23"]
CONTRACTS = [
    Contract("dynamics._check_drift_dyn_gen", s_drift, "dyninit:check_drift", props=P23),
    Contract("dynamics._check_ctrls_container", s_ctrls, "dyninit:check_ctrls", props=P23),
    Contract("dynamics.Dynamics._init_evo", s_initevo, "dyninit:init_evo", props=["C02", "C03", "C23"], weight=5),
    Contract("dynamics.Dynamics._set_memory_optimizations", s_mem, "dyninit:set_mem", props=P2),
    Contract("dynamics.Dynamics._choose_oper_dtype", s_dtype, None, ["dyninit:ens_dtype"], props=P2),
    Contract("dynamics.Dynamics._config_phase_application", s_phaseapp, "dyninit:config_phase", props=P2),
    Contract("dynamics.Dynamics._set_phase_application", s_setphaseapp, "dyninit:set_phase", props=P2),
    Contract("dynamics.Dynamics._init_phase", s_initphase, "dyninit:init_phase", props=P2),
    Contract("dynamics.DynamicsSymplectic._get_dyn_gen_phase", s_sphase, "dyninit:sympl_get_phase", props=P2),
    Contract("dynamics.DynamicsSymplectic.dyn_gen_phase.fget", s_sphase2, "dyninit:sympl_phase", props=P2),
    Contract("dynamics.DynamicsSymplectic._set_phase_application", s_ssetapp, "dyninit:sympl_set_phase", props=P2),
    Contract("dynamics.DynamicsSymplectic._get_omega", s_omega, None, ["dyninit:ens_omega"], props=["C02", "C16"]),
    Contract("dynamics.DynamicsUnitary._map_dyn_gen_to_ham", s_map, "dyninit:map_ham", props=P2),
    Contract("dynamics.Dynamics._get_num_ctrls", s_numctrls, "dyninit:get_num_ctrls", props=["C02", "C23"]),
    Contract("dynamics.Dynamics.refresh_drift_attribs", s_refresh, "dyninit:refresh", props=P2),
]
