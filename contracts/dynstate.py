"""Shared symbolic pre-states of Dynamics objects (after initialisation)."""
from pyvc.setups import *
from pyvc.core import MatObj


def dims_of(eng, nm):
    return Seq(eng, "list", items=[Opq("dims", nm + "0"), Opq("dims", nm + "1")])


def qtype(od):
    return lib.tv("Qobj") if od == "qobj" else lib.tv("ndarray")


def kindof(od):
    return "qobj" if od == "qobj" else "nd"


def choose_phase(eng, kind, shape, which=("none", "scalar", "matrix")):
    p = opt(eng, *which)
    if p == "none":
        return None
    if p == "scalar":
        return Cx(real(eng, "phre"), real(eng, "phim"))
    if p == "-i":
        return Cx(0, -1)
    return mat(eng, "PHASE", kind=kind, shape=shape)


def evo_dyn(eng, cls="Dynamics", od=None, phase=("none", "scalar", "matrix"), tdd=None, tdc=None, n=None, m=None,
            minm=1, square=True):
    """a Dynamics object whose operator lists are set up as _init_evo leaves them"""
    od = od or opt(eng, "nd", "qobj")
    kd = kindof(od)
    n = nat(eng, "n") if n is None else n
    m = nat(eng, "m", minm) if m is None else m
    N = nat(eng, "N")
    shp = (N, N)
    tdd = flag(eng) if tdd is None else tdd
    tdc = flag(eng) if tdc is None else tdc
    drift = matlist(eng, "D", n, kd, shp) if tdd else mat(eng, "D", kind=kd, shape=shp)
    ctrl = matgrid(eng, "C", n, m, kd, shp) if tdc else matlist(eng, "C", m, kd, shp)
    ph = choose_phase(eng, kd, shp, phase)
    d = obj(eng, "dynamics", cls,
            oper_dtype=qtype(od), _num_tslots=n, _num_ctrls=m, time_depend_drift=tdd, time_depend_ctrl_dyn_gen=tdc,
            _drift_dyn_gen=drift, _ctrl_dyn_gen=ctrl, _dyn_gen_phase=ph, dyn_shape=Seq(eng, "tuple", items=[N, N]),
            dyn_dims=dims_of(eng, "dyn"), sys_dims=dims_of(eng, "sys"), sys_shape=Seq(eng, "tuple", items=[N, N]),
            _timeslots_initialized=True, _ctrls_initialized=True, _evo_initialized=True, log_level=30,
            _tau=vec(eng, "tau", n), ctrl_amps=arr2(eng, "amp", n, m), unitarity_check_level=0,
            stats=None, dump=None, fact_mat_round_prec=real(eng, "prec"))
    d.f["_dyn_gen_mapped"] = True
    d.f["_kd"], d.f["_N"] = kd, N
    pa = None
    if ph is not None:
        pa = opt(eng, "preop", "postop") if phase != ("-i",) else "preop"
        d.f["_apply_phase"] = eng.getattr_(d, "_apply_phase_" + pa)
    d.f["_phase_application"] = pa
    return d


def objlist(eng, n, name):
    """list whose elements are not yet meaningful"""
    if S.is_conc(n):
        return Seq(eng, "list", items=[Opq("object", name)] * int(n))
    return Seq(eng, "list", shape=(n,), base=lambda ix: Opq("object", name))


def chains(eng, d, propcls="PropCompFrechet"):
    """ghost functions of the amplitudes: propagators P(k), their gradients
    PG(k, j) and the ordered products FWD, ONWD, ONTO.  Their recursive
    definitions are unfolded on demand."""
    kd, n = d.f["_kd"], d.f["_num_tslots"]
    sp = eng.module("spec_evo")

    def mk(nm, shp=None):
        return lambda e, a, k: MatObj(e, MT.atom(nm, *a), kd, (d.f["_N"], d.f["_N"]))
    for nm in ("P", "PG", "FWD", "ONWD", "ONTO"):
        eng.specfns[nm] = mk(nm)

    def val(fname):
        def f(*ix):
            fn = eng.module_get(sp, fname)
            return eng.run_func(fn, [d] + list(ix), {}).f["lc"]
        return f
    eng.defs["P"] = val("prop_value")
    eng.defs["PG"] = val("prop_grad_value")

    def fwd(k):
        if eng.valid(S.cmp("==", k, 0)):
            return d.f["_initial"].f["lc"]
        if eng.valid(S.cmp(">=", k, 1)):
            return MT.mul(MT.atom("P", S.sub(k, 1)), MT.atom("FWD", S.sub(k, 1)))

    def onwd(k):
        if eng.valid(S.cmp("==", k, S.sub(n, 1))):
            return MT.atom("P", k)
        if eng.valid(S.cmp("<", k, S.sub(n, 1))):
            return MT.mul(MT.atom("ONWD", S.add(k, 1)), MT.atom("P", k))

    def onto(k):
        if eng.valid(S.cmp("==", k, n)):
            return MT.atom("TINV")
        if eng.valid(S.cmp("<", k, n)):
            return MT.mul(MT.atom("ONTO", S.add(k, 1)), MT.atom("P", k))
    eng.defs.update(FWD=fwd, ONWD=onwd, ONTO=onto)


def evo_state(eng, cls="DynamicsUnitary", od=None, prop="PropCompFrechet", fid="FidCompUnitary", current=False, phase=("-i",),
              cache_grad=True, stats=False, ecs=None, onwd=None, onto=None, dump=False, **kw):
    """Dynamics object after initialisation; 'current': evolution computed for
    the current amplitudes, otherwise the lists hold whatever they held"""
    kw_phcache = kw.pop("phcache", False)
    d = evo_dyn(eng, cls, od=od, phase=phase, tdd=kw.pop("tdd", False), tdc=kw.pop("tdc", False), **kw)
    n, m, kd, N = (d.f[k] for k in ("_num_tslots", "_num_ctrls", "_kd", "_N"))
    shp = (N, N)
    chains(eng, d)
    fam = lambda nm, ln, nm2: (Seq(eng, "list", shape=(ln,), base=lambda ix: mat(eng, nm, ix[0], kind=kd, shape=shp)) if not S.is_conc(ln)
                               else Seq(eng, "list", items=[mat(eng, nm, i, kind=kd, shape=shp) for i in range(int(ln))]))
    sfx = "" if current else "old"
    diag = prop == "PropCompDiag"
    exact = prop != "PropCompApproxGrad"
    d.f["_initial"] = mat(eng, "X0", kind=kd, shape=shp)
    d.f["_target"] = mat(eng, "XT", kind=kd, shape=shp)
    d.f["target"] = mat(eng, "XT", kind="qobj", shape=shp)
    d.f["initial"] = mat(eng, "X0", kind="qobj", shape=shp, dims=d.f["sys_dims"])
    phcache = kw_phcache and d.f["_dyn_gen_phase"] is not None
    d.f["cache_phased_dyn_gen"] = phcache
    d.f["_phased_dyn_gen"] = d.f["_phased_ctrl_dyn_gen"] = None
    if phcache:
        C, G = d.f["_ctrl_dyn_gen"], matlist(eng, "PDGold", n, kd)
        ap = lambda x: eng.call(d.f["_apply_phase"], [x])
        if not current:
            d.f["_phased_dyn_gen"] = G
        d.f["_phased_ctrl_dyn_gen"] = Seq(eng, C.kind, shape=C.f["shape"], dtype=C.f["dtype"], base=lambda ix: ap(eng.sget(C, ix)))
    d.f["cache_prop_grad"] = cache_grad
    d.f["evo_current"] = current
    n1 = S.add(n, 1)
    if current:
        sp = eng.module("spec_dyngen")
        sg = eng.module_get(sp, "slot_generator")
        if S.is_conc(n):
            d.f["_dyn_gen"] = Seq(eng, "list", items=[eng.run_func(sg, [d, i], {}) for i in range(int(n))])
        else:
            d.f["_dyn_gen"] = Seq(eng, "list", shape=(n,), base=lambda ix: eng.run_func(sg, [d, ix[0]], {}))
        if phcache:
            DG = d.f["_dyn_gen"]
            d.f["_phased_dyn_gen"] = Seq(eng, "list", shape=(n,), base=lambda ix: ap(eng.sget(DG, ix)))
    else:
        d.f["_dyn_gen"] = fam("DGold", n, 1)
    d.f["_prop"] = fam("P" + sfx, n, 1)
    pg = "PG" + sfx
    d.f["_prop_grad"] = matgrid(eng, pg, n, m, kd, shp) if exact and cache_grad else None
    d.f["_fwd_evo"] = chain_list(eng, d, "FWD" + sfx, n1, 0, "X0")
    fo = fid == "FidCompUnitary" if onto is None else onto
    fw = fid != "FidCompUnitary" if onwd is None else onwd
    d.f["_onto_evo"] = chain_list(eng, d, "ONTO" + sfx, n1, n, "TINV") if fo else None
    d.f["_onwd_evo"] = fam("ONWD" + sfx, n, 1) if fw else None
    for a in ("_decomp_curr", "_prop_eigen", "_dyn_gen_eigenvectors", "_dyn_gen_eigenvectors_adj", "_dyn_gen_factormatrix"):
        d.f[a] = None
    d.f["cache_dyn_gen_eigenvectors_adj"] = True
    d.f["sparse_eigen_decomp"] = False
    for a in ("_dyn_gen_qobj", "_prop_qobj", "_prop_grad_qobj", "_fwd_evo_qobj", "_onwd_evo_qobj", "_onto_evo_qobj"):
        d.f[a] = None if current else Seq(eng, "list", items=[Opq("stale", a)])
    d.f["dump_to_file"] = False
    if stats:
        d.f["stats"] = obj(eng, "stats", "Stats", num_tslot_recompute=nat(eng, "s_rec", 0), num_fidelity_computes=nat(eng, "s_fid", 0),
                           num_grad_computes=nat(eng, "s_grad", 0), num_ctrl_amp_updates=nat(eng, "s_upd", 0),
                           num_timeslot_changes=nat(eng, "s_ts", 0), num_ctrl_amp_changes=nat(eng, "s_chg", 0),
                           wall_time_dyn_gen_compute=real(eng, "s_w1"), wall_time_prop_compute=real(eng, "s_w2"),
                           wall_time_fwd_prop_compute=real(eng, "s_w3"), wall_time_onwd_prop_compute=real(eng, "s_w4"),
                           wall_time_gradient_compute=real(eng, "s_w5"))
    pc = obj(eng, "propcomp", prop, parent=d, grad_exact=exact)
    d.f["prop_computer"] = pc
    tc = obj(eng, "tslotcomp", "TSlotCompUpdateAll", parent=d, evo_comp_summary=None)
    if ecs:
        tc.f["evo_comp_summary"] = new_ecs(eng)
    d.f["tslot_computer"] = tc
    fc = obj(eng, "fidcomp", fid, parent=d, uses_onwd_evo=fw, uses_onto_evo=fo, fidelity_current=False, fid_err_grad_current=False,
             fidelity=None, fid_err=None, fid_err_grad=None)
    if fid == "FidCompUnitary":
        fc.f.update(fidelity_prenorm_current=False, fidelity_prenorm=None)
    d.f["fid_computer"] = fc
    if diag:
        decomp(eng, d, current)
    return d


def new_ecs(eng):
    return obj(eng, "tslotcomp", "EvoCompSummary", idx=None, evo_dump_idx=None, iter_num=None, fid_func_call_num=None,
               grad_func_call_num=None, num_amps_changed=nat(eng, "e_a", 0), num_timeslots_changed=nat(eng, "e_t", 0),
               wall_time_dyn_gen_compute=real(eng, "e_w1"), wall_time_prop_compute=real(eng, "e_w2"),
               wall_time_fwd_prop_compute=real(eng, "e_w3"), wall_time_onwd_prop_compute=real(eng, "e_w4"))


def chain_list(eng, d, nm, ln, end, endname):
    """list whose element at index 'end' is the fixed operator 'endname'"""
    kd, shp = d.f["_kd"], (d.f["_N"], d.f["_N"])

    def base(ix):
        if nm.endswith("old") and eng.branch(S.cmp("==", ix[0], end)):
            return mat(eng, endname, kind=kd, shape=shp)
        return mat(eng, nm, ix[0], kind=kd, shape=shp)
    if S.is_conc(ln):
        return Seq(eng, "list", items=[base((i,)) for i in range(int(ln))])
    return Seq(eng, "list", shape=(ln,), base=base)


def decomp(eng, d, current):
    n = d.f["_num_tslots"]
    d.f["_decomp_curr"] = vec(eng, "dcur", n, "list", "b")
    for a in ("_prop_eigen", "_dyn_gen_eigenvectors", "_dyn_gen_factormatrix") + \
            (("_dyn_gen_eigenvectors_adj",) if d.f["cache_dyn_gen_eigenvectors_adj"] else ()):
        d.f[a] = objlist(eng, n, "old" + a)
