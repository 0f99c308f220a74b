"""C04: propagators and their exact gradients."""
from .dynstate import *
from pyvc.vc import Contract


def s_pc(eng, cls, od=None, decomp=False, dyncls="DynamicsUnitary", phase=("none", "scalar", "matrix")):
    fresh_roots(eng)
    d = evo_dyn(eng, dyncls, od=od, tdd=False, tdc=flag(eng), phase=phase)
    n, m, kd, N = (d.f[k] for k in ("_num_tslots", "_num_ctrls", "_kd", "_N"))
    shp = (N, N)
    d.f["_dyn_gen"] = matlist(eng, "DG", n, kd, shp)
    d.f["_phased_dyn_gen"] = None
    d.f["_phased_ctrl_dyn_gen"] = None
    d.f["cache_phased_dyn_gen"] = False
    pc = obj(eng, "propcomp", cls, parent=d, _grad_exact=False)
    k, j = nat(eng, "k", 0), nat(eng, "j", 0)
    eng.assume(S.cmp("<", k, n))
    eng.assume(S.cmp("<", j, m))
    if decomp:
        decomp_lists(eng, d, n)
    return d, pc, k, j


def decomp_lists(eng, d, n):
    """decomposition lists; entries flagged current hold the decomposition"""
    cur = vec(eng, "dcur", n, "list", "b")
    mk = lambda nm, fn: objlist(eng, n, nm)
    d.f["_decomp_curr"] = cur
    kd, N = d.f["_kd"], d.f["_N"]
    sp = eng.module("spec_prop")
    for a, f in (("_prop_eigen", "dec_prop"), ("_dyn_gen_eigenvectors", "dec_vec"), ("_dyn_gen_factormatrix", "dec_fac"),
                 ("_dyn_gen_eigenvectors_adj", "dec_adj")):
        fn = eng.module_get(sp, f)

        def base(ix, fn=fn, a=a):
            if eng.branch(eng.sget(cur, ix)):
                return eng.run_func(fn, [d, ix[0]], {})
            return Opq("object", a)
        if S.is_conc(n):
            d.f[a] = Seq(eng, "list", items=[base((i,)) for i in range(int(n))])
        else:
            d.f[a] = Seq(eng, "list", shape=(n,), base=base)
    d.f["sparse_eigen_decomp"] = flag(eng) if kd == "qobj" else False
    d.f["cache_dyn_gen_eigenvectors_adj"] = opt(eng, True, False)
    if d.f["cache_dyn_gen_eigenvectors_adj"] is False:
        d.f["_dyn_gen_eigenvectors_adj"] = None


def s_prop(cls):
    def s(eng):
        d, pc, k, j = s_pc(eng, cls)
        return [pc, k], {}
    return s


def s_grad(cls):
    def s(eng):
        d, pc, k, j = s_pc(eng, cls)
        return [pc, k, j, flag(eng)], {}
    return s


def s_diff(eng):
    d, pc, k, j = s_pc(eng, "PropCompApproxGrad")
    return [pc, k, j, real(eng, "eps")], {}


def s_dprop(eng):
    d, pc, k, j = s_pc(eng, "PropCompDiag", decomp=True, phase=("-i",))
    return [pc, k], {}


def s_dgrad(eng):
    d, pc, k, j = s_pc(eng, "PropCompDiag", decomp=True, phase=("-i",))
    return [pc, k, j, flag(eng)], {}


def s_decomp(eng):
    d, pc, k, j = s_pc(eng, "PropCompDiag", decomp=True, phase=("-i",))
    return [d, k], {}


def s_tr(eng):
    fresh_roots(eng)
    N = nat(eng, "N")
    return [opt(eng, lambda: mat(eng, "X", kind="nd", shape=(N, N)), lambda: mat(eng, "X", kind="qobj", shape=(N, N)),
                lambda: Cx(real(eng, "zr"), real(eng, "zi")), lambda: real(eng, "x"))], {}


P = ["C04", "C06"]
CONTRACTS = [
    Contract("propcomp.PropagatorComputer._compute_propagator", s_prop("PropCompFrechet"), "prop:expm_prop", props=P),
    Contract("propcomp.PropCompApproxGrad._compute_diff_prop", s_diff, "prop:diff_prop", props=P),
    Contract("propcomp.PropCompFrechet._compute_prop_grad", s_grad("PropCompFrechet"), "prop:frechet", props=P),
    Contract("propcomp.PropCompAugMat._compute_prop_grad", s_grad("PropCompAugMat"), "prop:frechet", props=P),
    Contract("dynamics.DynamicsUnitary._spectral_decomp", s_decomp, "prop:spectral_decomp", props=P),
    Contract("dynamics.Dynamics._ensure_decomp_curr", s_decomp, "prop:ensure_decomp", props=P + ["C07"]),
    Contract("propcomp.PropCompDiag._compute_propagator", s_dprop, "prop:diag_prop", props=P),
    Contract("propcomp.PropCompDiag._compute_prop_grad", s_dgrad, "prop:diag_grad", props=P),
]
