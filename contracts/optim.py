"""C08-C10: the optimiser classes."""
from .dynstate import *
from pyvc.vc import Contract
from pyvc.compare import eq_val
import z3

INF = float("inf")


def ghost(eng, name, A, mk):
    """value of an uninterpreted function of the amplitudes: the same value
    for arrays with provably equal contents, otherwise a fresh one"""
    reg = eng.ghosts.setdefault(name, [])
    for B, v in reg:
        if eq_val(eng, A, B)[0] == "proved":
            return v
    v = mk("%s!%d" % (name, len(reg)))
    reg.append((A, v))
    return v


def opt_dyn(eng, fid="FidCompUnitary", amps=True):
    n, m, N = nat(eng, "n"), nat(eng, "m"), nat(eng, "N")
    d = obj(eng, "dynamics", "DynamicsUnitary", _num_tslots=n, _num_ctrls=m, _timeslots_initialized=True, _ctrls_initialized=True,
            ctrl_amps=arr2(eng, "A0", n, m), time=vec(eng, "time", S.add(n, 1)), stats=None, dump=None, log_level=30,
            sys_dims=dims_of(eng, "sys"), _dyn_gen_mapped=True)
    d.f["fid_computer"] = obj(eng, "fidcomp", fid, parent=d, grad_norm=real(eng, "gn0"))
    eng.ghosts = {}
    arr = lambda A: lib.to_array(eng, A)

    def upd(e, a, k):
        e.write(a[0], "ctrl_amps", arr(a[1]))
    eng.contracts["dynamics.Dynamics.update_ctrl_amps"] = upd
    return d


def optimizer(eng, cls="Optimizer", **kw):
    fresh_roots(eng)
    d = opt_dyn(eng)
    return obj(eng, "optimizer", cls, dynamics=d, log_level=30, stats=None, dump=None, iter_summary=None, **kw), d


def s_vals(eng):
    o, d = optimizer(eng)
    eng.shared.append(d.f["ctrl_amps"])
    return [o], {}


def s_amps(eng):
    o, d = optimizer(eng)
    x = vec(eng, "x", S.mul(d.f["_num_tslots"], d.f["_num_ctrls"]))
    eng.shared.append(x)
    return [o, x], {}


def bnd(eng, nm, m, which):
    """absent, one value, infinite, or one value (or none, or infinity) per control"""
    f = vec(eng, nm, m)
    k = z3.Function(nm + "_absent", z3.IntSort(), z3.BoolSort())
    inf = -INF if nm == "lb" else INF

    def mixed(ix):
        return None if eng.branch(Sc("b", k(S.zi(ix[0])))) else eng.sget(f, ix)
    if which == "one":
        return opt(eng, None, inf, lambda: real(eng, nm))
    base = {"list": lambda ix: eng.sget(f, ix), "mixed": mixed, "inf": lambda ix: inf}[which]
    return Seq(eng, "list", shape=(m,), base=base) if not S.is_conc(m) else Seq(eng, "list", items=[base((i,)) for i in range(m)])


def s_bounds(eng):
    o, d = optimizer(eng)
    m = d.f["_num_ctrls"]
    lk, uk = opt(eng, ("one", "one"), ("list", "list"), ("mixed", "one"), ("one", "mixed"), ("inf", "list"), ("list", "inf"))
    o.f.update(amp_lbound=bnd(eng, "lb", m, lk), amp_ubound=bnd(eng, "ub", m, uk), bounds=None, _built_bounds=None, config=obj(eng, "optimconfig", "OptimConfig"))
    return [o], {}


def s_ibounds(eng):
    (o,), k = s_bounds(eng)
    user = lambda nm: Seq(eng, "list", shape=(nat(eng, "nb"),), base=lambda ix: Opq("pair", nm, ix[0]))
    st = opt(eng, "none", "built", "user", "userafter")
    if st == "built":
        o.f["bounds"] = o.f["_built_bounds"] = user("b")
    elif st == "user":
        o.f["bounds"] = user("b")
    elif st == "userafter":
        o.f["bounds"], o.f["_built_bounds"] = user("b"), user("c")
    return [o], {}


def crab(eng, cls="OptimizerCrab"):
    o, d = optimizer(eng, cls)
    n, m = d.f["_num_tslots"], d.f["_num_ctrls"]
    I = z3.IntSort()
    nv = z3.Function("nv", I, I)
    eng.nonneg_fns = ("nv",)
    pv = z3.Function("pv", I, I, z3.RealSort())
    pul = z3.Function("PULSE", I, I, I, I, z3.RealSort())
    G = obj(eng, "optimconfig", "OptimConfig", start=vec(eng, "g_start0", m, k="i"), len=vec(eng, "g_len0", m, k="i"))
    o.f["pulse_generator"] = Seq(eng, "list", shape=(m,), base=lambda ix: Opq("pgen", ix[0])) if not S.is_conc(m) else \
        Seq(eng, "list", items=[Opq("pgen", j) for j in range(m)])
    x = vec(eng, "x", eng.ssum(0, m, lambda j: Sc("i", nv(S.zi(j))), "i"))

    def num(e, r):
        if r.tag[0] != "pgen":
            return NotImplemented
        v = Sc("i", nv(S.zi(r.tag[1])))
        e.fact(v.e >= 1)
        return v

    def given(e, r, a, k):
        v = a[0]
        root = v
        while isinstance(root, Seq) and root.view is not None and len(root.view[0].f["shape"]) == 1 and root is not x:
            root = root.view[0]
        if root is not x and not (isinstance(root, Seq) and eq_val(e, root, x)[0] == "proved"):
            raise Unsupported("variables given to a pulse generator are not a slice of the optimisation variables")
        st, w = (0,), v
        while w is not root:
            st, w = w.view[1](st), w.view[0]
        st = st[0]
        e.sset_at(G.f["start"], (r.tag[1],), st)
        e.sset_at(G.f["len"], (r.tag[1],), v.f["shape"][0])

    def pulse(e, r, a, k):
        j = r.tag[1]
        s0, l0 = e.sget(G.f["start"], (j,)), e.sget(G.f["len"], (j,))
        return Seq(e, "ndarray", shape=(n,), base=lambda ix: Sc("r", pul(S.zi(j), S.zi(ix[0]), S.zi(s0), S.zi(l0))), dtype="float")

    def vals(e, r, a, k):
        j = r.tag[1]
        return Seq(e, "ndarray", shape=(num(e, r),), base=lambda ix: Sc("r", pv(S.zi(j), S.zi(ix[0]))), dtype="float")
    eng.opqattrs["num_optim_vars"] = num
    eng.opqhooks.update(set_optim_var_vals=given, gen_pulse=pulse, get_optim_var_vals=vals)
    eng.specfns["GIVEN_START"] = lambda e, a, k: e.sget(G.f["start"], (a[0],))
    eng.specfns["GIVEN_LEN"] = lambda e, a, k: e.sget(G.f["len"], (a[0],))
    eng.specfns["PULSE"] = lambda e, a, k: Sc("r", pul(*[S.zi(v) for v in a]))
    return o, d, x


def s_crab_vals(eng):
    o, d, x = crab(eng)
    return [o], {}


def s_crab_amps(eng):
    o, d, x = crab(eng)
    eng.shared.append(x)
    return [o, x], {}


O = "optimizer.Optimizer."
CONTRACTS = [
    Contract(O + "_get_optim_var_vals", s_vals, "optim:get_vals", ["optim:ens_get_vals"], ["C08"]),
    Contract(O + "_get_ctrl_amps", s_amps, "optim:get_amps", ["optim:ens_get_amps"], ["C08"]),
    Contract(O + "_build_bounds_list", s_bounds, "optim:build_bounds", ["optim:ens_bounds"], ["C08"]),
    Contract(O + "_init_bounds", s_ibounds, None, ["optim:ens_init_bounds"], ["C08"], old="optim:old_bounds"),
    Contract("optimizer.OptimizerCrab._get_optim_var_vals", s_crab_vals, None, ["optim:ens_crab_vals"], ["C08"]),
    Contract("optimizer.OptimizerCrab._get_ctrl_amps", s_crab_amps, None, ["optim:ens_crab_amps"], ["C08"]),
]
