"""C14, C15: GRAPE."""
import os
import re
import z3
from .dynstate import *
from pyvc import lib
from pyvc.vc import Contract
from pyvc.core import SData, has_const, vkey
from pyvc.interp import LibFn
from pyvc.loops import map_closure, map_closure_nd


def common(eng):
    fresh_roots(eng)
    eng.specfns["TRACE"] = lambda e, a, k: lib.mat_trace(e, lib.matmul(e, a[0], a[1]))
    eng.specfns["DAG"] = lambda e, a, k: lib.dag_of(e, a[0])

    def store(e, a, k):
        s, g, f = a
        shp = s.f["shape"]
        gf, vf = (map_closure_nd(e, shp, lambda ix, h=h: e.call(h, list(ix))) for h in (g, f))
        e.sset(s, gf, vf)

    def contents(e, a, k):
        snap = e.snapshot(a[0])
        return LibFn("contents", lambda e, a, k: snap(tuple(a)))
    eng.specfns["CONTENTS"] = contents
    eng.specfns["ELT"] = lambda e, a, k: e.sget(a[0], (a[1],))
    eng.specfns["STORE"] = store
    return nat(eng, "N")


def s_overlap(kind):
    def s(eng):
        N = common(eng)
        return [mat(eng, "A", kind=kind, shape=(N, N)), mat(eng, "B", kind=kind, shape=(N, N))], {}
    return s


def neg(eng, n):
    x = real(eng, n)
    eng.assume(S.cmp("<", x, 0))
    return x


def u3(eng, R, J, M, name="U"):
    f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
    return Seq(eng, "ndarray", shape=(R, J, M), base=lambda ix: Sc("r", f(*[S.zi(x) for x in ix])), dtype="float")


def s_inner(sens):
    return lambda eng: inner(eng, sens)


def inner(eng, sens):
    N = common(eng)
    R, J, M = nat(eng, "R", 2), nat(eng, "J"), nat(eng, "M", 2)
    r = nat(eng, "r", 0)
    eng.assume(S.cmp("<", r, S.sub(R, 1)))
    u = u3(eng, R, J, M)
    shp = (N, N)
    if ORD is not None:
        sens, lim, a, b = ORD
        a = pos(eng, "alpha") if a else Fraction(0)
        b = pos(eng, "beta") if b else Fraction(0)
        lim, sens = bool(lim), bool(sens)
    else:
        lim = flag(eng)
        a = opt(eng, Fraction(0), lambda: pos(eng, "alpha"))
        b = opt(eng, Fraction(0), lambda: pos(eng, "beta"), lambda: neg(eng, "beta"))
    lo, hi = real(eng, "lo"), real(eng, "hi")
    eng.assume(S.cmp("<=", lo, hi))
    return [mat(eng, "UT", shape=shp), u, r, J, M, matlist(eng, "B", S.sub(M, 1), shape=shp), matlist(eng, "F", S.sub(M, 1), shape=shp),
            matlist(eng, "H", J, shape=shp), real(eng, "dt"), real(eng, "eps"), a, b, sens, lim, lo, hi], {}


def s_unitary(sens, case, lim):
    def s(eng):
        return unitary(eng, sens, case, lim)
    return s


# (eps given, use_interp, u_start given): every pair of values occurs; all
# combinations in the thorough tier.  The remaining options are combined freely.
CASES = [(1, 0, 0), (0, 0, 1), (1, 1, 1), (0, 1, 0)]
if os.environ.get("VERIF_TIER") == "thorough":
    CASES += [(0, 0, 0), (1, 0, 1), (0, 1, 1), (1, 1, 0)]


def unitary(eng, sens, case, lims):
    N = common(eng)
    R, J, M = nat(eng, "R", 2), nat(eng, "J"), nat(eng, "M", 2)
    shp = (N, N)
    if ORD is not None:
        sens, lim, a, b, st, ip, ep = ORD
        a = pos(eng, "alpha") if a else None
        b = pos(eng, "beta") if b else None
        ip, sens = bool(ip), bool(sens)
    else:
        ep, ip, st = case
        ip = bool(ip)
        lim = opt(eng, *lims)
        plain = lim in (2, 3)
        a = None if plain else opt(eng, None, lambda: pos(eng, "alpha"))
        b = None if plain else opt(eng, None, lambda: pos(eng, "beta"))
    t = z3.Function("times", z3.IntSort(), z3.RealSort())
    times = Seq(eng, "list", shape=(M,), base=lambda ix: Sc("r", t(S.zi(ix[0]))), dtype="float")
    eng.assume(S.cmp(">", eng.sget(times, (S.sub(M, 1),)), 0))
    lo, hi = real(eng, "lo"), real(eng, "hi")
    eng.assume(S.cmp("<=", lo, hi))
    limits = [None, Seq(eng, "list", items=[lo, hi]), Seq(eng, "list", items=[]), Seq(eng, "list", items=[lo, hi, hi])][lim]
    start = None
    if st:
        J0 = nat(eng, "J0", 0)
        eng.assume(S.cmp("<=", J0, J))
        start = arr2(eng, "start", J0, M)
    U, H0 = mat(eng, "UT", kind="qobj", shape=shp, dims=Opq("dims", "T")), mat(eng, "H0", kind="qobj", shape=shp)
    ops = matlist(eng, "H", J, kind="qobj", shape=shp)
    eps = pos(eng, "eps") if ep else None
    f = z3.Function("UV", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
    raw = lambda *ix: Sc("r", f(*[S.zi(x) for x in ix]))
    sp = eng.module("spec_grape")
    done = {}

    def val(ix):
        v = raw(*ix)
        k = v.e.sexpr()
        # instances for the arbitrary cells of comparisons only
        if k in done or any(isinstance(x, Sc) and not x.e.decl().name().startswith("ix!") and re.search(r"!mb|it!", x.e.sexpr()) for x in ix):
            return v
        done[k] = v
        r, j, m = ix
        first = eng.run_func(eng.module_get(sp, "first_row"), [start, limits, j, m], {})
        row = LibFn("row", lambda e, a, k: raw(S.sub(r, 1), *a))
        nxt = eng.run_func(eng.module_get(sp, "next_row"), [row, j, m, U, times, eps, limits, a, b, sens], {})
        eng.axiom(z3.Implies(S.zi(r) == 0, S.zr(v) == S.zr(first)))
        eng.axiom(z3.Implies(S.zi(r) >= 1, S.zr(v) == S.zr(nxt)))
        return v
    sf = eng.specfns
    sf["PULSES"] = lambda e, a, k: val(a)
    sf["RAW"] = lambda e, a, k: raw(*a)
    sf["H0_"] = lambda e, a, k: H0
    sf["CTRLS"] = lambda e, a, k: J
    sf["CTRL"] = lambda e, a, k: e.sget(ops, (a[0],))
    sf["START"] = lambda e, a, k: e.sget(start, tuple(a))
    sf["HASDIMS"] = lambda e, a, k: a[0].kind == "qobj" and (a[0].dims is None or vkey(a[0].dims) == vkey(U.dims))
    eng.seqtemplates.append((lambda s: s.kind == "ndarray" and len(s.f["shape"]) == 3 and s.f["dtype"] == "float",
                             lambda cur, t: SData(lambda ix: S.ite(S.cmp("<=", ix[0], t), val(ix), eng.dget(cur, ix)))))
    sf["PI"] = lambda e, a, k: lib.PI

    def product(e, a, k):
        n, fn = a
        p = lib.probe(e, lambda ix: e.call(fn, [ix[0]]), (n,))
        cl = map_closure(e, n, lambda t: e.call(fn, [t]))
        return MatObj(e, MT.mprod(0, n, lambda t: cl(t).f["lc"]), p.kind, p.shape, p.dims)
    sf["PRODUCT"] = product

    def interp(e, a, k):
        y = a[1]
        snap = e.snapshot(y)
        return Opq("fnval", "interp1d", Seq(e, "ndarray", shape=y.f["shape"], base=lambda ix: snap(ix), dtype="float"))
    eng.libhooks["scipy.interpolate.interp1d"] = interp

    def at_time(e, tag, a, k):
        # an interpolating function takes the given value at each given time (assumed of SciPy)
        x = a[0]
        if isinstance(x, Sc) and z3.is_app(x.e) and x.e.decl().eq(t):
            i = S.norm(Sc("i", x.e.arg(0)))
            return e.sget(tag[2], (i,))
        raise Unsupported("value of an interpolating function between the given times")
    eng.opqhooks["fnval:interp1d"] = at_time

    def eye(e, a, k):
        if not (isinstance(a[0], Opq) and a[0].key() == Opq("getitem", Opq("dims", "T"), 0).key()):
            raise Unsupported("identity of other dimensions %r" % (a[0],))
        return MatObj(e, MT.ONE, "qobj", shp, U.dims)
    eng.libhooks["qutip.qeye"] = eye
    eng.libhooks["warnings.warn"] = lambda e, a, k: None
    eng.libhooks["qutip.ui.progressbar.BaseProgressBar"] = lambda e, a, k: Opq("obj", "progress")
    eng.opqhooks.update(update=lambda e, r, a, k: None, finished=lambda e, r, a, k: None)
    pb = None
    return [U, H0, ops, R, times, eps, start, limits, "linear", ip, a, b, sens, pb], {}


ORD = None
G = "grape."
P = ["C14"]
CONTRACTS = [
    Contract("cy_grape.cy_overlap", s_overlap("nd"), "grape:data_overlap", [], P),
    Contract(G + "_overlap", s_overlap("qobj"), "grape:overlap", [], P),
] + [
    Contract("cy_grape.cy_grape_inner", s_inner(sens), "grape:inner", [], P, weight=3, name="cy_grape_inner[%s]" % t)
    for sens, t in ((True, "sensitive"), (False, "insensitive"))
] + [
    Contract(G + f, s_unitary(sens, case, lims), None, ["grape:unitary"], ["C14", "C15"], checkexc=None, weight=9,
             name="%s[%s,eps%d,interp%d,start%d,%s]" % (f, "sensitive" if sens else "insensitive", *case, t))
    for f in ("grape_unitary", "cy_grape_unitary") for sens in (True, False) for case in CASES
    for lims, t in (((0, 2, 3), "free"), ((1,), "limits"))
]
