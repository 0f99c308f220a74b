"""Symbolic pre-states (the preconditions of the contracts)."""
import z3
from fractions import Fraction
from . import scal as S, mat as MT, lib
from .scal import Sc, Cx, Unsupported
from .core import Obj, Seq, MatObj, PyDict, Heap, Opq, OStr, Poison, MISSING


def nat(eng, name, lo=1):
    """symbolic int >= lo (or enumerated up to the bound in bounded mode)"""
    if eng.bound is not None:
        return eng.choose([(True, i) for i in range(lo, max(lo, eng.bound) + 1)])
    v = Sc("i", z3.Int(name))
    eng.assume(S.cmp(">=", v, lo))
    return v


def real(eng, name):
    return Sc("r", z3.Real(name))


def pos(eng, name):
    v = real(eng, name)
    eng.assume(S.cmp(">", v, 0))
    return v


def opt(eng, *vals):
    """finite choice of values (thunks are called)"""
    v = eng.choose([(True, x) for x in vals])
    return v() if callable(v) and not isinstance(v, (Heap, Sc)) and type(v).__name__ == "function" else v


def flag(eng):
    return eng.choose([(True, True), (True, False)])


def sbool(eng, name):
    return Sc("b", z3.Bool(name))


def vec(eng, name, n, kind="ndarray", k="r", fact=None):
    f = z3.Function(name, z3.IntSort(), {"r": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[k])

    def base(ix):
        v = Sc(k, f(S.zi(ix[0])))
        if fact is not None:
            eng.axiom(S.zb(fact(v)))
        return v
    if S.is_conc(n) and kind != "ndarray":
        return Seq(eng, kind, items=[base((i,)) for i in range(int(n))], dtype=lib.dtype_of_kind(k))
    return Seq(eng, kind, shape=(n,), base=base, dtype=lib.dtype_of_kind(k))


def arr2(eng, name, n, m, k="r", fact=None):
    f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.RealSort())

    def base(ix):
        v = Sc(k, f(S.zi(ix[0]), S.zi(ix[1])))
        if fact is not None:
            eng.axiom(S.zb(fact(v)))
        return v
    return Seq(eng, "ndarray", shape=(n, m), base=base, dtype="float")


def mat(eng, name, *args, kind="nd", shape=None, dims=None):
    return MatObj(eng, MT.atom(name, *args), kind, shape, dims)


def matlist(eng, name, n, kind="nd", shape=None, cont="list", off=0, extra=()):
    if S.is_conc(n) and cont == "list":
        return Seq(eng, cont, items=[mat(eng, name, *extra, S.add(off, i), kind=kind, shape=shape) for i in range(int(n))])
    return Seq(eng, cont, shape=(n,), base=lambda ix: mat(eng, name, *extra, ix[0], kind=kind, shape=shape),
               dtype="object" if cont == "ndarray" else None)


def matgrid(eng, name, n, m, kind="nd", shape=None, extra=()):
    return Seq(eng, "ndarray", shape=(n, m), base=lambda ix: mat(eng, name, *extra, *ix, kind=kind, shape=shape), dtype="object")


def obj(eng, mod, cls, open_=True, **attrs):
    o = Obj(eng, eng.get_class(mod, cls), open_)
    o.f.update(attrs)
    eng.roots.append(o)
    return o


def fresh_roots(eng):
    eng.roots = []
    eng.shared = []
    eng.defs = eng.base_defs()
    eng.templates = []
    eng.seqtemplates = []
