"""Model of the Python builtins, numpy, scipy, qutip and stdlib functions the
code under verification uses.  Everything here is part of the trusted base;
each entry is an assumed contract of a dependency."""
import ast
import os.path
import z3
import numpy as np
from fractions import Fraction
from . import scal as S, mat as MT
from .scal import Sc, Cx, Unsupported, INF
from .core import (Obj, Seq, MatObj, PyDict, Heap, SData, Opq, OStr, Poison, MISSING, PyExc, Pruned)


def _I():
    from . import interp
    return interp


class MaskSel:
    """a[mask] for a boolean mask (selection kept symbolic)"""

    def __init__(self, fn, mask):
        self.fn, self.mask = fn, mask


class NanV:
    """IEEE nan: compares unequal to everything, isnan is True"""

    def __repr__(self):
        return "nan"


NAN = NanV()
TYPES = {}
MODEL_USED = set()


def tv(name):
    if name not in TYPES:
        TYPES[name] = _I().TypeV(name)
    return TYPES[name]


# ---------------------------------------------------------------- scalars
_uf = {}


def ufun(name, *args, res="r"):
    """uninterpreted real function"""
    sorts = [z3.RealSort()] * len(args)
    rs = {"r": z3.RealSort(), "b": z3.BoolSort(), "i": z3.IntSort()}[res]
    k = (name, len(args), res)
    if k not in _uf:
        _uf[k] = z3.Function(name, *sorts, rs)
    return S.mk(res, _uf[k](*[S.zr(a) for a in args]))


def s_sqrt(eng, x):
    if isinstance(x, Cx):
        raise Unsupported("complex sqrt")
    if S.is_conc(x) and not S.is_inf(x):
        import math
        f = Fraction(x)
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return Fraction(n, d)
    r = ufun("sqrt", x)
    if isinstance(r, Sc):
        eng.axiom(z3.Implies(S.zr(x) >= 0, z3.And(r.e >= 0, r.e * r.e == S.zr(x))))
    return r


def s_exp(eng, x):
    if isinstance(x, Cx):
        if S.is_conc(x.re) and x.re == 0 and S.is_conc(x.im) and x.im == 0:
            return Cx(Fraction(1), Fraction(0))
        return Cx(ufun("cexp_re", x.re, x.im), ufun("cexp_im", x.re, x.im))
    if S.is_conc(x) and x == 0:
        return Fraction(1)
    r = ufun("exp", x)
    eng.axiom(r.e > 0)
    return r


def s_abs(eng, x):
    if isinstance(x, Cx):
        if S.is_conc(x.im) and x.im == 0:
            return s_abs(eng, x.re)
        r = s_sqrt(eng, S.add(S.mul(x.re, x.re), S.mul(x.im, x.im)))
        if isinstance(r, Sc):
            eng.fact(r.e >= 0)
            eng.fact(r.e * r.e == S.zr(x.re) * S.zr(x.re) + S.zr(x.im) * S.zr(x.im))
        return r
    if S.is_conc(x):
        return abs(x)
    return S.ite(S.cmp(">=", x, 0), x, S.neg(x))


def s_trig(name):
    def f(eng, x):
        if S.is_conc(x) and x == 0:
            return Fraction(1 if name == "cos" else 0)
        r = ufun(name, x)
        eng.axiom(z3.And(r.e <= 1, r.e >= -1))
        return r
    return f


def s_floor(eng, x):
    if S.is_conc(x):
        import math
        return Fraction(math.floor(x))
    return S.mk("r", z3.ToReal(z3.ToInt(S.zr(x))))


def s_ceil(eng, x):
    return S.neg(s_floor(eng, S.neg(x)))


def s_sign(eng, x):
    return S.to_real(S.ite(S.cmp(">", x, 0), 1, S.ite(S.cmp("<", x, 0), -1, 0)))


PI = Sc("r", z3.Real("pi"))


def s_angle(eng, x):
    return ufun("angle", S.re(x), S.im(x))


def s_isnan(eng, x):
    if x is NAN:
        return True
    if S.is_conc(x):
        return False
    if isinstance(x, Cx):
        return False
    if isinstance(x, Sc):
        return False if not getattr(eng, "nan_possible", False) else ufun("isnan", x, res="b")
    raise Unsupported("isnan of %r" % (x,))


def s_isinf(eng, x):
    return S.is_inf(x)


def s_int(eng, x):
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, Sc):
        if x.kind == "i":
            return x
        if x.kind == "b":
            return S.mk("i", S.zi(x))
        f = z3.ToInt(x.e)
        return S.mk("i", z3.If(x.e >= 0, f, -z3.ToInt(-x.e)))
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            eng.raise_("ValueError", x)
    if isinstance(x, Opq):
        return Opq("int", x)
    raise Unsupported("int(%r)" % (x,))


def s_conj(eng, x):
    return S.conj(x)


# ---------------------------------------------------------------- arrays
def is_arr(v):
    return isinstance(v, Seq) and v.kind == "ndarray" or isinstance(v, MatObj) and v.kind == "nd"


def shape_of(v):
    if isinstance(v, Seq):
        return v.f["shape"]
    if isinstance(v, MatObj):
        if v.shape is None:
            return (Sc("i", z3.Int("dimI")),) * 2
        return v.shape
    return ()


def elem(eng, v):
    """element closure of the present contents"""
    if isinstance(v, MatObj):
        lc = v.f["lc"]
        return lambda ix: MT.elt(lc, *ix)
    if isinstance(v, Seq):
        if v.kind != "ndarray" and v.f["items"] is not None and v.f["items"] and isinstance(v.f["items"][0], Seq):
            v = to_array(eng, v)
        return eng.snapshot(v)
    return lambda ix: v


def dtype_of_kind(k):
    return {"r": "float", "i": "int", "b": "bool", "c": "complex"}.get(k, "object")


def probe_dtype(eng, fn, shape):
    vs = [z3.Int("!pr%d" % i) for i in range(len(shape))]
    ix = tuple(Sc("i", v) for v in vs)
    try:
        v = eng.scoped(vs, Sc("b", z3.And(*[z3.And(x.e >= 0, x.e < S.zi(d)) for x, d in zip(ix, shape)])), lambda: fn(ix))
    except (Unsupported, PyExc, Pruned):
        return None
    if S.is_num(v):
        return dtype_of_kind(S.kind(v))
    return "object"


def probe(eng, fn, shape):
    vs = [z3.Int("!pr%d" % i) for i in range(len(shape))]
    ix = tuple(Sc("i", v) for v in vs)
    try:
        return eng.scoped(vs, Sc("b", z3.And(*[z3.And(x.e >= 0, x.e < S.zi(d)) for x, d in zip(ix, shape)])), lambda: fn(ix))
    except Pruned:
        return Fraction(0)


def new_arr(eng, shape, fn, dtype=None):
    if dtype is None:
        dtype = probe_dtype(eng, fn, shape)
    return Seq(eng, "ndarray", shape=tuple(shape), base=fn, dtype=dtype)


def bshape(eng, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        d = 1
        for s in shapes:
            i = k - (nd - len(s))
            if i < 0:
                continue
            x = s[i]
            if S.is_conc(x) and x == 1:
                continue
            if S.is_conc(d) and d == 1:
                d = x
                continue
            if eng.valid(S.cmp("==", d, x)):
                continue
            if eng.branch(S.cmp("==", d, x)):
                continue
            if eng.branch(S.cmp("==", d, 1)):
                d = x
                continue
            if eng.branch(S.cmp("==", x, 1)):
                continue
            eng.raise_("ValueError", "operands could not be broadcast")
        out.append(d)
    return tuple(out)


def ew(eng, fn, args):
    """elementwise application with broadcasting"""
    if all(not isinstance(a, (Seq, MatObj)) for a in args):
        return fn(*args)
    args = [to_array(eng, a) if isinstance(a, Seq) and a.kind != "ndarray" else a for a in args]
    shapes = [shape_of(a) for a in args if isinstance(a, (Seq, MatObj))]
    shp = bshape(eng, shapes)
    gets = []
    for a in args:
        if isinstance(a, (Seq, MatObj)):
            g = elem(eng, a)
            s = shape_of(a)
            off = len(shp) - len(s)
            bc = []
            for k, d in enumerate(s):
                one = S.is_conc(d) and d == 1
                same = S.is_conc(shp[k + off]) and shp[k + off] == 1
                bc.append(one and not same)
            gets.append(lambda ix, g=g, off=off, bc=bc: g(tuple(0 if b else x for x, b in zip(ix[off:], bc))))
        else:
            gets.append(lambda ix, a=a: a)
    if len(shp) == 1 and S.is_conc(shp[0]) and shp[0] <= 16:
        return Seq(eng, "ndarray", items=[fn(*[g((i,)) for g in gets]) for i in range(int(shp[0]))],
                   dtype=None)
    return new_arr(eng, shp, lambda ix: fn(*[g(ix) for g in gets]))


def to_array(eng, v, dtype=None):
    """np.array(v): fresh copy"""
    if isinstance(v, Seq):
        if v.kind == "ndarray":
            return new_arr(eng, v.f["shape"], eng.snapshot(v), dtype or v.f["dtype"])
        if v.f["items"] is not None:
            items = v.f["items"]
            if items and all(isinstance(x, Seq) for x in items):
                subs = [to_array(eng, x) for x in items]
                n2 = subs[0].f["shape"]
                for s in subs[1:]:
                    if len(s.f["shape"]) != len(n2) or not all(eng.valid(S.cmp("==", a, b)) for a, b in zip(s.f["shape"], n2)):
                        raise Unsupported("ragged array")
                snaps = [eng.snapshot(s) for s in subs]

                def fn(ix):
                    i = ix[0]
                    if S.is_conc(i):
                        return snaps[int(i)](ix[1:])
                    vs = [s(ix[1:]) for s in snaps]
                    r = vs[-1]
                    for t in range(len(vs) - 2, -1, -1):
                        r = S.ite(S.cmp("==", i, t), vs[t], r)
                    return r
                return new_arr(eng, (len(items),) + tuple(n2), fn, dtype)
            if dtype in ("float", "complex"):
                items = [S.to_real(x) if S.is_num(x) and not isinstance(x, Cx) else x for x in items]
            if items and all(isinstance(x, (MatObj, Obj)) for x in items):
                return Seq(eng, "ndarray", items=items, dtype="object")
            dt = dtype
            if dt is None and items and all(S.is_num(x) for x in items):
                ks = {S.kind(x) for x in items}
                dt = "complex" if "c" in ks else "float" if "r" in ks else "int" if "i" in ks else "bool"
            return Seq(eng, "ndarray", items=items, dtype=dt)
        snap = eng.snapshot(v)
        x = probe_dtype(eng, snap, v.f["shape"])
        if x == "object" and len(v.f["shape"]) == 1:
            try:
                e = snap((Sc("i", z3.Int("!pr0")),))
                if isinstance(e, Seq):
                    shp = v.f["shape"] + e.f["shape"]
                    return new_arr(eng, shp, lambda ix: eng.sget(snap(ix[:1]), ix[1:]), dtype)
            except PyExc:
                pass
        return new_arr(eng, v.f["shape"], snap, dtype or x)
    if isinstance(v, MatObj):
        return MatObj(eng, v.f["lc"], "nd", v.shape, v.dims)
    if S.is_num(v):
        return v
    raise Unsupported("np.array(%r)" % (v,))


def dims_arg(eng, s):
    if isinstance(s, Seq):
        if s.f["items"] is not None:
            return tuple(s.f["items"])
        raise Unsupported("symbolic rank")
    if isinstance(s, tuple):
        return s
    return (s,)


def dtype_arg(eng, d, default="float"):
    if d is None:
        return default
    if isinstance(d, str):
        return {"f": "float", "d": "float", "float": "float", "float64": "float", "complex": "complex", "int": "int",
                "O": "object", "object": "object", "bool": "bool"}.get(d, default)
    nm = getattr(d, "name", None)
    return {"float": "float", "complex": "complex", "int": "int", "bool": "bool", "object": "object",
            "numpy.float64": "float", "numpy.complex128": "complex", "numpy.int64": "int", "numpy.float32": "float"}.get(nm, default)


def getkw(args, kw, names, defaults):
    out = []
    for i, n in enumerate(names):
        if i < len(args):
            out.append(args[i])
        elif n in kw:
            out.append(kw[n])
        else:
            out.append(defaults[i] if i < len(defaults) else None)
    return out


def np_filled(val):
    def f(eng, args, kw):
        shp, dt = getkw(args, kw, ["shape", "dtype"], [None, None])
        d = dtype_arg(eng, dt)
        c = {"float": Fraction(val), "int": val, "complex": Cx(Fraction(val), Fraction(0)), "bool": bool(val),
             "object": val}[d]
        return Seq(eng, "ndarray", shape=dims_arg(eng, shp), base=lambda ix: c, dtype=d)
    return f


def np_empty(eng, args, kw):
    shp, dt = getkw(args, kw, ["shape", "dtype"], [None, None])
    d = dtype_arg(eng, dt)
    shp = dims_arg(eng, shp)
    if d == "object":
        return Seq(eng, "ndarray", shape=shp, base=lambda ix: None, dtype=d)
    k = {"float": "r", "int": "i", "complex": "c", "bool": "b"}[d]
    fn = eng.fresh_fn(k, len(shp), "empty")
    return Seq(eng, "ndarray", shape=shp, base=lambda ix: fn(*ix), dtype=d)


def np_full(eng, args, kw):
    shp, v = args[:2]
    return new_arr(eng, dims_arg(eng, shp), lambda ix: v)


def np_like(val):
    def f(eng, args, kw):
        a = args[0]
        if isinstance(a, MatObj):
            if val == 0:
                return MatObj(eng, MT.ZERO, "nd", a.shape)
            raise Unsupported("ones_like matrix")
        if isinstance(a, Seq):
            a = to_array(eng, a) if a.kind != "ndarray" else a
            d = a.f["dtype"]
            c = {"int": val, "bool": bool(val), "complex": Cx(Fraction(val), Fraction(0))}.get(d, Fraction(val))
            if val is None:
                fn = eng.fresh_fn("r", len(a.f["shape"]), "empty")
                return new_arr(eng, a.f["shape"], lambda ix: fn(*ix))
            return new_arr(eng, a.f["shape"], lambda ix: c, d)
        raise Unsupported("like")
    return f


def np_array(eng, args, kw):
    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
    return to_array(eng, args[0], dtype_arg(eng, dt, None) if dt is not None else None)


def np_asarray(eng, args, kw):
    if is_arr(args[0]):
        return args[0]
    return np_array(eng, args, kw)


def np_eye(eng, args, kw):
    n = args[0]
    return MatObj(eng, MT.ONE, "nd", (n, n))


def np_arange(eng, args, kw):
    if len(args) == 1:
        a, b, st = 0, args[0], 1
    else:
        a, b = args[:2]
        st = args[2] if len(args) > 2 else 1
    if S.is_conc(st) and st == 1 and S.kind(a) in "ib" and S.kind(b) in "ib":
        n = S.sub(b, a)
        n = S.ite(S.cmp(">=", n, 0), n, 0)
        return new_arr(eng, (n,), lambda ix: S.add(a, ix[0]))
    raise Unsupported("np.arange")


def np_linspace(eng, args, kw):
    a, b = args[:2]
    n = args[2] if len(args) > 2 else kw.get("num", 50)
    if "endpoint" in kw and kw["endpoint"] is False:
        return new_arr(eng, (n,), lambda ix: S.add(S.to_real(a), S.div(S.mul(S.sub(b, a), ix[0]), n)))
    if S.is_conc(n) and n == 1:
        return Seq(eng, "ndarray", items=[S.to_real(a)], dtype="float")
    return new_arr(eng, (n,), lambda ix: S.add(S.to_real(a), S.mul(S.sub(b, a), S.div(ix[0], S.sub(n, 1)))))


def np_map(fn):
    def f(eng, args, kw):
        x = args[0]
        if isinstance(x, Opq):
            return Opq("npfn", fn.__name__, x)
        if isinstance(x, MatObj) and fn in (s_conj,):
            return MatObj(eng, MT.conj(x.f["lc"]), x.kind, x.shape)
        if x is None:
            eng.raise_("TypeError", "bad operand")
        if isinstance(x, MaskSel):
            return MaskSel(lambda ix: fn(eng, x.fn(ix)), x.mask)
        if isinstance(x, NanV):
            return True if fn is s_isnan else NAN if fn is not s_isinf else False
        return ew(eng, lambda v: fn(eng, v), [x])
    return f


def s_real(eng, x):
    return S.re(x)


def s_imag(eng, x):
    return S.im(x) if isinstance(x, Cx) else Fraction(0)


def np_mat_or_map(fn, matfn):
    def f(eng, args, kw):
        if isinstance(args[0], MatObj):
            return matfn(eng, args[0])
        return np_map(fn)(eng, args, kw)
    return f


def _bound(ix, shp):
    return z3.And(*[z3.And(i.e >= 0, i.e < S.zi(d)) for i, d in zip(ix, shp)])


def quant(eng, v, ex):
    v = to_array(eng, v) if isinstance(v, Seq) and v.kind != "ndarray" else v
    if isinstance(v, (bool, Sc)):
        return v if isinstance(v, bool) or v.kind == "b" else S.cmp("!=", v, 0)
    shp = shape_of(v)
    if isinstance(v, Seq) and v.f["items"] is not None:
        r = False if ex else True
        for x in v.f["items"]:
            c = x if isinstance(x, bool) or (isinstance(x, Sc) and x.kind == "b") else S.cmp("!=", x, 0)
            r = S.or_(r, c) if ex else S.and_(r, c)
        return r
    ix = tuple(Sc("i", z3.FreshInt("q")) for _ in shp)
    ge = elem(eng, v)
    try:
        x = eng.scoped([i.e for i in ix], Sc("b", _bound(ix, shp)), lambda: ge(ix))
    except Pruned:
        return not ex
    if not S.is_num(x):
        raise Unsupported("any/all over objects")
    c = x if isinstance(x, bool) or (isinstance(x, Sc) and x.kind == "b") else S.cmp("!=", x, 0)
    b = _bound(ix, shp)
    vs = [i.e for i in ix]
    if ex:
        return Sc("b", z3.Exists(vs, z3.And(b, S.zb(c))))
    return Sc("b", z3.ForAll(vs, z3.Implies(b, S.zb(c))))


def np_quant(ex):
    def f(eng, args, kw):
        v, ax = getkw(args, kw, ["a", "axis"], [None, None])
        if ax is None:
            return quant(eng, v, ex)
        v = to_array(eng, v) if isinstance(v, Seq) else v
        shp = shape_of(v)
        if len(shp) != 2 or ax not in (0, 1, -1):
            raise Unsupported("any/all axis")
        g = elem(eng, v)
        n, m = (shp[0], shp[1]) if ax != 0 else (shp[1], shp[0])
        return new_arr(eng, (n,), lambda ix: quant(eng, new_arr(
            eng, (m,), lambda jx: g((ix[0], jx[0]) if ax != 0 else (jx[0], ix[0]))), ex))
    return f


def sum_all(eng, v):
    if isinstance(v, MatObj):
        n, m = shape_of(v)
        g = elem(eng, v)
        return eng.ssum(0, n, lambda i: eng.ssum(0, m, lambda j: g((i, j))))
    if v.f["items"] is not None and v.view is None:
        r = 0
        for x in v.f["items"]:
            r = S.add(r, x) if S.is_num(x) and S.is_num(r) else binop(eng, "Add", r, x)
        return r
    g = eng.snapshot(v)
    shp = v.f["shape"]

    def rec(k, ix):
        if k == len(shp):
            return g(ix)
        return eng.ssum(0, shp[k], lambda t: rec(k + 1, ix + (t,)))
    pr = probe(eng, g, shp)
    if isinstance(pr, MatObj):
        if len(shp) != 1:
            raise Unsupported("matrix sum rank")
        return MatObj(eng, MT.msum(0, shp[0], lambda t: g((t,)).f["lc"]), pr.kind, pr.shape, pr.dims)
    if isinstance(pr, (bool,)) or isinstance(pr, Sc) and pr.kind == "b":
        def rec2(k, ix):
            if k == len(shp):
                return S.ite(g(ix), 1, 0)
            return eng.ssum(0, shp[k], lambda t: rec2(k + 1, ix + (t,)), "i")
        return rec2(0, ())
    return rec(0, ())


def np_sum(eng, args, kw):
    v = args[0]
    ax = kw.get("axis", args[1] if len(args) > 1 else None)
    if isinstance(v, Seq) and v.kind != "ndarray":
        v = to_array(eng, v)
    if S.is_num(v):
        return v
    if ax is None:
        return sum_all(eng, v)
    shp = shape_of(v)
    if len(shp) == 2:
        g = elem(eng, v)
        if ax == 0:
            return new_arr(eng, (shp[1],), lambda ix: eng.ssum(0, shp[0], lambda t: g((t, ix[0]))))
        if ax in (1, -1):
            return new_arr(eng, (shp[0],), lambda ix: eng.ssum(0, shp[1], lambda t: g((ix[0], t))))
    if len(shp) == 1 and ax in (0, -1):
        return sum_all(eng, v)
    raise Unsupported("np.sum axis")


def np_cumsum(eng, args, kw):
    v = to_array(eng, args[0])
    g = eng.snapshot(v)
    return new_arr(eng, v.f["shape"], lambda ix: eng.ssum(0, S.add(ix[0], 1), lambda t: g((t,))))


_ext = {}


def extremum(eng, v, mx):
    """max/min over all entries: defined by its two characteristic facts"""
    v = to_array(eng, v) if isinstance(v, Seq) and v.kind != "ndarray" else v
    if isinstance(v, Seq) and v.f["items"] is not None:
        r = None
        for x in v.f["items"]:
            r = x if r is None else S.ite(S.cmp(">" if mx else "<", x, r), x, r)
        if r is None:
            eng.raise_("ValueError", "zero-size array")
        return r
    shp = shape_of(v)
    g = elem(eng, v)
    sz = S.and_(*[S.cmp(">", d, 0) for d in shp]) if len(shp) == 2 else S.cmp(">", shp[0], 0)
    if not eng.branch(sz):
        eng.raise_("ValueError", "zero-size array to reduction operation")
    ix = tuple(Sc("i", z3.Int("!e%d" % k)) for k in range(len(shp)))
    x = eng.scoped([i.e for i in ix], Sc("b", _bound(ix, shp)), lambda: g(ix))
    if isinstance(x, Cx) or not S.is_num(x):
        raise Unsupported("extremum of complex")
    key = (MT.skey(x), tuple(MT.skey(d) for d in shp), mx)
    from .core import free_ints
    es = [p.e for p in (x,) + tuple(shp) if isinstance(p, Sc)]
    free = sorted((c for c in free_ints(es) if not any(c.eq(i.e) for i in ix)), key=lambda c: c.decl().name())
    if key not in _ext:
        _ext[key] = z3.Function("%s!%d" % ("amax" if mx else "amin", len(_ext)), *([z3.IntSort()] * len(free)), z3.RealSort())
    r = _ext[key](*free)
    vs = [i.e for i in ix]
    b = _bound(ix, shp)
    xe = S.zr(x)
    eng.fact(z3.ForAll(vs, z3.Implies(b, xe <= r if mx else xe >= r)))
    ws = [z3.FreshInt("w") for _ in vs]
    eng.fact(z3.substitute(z3.And(b, xe == r), *list(zip(vs, ws))))
    return S.mk("r", r)


def np_ext(mx):
    def f(eng, args, kw):
        if len(args) > 1 or "axis" in kw:
            raise Unsupported("axis extremum")
        return extremum(eng, args[0], mx)
    return f


def np_argmax(eng, args, kw):
    v = args[0]
    v = to_array(eng, v) if isinstance(v, Seq) and v.kind != "ndarray" else v
    shp = shape_of(v)
    if len(shp) != 1:
        raise Unsupported("argmax rank")
    m = extremum(eng, v, True)
    w = eng.fresh("i", "argmax")
    g = elem(eng, v)
    eng.fact(z3.And(w.e >= 0, w.e < S.zi(shp[0]), S.zr(g((w,))) == S.zr(m)))
    t = z3.FreshInt("t")
    eng.fact(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < w.e), S.zr(g((Sc("i", t),))) < S.zr(m))))
    return w


def np_trace(eng, args, kw):
    return mat_trace(eng, args[0])


def mat_trace(eng, v):
    if isinstance(v, MatObj):
        return MT.trace(v.f["lc"])
    if isinstance(v, Seq) and len(v.f["shape"]) == 2:
        g = eng.snapshot(v)
        return eng.ssum(0, v.f["shape"][0], lambda t: g((t, t)))
    raise Unsupported("trace")


def as_mat(eng, v):
    """LC of a matrix-like value"""
    if isinstance(v, MatObj):
        return v.f["lc"]
    if isinstance(v, Seq) and len(v.f["shape"]) == 2:
        g = eng.snapshot(v)
        return MT.from_elts(lambda i, j: g((i, j)), tuple(v.f["shape"]))
    raise Unsupported("matrix expected, got %r" % (v,))


def mat_shape_mul(a, b):
    sa, sb = (a.shape if isinstance(a, MatObj) else a.f["shape"]), (b.shape if isinstance(b, MatObj) else b.f["shape"])
    if sa is None or sb is None:
        return None
    return (sa[0], sb[1]) if len(sa) == 2 and len(sb) == 2 else None


def matmul(eng, a, b, kind="nd"):
    if isinstance(a, Seq) and len(a.f["shape"]) == 1 and isinstance(b, Seq) and len(b.f["shape"]) == 1:
        ga, gb = eng.snapshot(a), eng.snapshot(b)
        return eng.ssum(0, a.f["shape"][0], lambda t: S.mul(ga((t,)), gb((t,))))
    return MatObj(eng, MT.mul(as_mat(eng, a), as_mat(eng, b)), kind, mat_shape_mul(a, b))


def np_dot(eng, args, kw):
    return dot(eng, args[0], args[1])


def dot(eng, a, b):
    if S.is_num(b) or S.is_num(a):
        return binop(eng, "Mult", a, b)
    if isinstance(a, MatObj) and isinstance(b, MatObj) and a.kind != b.kind:
        raise Unsupported("dot of mixed kinds")
    return matmul(eng, a, b, a.kind if isinstance(a, MatObj) else "nd")


def la_expm(eng, args, kw):
    a = args[0]
    lc = as_mat(eng, a)
    return MatObj(eng, expm_lc(lc), "nd", getattr(a, "shape", None) or (a.f["shape"] if isinstance(a, Seq) else None))


def expm_lc(lc):
    w = _single(lc)
    if w is not None and w.name == "block22":
        return MT.atom("block22", *_exp_block(*w.args))
    return MT.atom("expm", lc)


def _single(lc):
    ts = lc.terms()
    if len(ts) == 1 and len(ts[0][0]) == 1 and S.is_conc(ts[0][1]) and ts[0][1] == 1:
        return ts[0][0][0]
    return None


def _exp_block(a, b, c, d):
    """expm([[A,E],[0,A]]) = [[e^A, L(A,E)],[0,e^A]]  (assumed theorem)"""
    if c.t or a.key() != d.key():
        raise Unsupported("expm of a general block matrix")
    MODEL_USED.add("expm([[A,E],[0,A]]) = [[expm A, Frechet(A,E)],[0, expm A]]")
    return MT.atom("expm", a), MT.atom("frechet", a, b), MT.ZERO, MT.atom("expm", a)


def la_expm_frechet(eng, args, kw):
    a, e = as_mat(eng, args[0]), as_mat(eng, args[1])
    shp = getattr(args[0], "shape", None)
    ce = kw.get("compute_expm", True)
    fr = MatObj(eng, MT.atom("frechet", a, e), "nd", shp)
    if ce is False:
        return fr
    return Seq(eng, "tuple", items=[MatObj(eng, MT.atom("expm", a), "nd", shp), fr])


def la_inv(eng, args, kw):
    return MatObj(eng, MT.atom("inv", as_mat(eng, args[0])), "nd", getattr(args[0], "shape", None))


def data_adjoint(eng, args, kw):
    return dag_of(eng, args[0]) if isinstance(args[0], MatObj) else la_bad("adjoint")


def dag_of(eng, a):
    return MatObj(eng, MT.dag(a.f["lc"]), a.kind, None if a.shape is None else tuple(reversed(a.shape)), a.dims)


def la_bad(w):
    raise Unsupported(w)


def la_eigh(eng, args, kw):
    lc = as_mat(eng, args[0])
    n = shape_of(args[0])[0]
    vals = MT.atom("eigval", lc)
    V = MatObj(eng, MT.atom("eigvec", lc), "nd", (n, n))
    f = new_arr(eng, (n,), lambda ix: MT.elt(vals, ix[0], ix[0]).re, "float")
    return Seq(eng, "tuple", items=[f, V])


def data_eigs(eng, args, kw):
    r = la_eigh(eng, args, kw)
    return r


def blocks(v):
    """rows of blocks of a hstack/vstack value"""
    w = _single(v.f["lc"]) if isinstance(v, MatObj) else None
    if w is not None and w.name == "hblock":
        return list(w.args)
    return None


def np_hstack(eng, args, kw):
    items = seq_items(eng, args[0])
    if all(isinstance(x, MatObj) for x in items):
        if len(items) == 2 and all(len(shape_of(x)) == 2 for x in items):
            shp = shape_of(items[0])
            return MatObj(eng, MT.atom("hblock", items[0].f["lc"], items[1].f["lc"]), "nd",
                          (shp[0], S.add(shp[1], shape_of(items[1])[1])))
        raise Unsupported("hstack of matrices")
    if any(isinstance(x, MatObj) for x in items):
        if len(items) == 2:
            m = [x for x in items if isinstance(x, MatObj)][0]
            its = [x if isinstance(x, MatObj) else MatObj(eng, _seq_lc(eng, x), "nd", x.f["shape"]) for x in items]
            return np_hstack(eng, [Seq(eng, "list", items=its)], kw)
    arrs = [to_array(eng, x) if isinstance(x, Seq) else x for x in items]
    if all(isinstance(a, Seq) and len(a.f["shape"]) == 1 for a in arrs):
        return concat1(eng, arrs)
    if len(arrs) == 2 and all(len(a.f["shape"]) == 2 for a in arrs):
        g0, g1 = eng.snapshot(arrs[0]), eng.snapshot(arrs[1])
        m0 = arrs[0].f["shape"][1]

        def fn(ix):
            return S.ite(S.cmp("<", ix[1], m0), g0(ix), g1((ix[0], S.sub(ix[1], m0))))
        return new_arr(eng, (arrs[0].f["shape"][0], S.add(m0, arrs[1].f["shape"][1])), fn)
    raise Unsupported("hstack")


def _seq_lc(eng, s):
    g = eng.snapshot(s)
    p = g((Sc("i", z3.Int("!p0")), Sc("i", z3.Int("!p1"))))
    if S.is_num(p) and MT.is_zero(p):
        return MT.ZERO
    return MT.from_elts(lambda i, j: g((i, j)), tuple(s.f["shape"]))


def np_vstack(eng, args, kw):
    items = seq_items(eng, args[0])
    if len(items) == 2:
        r = [blocks(x) for x in items]
        if r[0] and r[1]:
            shp = items[0].shape
            return MatObj(eng, MT.atom("block22", *(r[0] + r[1])), "nd", (S.mul(2, shp[0]), shp[1]))
    raise Unsupported("vstack")


def np_block(eng, args, kw):
    rows = seq_items(eng, args[0])
    if rows and all(isinstance(x, Seq) for x in rows):
        return np_vstack(eng, [Seq(eng, "list", items=[np_hstack(eng, [x], {}) for x in rows])], {})
    raise Unsupported("block")


def concat1(eng, arrs):
    gs = [eng.snapshot(a) for a in arrs]
    lens = [a.f["shape"][0] for a in arrs]
    offs = [0]
    for l in lens:
        offs.append(S.add(offs[-1], l))

    def fn(ix):
        r = gs[-1]((S.sub(ix[0], offs[-2]),))
        for k in range(len(gs) - 2, -1, -1):
            r = S.ite(S.cmp("<", ix[0], offs[k + 1]), gs[k]((S.sub(ix[0], offs[k]),)), r)
        return r
    return new_arr(eng, (offs[-1],), fn)


def np_concatenate(eng, args, kw):
    items = [to_array(eng, x) if isinstance(x, Seq) else x for x in seq_items(eng, args[0])]
    if all(isinstance(a, Seq) and len(a.f["shape"]) == 1 for a in items):
        return concat1(eng, items)
    raise Unsupported("concatenate")


def np_diagflat(eng, args, kw):
    v = to_array(eng, args[0])
    g = eng.snapshot(v)
    n = v.f["shape"][0]
    return MatObj(eng, MT.from_elts(lambda i, j: S.ite(S.cmp("==", i, j), g((i,)), 0), (n, n)), "nd", (n, n))


def np_multiply(eng, args, kw):
    return hadamard(eng, args[0], args[1])


def hadamard(eng, a, b):
    if isinstance(a, MatObj) or isinstance(b, MatObj):
        ga, gb = elem(eng, a), elem(eng, b)
        shp = a.shape if isinstance(a, MatObj) else b.shape
        return MatObj(eng, MT.from_elts(lambda i, j: S.mul(ga((i, j)), gb((i, j))), None if shp is None else tuple(shp)), "nd", shp)
    return binop(eng, "Mult", a, b)


def np_allclose(eng, args, kw):
    a, b = args[:2]
    tol = kw.get("atol", Fraction(1, 10 ** 8))
    return Sc("b", z3.Bool("allclose:%s:%s:%s" % (vk(eng, a), vk(eng, b), MT.skey(tol) if S.is_num(tol) else tol)))


def vk(eng, a):
    if isinstance(a, MatObj):
        return a.f["lc"].key()
    if isinstance(a, Seq):
        g = eng.snapshot(a)
        v = g(tuple(Sc("i", z3.Int("!k%d" % i)) for i in range(len(a.f["shape"]))))
        return MT.skey(v) if S.is_num(v) else repr(v)
    return MT.skey(a)


def np_random(eng, args, kw):
    shp = tuple(args) if not (args and isinstance(args[0], Seq)) else dims_arg(eng, args[0])
    if "size" in kw:
        shp = dims_arg(eng, kw["size"])
    h = eng.libhooks.get("rng")
    if h is not None:
        return h(eng, () if shp == (None,) else shp)
    if not shp or shp == (None,):
        v = eng.fresh("r", "rand")
        eng.fact(z3.And(v.e >= 0, v.e < 1))
        return v
    fn = eng.fresh_fn("r", len(shp), "rand")

    def base(ix):
        v = fn(*ix)
        eng.fact(z3.And(v.e >= 0, v.e < 1))
        return v
    return Seq(eng, "ndarray", shape=shp, base=base, dtype="float")


def np_savetxt(eng, args, kw):
    names = ["fname", "X", "fmt", "delimiter", "newline", "header", "footer", "comments"]
    vals = getkw(args, kw, names, [None, None, "%.18e", " ", "\n", "", "", "# "])
    x = vals[1]
    if isinstance(x, Seq):
        x = to_array(eng, x)
    elif isinstance(x, MatObj):
        if x.kind != "nd":
            eng.raise_("ValueError", "Expected 1D or 2D array, got 0D array instead")
        x = MatObj(eng, x.f["lc"], "nd", x.shape)
    eng.events_add(("savetxt", vals[0], x) + tuple(vals[2:5]))
    return None


def np_where(eng, args, kw):
    if len(args) != 3:
        raise Unsupported("np.where with one argument")
    return ew(eng, lambda c, a, b: S.ite(c if isinstance(c, bool) or (isinstance(c, Sc) and c.kind == "b") else S.cmp("!=", c, 0), a, b), list(args))


def np_clip(eng, args, kw):
    x, lo, hi = getkw(args, kw, ["a", "a_min", "a_max"], [None, None, None])

    def f(v, l, h):
        if l is not None:
            v = S.ite(S.cmp("<", v, l), l, v) if not S.is_inf(l) else v
        if h is not None:
            v = S.ite(S.cmp(">", v, h), h, v) if not S.is_inf(h) else v
        return v
    return ew(eng, f, [x, lo, hi])


def np_minmax(mx):
    def f(eng, args, kw):
        return ew(eng, lambda a, b: S.ite(S.cmp(">=" if mx else "<=", a, b), a, b), list(args[:2]))
    return f


def np_outer(eng, args, kw):
    a, b = [to_array(eng, x) for x in args[:2]]
    ga, gb = eng.snapshot(a), eng.snapshot(b)
    return new_arr(eng, (a.f["shape"][0], b.f["shape"][0]), lambda ix: S.mul(ga((ix[0],)), gb((ix[1],))))


def np_reshape(eng, args, kw):
    return reshape(eng, args[0], dims_arg(eng, args[1]))


def divmod_(eng, i, m):
    return S.floordiv(i, m), S.mod(i, m)


def reshape(eng, a, shp, copy=False):
    if a.kind != "ndarray":
        a, copy = to_array(eng, a), True
    if len(shp) == 1 and isinstance(shp[0], Seq):
        shp = dims_arg(eng, shp[0])
    src = a.f["shape"]
    size = 1
    for d in src:
        size = S.mul(size, d)
    if any(S.is_conc(d) and d == -1 for d in shp):
        oth = 1
        for d in shp:
            if not (S.is_conc(d) and d == -1):
                oth = S.mul(oth, d)
        shp = tuple((size if S.is_conc(oth) and oth == 1 else S.floordiv(size, oth)) if S.is_conc(d) and d == -1 else d for d in shp)
    tot = 1
    for d in shp:
        tot = S.mul(tot, d)
    if not eng.branch(S.cmp("==", tot, size)):
        eng.raise_("ValueError", "cannot reshape")
    if len(src) == 2 and len(shp) == 1:
        fn = lambda ix: divmod_(eng, ix[0], src[1])
    elif len(src) == 1 and len(shp) == 2:
        fn = lambda ix: (S.add(S.mul(ix[0], shp[1]), ix[1]),)
    elif len(src) == len(shp) and all(eng.valid(S.cmp("==", x, y)) for x, y in zip(src, shp)):
        fn = lambda ix: tuple(ix)
    else:
        raise Unsupported("reshape %s -> %s" % (src, shp))
    if copy or a.f["items"] is not None:
        g = eng.snapshot(a)
        return new_arr(eng, shp, lambda ix: g(fn(ix)), a.f["dtype"])
    r = Seq(eng, "ndarray", shape=tuple(shp), base=None, dtype=a.f["dtype"])
    r.view = (a, fn)
    return r


def seq_items(eng, v):
    if isinstance(v, Seq) and v.f["items"] is not None:
        return v.f["items"]
    it = eng.iterate(v)
    if S.is_conc(it.n):
        return [it.item(t) for t in range(int(it.n))]
    raise Unsupported("symbolic list of arrays")


def timer(eng, args, kw):
    c = eng.clockh
    h = eng.libhooks.get("clock")
    if h is not None:
        return h(eng, args, kw)
    prev = c.f.get("t")
    v = eng.fresh("r", "clock")
    if prev is not None:
        eng.fact(v.e >= prev.e if True else v.e)
    eng.write(c, "t", v)
    return v


def os_call(name):
    def f(eng, args, kw):
        if name == "path.join" and all(isinstance(a, str) for a in args):
            return os.path.join(*args)
        if name in ("path.isabs", "path.basename", "path.dirname", "path.split") and isinstance(args[0], str):
            r = getattr(os.path, name.split(".")[1])(args[0])
            return r
        if name in ("path.exists", "path.isfile", "path.isdir", "path.isabs"):
            n = len([1 for e in eng.events.f["log"]]) if name != "path.isabs" else 0
            return Sc("b", z3.Bool("%s(%s)@%d" % (name, vkey_(args[0]), n)))
        return OStr("os." + name, *args)
    return f


def os_makedirs(eng, args, kw):
    eng.events_add(("makedirs", args[0]))
    if not eng.branch(Sc("b", z3.Bool("makedirs_ok(%s)" % vkey_(args[0])))):
        eng.raise_("OSError", "makedirs failed")


def vkey_(v):
    from .core import vkey
    return vkey(v)


def copy_copy(eng, args, kw):
    v = args[0]
    if isinstance(v, Seq):
        return copy_seq(eng, v)
    if isinstance(v, MatObj):
        return MatObj(eng, v.f["lc"], v.kind, v.shape, v.dims)
    if isinstance(v, PyDict):
        return PyDict(eng, v.f["items"])
    if isinstance(v, Obj):
        o = Obj(eng, v.cls)
        o.f.update(v.f)
        return o
    return v


def copy_deep(eng, args, kw):
    memo = {}

    def dc(v):
        if isinstance(v, Heap):
            if v.serial in memo:
                return memo[v.serial]
            if isinstance(v, Seq):
                if v.f["items"] is not None:
                    r = memo[v.serial] = Seq(eng, v.kind, items=[], dtype=v.f["dtype"])
                    r.f["items"] = [dc(x) for x in v.f["items"]]
                    r.f["shape"] = (len(r.f["items"]),)
                    return r
                r = memo[v.serial] = copy_seq(eng, v)
                return r
            if isinstance(v, PyDict):
                r = memo[v.serial] = PyDict(eng)
                r.f["items"] = {k: dc(x) for k, x in v.f["items"].items()}
                return r
            if isinstance(v, MatObj):
                r = memo[v.serial] = MatObj(eng, v.f["lc"], v.kind, v.shape, v.dims)
                return r
            if isinstance(v, Obj):
                m, _ = v.cls.find("__deepcopy__")
                r = memo[v.serial] = Obj(eng, v.cls)
                for k, x in v.f.items():
                    r.f[k] = dc(x)
                return r
        return v
    return dc(args[0])


def copy_seq(eng, v):
    if v.f["items"] is not None and v.view is None:
        return Seq(eng, v.kind, items=list(v.f["items"]), dtype=v.f["dtype"])
    return Seq(eng, v.kind, shape=v.f["shape"], base=eng.snapshot(v), dtype=v.f["dtype"])


def qobj_ctor(eng, args, kw):
    a = args[0]
    dims = kw.get("dims", args[1] if len(args) > 1 else None)
    if isinstance(a, MatObj):
        return MatObj(eng, a.f["lc"], "qobj", a.shape, dims)
    if isinstance(a, Seq):
        if len(a.f["shape"]) == 2:
            return MatObj(eng, _seq_lc(eng, a), "qobj", a.f["shape"], dims)
        if a.f["items"] is not None:
            arr = to_array(eng, a)
            if len(arr.f["shape"]) == 2:
                return MatObj(eng, _seq_lc(eng, arr), "qobj", arr.f["shape"], dims)
    if isinstance(a, Opq):
        return Opq("Qobj", a)
    raise Unsupported("Qobj(%r)" % (a,))


def qeye(eng, args, kw):
    return MatObj(eng, MT.ONE, "qobj", None, args[0])


def ident(eng, args, kw):
    return args[0]


def data_to(eng, args, kw):
    return args[1]


def opq_fn(name):
    def f(eng, args, kw):
        return Opq(name, *args)
    return f


def sp_block(fn):
    return fn


def np_ndim(eng, args, kw):
    a = args[0]
    if S.is_num(a):
        return 0
    if isinstance(a, MatObj) and a.kind == "nd":
        return 2
    if isinstance(a, Seq) and a.kind == "ndarray":
        return len(a.f["shape"])
    raise Unsupported("numpy.ndim of %s" % type(a).__name__)


TABLE = {
    "numpy.ndim": np_ndim,
    "numpy.zeros": np_filled(0), "numpy.ones": np_filled(1), "numpy.empty": np_empty, "numpy.full": np_full,
    "numpy.zeros_like": np_like(0), "numpy.ones_like": np_like(1), "numpy.empty_like": np_like(None),
    "numpy.array": np_array, "numpy.asarray": np_asarray, "numpy.copy": np_array, "numpy.eye": np_eye, "numpy.identity": np_eye,
    "numpy.arange": np_arange, "numpy.linspace": np_linspace,
    "numpy.sqrt": np_map(s_sqrt), "numpy.exp": np_map(s_exp), "numpy.abs": np_map(s_abs), "numpy.absolute": np_map(s_abs), "numpy.fabs": np_map(s_abs),
    "numpy.sin": np_map(s_trig("sin")), "numpy.cos": np_map(s_trig("cos")), "numpy.tanh": np_map(s_trig("tanh")),
    "numpy.floor": np_map(s_floor), "numpy.ceil": np_map(s_ceil), "numpy.sign": np_map(s_sign), "numpy.angle": np_map(s_angle),
    "numpy.real": np_map(s_real), "numpy.imag": np_map(s_imag), "numpy.conj": np_map(s_conj), "numpy.conjugate": np_map(s_conj),
    "numpy.isnan": np_map(s_isnan), "numpy.isinf": np_map(s_isinf),
    "numpy.any": np_quant(True), "numpy.all": np_quant(False),
    "numpy.sum": np_sum, "numpy.cumsum": np_cumsum, "numpy.amax": np_ext(True), "numpy.amin": np_ext(False),
    "numpy.max": np_ext(True), "numpy.min": np_ext(False), "numpy.argmax": np_argmax,
    "numpy.trace": np_trace, "numpy.dot": np_dot, "numpy.matmul": np_dot, "numpy.hstack": np_hstack, "numpy.vstack": np_vstack, "numpy.block": np_block,
    "numpy.concatenate": np_concatenate, "numpy.diagflat": np_diagflat, "numpy.diag": np_diagflat, "numpy.multiply": np_multiply,
    "numpy.allclose": np_allclose, "numpy.where": np_where, "numpy.clip": np_clip, "numpy.outer": np_outer,
    "numpy.maximum": np_minmax(True), "numpy.minimum": np_minmax(False), "numpy.reshape": np_reshape,
    "numpy.isclose": np_allclose, "numpy.array_equal": lambda e, a, k: array_equal(e, a[0], a[1]),
    "numpy.random.random": np_random, "numpy.random.rand": np_random, "numpy.savetxt": np_savetxt,
    "scipy.linalg.expm": la_expm, "scipy.linalg.expm_frechet": la_expm_frechet, "scipy.linalg.inv": la_inv,
    "scipy.linalg.eigh": la_eigh, "qutip.core.data.eigen.eigh": la_eigh, "qutip.core.data.eigs": data_eigs,
    "qutip.core.data.to": data_to, "qutip.core.data.adjoint": data_adjoint,
    "qutip.core.data.trace": lambda e, a, k: mat_trace(e, a[0]), "numpy.linalg.inv": la_inv, "numpy.linalg.eigh": la_eigh,
    "scipy.sparse.hstack": np_hstack, "scipy.sparse.vstack": np_vstack, "scipy.sparse.csr_matrix": ident,
    "timeit.default_timer": timer, "time.time": timer,
    "os.path.join": os_call("path.join"), "os.path.exists": os_call("path.exists"), "os.path.isfile": os_call("path.isfile"),
    "os.path.isabs": os_call("path.isabs"), "os.path.abspath": os_call("path.abspath"), "os.path.expanduser": os_call("path.expanduser"),
    "os.path.isdir": os_call("path.isdir"), "os.path.basename": os_call("path.basename"), "os.makedirs": os_makedirs,
    "copy.copy": copy_copy, "copy.deepcopy": copy_deep, "qutip.qeye": qeye,
    "time.sleep": lambda e, a, k: None,
    "datetime.timedelta": opq_fn("timedelta"),
}
# arguments the models honour; anything else is outside the model
ARGS = {}
for _n in ("sqrt exp abs absolute fabs sin cos tanh floor ceil sign angle real imag conj conjugate isnan isinf argmax "
           "ndim max min amax amin cumsum trace hstack vstack diagflat diag asarray zeros_like ones_like").split():
    ARGS["numpy." + _n] = (1, {"dtype"})
for _n in "dot matmul multiply maximum minimum outer array_equal".split():
    ARGS["numpy." + _n] = (2, set())
ARGS["numpy.concatenate"] = (2, {"axis"})
ARGS["numpy.where"] = (3, set())
ARGS["numpy.array"] = (2, {"dtype", "copy"})
ARGS["numpy.sum"] = (2, {"axis"})
ARGS["numpy.linspace"] = (3, {"num", "endpoint"})
ARGS["numpy.arange"] = (3, {"dtype"})
ARGS["numpy.allclose"] = ARGS["numpy.isclose"] = (2, {"atol", "rtol"})
ARGS["numpy.copy"] = (1, set())
ARGS["scipy.linalg.expm"] = ARGS["scipy.linalg.inv"] = ARGS["numpy.linalg.inv"] = (1, set())
ARGS["scipy.linalg.expm_frechet"] = (2, {"compute_expm"})
ARGS["copy.copy"] = ARGS["copy.deepcopy"] = (1, set())


def guard_args(name, fn):
    if name not in ARGS:
        return fn
    mp, ks = ARGS[name]

    def f(eng, args, kw):
        if len(args) > mp or set(kw) - ks:
            raise Unsupported("arguments of %s outside the model" % name)
        return fn(eng, args, kw)
    return f


CONSTS = {**{"errno." + _k: _v for _k, _v in vars(__import__("errno")).items() if _k[0] == "E"}, "numpy.pi": PI, "numpy.inf": INF, "numpy.Inf": INF, "numpy.nan": NAN, "os.sep": "/",
          "logging.NOTSET": 0, "logging.DEBUG": 10, "logging.INFO": 20, "logging.WARNING": 30, "logging.WARN": 30,
          "logging.ERROR": 40, "logging.CRITICAL": 50}
LIBTYPES = {"numpy.ndarray": "ndarray", "qutip.Qobj": "Qobj", "numpy.float64": "numpy.float64", "numpy.int64": "numpy.int64",
            "qutip.core.data.CSR": "CSR", "qutip.core.data.Dense": "Dense", "numpy.complex128": "numpy.complex128",
            "qutip.core.data.Data": "Data", "numpy.floating": "numpy.floating", "numpy.integer": "numpy.integer",
            "numpy.bool_": "numpy.bool_", "numpy.float32": "numpy.float32"}


def array_equal(eng, a, b):
    sa, sb = shape_of(a), shape_of(b)
    if len(sa) != len(sb):
        return False
    for x, y in zip(sa, sb):
        if not eng.branch(S.cmp("==", x, y)):
            return False
    return quant(eng, ew(eng, lambda x, y: S.cmp("==", x, y), [a, b]), False)


def lookup(eng, dotted):
    I = _I()
    if dotted in eng.libhooks:
        return I.LibFn(dotted, lambda e, a, k: e.libhooks[dotted](e, a, k))
    if dotted in CONSTS:
        return CONSTS[dotted]
    if dotted in LIBTYPES:
        return tv(LIBTYPES[dotted])
    if dotted in TABLE:
        MODEL_USED.add(dotted)
        return I.LibFn(dotted, guard_args(dotted, TABLE[dotted]))
    if dotted == "qutip.settings.settings":
        return Opq("settings")
    if dotted.startswith("qutip.settings."):
        return Opq("settings", dotted)
    return None


def call_unknown(eng, lm, args, kw):
    raise Unsupported("call of unmodelled library function %s" % lm.name)


def call_opaque(eng, f, args, kw):
    tag = f.tag
    if tag and tag[0] == "method":
        recv, name = tag[1], tag[2]
        h = eng.opqhooks.get(name)
        if h is not None:
            r = h(eng, recv, args, kw)
            if r is not NotImplemented:
                return r
        if name in ("write", "close", "writelines", "flush"):
            eng.events_add(("method", recv, name) + tuple(args))
            return None
        return Opq("ret", recv, name, *args)
    if tag and tag[0] == "fnval":
        return eng.opqhooks["fnval:" + tag[1]](eng, tag, args, kw)
    if tag and tag[0] == "callable":
        eng.events_add(("call", f) + tuple(args))
        return eng.opq_call(f, args, kw) if hasattr(eng, "opq_call") else Opq("ret", f, *args)
    raise Unsupported("call of opaque %r" % (f,))


# ---------------------------------------------------------------- types
def call_type(eng, t, args, kw):
    n = t.name
    h = eng.libhooks.get("type:" + n)
    if h is not None and args and isinstance(args[0], OStr):
        return h(eng, args, kw)
    if n == "int":
        return s_int(eng, args[0])
    if n in ("float", "numpy.float64", "numpy.float32"):
        x = args[0]
        if isinstance(x, str):
            try:
                return S.from_py(float(x))
            except ValueError:
                eng.raise_("ValueError", "could not convert string to float")
        if isinstance(x, Opq):
            return Opq("float", x)
        if x is NAN:
            return NAN
        if x is None or isinstance(x, (Seq, PyDict)):
            eng.raise_("TypeError", "float() argument")
        r = S.to_real(x)
        return S.PyF("r", r.e) if isinstance(r, Sc) and r.kind == "r" else r
    if n == "bool":
        return eng.truth(args[0]) if args else False
    if n == "str":
        x = args[0]
        if isinstance(x, (str,)):
            return x
        if isinstance(x, int):
            return str(x)
        if isinstance(x, OStr):
            return x
        if isinstance(x, Obj):
            m, _ = x.cls.find("__str__")
            if m is not None and not x.cls.builtin:
                return eng.call_func(m, [x], {})
        return OStr("str", x)
    if n == "complex":
        if len(args) == 2:
            return Cx(args[0], args[1])
        return args[0] if isinstance(args[0], Cx) else Cx(S.to_real(args[0]), Fraction(0))
    if n in ("list", "tuple", "set"):
        if not args:
            return Seq(eng, n, items=[])
        v = args[0]
        if isinstance(v, Seq):
            if v.f["items"] is not None and v.view is None:
                return Seq(eng, n, items=v.f["items"])
            if len(v.f["shape"]) == 1:
                return Seq(eng, n, shape=v.f["shape"], base=eng.snapshot(v), dtype=v.f["dtype"])
            m = v.f["shape"]
            return Seq(eng, n, shape=(m[0],), base=lambda ix: getitem(eng, v, ix[0]))
        it = eng.iterate(v)
        if S.is_conc(it.n):
            return Seq(eng, n, items=[it.item(i) for i in range(int(it.n))])
        from .loops import map_closure
        return Seq(eng, n, shape=(it.n,), base=lambda ix: it.item(ix[0]))
    if n == "dict":
        d = {}
        if args:
            if isinstance(args[0], PyDict):
                d.update(args[0].f["items"])
            else:
                raise Unsupported("dict()")
        d.update(kw)
        return PyDict(eng, d)
    if n == "Qobj":
        return qobj_ctor(eng, args, kw)
    if n == "object":
        return Obj(eng, eng.objcls)
    if n == "type":
        return type_of(eng, args[0])
    if n == "ndarray":
        raise Unsupported("ndarray constructor")
    raise Unsupported("call of type %s" % n)


def type_of(eng, v):
    if isinstance(v, Obj):
        return v.cls
    return tv(tname(v))


def tname(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, (Fraction, float)) or v is NAN:
        return "float"
    if isinstance(v, Cx):
        return "complex"
    if isinstance(v, Sc):
        return {"i": "int", "r": "float", "b": "bool"}[v.kind]
    if isinstance(v, (str, OStr)):
        return "str"
    if isinstance(v, Seq):
        return v.kind
    if isinstance(v, MatObj):
        return "ndarray" if v.kind == "nd" else "Qobj"
    if isinstance(v, PyDict):
        return "dict"
    if v is None:
        return "NoneType"
    return "?" + type(v).__name__


def isinst(eng, v, t):
    I = _I()
    if isinstance(t, Seq):
        r = False
        for x in t.f["items"]:
            if isinst(eng, v, x):
                return True
        return False
    if isinstance(t, I.ClassInfo):
        return isinstance(v, Obj) and v.cls.issub(t)
    if isinstance(t, I.TypeV):
        n = tname(v)
        if t.name == "object":
            return True
        if n == t.name:
            return True
        if t.name == "int" and n == "bool":
            return True
        if t.name in ("numpy.float64", "numpy.floating") and n == "float":
            raise Unsupported("isinstance numpy float")
        if n.startswith("?") and isinstance(v, Opq):
            if v.tag and v.tag[0] == "typed":
                return v.tag[1] == t.name
            raise Unsupported("isinstance of opaque value")
        return False
    if isinstance(t, I.LibMod):
        if t.name in ("collections.abc.Iterable", "collections.abc.Sequence", "collections.abc.Sized", "collections.abc.Mapping"):
            if isinstance(v, PyDict):
                return not t.name.endswith("Sequence")
            if t.name.endswith("Mapping") and not isinstance(v, Opq):
                return False
            if isinstance(v, (Seq, str)):
                return not (t.name.endswith("Sequence") and isinstance(v, Seq) and v.kind == "ndarray")
            if v is None or S.is_num(v) or (isinstance(v, Obj) and v.cls.find("__iter__")[0] is None and v.cls.find("__len__")[0] is None):
                return False
        raise Unsupported("isinstance %s" % t.name)
    raise Unsupported("isinstance with %r" % (t,))


# ---------------------------------------------------------------- attributes
def L(name, fn):
    return _I().LibFn(name, fn)


def attr_of(eng, o, name):
    I = _I()
    if isinstance(o, MatObj):
        return mat_attr(eng, o, name)
    if isinstance(o, Seq):
        return seq_attr(eng, o, name)
    if isinstance(o, PyDict):
        return dict_attr(eng, o, name)
    if isinstance(o, str):
        return str_attr(eng, o, name)
    if isinstance(o, OStr):
        if name in ("lower", "upper", "strip", "rstrip", "format", "replace", "encode"):
            return L("ostr." + name, lambda e, a, k: OStr(name, o, *a))
        if name in ("startswith", "endswith", "isdigit"):
            return L("ostr." + name, lambda e, a, k: Sc("b", z3.Bool("%s:%s:%s" % (name, o.key(), vkey_(list(a))))))
        if name in ("split",):
            return L("ostr." + name, lambda e, a, k: Opq(name, o, *a))
        noattr(eng, str, name)
    if isinstance(o, Opq):
        return opq_attr(eng, o, name)
    if S.is_num(o):
        if name == "real":
            return S.re(o)
        if name == "imag":
            return S.im(o) if isinstance(o, Cx) else 0
        if name in ("conj", "conjugate"):
            return L(name, lambda e, a, k: S.conj(o))
        if name == "shape":
            return Seq(eng, "tuple", items=[])
        if name == "item":
            return L(name, lambda e, a, k: o)
        noattr(eng, np.float64 if name != "dot" else float, name)
    if o is None:
        eng.raise_("AttributeError", "NoneType has no attribute " + name)
    if isinstance(o, I.FuncV):
        if name == "__name__":
            return o.name
        if name.startswith("__"):
            raise Unsupported("attribute " + name)
        eng.raise_("AttributeError", name)
    if isinstance(o, I.BoundM):
        if name == "__self__":
            return o.self_
        if name == "__name__":
            return o.func.name
        if name == "__func__":
            return o.func
        if name.startswith("__"):
            raise Unsupported("attribute " + name)
        eng.raise_("AttributeError", name)
    if isinstance(o, I.TypeV):
        if name == "__name__":
            return o.name
        if o.name == "str" and hasattr(str, name):
            return L("str." + name, lambda e, a, k: e.call(e.getattr_(a[0], name), list(a[1:]), k))
        if o.name == "dict" and name == "fromkeys":
            raise Unsupported("dict.fromkeys")
    raise Unsupported("attribute %s of %r" % (name, o))


def opq_attr(eng, o, name):
    if o.tag[0] == "logger":
        if name == "level":
            return eng.loglevel
        if name == "getEffectiveLevel":
            return L("getEffectiveLevel", lambda e, a, k: e.loglevel)
        raise Unsupported("logger." + name)
    h = eng.opqattrs.get(name)
    if h is not None:
        r = h(eng, o)
        if r is not NotImplemented:
            return r
    return Opq("method", o, name)


def mat_attr(eng, o, name):
    lc = o.f["lc"]
    nd = o.kind == "nd"

    def mk(l, shape=None, kind=None):
        return MatObj(eng, l, kind or o.kind, shape if shape is not None else o.shape, None)
    tsh = None if o.shape is None else (o.shape[1], o.shape[0])
    if name == "shape":
        return Seq(eng, "tuple", items=list(shape_of(o)))
    if name == "dims":
        if nd:
            eng.raise_("AttributeError", "ndarray has no attribute dims")
        return o.dims if o.dims is not None else Opq("dims", lc.key())
    if name == "T" and nd:
        return mk(MT.transp(lc), tsh)
    if name in ("conj", "conjugate"):
        return L(name, lambda e, a, k: mk(MT.conj(lc)))
    if name == "dag" and not nd:
        return L(name, lambda e, a, k: mk(MT.dag(lc), tsh))
    if name == "trans" and not nd:
        return L(name, lambda e, a, k: mk(MT.transp(lc), tsh))
    if name == "dot":
        if nd:
            return L(name, lambda e, a, k: dot(e, o, a[0]))
        eng.raise_("AttributeError", "Qobj has no attribute dot")
    if name == "tr" and not nd:
        return L(name, lambda e, a, k: mat_trace(e, o))
    if name == "trace" and nd:
        return L(name, lambda e, a, k: mat_trace(e, o))
    if name == "full" and not nd:
        return L(name, lambda e, a, k: mk(lc, None, "nd"))
    if name == "to_array":
        return L(name, lambda e, a, k: mk(lc, None, "nd"))
    if name == "toarray" or name == "todense" or name == "tocsr":
        return L(name, lambda e, a, k: mk(lc, None, "nd"))
    if name == "data" and not nd:
        return mk(lc, None, "nd")
    if name == "data_as" and not nd:
        return L(name, lambda e, a, k: mk(lc, None, "nd"))
    if name == "expm" and not nd:
        return L(name, lambda e, a, k: mk(expm_lc(lc)))
    if name == "inv" and not nd:
        return L(name, lambda e, a, k: mk(MT.atom("inv", lc)))
    if name == "copy":
        return L(name, lambda e, a, k: mk(lc))
    if name == "isherm" and not nd:
        return Sc("b", z3.Bool("isherm:" + lc.key()))
    if name in ("isoper", "isket", "isbra", "issuper", "isoperket") and not nd:
        return Sc("b", z3.Bool("%s:%s" % (name, lc.key())))
    if name == "norm" and not nd:
        return L(name, lambda e, a, k: Sc("r", z3.Real("norm:%s" % lc.key())))
    if name == "real" and nd:
        return new_arr(eng, shape_of(o), lambda ix: S.re(MT.elt(lc, *ix)))
    if name == "imag" and nd:
        return new_arr(eng, shape_of(o), lambda ix: S.im(MT.elt(lc, *ix)))
    if name == "ndim":
        return 2
    if name == "size":
        s = shape_of(o)
        return S.mul(s[0], s[1])
    if name in ("sum",) and nd:
        return L(name, lambda e, a, k: sum_all(e, o))
    if name == "astype" and nd:
        return L(name, lambda e, a, k: mk(lc))
    if name in ("eigenstates", "eigenenergies", "unit", "ptrace"):
        raise Unsupported("Qobj." + name)
    noattr(eng, np.ndarray if nd else "Qobj", name)


QOBJ_ATTRS = set("""basis_expansion check_herm conj contract copy cosm dag data data_as diag dims dnorm
drop_scalar_dims dtype dual_chan eigenenergies eigenstates expm full full_tensor groundstate inv isbra iscp iscptp isherm
ishp isket isoper isoperbra isoperket issuper istp isunitary logm matrix_element norm overlap permute proj ptrace purity
shape sinm sqrtm superrep tidyup to tr trans transform trunc_neg type unit""".split())


def noattr(eng, typ, name):
    """attribute outside the model: exists in the real library -> undecided"""
    if (name in QOBJ_ATTRS or name.startswith("_")) if typ == "Qobj" else hasattr(typ, name):
        raise Unsupported("attribute .%s" % name)
    eng.raise_("AttributeError", "%s has no attribute %s" % (typ if isinstance(typ, str) else typ.__name__, name))


def seq_attr(eng, o, name):
    I = _I()
    if o.kind == "ndarray":
        shp = o.f["shape"]
        if name == "shape":
            return Seq(eng, "tuple", items=list(shp))
        if name == "ndim":
            return len(shp)
        if name == "size":
            n = 1
            for d in shp:
                n = S.mul(n, d)
            return n
        if name == "T":
            if len(shp) == 1:
                return o
            if len(shp) == 2:
                r = Seq(eng, "ndarray", shape=(shp[1], shp[0]), base=None, dtype=o.f["dtype"])
                r.view = (o, lambda ix: (ix[1], ix[0]))
                return r
            raise Unsupported(".T rank %d" % len(shp))
        if name == "dtype":
            return tv(o.f["dtype"] or "float")
        if name == "dot":
            return L(name, lambda e, a, k: dot(e, o, a[0]))
        if name == "flat":
            return reshape(eng, o, (-1,)) if len(shp) > 1 else to_array(eng, o)
        if name == "flatten":
            return L(name, lambda e, a, k: reshape(e, o, (-1,), True) if len(shp) > 1 else to_array(e, o))
        if name == "ravel":
            return L(name, lambda e, a, k: reshape(e, o, (-1,)) if len(shp) > 1 else o)
        if name == "reshape":
            return L(name, lambda e, a, k: reshape(e, o, a if len(a) > 1 else dims_arg(e, a[0])))
        if name == "copy":
            return L(name, lambda e, a, k: to_array(e, o))
        if name in ("conj", "conjugate"):
            return L(name, lambda e, a, k: ew(e, S.conj, [o]))
        if name == "sum":
            return L(name, lambda e, a, k: np_sum(e, [o] + list(a), k))
        if name in ("max", "min"):
            return L(name, lambda e, a, k: extremum(e, o, name == "max"))
        if name == "any":
            return L(name, lambda e, a, k: quant(e, o, True))
        if name == "all":
            return L(name, lambda e, a, k: quant(e, o, False))
        if name == "trace":
            return L(name, lambda e, a, k: mat_trace(e, o))
        if name == "real":
            return ew(eng, S.re, [o])
        if name == "imag":
            return ew(eng, lambda x: S.im(x), [o])
        if name == "tolist":
            return L(name, lambda e, a, k: call_type(e, tv("list"), [o], {}))
        if name == "astype":
            return L(name, lambda e, a, k: to_array(e, o))
        if name == "fill":
            def fill(e, a, k):
                v = a[0]
                e.sset(o, lambda ix: True, lambda ix: v)
            return L(name, fill)
        if name == "item":
            return L(name, lambda e, a, k: e.sget(o, (0,) * len(shp)))
        if name == "cumsum":
            return L(name, lambda e, a, k: np_cumsum(e, [o], k))
        noattr(eng, np.ndarray, name)
    if o.kind in ("list", "tuple", "set"):
        if name == "append" and o.kind == "list":
            def append(e, a, k):
                v = a[0]
                if o.f["items"] is not None:
                    e.write(o, "items", o.f["items"] + [v])
                    e.write(o, "shape", (len(o.f["items"]),))
                    return None
                n = o.f["shape"][0]
                e.sset_at(o, (n,), v)
                e.write(o, "shape", (S.add(n, 1),))
                return None
            return L(name, append)
        if name == "extend" and o.kind == "list":
            return L(name, lambda e, a, k: list_extend(e, o, a[0]))
        if name == "copy":
            return L(name, lambda e, a, k: copy_seq(e, o))
        if name == "insert" and o.f["items"] is None:
            def insert_front(e, a, k):
                if not (S.is_conc(a[0]) and a[0] == 0):
                    raise Unsupported("list.insert at a position other than the front")
                old, v, m = o.f["data"], a[1], o.f["shape"][0]

                def base(ix):
                    if e.branch(S.cmp("==", ix[0], 0)):
                        return v
                    return e.dget(old, (S.sub(ix[0], 1),))
                d = SData(base)
                d.front = (v, old)
                e.write(o, "data", d)
                e.write(o, "shape", (S.add(m, 1),))
            return L(name, insert_front)
        if name == "insert" and o.f["items"] is not None:
            def insert(e, a, k):
                it = list(o.f["items"])
                it.insert(a[0], a[1])
                e.write(o, "items", it)
                e.write(o, "shape", (len(it),))
            return L(name, insert)
        if name == "pop" and o.f["items"] is not None:
            def pop(e, a, k):
                it = list(o.f["items"])
                if not it:
                    e.raise_("IndexError", "pop from empty list")
                v = it.pop(*[int(x) for x in a])
                e.write(o, "items", it)
                e.write(o, "shape", (len(it),))
                return v
            return L(name, pop)
        if name == "index":
            def index(e, a, k):
                if o.f["items"] is None:
                    raise Unsupported("list.index")
                for i, x in enumerate(o.f["items"]):
                    if e.truth(compare(e, "Eq", x, a[0])):
                        return i
                e.raise_("ValueError", "not in list")
            return L(name, index)
        if name == "add" and o.kind == "set":
            def addf(e, a, k):
                e.write(o, "items", o.f["items"] + [a[0]])
                e.write(o, "shape", (len(o.f["items"]),))
            return L(name, addf)
        if name == "clear" and o.kind == "list":
            return L("list.clear", lambda e, a, k: list_clear(e, o))
        if name == "sort" or name == "reverse" or name == "remove" or name == "clear" or name == "count":
            raise Unsupported("list." + name)
        noattr(eng, {"list": list, "tuple": tuple, "set": set}[o.kind], name)
    raise Unsupported("attribute %s of %s" % (name, o.kind))


def list_clear(eng, o):
    eng.write(o, "items", [])
    eng.write(o, "shape", (0,))


def list_extend(eng, o, v):
    if o.f["items"] is not None:
        it = eng.iterate(v)
        if S.is_conc(it.n):
            eng.write(o, "items", o.f["items"] + [it.item(i) for i in range(int(it.n))])
            eng.write(o, "shape", (len(o.f["items"]),))
            return None
    snap = eng.snapshot(v) if isinstance(v, Seq) else None
    if snap is None:
        raise Unsupported("extend")
    n0, n1 = o.f["shape"][0], v.f["shape"][0]
    eng.sset(o, lambda ix: S.cmp(">=", ix[0], n0), lambda ix: snap((S.sub(ix[0], n0),)))
    eng.write(o, "shape", (S.add(n0, n1),))
    return None


def dict_attr(eng, o, name):
    it = o.f["items"]
    if name == "get":
        return L(name, lambda e, a, k: o.f["items"].get(e.hkey(a[0]), a[1] if len(a) > 1 else None))
    if name == "keys":
        return L(name, lambda e, a, k: Seq(e, "list", items=list(o.f["items"].keys())))
    if name == "values":
        return L(name, lambda e, a, k: Seq(e, "list", items=list(o.f["items"].values())))
    if name == "items":
        return L(name, lambda e, a, k: Seq(e, "list", items=[Seq(e, "tuple", items=[x, y]) for x, y in o.f["items"].items()]))
    if name == "update":
        def upd(e, a, k):
            d = dict(o.f["items"])
            if a:
                if not isinstance(a[0], PyDict):
                    raise Unsupported("dict.update")
                d.update(a[0].f["items"])
            d.update(k)
            e.write(o, "items", d)
        return L(name, upd)
    if name == "copy":
        return L(name, lambda e, a, k: PyDict(e, o.f["items"]))
    if name == "pop":
        def pop(e, a, k):
            key = e.hkey(a[0])
            if key in o.f["items"]:
                v = o.f["items"][key]
                d = dict(o.f["items"])
                del d[key]
                e.write(o, "items", d)
                return v
            if len(a) > 1:
                return a[1]
            e.raise_("KeyError", str(key))
        return L(name, pop)
    if name == "setdefault":
        def sd(e, a, k):
            key = e.hkey(a[0])
            if key not in o.f["items"]:
                d = dict(o.f["items"])
                d[key] = a[1] if len(a) > 1 else None
                e.write(o, "items", d)
            return o.f["items"][key]
        return L(name, sd)
    noattr(eng, dict, name)


def dict_del(eng, o, k):
    key = eng.hkey(k)
    if key not in o.f["items"]:
        eng.raise_("KeyError", str(key))
    d = dict(o.f["items"])
    del d[key]
    eng.write(o, "items", d)


def cat(eng, *parts):
    """concatenation of texts, in a normal form"""
    out = []
    for p in parts:
        for q in (p.tag[1:] if isinstance(p, OStr) and p.tag[0] == "cat" else (p,)):
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != "":
                out.append(q)
    if not out:
        return ""
    return out[0] if len(out) == 1 else OStr("cat", *out)


def fmtval(eng, v, spec=""):
    if isinstance(v, str) or (isinstance(v, int) and not isinstance(v, bool)):
        try:
            return format(v, spec)
        except ValueError as e:
            eng.raise_("ValueError", str(e))
    if spec == "":
        return call_type(eng, _I().TypeV("str"), [v], {}) if isinstance(v, Obj) else v if isinstance(v, OStr) else "None" if v is None else OStr("str", v)
    return OStr("fmt", spec, v)


def fmt_text(eng, o, a, k):
    """str.format with plain replacement fields; None otherwise"""
    import string
    n, parts = 0, []
    try:
        for lit, field, spec, conv in string.Formatter().parse(o):
            parts.append(lit)
            if field is None:
                continue
            if conv or "{" in spec:
                return None
            if field == "":
                field, n = n, n + 1
            elif field.isdigit():
                field = int(field)
            elif field not in k:
                return None
            if isinstance(field, int) and field >= len(a):
                eng.raise_("IndexError", "format")
            parts.append(fmtval(eng, a[field] if isinstance(field, int) else k[field], spec))
    except ValueError:
        return None
    return cat(eng, *parts)


def str_attr(eng, o, name):
    m = getattr(o, name, None)
    if m is None:
        noattr(eng, str, name)
    if name == "encode":
        return L("str.encode", lambda e, a, k: OStr("encode", o))

    def call(e, a, k):
        vs = list(a) + list(k.values())
        if all(isinstance(x, str) or (isinstance(x, int)) for x in vs):
            r = m(*a, **k)
            return wrap(e, r)
        if name == "join" and isinstance(a[0], Seq):
            its = a[0].f["items"]
            if its is not None and all(isinstance(x, str) for x in its):
                return o.join(its)
            if its is not None and all(isinstance(x, (str, OStr)) for x in its):
                return cat(e, *[y for x in its for y in (o, x)][1:])
            return OStr("join", o, *(its or []))
        if name == "format":
            r = fmt_text(e, o, a, k)
            if r is not None:
                return r
        return OStr(name, o, *vs)
    return L("str." + name, call)


def wrap(eng, r):
    if isinstance(r, (list, tuple)):
        return Seq(eng, type(r).__name__, items=[wrap(eng, x) for x in r])
    return r


# ---------------------------------------------------------------- operators
_ar = {"Add": S.add, "Sub": S.sub, "Mult": S.mul, "Div": S.div, "FloorDiv": S.floordiv, "Mod": S.mod, "Pow": S.pow_}


def num_op(eng, op):
    f = _ar[op]

    def g(a, b):
        if a is NAN or b is NAN:
            return NAN
        if not S.is_num(a) or not S.is_num(b):
            if isinstance(a, (MatObj, Seq)) or isinstance(b, (MatObj, Seq)):
                return binop(eng, op, a, b)
            if a is None or b is None:
                eng.raise_("TypeError", "unsupported operand None")
            raise Unsupported("arithmetic on %r, %r" % (a, b))
        if op in ("Div", "FloorDiv", "Mod"):
            if S.is_conc(b) and b == 0:
                eng.raise_("ZeroDivisionError", "division by zero")
        if op == "Pow":
            if isinstance(b, Fraction) and b == Fraction(1, 2):
                return s_sqrt(eng, a)
            try:
                return f(a, b)
            except Unsupported:
                if isinstance(a, Cx) or isinstance(b, Cx) or S.is_inf(a) or S.is_inf(b):
                    raise
                return ufun("pow", a, b)
        return f(a, b)
    return g


def binop(eng, op, a, b):
    if isinstance(a, MaskSel) and S.is_num(b):
        f = num_op(eng, op)
        return MaskSel(lambda ix: f(a.fn(ix), b), a.mask)
    if isinstance(b, MaskSel) and S.is_num(a):
        f = num_op(eng, op)
        return MaskSel(lambda ix: f(a, b.fn(ix)), b.mask)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("operand undetermined")
    sa, sb = S.is_num(a) or a is NAN, S.is_num(b) or b is NAN
    if sa and sb:
        if op in ("BitAnd", "BitOr"):
            if S.kind(a) == "b" and S.kind(b) == "b":
                return S.and_(a, b) if op == "BitAnd" else S.or_(a, b)
            if S.is_conc(a) and S.is_conc(b):
                return a & b if op == "BitAnd" else a | b
            raise Unsupported("bit op")
        if op == "Div" and isinstance(b, S.PyF) and not eng.loopvars and not eng.valid(S.cmp("!=", b, 0)):
            # a Python float: division by zero is an exception
            if eng.branch(S.cmp("==", b, 0)):
                eng.raise_("ZeroDivisionError", "float division by zero")
        if op in ("Div", "FloorDiv", "Mod") and not isinstance(b, Cx) and isinstance(b, Sc):
            if getattr(eng, "check_div", False) and not eng.valid(S.cmp("!=", b, 0)):
                eng.notes.add("division by a possibly zero value: treated as a real quotient")
        return num_op(eng, op)(a, b)
    if isinstance(a, (str, OStr)) and op == "Mod":
        return OStr("%", a, b)
    if isinstance(a, (str, OStr)) and isinstance(b, (str, OStr)) and op == "Add":
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        return cat(eng, a, b)
    if isinstance(a, (str, OStr)) or isinstance(b, (str, OStr)):
        if op == "Mult":
            return OStr("*", a, b)
        if op == "Add" and (isinstance(a, Opq) or isinstance(b, Opq)):
            return OStr("+", a, b)
        eng.raise_("TypeError", "str operand")
    # containers
    ma, mb = isinstance(a, MatObj), isinstance(b, MatObj)
    if ma or mb:
        return mat_binop(eng, op, a, b)
    if isinstance(a, Seq) and isinstance(b, Seq) and op == "Add" and a.kind == b.kind and a.kind in ("list", "tuple"):
        r = copy_seq(eng, a)
        list_extend(eng, r, b)
        return r
    if isinstance(a, Seq) and a.kind in ("list", "tuple") and sb and op == "Mult":
        if S.is_conc(b) and a.f["items"] is not None:
            return Seq(eng, a.kind, items=a.f["items"] * int(b))
        if a.f["items"] is not None and len(a.f["items"]) == 1 and S.kind(b) == "i":
            x = a.f["items"][0]
            return Seq(eng, a.kind, shape=(S.ite(S.cmp(">=", b, 0), b, 0),), base=lambda ix: x)
        if S.kind(b) == "r":
            eng.raise_("TypeError", "can't multiply sequence by non-int")
        raise Unsupported("list repetition")
    if is_arr(a) or is_arr(b):
        if op == "MatMult":
            return matmul(eng, a, b)
        if op in ("BitAnd", "BitOr"):
            return ew(eng, lambda x, y: S.and_(x, y) if op == "BitAnd" else S.or_(x, y), [a, b])
        if a is None or b is None:
            eng.raise_("TypeError", "unsupported operand None")
        return ew(eng, num_op(eng, op), [a, b])
    if isinstance(a, Obj) or isinstance(b, Obj):
        nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv"}.get(op)
        if isinstance(a, Obj):
            m, _ = a.cls.find("__%s__" % nm)
            if m is not None:
                return eng.call_func(m, [a, b], {})
        if isinstance(b, Obj):
            m, _ = b.cls.find("__r%s__" % nm)
            if m is not None:
                return eng.call_func(m, [b, a], {})
        eng.raise_("TypeError", "unsupported operand")
    if isinstance(a, Opq) or isinstance(b, Opq):
        return Opq("op" + op, a, b)
    if a is None or b is None:
        eng.raise_("TypeError", "unsupported operand type(s): None")
    if isinstance(a, Seq) or isinstance(b, Seq):
        eng.raise_("TypeError", "unsupported operand sequence")
    raise Unsupported("binop %s %r %r" % (op, a, b))


def mat_binop(eng, op, a, b):
    ma, mb = isinstance(a, MatObj), isinstance(b, MatObj)
    if a is None or b is None:
        eng.raise_("TypeError", "unsupported operand None")
    if ma and mb:
        kind = "qobj" if "qobj" in (a.kind, b.kind) else "nd"
        if a.kind != b.kind and op in ("Add", "Sub"):
            raise Unsupported("mixed Qobj / ndarray arithmetic")
        shp = a.shape if a.shape is not None else b.shape
        if op == "Add":
            return MatObj(eng, MT.add(a.f["lc"], b.f["lc"]), kind, shp, a.dims)
        if op == "Sub":
            return MatObj(eng, MT.sub(a.f["lc"], b.f["lc"]), kind, shp, a.dims)
        if op == "MatMult" or (op == "Mult" and a.kind == "qobj" and b.kind == "qobj"):
            return MatObj(eng, MT.mul(a.f["lc"], b.f["lc"]), kind, mat_shape_mul(a, b))
        if op == "Mult" and kind == "nd":
            return hadamard(eng, a, b)
        if op == "Mult":
            raise Unsupported("Qobj * ndarray")
        if op == "Div" and kind == "nd":
            return ew(eng, num_op(eng, op), [a, b])
        raise Unsupported("matrix op %s" % op)
    m, s = (a, b) if ma else (b, a)
    if S.is_num(s):
        if op == "Mult":
            return MatObj(eng, MT.scale(s, m.f["lc"]), m.kind, m.shape, m.dims)
        if op == "Div" and ma:
            return MatObj(eng, MT.scale(S.div(1, s), m.f["lc"]), m.kind, m.shape, m.dims)
        if op in ("Add", "Sub") and S.is_conc(s) and s == 0:
            return m if op == "Add" or ma else MatObj(eng, MT.scale(-1, m.f["lc"]), m.kind, m.shape, m.dims)
        if m.kind == "nd":
            return ew(eng, num_op(eng, op), [a, b])
        if op in ("Add", "Sub") and m.kind == "qobj":
            idn = MatObj(eng, MT.scale(s, MT.ONE), "qobj", m.shape, m.dims)
            return mat_binop(eng, op, m if ma else idn, idn if ma else m)
        raise Unsupported("scalar matrix op %s" % op)
    if isinstance(s, Seq):
        if m.kind == "nd":
            if op == "MatMult":
                return matmul(eng, a, b)
            if len(s.f["shape"]) == 2 and op in ("Add", "Sub"):
                w = MatObj(eng, _seq_lc(eng, s), "nd", m.shape)
                return mat_binop(eng, op, m if ma else w, w if ma else m)
            if op == "Mult" and len(s.f["shape"]) == 2:
                return hadamard(eng, a, b)
            return ew(eng, num_op(eng, op), [a, b])
        if len(s.f["shape"]) == 2 and op == "Mult":
            # Qobj * ndarray broadcasts in numpy: not modelled
            raise Unsupported("Qobj with array")
        if s.kind in ("list", "tuple"):
            eng.raise_("TypeError", "unsupported operand")
    raise Unsupported("matrix binop %s with %r" % (op, s))


_cmp = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}


def compare(eng, op, a, b):
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("comparison of undetermined value")
    if op == "Is" or op == "IsNot":
        r = is_same(eng, a, b)
        return r if op == "Is" else S.not_(r)
    if op == "In" or op == "NotIn":
        r = contains(eng, a, b)
        return r if op == "In" else S.not_(r)
    if a is NAN or b is NAN:
        return op == "NotEq"
    if S.is_num(a) and S.is_num(b):
        return S.cmp(_cmp[op], a, b)
    if is_arr(a) or is_arr(b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if op in ("Eq", "NotEq"):
                v = op == "NotEq"
                x = a if is_arr(a) else b
                return new_arr(eng, shape_of(x), lambda ix: v, "bool")
            eng.raise_("TypeError", "ordering with None")
        if any(isinstance(x, Seq) and x.f["dtype"] == "object" for x in (a, b)):
            raise Unsupported("object array comparison")
        return ew(eng, lambda x, y: compare(eng, op, x, y), [a, b])
    if op in ("Eq", "NotEq"):
        r = equal(eng, a, b)
        return r if op == "Eq" else S.not_(r)
    if a is None or b is None:
        eng.raise_("TypeError", "ordering with None")
    if isinstance(a, str) and isinstance(b, str):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if isinstance(a, Opq) or isinstance(b, Opq):
        return Sc("b", z3.Bool("cmp:%s:%s:%s" % (op, vkey_(a), vkey_(b))))
    if isinstance(a, Seq) or isinstance(b, Seq):
        if S.is_num(a) or S.is_num(b):
            eng.raise_("TypeError", "ordering of list and number")
    raise Unsupported("comparison %s of %r and %r" % (op, a, b))


def is_same(eng, a, b):
    if a is b:
        return True
    if isinstance(a, (bool,)) and isinstance(b, bool):
        return a == b
    if isinstance(b, bool) and isinstance(a, Sc) and a.kind == "b":
        return a if b else S.not_(a)
    if a is None or b is None:
        x = a if b is None else b
        if isinstance(x, Opq) and not isinstance(x, OStr):
            if x.tag and x.tag[0] in ("obj", "method", "ret", "callable", "typed", "settings", "dims"):
                return False
            return Sc("b", z3.Bool("isnone:" + x.key()))
        return False
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    I = _I()
    if isinstance(a, I.BoundM) and isinstance(b, I.BoundM):
        return False
    if S.is_num(a) and S.is_num(b):
        if S.is_conc(a) and S.is_conc(b):
            return a == b and type(a) is type(b)
        raise Unsupported("identity of numbers")
    return False


def equal(eng, a, b):
    I = _I()
    if a is b:
        return True
    if a is None or b is None:
        if isinstance(a, Opq) or isinstance(b, Opq):
            return is_same(eng, a, b)
        return False
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (str, OStr)) and isinstance(b, (str, OStr)) or isinstance(a, Opq) and isinstance(b, Opq):
        ka, kb = sorted([vkey_(a), vkey_(b)])
        if ka == kb:
            return True
        return Sc("b", z3.Bool("eq:%s:%s" % (ka, kb)))
    if isinstance(a, Opq) or isinstance(b, Opq):
        return Sc("b", z3.Bool("eq:%s:%s" % (vkey_(a), vkey_(b))))
    if isinstance(a, I.BoundM) and isinstance(b, I.BoundM):
        return a.func is b.func and a.self_ is b.self_
    if isinstance(a, Obj):
        m, _ = a.cls.find("__eq__")
        if m is not None:
            return eng.call_func(m, [a, b], {})
        return False
    if isinstance(a, MatObj) and isinstance(b, MatObj):
        if a.kind == "qobj":
            return Sc("b", z3.Bool("qeq:%s:%s" % tuple(sorted((a.f["lc"].key(), b.f["lc"].key())))))
    if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind:
        if a.f["items"] is not None and b.f["items"] is not None:
            if len(a.f["items"]) != len(b.f["items"]):
                return False
            r = True
            for x, y in zip(a.f["items"], b.f["items"]):
                r = S.and_(r, equal(eng, x, y) if not (S.is_num(x) and S.is_num(y)) else S.cmp("==", x, y))
            return r
        if not eng.branch(S.cmp("==", a.f["shape"][0], b.f["shape"][0])):
            return False
        return quant(eng, ew(eng, lambda x, y: S.cmp("==", x, y), [a, b]), False)
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        raise Unsupported("dict equality")
    return False


def contains(eng, a, c):
    if isinstance(c, PyDict):
        return eng.hkey(a) in c.f["items"]
    if isinstance(c, str):
        if isinstance(a, str):
            return a in c
        raise Unsupported("substring test")
    if isinstance(c, Seq):
        if c.f["items"] is None:
            raise Unsupported("membership in symbolic list")
        r = False
        for x in c.f["items"]:
            r = S.or_(r, compare(eng, "Eq", a, x))
        return r
    if isinstance(c, Obj):
        m, _ = c.cls.find("__contains__")
        if m is not None:
            return eng.truth(eng.call_func(m, [c, a], {}))
    if isinstance(c, Opq):
        return Sc("b", z3.Bool("in:%s:%s" % (vkey_(a), vkey_(c))))
    raise Unsupported("in %r" % (c,))


def and2(eng, a, b):
    if S.is_num(a) and S.is_num(b):
        return S.and_(a, b)
    raise Unsupported("chained comparison of arrays")


def invert(eng, v):
    if isinstance(v, Sc) and v.kind == "b" or isinstance(v, bool):
        return S.not_(v)
    if isinstance(v, Seq):
        return ew(eng, S.not_, [v])
    raise Unsupported("~")


# ---------------------------------------------------------------- subscripts
def norm_index(eng, i, n, what="list"):
    """bounds check + negative normalisation"""
    if S.is_num(i) and S.kind(i) == "r":
        eng.raise_("TypeError" if what != "ndarray" else "IndexError", "index must be integer")
    if not S.is_num(i):
        if i is None and what != "ndarray" or isinstance(i, str):
            eng.raise_("TypeError", "bad index")
        raise Unsupported("index %r" % (i,))
    i = s_int(eng, i)
    if S.is_conc(i) and i < 0:
        r = S.add(n, i)
        if not eng.branch(S.cmp(">=", r, 0)):
            eng.raise_("IndexError", "index out of range")
        return r
    if S.is_conc(i):
        if not eng.branch(S.cmp("<", i, n)):
            eng.raise_("IndexError", "index out of range")
        return i
    if not eng.branch(S.and_(S.cmp(">=", i, 0), S.cmp("<", i, n))):
        if eng.branch(S.and_(S.cmp("<", i, 0), S.cmp(">=", S.add(i, n), 0))):
            return S.add(i, n)
        eng.raise_("IndexError", "index out of range")
    return i


def slice_range(eng, sl, n):
    """-> (start, length) for step 1 slices"""
    _, lo, hi, st = sl
    if st is not None and not (S.is_conc(st) and st == 1):
        if S.is_conc(st) and st == -1 and lo is None and hi is None:
            return "rev", n
        raise Unsupported("slice step")

    def clampi(x, dflt):
        if x is None:
            return dflt
        if S.is_conc(x) and x < 0:
            y = S.add(n, x)
            return S.ite(S.cmp(">=", y, 0), y, 0) if not eng.valid(S.cmp(">=", y, 0)) else y
        if eng.valid(S.and_(S.cmp(">=", x, 0), S.cmp("<=", x, n))):
            return x
        if not S.is_conc(x) and not eng.valid(S.cmp(">=", x, 0)):
            x = S.ite(S.cmp(">=", x, 0), x, S.ite(S.cmp(">=", S.add(x, n), 0), S.add(x, n), 0))
        return S.ite(S.cmp("<=", x, n), x, n)
    a, b = clampi(lo, 0), clampi(hi, n)
    ln = S.sub(b, a)
    if not eng.valid(S.cmp(">=", ln, 0)):
        ln = S.ite(S.cmp(">=", ln, 0), ln, 0)
    return a, ln


def is_slice(ix):
    return isinstance(ix, tuple) and len(ix) == 4 and ix[0] == "slice"


def is_tup(ix):
    return isinstance(ix, tuple) and len(ix) == 2 and ix[0] == "tuple"


def mapped(eng, o, ixs):
    """index list -> (result shape, fn(ix)->full index)"""
    shp = o.f["shape"] if isinstance(o, Seq) else shape_of(o)
    nn = sum(i is not None for i in ixs)
    if nn > len(shp):
        if not all(i is None or is_slice(i) or S.is_num(i) for i in ixs):
            raise Unsupported("indices %r" % (ixs,))
        eng.raise_("IndexError", "too many indices")
    ixs = list(ixs) + [("slice", None, None, None)] * (len(shp) - nn)
    rs, fns = [], []
    dims = iter(shp)
    for i in ixs:
        if i is None:
            rs.append(1)
            continue
        d = next(dims)
        if is_slice(i):
            a, ln = slice_range(eng, i, d)
            k = len(rs)
            if a == "rev" if isinstance(a, str) else False:
                fns.append(lambda ix, k=k, d=d: S.sub(S.sub(d, 1), ix[k]))
            else:
                fns.append(lambda ix, k=k, a=a: S.add(a, ix[k]))
            rs.append(ln)
        elif i is None or isinstance(i, Seq):
            raise Unsupported("fancy indexing")
        else:
            j = norm_index(eng, i, d, "ndarray")
            fns.append(lambda ix, j=j: j)
    return tuple(rs), lambda ix: tuple(f(ix) for f in fns)


def getitem(eng, o, ix):
    if isinstance(o, Poison):
        raise Unsupported("subscript of undetermined value")
    if isinstance(o, PyDict):
        k = eng.hkey(ix if not is_tup(ix) else Seq(eng, "tuple", items=ix[1]))
        if k not in o.f["items"]:
            eng.raise_("KeyError", str(k))
        return o.f["items"][k]
    if isinstance(o, str):
        if is_slice(ix):
            if all(x is None or S.is_conc(x) for x in ix[1:]):
                return o[slice(*ix[1:])]
        elif isinstance(ix, int):
            if -len(o) <= ix < len(o):
                return o[ix]
            eng.raise_("IndexError", "string index")
        raise Unsupported("string subscript")
    if isinstance(o, Opq):
        if isinstance(o, OStr):
            return OStr("sub", o, ix)
        return Opq("getitem", o, ix)
    if isinstance(o, MatObj):
        return mat_getitem(eng, o, ix)
    if isinstance(o, Seq):
        if isinstance(ix, Seq) and ix.kind == "tuple" and o.kind == "ndarray":
            ix = ("tuple", list(ix.f["items"]))
        if o.kind == "ndarray":
            if isinstance(ix, Seq):
                if ix.f["dtype"] == "bool":
                    g = eng.snapshot(o)
                    return MaskSel(g, eng.snapshot(ix))
                if ix.kind in ("list", "ndarray") and len(o.f["shape"]) == 1:
                    g, gi = eng.snapshot(o), eng.snapshot(ix)
                    return new_arr(eng, ix.f["shape"], lambda jx: g((gi(jx),)), o.f["dtype"])
                raise Unsupported("fancy indexing")
            ixs = ix[1] if is_tup(ix) else [ix]
            rs, fn = mapped(eng, o, ixs)
            if not rs:
                return eng.sget(o, fn(()))
            r = Seq(eng, "ndarray", shape=rs, base=None, dtype=o.f["dtype"])
            r.view = (o, fn)
            return r
        if is_slice(ix):
            if o.f["items"] is not None and all(x is None or S.is_conc(x) for x in ix[1:]):
                return Seq(eng, o.kind, items=o.f["items"][slice(*[None if x is None else int(x) for x in ix[1:]])])
            a, ln = slice_range(eng, ix, o.f["shape"][0])
            g = eng.snapshot(o)
            if isinstance(a, str):
                n = o.f["shape"][0]
                return Seq(eng, o.kind, shape=(n,), base=lambda jx: g((S.sub(S.sub(n, 1), jx[0]),)), dtype=o.f["dtype"])
            return Seq(eng, o.kind, shape=(ln,), base=lambda jx: g((S.add(a, jx[0]),)), dtype=o.f["dtype"])
        if is_tup(ix) or isinstance(ix, (str,)) or ix is None:
            eng.raise_("TypeError", "list indices must be integers")
        i = norm_index(eng, ix, o.f["shape"][0], "list")
        return eng.sget(o, (i,))
    if isinstance(o, Obj):
        m, _ = o.cls.find("__getitem__")
        if m is not None:
            return eng.call_func(m, [o, ix], {})
        eng.raise_("TypeError", "not subscriptable")
    if o is None or S.is_num(o):
        eng.raise_("TypeError", "object is not subscriptable")
    if isinstance(o, MaskSel):
        raise Unsupported("subscript of mask selection")
    raise Unsupported("subscript of %r" % (o,))


def mat_getitem(eng, o, ix):
    shp = shape_of(o)
    w = _single(o.f["lc"])
    if is_tup(ix) and w is not None and w.name == "block22" and all(is_slice(i) for i in ix[1]):
        n = S.floordiv(shp[0], 2)

        def half(sl):
            if sl[1] is None and sl[2] is not None and eng.valid(S.cmp("==", S.mul(2, sl[2]), shp[0])):
                return 0
            if sl[2] is None and sl[1] is not None and eng.valid(S.cmp("==", S.mul(2, sl[1]), shp[0])):
                return 1
            if sl[1] is not None and sl[2] is not None and S.is_conc(sl[1]) and sl[1] == 0 and eng.valid(S.cmp("==", S.mul(2, sl[2]), shp[0])):
                return 0
            if sl[1] is not None and sl[2] is not None and eng.valid(S.and_(S.cmp("==", S.mul(2, sl[1]), shp[0]), S.cmp("==", sl[2], shp[0]))):
                return 1
            raise Unsupported("block slice")
        r, c = half(ix[1][0]), half(ix[1][1])
        return MatObj(eng, w.args[2 * r + c], o.kind, (n, n))
    if is_tup(ix) and len(ix[1]) == 2 and not any(is_slice(i) for i in ix[1]):
        i = norm_index(eng, ix[1][0], shp[0], "ndarray")
        j = norm_index(eng, ix[1][1], shp[1], "ndarray")
        return MT.elt(o.f["lc"], i, j)
    if isinstance(ix, Seq) and ix.f["dtype"] == "bool":
        return MaskSel(elem(eng, o), eng.snapshot(ix))
    if o.kind == "nd":
        ixs = ix[1] if is_tup(ix) else [ix]
        rs, fn = mapped(eng, o, ixs)
        r = Seq(eng, "ndarray", shape=rs, base=None, dtype="complex")
        r.view = (o, fn)
        return r
    raise Unsupported("matrix subscript")


def setitem(eng, o, ix, v):
    if isinstance(o, PyDict):
        k = eng.hkey(ix if not is_tup(ix) else Seq(eng, "tuple", items=ix[1]))
        d = dict(o.f["items"])
        d[k] = v
        eng.write(o, "items", d)
        return
    if isinstance(o, MatObj):
        raise Unsupported("element assignment into an abstract matrix")
    if isinstance(o, Seq):
        if o.kind == "tuple":
            eng.raise_("TypeError", "tuple does not support item assignment")
        if o.kind == "ndarray":
            if isinstance(ix, Seq) and ix.f["dtype"] == "bool":
                mask = eng.snapshot(ix)
                if isinstance(v, MaskSel):
                    pr = tuple(Sc("i", z3.Int("!ms%d" % i)) for i in range(len(o.f["shape"])))
                    if MT.skey(mask(pr)) != MT.skey(v.mask(pr)):
                        raise Unsupported("mask assignment with a different mask")
                    eng.sset(o, mask, v.fn)
                elif S.is_num(v):
                    v = coerce(o, v)
                    eng.sset(o, mask, lambda jx: v)
                else:
                    raise Unsupported("mask assignment of array")
                return
            ixs = ix[1] if is_tup(ix) else [ix]
            if all(not is_slice(i) for i in ixs) and len(ixs) == len(o.f["shape"]):
                full = tuple(norm_index(eng, i, d, "ndarray") for i, d in zip(ixs, o.f["shape"]))
                if isinstance(v, Seq) and o.f["dtype"] != "object":
                    eng.raise_("ValueError", "setting an array element with a sequence")
                eng.sset_at(o, full, coerce(o, v))
                return
            set_region(eng, o, ixs, v)
            return
        if is_slice(ix):
            raise Unsupported("list slice assignment")
        i = norm_index(eng, ix, o.f["shape"][0], "list")
        eng.sset_at(o, (i,), v)
        return
    if isinstance(o, Opq):
        eng.events_add(("setitem", o, ix, v))
        return
    if isinstance(o, Obj):
        m, _ = o.cls.find("__setitem__")
        if m is not None:
            eng.call_func(m, [o, ix, v], {})
            return
    if o is None:
        eng.raise_("TypeError", "object does not support item assignment")
    raise Unsupported("item assignment into %r" % (o,))


def coerce(o, v):
    if o.f["dtype"] == "float" and S.is_num(v) and not isinstance(v, Cx):
        return S.to_real(v) if not S.is_inf(v) else v
    return v


def set_region(eng, o, ixs, v):
    if o.view is not None:
        base, bfn = o.view
        raise Unsupported("region write through a view")
    shp = o.f["shape"]
    ixs = list(ixs) + [("slice", None, None, None)] * (len(shp) - len(ixs))
    conds, rel, rs = [], [], []
    for k, (i, d) in enumerate(zip(ixs, shp)):
        if is_slice(i):
            a, ln = slice_range(eng, i, d)
            if isinstance(a, str):
                raise Unsupported("reversed region")
            conds.append(lambda ix, k=k, a=a, ln=ln: S.and_(S.cmp(">=", ix[k], a), S.cmp("<", ix[k], S.add(a, ln))))
            rel.append(lambda ix, k=k, a=a: S.sub(ix[k], a))
            rs.append(ln)
        else:
            j = norm_index(eng, i, d, "ndarray")
            conds.append(lambda ix, k=k, j=j: S.cmp("==", ix[k], j))

    def guard(ix):
        c = True
        for f in conds:
            c = S.and_(c, f(ix))
        return c
    if isinstance(v, (Seq, MatObj)):
        if isinstance(v, Seq) and v.kind != "ndarray":
            v = to_array(eng, v)
        vs = shape_of(v)
        bs = bshape(eng, [tuple(rs), vs]) if rs else ()
        for x, y in zip(bs, rs):
            if not eng.branch(S.cmp("==", x, y)):
                eng.raise_("ValueError", "could not broadcast into shape")
        g = elem(eng, v)
        off = len(rs) - len(vs)

        def val(ix):
            r = [f(ix) for f in rel][off:]
            r = tuple(0 if S.is_conc(d) and d == 1 else x for x, d in zip(r, vs))
            return coerce(o, g(r))
    elif S.is_num(v):
        vv = coerce(o, v)

        def val(ix):
            return vv
    else:
        raise Unsupported("region write of %r" % (v,))
    eng.sset(o, guard, val)


# ---------------------------------------------------------------- builtins
def b_len(eng, a, k):
    v = a[0]
    if isinstance(v, Seq):
        if not v.f["shape"]:
            eng.raise_("TypeError", "len() of unsized object")
        return v.f["shape"][0]
    if isinstance(v, MatObj):
        if v.kind == "nd":
            return shape_of(v)[0]
        eng.raise_("TypeError", "Qobj has no len()")
    if isinstance(v, PyDict):
        return len(v.f["items"])
    if isinstance(v, str):
        return len(v)
    if isinstance(v, Obj):
        m, _ = v.cls.find("__len__")
        if m is not None:
            return eng.call_func(m, [v], {})
    if isinstance(v, Opq):
        r = Sc("i", z3.Int("len:" + v.key()))
        eng.fact(r.e >= 0)
        return r
    if v is None or S.is_num(v):
        eng.raise_("TypeError", "object has no len()")
    raise Unsupported("len of %r" % (v,))


def b_range(eng, a, k):
    I = _I()
    for x in a:
        if not S.is_num(x) or S.kind(x) not in "ib":
            eng.raise_("TypeError", "range of non-integer")
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if S.is_conc(lo) and S.is_conc(hi) and S.is_conc(st):
        r = range(lo, hi, st)
        return I.IterV(len(r), lambda t: r[t] if S.is_conc(t) else S.add(lo, S.mul(st, t)))
    if S.is_conc(st) and st == 1:
        n = S.sub(hi, lo)
        if not eng.valid(S.cmp(">=", n, 0)):
            n = S.ite(S.cmp(">=", n, 0), n, 0)
        return I.IterV(n, lambda t: S.add(lo, t))
    if S.is_conc(st) and st == -1:
        n = S.sub(lo, hi)
        if not eng.valid(S.cmp(">=", n, 0)):
            n = S.ite(S.cmp(">=", n, 0), n, 0)
        return I.IterV(n, lambda t: S.sub(lo, t))
    raise Unsupported("range step")


def b_enumerate(eng, a, k):
    I = _I()
    it = eng.iterate(a[0])
    s = a[1] if len(a) > 1 else k.get("start", 0)
    return I.IterV(it.n, lambda t: Seq(eng, "tuple", items=[S.add(s, t), it.item(t)]), it.conc)


def b_zip(eng, a, k):
    I = _I()
    its = [eng.iterate(x) for x in a]
    n = its[0].n
    for x in its[1:]:
        if eng.valid(S.cmp("==", n, x.n)):
            continue
        n = S.ite(S.cmp("<=", n, x.n), n, x.n)
    return I.IterV(n, lambda t: Seq(eng, "tuple", items=[x.item(t) for x in its]), all(x.conc for x in its))


def b_reversed(eng, a, k):
    I = _I()
    it = eng.iterate(a[0])
    return I.IterV(it.n, lambda t: it.item(S.sub(S.sub(it.n, 1), t)), it.conc)


def b_abs(eng, a, k):
    if isinstance(a[0], Opq):
        return Opq("abs", a[0])
    return ew(eng, lambda v: s_abs(eng, v), [a[0]])


def b_minmax(mx):
    def f(eng, a, k):
        if len(a) == 1:
            if isinstance(a[0], Seq):
                return extremum(eng, a[0], mx)
            it = eng.iterate(a[0])
            a = [it.item(i) for i in range(int(it.n))]
        r = a[0]
        for x in a[1:]:
            r = S.ite(S.cmp(">" if mx else "<", x, r), x, r)
        return r
    return f


def b_sum(eng, a, k):
    v = a[0]
    if isinstance(v, Seq):
        r = sum_all(eng, v if len(v.f["shape"]) == 1 else to_array(eng, v)) if len(v.f["shape"]) == 1 else None
        if r is None:
            raise Unsupported("sum of 2D")
        if len(a) > 1:
            r = binop(eng, "Add", a[1], r)
        return r
    it = eng.iterate(v)
    if S.is_conc(it.n):
        r = a[1] if len(a) > 1 else 0
        for i in range(int(it.n)):
            r = binop(eng, "Add", r, it.item(i))
        return r
    p = probe(eng, lambda ix: it.item(ix[0]), (it.n,))
    if S.is_num(p):
        return S.add(a[1] if len(a) > 1 else 0, eng.ssum(0, it.n, lambda t: it.item(t)))
    raise Unsupported("sum")


def b_hasattr(eng, a, k):
    o, n = a
    if isinstance(o, MatObj) or isinstance(o, Seq) or S.is_num(o) or isinstance(o, (str, PyDict)) or o is None:
        try:
            m = eng.mark()
            attr_of(eng, o, n)
            return True
        except PyExc:
            return False
    v = eng.getattr_(o, n, MISSING_S)
    return v is not MISSING_S


class _MS:
    pass


MISSING_S = _MS()


def b_getattr(eng, a, k):
    if len(a) > 2:
        return eng.getattr_(a[0], a[1], a[2])
    return eng.getattr_(a[0], a[1])


def b_setattr(eng, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("setattr with symbolic name")
    eng.setattr_(a[0], a[1], a[2])


def b_isinstance(eng, a, k):
    return isinst(eng, a[0], a[1])


def b_callable(eng, a, k):
    I = _I()
    return isinstance(a[0], (I.FuncV, I.BoundM, I.LibFn, I.ClassInfo)) or (isinstance(a[0], Opq) and a[0].tag[0] == "callable")


def b_issubclass(eng, a, k):
    return a[0].issub(a[1])


def b_print(eng, a, k):
    return None


def b_round(eng, a, k):
    return Opq("round", *a) if not S.is_num(a[0]) else ufun("round", a[0])


def b_open(eng, a, k):
    names = ["file", "mode"]
    f, mode = getkw(a, k, names, [None, "r"])
    eng.events_add(("open", f, mode))
    ok = Sc("b", z3.Bool("open_ok(%s,%s)@%d" % (vkey_(f), vkey_(mode), len(eng.events.f["log"]))))
    if not getattr(eng, "open_always_ok", True):
        if not eng.branch(ok):
            eng.raise_("OSError", "open failed")
    return Opq("obj", "file", f, mode)


def b_map(eng, a, k):
    I = _I()
    it = eng.iterate(a[1])
    return I.IterV(it.n, lambda t: eng.call(a[0], [it.item(t)]), it.conc)


def b_sorted(eng, a, k):
    it = eng.iterate(a[0])
    if S.is_conc(it.n):
        xs = [it.item(i) for i in range(int(it.n))]
        if all(isinstance(x, str) for x in xs) or all(S.is_conc(x) for x in xs):
            if not k:
                return Seq(eng, "list", items=sorted(xs))
    raise Unsupported("sorted")


def b_dir(eng, a, k):
    raise Unsupported("dir()")


BUILTINS = {
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "reversed": b_reversed, "abs": b_abs,
    "max": b_minmax(True), "min": b_minmax(False), "sum": b_sum, "hasattr": b_hasattr, "getattr": b_getattr,
    "setattr": b_setattr, "isinstance": b_isinstance, "callable": b_callable, "issubclass": b_issubclass, "print": b_print,
    "format": lambda e, a, k: fmtval(e, a[0], a[1] if len(a) > 1 else ""), "round": b_round, "open": b_open, "map": b_map, "sorted": b_sorted, "dir": b_dir,
    "any": lambda e, a, k: quant(e, a[0], True), "all": lambda e, a, k: quant(e, a[0], False),
    "vars": lambda e, a, k: PyDict(e, a[0].f), "id": opq_fn("id"), "repr": lambda e, a, k: OStr("repr", *a),
    "pow": lambda e, a, k: binop(e, "Pow", a[0], a[1]),
}
BTYPES = {"int", "float", "bool", "str", "complex", "list", "tuple", "dict", "set", "object", "type"}


def builtin(eng, n):
    I = _I()
    if n in BTYPES:
        return tv(n)
    if n in BUILTINS:
        return I.LibFn(n, eng.libhooks.get("builtins." + n, BUILTINS[n]))
    h = eng.specfns.get(n)
    if h is not None:
        return I.LibFn(n, h)
    if n == "NotImplemented":
        return Opq("obj", "NotImplemented")
    if n == "__name__":
        return "module"
    return None


_LOGM = {"debug", "info", "warn", "warning", "error", "critical", "log", "exception", "setLevel"}


def dropped_call(eng, call, fr):
    """logger.xxx(...) and warnings.xxx(...) statements: their output is not
    part of any property"""
    if not isinstance(call, ast.Call) or not isinstance(call.func, ast.Attribute):
        return False
    v = call.func.value
    if isinstance(v, ast.Name) and v.id == "logger" and call.func.attr in _LOGM:
        return True
    if isinstance(v, ast.Name) and v.id == "warnings" and call.func.attr in ("warn", "filterwarnings", "simplefilter"):
        return True
    return False
