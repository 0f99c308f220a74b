"""Structural equality of symbolic values: proved / refuted / unknown."""
from fractions import Fraction
import z3
from . import scal as S, mat as MT
from .scal import Sc, Cx, Unsupported
from .core import Obj, Seq, MatObj, PyDict, Heap, Opq, OStr, Poison, MISSING, PyExc, Pruned, NeedTemplate, AnyV


def live(v):
    return not isinstance(v, Poison)


def worst(a, b):
    for s in ("refuted", "unknown"):
        if a[0] == s:
            return a
        if b[0] == s:
            return b
    return a


def eq_val(eng, a, b, seen=None):
    """a: obtained value, b: specified value"""
    seen = seen or set()
    if a is b or isinstance(b, AnyV) or isinstance(a, AnyV):
        return "proved", ""
    if isinstance(a, Poison) or isinstance(b, Poison):
        return "unknown", "undetermined value"
    if a is MISSING or b is MISSING:
        return "refuted", "attribute present on one side only"
    if S.is_num(a) and S.is_num(b):
        try:
            c = S.cmp("==", a, b)
        except Unsupported as e:
            return "unknown", str(e)
        st, det = eng.prove(c)
        return st, ("got %s, specified %s; %s" % (short(a), short(b), det) if st != "proved" else "")
    if isinstance(a, str) and isinstance(b, str):
        return ("proved", "") if a == b else ("refuted", "%r != %r" % (a, b))
    if isinstance(a, (Seq, MatObj)) and isinstance(b, (Seq, MatObj)):
        return eq_container(eng, a, b, seen)
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        if ("d", a.serial, b.serial) in seen:
            return "proved", ""
        seen = seen | {("d", a.serial, b.serial)}
        ka, kb = a.f["items"], b.f["items"]
        if set(ka) != set(kb):
            return "refuted", "dict keys %s / %s" % (sorted(map(str, ka)), sorted(map(str, kb)))
        r = ("proved", "")
        for k in ka:
            r = worst(r, eq_val(eng, ka[k], kb[k], seen))
        return r
    if isinstance(a, Opq) and isinstance(b, Opq):
        if a.key() == b.key():
            return "proved", ""
        if a.tag[0] == "dims" and b.tag[0] == "dims":
            return "refuted", "dimensions %s / %s" % (a.key(), b.key())
        if len(a.tag) == len(b.tag):
            r = ("proved", "")
            for x, y in zip(a.tag, b.tag):
                r = worst(r, eq_val(eng, x, y, seen))
            if r[0] == "proved":
                return r
        return "unknown", "%s / %s" % (a.key()[:200], b.key()[:200])
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return "refuted", "length"
        if a and a[0] == "loopev" and b[0] == "loopev":
            r = eq_val(eng, a[1], b[1], seen)
            t = z3.FreshInt("ev")
            tv = Sc("i", t)

            def one():
                eng.assume(S.and_(S.cmp(">=", tv, 0), S.cmp("<", tv, a[1])))
                return eq_val(eng, tuple(a[2](tv)), tuple(b[2](tv)), seen)
            eng.loopvars.append(t)
            try:
                for o in eng.explore(one):
                    r = worst(r, o.value if o.kind != "raise" else ("unknown", "event raises"))
            finally:
                eng.loopvars.pop()
            return r
        r = ("proved", "")
        for x, y in zip(a, b):
            r = worst(r, eq_val(eng, x, y, seen))
        return r
    if isinstance(a, Obj) and isinstance(b, Obj):
        if (a.serial, b.serial) in seen:
            return "proved", ""
        m = getattr(eng, "pre_serial", None)
        if m is not None and (a.serial <= m or b.serial <= m):
            return "refuted", "different objects"
        if a.cls is not b.cls:
            return "refuted", "class %s / %s" % (a.cls.name, b.cls.name)
        seen = seen | {(a.serial, b.serial)}
        r = ("proved", "")
        for k in set(a.f) | set(b.f):
            if k == "args":
                continue
            r = worst(r, eq_val(eng, a.f.get(k, MISSING), b.f.get(k, MISSING), seen))
            if r[0] == "refuted":
                return r[0], "%s: %s" % (k, r[1])
        return r
    from .interp import FuncV, BoundM
    if isinstance(a, BoundM) and isinstance(b, BoundM):
        if a.func is b.func and a.self_ is b.self_:
            return "proved", ""
        return "refuted", "different methods %s / %s" % (a.func, b.func)
    if isinstance(a, FuncV) and isinstance(b, FuncV) and (a.name == "<lambda>" or a.closure or b.closure):
        return "unknown", "closures"
    if isinstance(a, Opq) or isinstance(b, Opq):
        x, y = (a, b) if isinstance(a, Opq) else (b, a)
        if x.tag[:2] == ("typed", "value") and not isinstance(y, Opq) and (
                y is None or isinstance(y, (str, bool, int, float, Fraction, Obj))):
            # an arbitrary argument value against a fixed one
            return "refuted", "got %s, specified %s" % (short(a), short(b))
        return "unknown", "opaque / %s" % short(b)
    return "refuted", "got %s, specified %s" % (short(a), short(b))


def short(v):
    return repr(v)[:160]


def _shape(v):
    if isinstance(v, Seq):
        return v.f["shape"]
    return v.shape


def eq_container(eng, a, b, seen):
    ka = "ndarray" if isinstance(a, MatObj) and a.kind == "nd" else a.kind
    kb = "ndarray" if isinstance(b, MatObj) and b.kind == "nd" else b.kind
    if ka != kb:
        if {ka, kb} <= {"list", "tuple"}:
            return "unknown", "list/tuple"
        return "refuted", "kind %s / %s" % (ka, kb)
    if isinstance(a, MatObj) and isinstance(b, MatObj):
        ok = eng.eq_lc(a.f["lc"], b.f["lc"])
        if ok:
            if a.kind == "qobj" and a.dims is not None and b.dims is not None:
                return eq_val(eng, a.dims, b.dims, seen)
            return "proved", ""
        return "refuted", "matrix %s  /  specified %s" % (a.f["lc"].key()[:400], b.f["lc"].key()[:400])
    sa, sb = _shape(a), _shape(b)
    if sa is not None and sb is not None:
        if len(sa) != len(sb):
            return "refuted", "dimension %s / %s" % (sa, sb)
        for x, y in zip(sa, sb):
            st, det = eng.prove(S.cmp("==", x, y))
            if st != "proved":
                return st, "length %s / %s %s" % (short(x), short(y), det[:300])
    if isinstance(a, Seq) and isinstance(b, Seq):
        da, db = a.f["dtype"], b.f["dtype"]
        if da and db and da != db and "object" in (da, db):
            return "unknown", "dtype %s / %s" % (da, db)
        ia = a.f["items"] if a.view is None else None
        ib = b.f["items"] if b.view is None else None
        if ia is not None and ib is not None:
            r = ("proved", "")
            for i, (x, y) in enumerate(zip(ia, ib)):
                r1 = eq_val(eng, x, y, seen)
                if r1[0] != "proved":
                    r1 = (r1[0], "[%d]: %s" % (i, r1[1]))
                r = worst(r, r1)
            return r
    shp = sa if sa is not None else sb
    if shp is None:
        return "unknown", "shape"
    if any(S.is_conc(d) and d == 0 for d in shp):
        return "proved", ""
    ix = tuple(Sc("i", z3.FreshInt("ix")) for _ in shp)

    def get(v):
        if isinstance(v, MatObj):
            return MT.elt(v.f["lc"], *ix)
        return eng.sget(v, ix)

    def th():
        for x, d in zip(ix, shp):
            eng.assume(S.and_(S.cmp(">=", x, 0), S.cmp("<", x, d)))
        x, y = get(a), get(b)
        return eq_val(eng, x, y, seen)
    r = ("proved", "")
    for o in eng.explore(th):
        if o.kind != "normal":
            return "unknown", "comparison raised"
        v = o.value
        if v[0] != "proved":
            v = (v[0], "at index %s: %s" % ([str(x.e) for x in ix], v[1]))
        r = worst(r, v)
    return r
