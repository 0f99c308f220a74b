"""Abstract matrices: linear combinations of words over atoms, in normal form
of the free *-algebra (associativity, distributivity, scalars extracted,
adjoints pushed to atoms, identity removed).  Dimension-compatibility is the
caller's (trusted) concern; no commutativity is ever assumed."""
import z3
from . import scal as S
from .scal import Sc, Cx, Unsupported

M = z3.DeclareSort("Mat")


class At:
    """atom: name(args); args are scalars, LCs, strings, or Elt closures"""
    __slots__ = ("name", "args", "_k")

    def __init__(self, name, *args):
        self.name = name
        self.args = args
        self._k = None

    def key(self):
        if self._k is None:
            self._k = "%s(%s)" % (self.name, ",".join(akey(a) for a in self.args))
        return self._k

    def __repr__(self):
        return self.key()


ENG = None


class Elts:
    """matrix given elementwise: fn(i,j)->scalar, as atom argument"""
    _b = (z3.Int("!b0"), z3.Int("!b1"))

    def __init__(self, fn, shp=None):
        self.fn = fn
        self.shp = shp
        self._k = None

    def bounds(self, i, j):
        c = [i >= 0, j >= 0]
        if self.shp is not None:
            c += [i < S.zi(self.shp[0]), j < S.zi(self.shp[1])]
        return z3.And(c)

    def key(self):
        if self._k is None:
            th = lambda: self.fn(*[Sc("i", b) for b in self._b])
            v = ENG.scoped(list(self._b), Sc("b", self.bounds(*self._b)), th) if self.shp is not None and ENG is not None else th()
            self._k = "elts[%s]" % skey(v)
        return self._k


def skey(v):
    if isinstance(v, Sc):
        return v.e.sexpr()
    if isinstance(v, Cx):
        return "(%s|%s)" % (skey(v.re), skey(v.im))
    return str(v)


def akey(a):
    if isinstance(a, LC):
        return a.key()
    if isinstance(a, (At, Elts, Body)):
        return a.key()
    return skey(a)


class Body:
    """summand of a matrix sum: fn(t) -> LC"""

    def __init__(self, fn):
        self.fn = fn
        self._k = None

    def probe(self):
        return self.fn(Sc("i", z3.Int("!mb%d" % _bd[0])))

    def key(self):
        if self._k is None:
            _bd[0] += 1
            try:
                self._k = "body[%s]" % self.fn(Sc("i", z3.Int("!mb%d" % (_bd[0] - 1)))).key()
            finally:
                _bd[0] -= 1
        return self._k


_bd = [0]


class LC:
    """linear combination: {wordkey: (word, coeff)}; word = tuple of At"""
    __slots__ = ("t", "_k")

    def __init__(self, terms=None):
        self.t = terms or {}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = "{" + "+".join(
                "%s*%s" % (skey(self.t[k][1]), k) for k in sorted(self.t)) + "}"
        return self._k

    def terms(self):
        return list(self.t.values())

    def __repr__(self):
        return self.key()


def wkey(w):
    return ".".join(a.key() for a in w) or "1"


def is_zero(c):
    if isinstance(c, Cx):
        return is_zero(c.re) and is_zero(c.im)
    return S.is_conc(c) and c == 0


def build(pairs):
    t = {}
    for w, c in pairs:
        k = wkey(w)
        if k in t:
            c = S.add(t[k][1], c)
        if is_zero(c):
            t.pop(k, None)
        else:
            if isinstance(c, Cx) and S.is_conc(c.im) and c.im == 0:
                c = c.re
            t[k] = (w, c)
    return LC(t)


ZERO = LC()
ONE = build([((), 1)])


def atom(name, *args):
    return build([((At(name, *args),), 1)])


def add(a, b):
    return build(a.terms() + b.terms())


def scale(c, a):
    return build([(w, S.mul(c, x)) for w, x in a.terms()])


def sub(a, b):
    return add(a, scale(-1, b))


def mul(a, b):
    return build([(_fold(w1 + w2), S.mul(c1, c2)) for w1, c1 in a.terms() for w2, c2 in b.terms()])


def mprod(lo, hi, fn):
    """fn(hi-1) * ... * fn(lo)"""
    if S.is_conc(lo) and S.is_conc(hi):
        r = ONE
        for t in range(lo, hi):
            r = mul(fn(t), r)
        return r
    return atom("mprod", lo, hi, Body(fn))


def mprodr(lo, hi, fn):
    """fn(lo) * ... * fn(hi-1)"""
    if S.is_conc(lo) and S.is_conc(hi):
        r = ONE
        for t in range(lo, hi):
            r = mul(r, fn(t))
        return r
    return atom("mprodr", lo, hi, Body(fn))


def _fold(w):
    """normal form of products of factors: f(hi) * mprod(lo, hi, f) = mprod(lo, hi + 1, f)"""
    if not any(a.name in ("mprod", "mprodr") for a in w):
        return w
    w = list(w)
    i = 0
    while i < len(w):
        a = w[i]
        k = i - 1 if a.name == "mprod" else i + 1
        if a.name in ("mprod", "mprodr") and 0 <= k < len(w):
            lo, hi, b = a.args
            t = b.fn(hi).terms()
            if len(t) == 1 and len(t[0][0]) == 1 and S.is_conc(t[0][1]) and t[0][1] == 1 and t[0][0][0].key() == w[k].key():
                w[i] = At(a.name, lo, S.add(hi, 1), b)
                del w[k]
                i = max(0, i - 1)
                continue
        i += 1
    return tuple(w)


def _star_atom(a, star):
    """star in dag / conj / T"""
    if a.name in ("dag", "conj", "T"):
        inner = a.args[0]
        comb = {("dag", "dag"): None, ("conj", "conj"): None, ("T", "T"): None,
                ("dag", "conj"): "T", ("conj", "dag"): "T",
                ("dag", "T"): "conj", ("T", "dag"): "conj",
                ("conj", "T"): "dag", ("T", "conj"): "dag"}[(a.name, star)]
        return inner if comb is None else At(comb, inner)
    if a.name == "elts":
        fn, shp = a.args[0].fn, a.args[0].shp
        tsh = None if shp is None else (shp[1], shp[0])
        if star == "T":
            return At("elts", Elts(lambda i, j, fn=fn: fn(j, i), tsh))
        if star == "conj":
            return At("elts", Elts(lambda i, j, fn=fn: S.conj(fn(i, j)), shp))
        return At("elts", Elts(lambda i, j, fn=fn: S.conj(fn(j, i)), tsh))
    return At(star, a)


def dag(a):
    return build([(tuple(_star_atom(x, "dag") for x in reversed(w)), S.conj(c)) for w, c in a.terms()])


def conj(a):
    return build([(tuple(_star_atom(x, "conj") for x in w), S.conj(c)) for w, c in a.terms()])


def transp(a):
    return build([(tuple(_star_atom(x, "T") for x in reversed(w)), c) for w, c in a.terms()])


# ---------------------------------------------------------------- z3 side
_mmul = z3.Function("mmul", M, M, M)
_madd = z3.Function("madd", M, M, M)
_mscal = z3.Function("mscal", z3.RealSort(), z3.RealSort(), M, M)
_mone = z3.Const("mone", M)
_mzero = z3.Const("mzero", M)
_intern = {}


def r_atom(a):
    sorts, args = [], []
    for x in a.args:
        if isinstance(x, LC):
            sorts.append(M)
            args.append(r_lc(x))
        elif isinstance(x, At):
            sorts.append(M)
            args.append(r_atom(x))
        elif isinstance(x, Elts):
            sorts.append(M)
            args.append(_r_elts(x))
        elif isinstance(x, Body):
            sorts.append(M)
            args.append(_r_body(x))
        elif isinstance(x, str):
            c = z3.Const("str!" + x, M)
            sorts.append(M)
            args.append(c)
        elif isinstance(x, Cx):
            sorts += [z3.RealSort()] * 2
            args += [S.zr(x.re), S.zr(x.im)]
        else:
            k = S.kind(x)
            if k == "i" or k == "b":
                sorts.append(z3.IntSort())
                args.append(S.zi(x))
            else:
                sorts.append(z3.RealSort())
                args.append(S.zr(x))
    if not sorts:
        return z3.Const("A!" + a.name, M)
    return z3.Function("A!%s!%s" % (a.name, "".join(str(s)[0] for s in sorts)), *sorts, M)(*args)


def _canon(prefix, es, skip):
    """function of the maximal integer terms (not involving bound variables)
    of the expressions: the same function for expressions equal up to these"""
    free, hasb = [], {}

    def bound(e):
        i = e.get_id()
        if i not in hasb:
            hasb[i] = (e, z3.is_var(e) or skip(e) or any([bound(c) for c in e.children()]))
        return hasb[i][1]

    memo = {}

    def walk(e):
        i = e.get_id()
        if i in memo:
            return memo[i][1]
        if e.sort() == z3.IntSort() and not bound(e):
            for c, v in free:
                if c.eq(e):
                    r = v
                    break
            else:
                r = z3.Int("!fr%d" % len(free))
                free.append((e, r))
        elif z3.is_app(e) and e.num_args():
            ch = [walk(c) for c in e.children()]
            r = e.decl()(*ch) if not z3.is_and(e) and not z3.is_or(e) and e.num_args() <= 2 else \
                z3.substitute(e, *[(x, y) for x, y in zip(e.children(), ch) if not x.eq(y)]) if any(not x.eq(y) for x, y in zip(e.children(), ch)) else e
        else:
            r = e
        memo[i] = (e, r)
        return r
    k = prefix + "|".join(walk(e).sexpr() for e in es)
    if k not in _intern:
        _intern[k] = z3.Function("%s!%d" % (prefix, len(_intern)), *([z3.IntSort()] * len(free)), M)
    return _intern[k](*[c for c, v in free])


def _r_elts(x):
    v = x.fn(*[Sc("i", b) for b in Elts._b])
    es = [S.zr(p) for p in ((v.re, v.im) if isinstance(v, Cx) else (v,))]
    return _canon("elts", es, lambda c: any(c.eq(b) for b in Elts._b))


def _r_body(x):
    return _canon("body", [r_lc(x.probe())], lambda c: c.decl().name().startswith("!mb"))


def msum(lo, hi, fn):
    """Sum_{lo<=t<hi} fn(t), fn: scalar -> LC"""
    if S.is_conc(lo) and S.is_conc(hi):
        r = ZERO
        for t in range(lo, hi):
            r = add(r, fn(t))
        return r
    p = Body(fn).probe()
    if not p.t:
        return ZERO
    return atom("msum", lo, hi, Body(fn))


def r_word(w):
    if not w:
        return _mone
    r = r_atom(w[-1])
    for a in reversed(w[:-1]):
        r = _mmul(r_atom(a), r)
    return r


def r_lc(l):
    if not l.t:
        return _mzero
    parts = []
    for k in sorted(l.t):
        w, c = l.t[k]
        z = r_word(w)
        if S.is_conc(c) and c == 1:
            parts.append(z)
        else:
            parts.append(_mscal(S.zr(S.re(c)), S.zr(S.im(c)), z))
    r = parts[-1]
    for p in reversed(parts[:-1]):
        r = _madd(p, r)
    return r


_trre = z3.Function("tr_re", M, z3.RealSort())
_trim = z3.Function("tr_im", M, z3.RealSort())
DIM = z3.Real("dimN")


def _canon_cyc(w):
    """canonical representative of a cyclic word and of its adjoint"""
    def rots(u):
        return [u[i:] + u[:i] for i in range(max(1, len(u)))]
    best = min(rots(w), key=wkey)
    d = tuple(_star_atom(x, "dag") for x in reversed(w))
    bestd = min(rots(d), key=wkey)
    if wkey(bestd) < wkey(best):
        return bestd, True
    return best, False


def trace(a, dim=None):
    tot = Cx(0, 0)
    for w, c in a.terms():
        if not w:
            v = dim if dim is not None else Sc("r", DIM)
        else:
            cw, star = _canon_cyc(w)
            z = r_word(cw)
            v = Cx(Sc("r", _trre(z)), Sc("r", _trim(z)))
            if star:
                v = S.conj(v)
            if wkey(cw) == wkey(min((tuple(_star_atom(x, "dag") for x in reversed(cw[i:] + cw[:i])) for i in range(len(cw))), key=wkey)):
                v = v.re  # self-adjoint word: trace is real
        tot = S.add(tot, S.mul(c, v))
    return tot


_ere = z3.Function("elt_re", M, z3.IntSort(), z3.IntSort(), z3.RealSort())
_eim = z3.Function("elt_im", M, z3.IntSort(), z3.IntSort(), z3.RealSort())


def elt(a, i, j):
    """(i,j) entry of an LC (linear)"""
    tot = Cx(0, 0)
    for w, c in a.terms():
        if len(w) == 1 and w[0].name == "elts":
            v = w[0].args[0].fn(i, j)
        elif not w:
            v = S.ite(S.cmp("==", i, j), 1, 0)
        elif len(w) == 1 and w[0].name == "dag":
            z = r_atom(w[0].args[0])
            v = Cx(Sc("r", _ere(z, S.zi(j), S.zi(i))), S.neg(Sc("r", _eim(z, S.zi(j), S.zi(i)))))
        elif len(w) == 1 and w[0].name == "T":
            z = r_atom(w[0].args[0])
            v = Cx(Sc("r", _ere(z, S.zi(j), S.zi(i))), Sc("r", _eim(z, S.zi(j), S.zi(i))))
        elif len(w) == 1 and w[0].name == "conj":
            z = r_atom(w[0].args[0])
            v = Cx(Sc("r", _ere(z, S.zi(i), S.zi(j))), S.neg(Sc("r", _eim(z, S.zi(i), S.zi(j)))))
        else:
            z = r_word(w)
            v = Cx(Sc("r", _ere(z, S.zi(i), S.zi(j))), Sc("r", _eim(z, S.zi(i), S.zi(j))))
        tot = S.add(tot, S.mul(c, v))
    return tot


def from_elts(fn, shp=None):
    return atom("elts", Elts(fn, shp))


def map_scalars(l, f):
    """apply f to every scalar inside (substitution)"""
    def fa(a):
        return At(a.name, *[farg(x) for x in a.args])

    def farg(x):
        if isinstance(x, LC):
            return map_scalars(x, f)
        if isinstance(x, At):
            return fa(x)
        if isinstance(x, Elts):
            return Elts(lambda i, j, x=x: f(x.fn(i, j)), None if x.shp is None else tuple(d if S.is_conc(d) else f(d) for d in x.shp))
        if isinstance(x, Body):
            return Body(lambda t, x=x: map_scalars(x.fn(t), f))
        if isinstance(x, str):
            return x
        return f(x)
    return build([(tuple(fa(a) for a in w), f(c)) for w, c in l.terms()])
