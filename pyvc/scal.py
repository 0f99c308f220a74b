"""Scalars of the verifier: concrete Python ints/bools/Fractions, infinities,
symbolic ints / reals / bools (z3), complex pairs.  Floats are mathematical
reals (stated assumption)."""
import z3
from fractions import Fraction

INF = float("inf")


class Unsupported(Exception):
    """The code uses something outside the verifier's fragment."""


class Sc:
    """symbolic scalar; kind 'i' (int), 'r' (real), 'b' (bool)"""
    __slots__ = ("kind", "e")

    def __init__(self, kind, e):
        self.kind = kind
        self.e = e

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.e)


class PyF(Sc):
    """result of float(): a Python float (its division by zero raises)"""
    __slots__ = ()


class Cx:
    """complex scalar"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return "Cx(%r,%r)" % (self.re, self.im)


def is_num(v):
    return isinstance(v, (bool, int, Fraction, Sc, Cx)) or (
        isinstance(v, float))


def is_conc(v):
    return isinstance(v, (bool, int, Fraction, float))


def is_inf(v):
    return isinstance(v, float)


def from_py(v):
    """python literal -> scalar"""
    if isinstance(v, bool) or isinstance(v, int):
        return v
    if isinstance(v, float):
        if v != v:
            raise Unsupported("nan literal")
        if v in (INF, -INF):
            return v
        return Fraction(repr(v))
    if isinstance(v, complex):
        return Cx(from_py(v.real), from_py(v.imag))
    return v


def norm(v):
    """fold constant z3 expressions"""
    if isinstance(v, Sc):
        e = v.e
        if v.kind == "i" and z3.is_int_value(e):
            return e.as_long()
        if v.kind == "r" and z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        if v.kind == "b":
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
    return v


def mk(kind, e):
    return norm(Sc(kind, z3.simplify(e, som=False)))


def kind(v):
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, (Fraction, float)):
        return "r"
    if isinstance(v, Sc):
        return v.kind
    if isinstance(v, Cx):
        return "c"
    raise Unsupported("not a scalar: %r" % (type(v),))


def zr(v):
    """as z3 real"""
    if isinstance(v, bool):
        return z3.RealVal(1 if v else 0)
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, float):
        raise Unsupported("infinity in arithmetic")
    if isinstance(v, Sc):
        if v.kind == "r":
            return v.e
        if v.kind == "i":
            return z3.ToReal(v.e)
        return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported("zr %r" % (v,))


def zi(v):
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Sc):
        if v.kind == "i":
            return v.e
        if v.kind == "b":
            return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
        if v.kind == "r":
            return z3.ToInt(v.e)
    if isinstance(v, Fraction) and v.denominator == 1:
        return z3.IntVal(int(v))
    raise Unsupported("zi %r" % (v,))


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, Sc) and v.kind == "b":
        return v.e
    if isinstance(v, Sc) and v.kind in "ir":
        return v.e != 0
    if isinstance(v, (int, Fraction)):
        return z3.BoolVal(v != 0)
    raise Unsupported("zb %r" % (v,))


def re(v):
    return v.re if isinstance(v, Cx) else v


def im(v):
    return v.im if isinstance(v, Cx) else 0


def cx(a, b):
    if is_conc(b) and not isinstance(b, float) and b == 0:
        return a if False else Cx(a, b)
    return Cx(a, b)


def add(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        return Cx(add(re(a), re(b)), add(im(a), im(b)))
    if is_conc(a) and is_conc(b):
        return a + b if not (isinstance(a, float) or isinstance(b, float)) else float(a) + float(b)
    if is_inf(a):
        return a
    if is_inf(b):
        return b
    if is_conc(a) and a == 0 and not (kind(a) == "r" and kind(b) != "r"):
        if kind(b) != "b":
            return b
    if is_conc(b) and b == 0 and not (kind(b) == "r" and kind(a) != "r"):
        if kind(a) != "b":
            return a
    ka, kb = kind(a), kind(b)
    if ka in "ib" and kb in "ib":
        return mk("i", zi(a) + zi(b))
    return mk("r", zr(a) + zr(b))


def neg(a):
    if isinstance(a, Cx):
        return Cx(neg(a.re), neg(a.im))
    if is_conc(a):
        return -a
    if kind(a) in "ib":
        return mk("i", -zi(a))
    return mk("r", -zr(a))


def sub(a, b):
    return add(a, neg(b))


def _inf_mul(a, b):
    # a is infinite
    if is_conc(b):
        if b == 0:
            raise Unsupported("inf*0")
        return a if b > 0 else -a
    raise Unsupported("inf * symbolic")


def mul(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        ar, ai, br, bi = re(a), im(a), re(b), im(b)
        return Cx(sub(mul(ar, br), mul(ai, bi)), add(mul(ar, bi), mul(ai, br)))
    if is_inf(a) or is_inf(b):
        return _inf_mul(a, b) if is_inf(a) else _inf_mul(b, a)
    if is_conc(a) and is_conc(b):
        return a * b
    if is_conc(a) and a == 0 or is_conc(b) and b == 0:
        ka, kb = kind(a), kind(b)
        return 0 if ka in "ib" and kb in "ib" else Fraction(0)
    if is_conc(a) and a == 1 and (kind(a) in "ib" or kind(b) == "r") and kind(b) != "b":
        return b
    if is_conc(b) and b == 1 and (kind(b) in "ib" or kind(a) == "r") and kind(a) != "b":
        return a
    ka, kb = kind(a), kind(b)
    if ka in "ib" and kb in "ib":
        return mk("i", zi(a) * zi(b))
    return mk("r", zr(a) * zr(b))


def div(a, b):
    if isinstance(b, Cx):
        if is_conc(b.im) and b.im == 0:
            return div(a, b.re)
        d = add(mul(b.re, b.re), mul(b.im, b.im))
        n = mul(a, Cx(b.re, neg(b.im)))
        return Cx(div(n.re, d), div(n.im, d))
    if isinstance(a, Cx):
        return Cx(div(a.re, b), div(a.im, b))
    if is_inf(b):
        if is_inf(a):
            raise Unsupported("inf/inf")
        return Fraction(0)
    if is_inf(a):
        return _inf_mul(a, b)
    if is_conc(a) and is_conc(b):
        if b == 0:
            raise Unsupported("division by concrete zero")
        return Fraction(a) / Fraction(b)
    if is_conc(a) and a == 0:
        return Fraction(0)
    if is_conc(b) and b == 1:
        return mk("r", zr(a))
    return mk("r", zr(a) / zr(b))


IDIV = z3.Function("floordiv", z3.IntSort(), z3.IntSort(), z3.IntSort())


def split_div(i, m):
    """i = q*m + r structurally (z3 int terms): (q, r)"""
    i = z3.simplify(i, som=True)
    ts = list(i.children()) if z3.is_add(i) else [i]
    q, rest = [], []
    for t in ts:
        fs = list(t.children()) if z3.is_mul(t) else [t]
        hit = next((x for x in range(len(fs)) if fs[x].eq(m)), None)
        if hit is None:
            rest.append(t)
        else:
            o = fs[:hit] + fs[hit + 1:]
            q.append(z3.Product(o) if len(o) > 1 else (o[0] if o else z3.IntVal(1)))
    sm = lambda l: (z3.Sum(l) if len(l) > 1 else l[0]) if l else z3.IntVal(0)
    return sm(q), sm(rest)


def floordiv(a, b):
    if is_conc(a) and is_conc(b):
        return a // b
    if kind(a) in "ib" and isinstance(b, int) and b > 0:
        return mk("i", zi(a) / zi(b))
    if kind(a) in "ib" and kind(b) in "ib":
        # python floor division by a symbolic divisor; solved on demand (core.simp_div)
        return mk("i", IDIV(zi(a), zi(b)))
    return mk("r", z3.ToReal(z3.ToInt(zr(a) / zr(b))))


def mod(a, b):
    if is_conc(a) and is_conc(b):
        return a % b
    if kind(a) in "ib" and isinstance(b, int) and b > 0:
        return mk("i", zi(a) % zi(b))
    return sub(a, mul(b, floordiv(a, b)))


def pow_(a, b):
    if isinstance(b, Fraction) and b.denominator == 1:
        b = int(b)
        if is_conc(a):
            a = Fraction(a)
    if isinstance(b, int) and not isinstance(b, bool):
        if is_conc(a) and not isinstance(a, float):
            if a == 0 and b < 0:
                raise Unsupported("0**neg")
            return Fraction(a) ** b if b < 0 else a ** b
        if 0 <= b <= 6:
            r = 1 if kind(a) == "i" else (Fraction(1) if kind(a) != "c" else Cx(1, 0))
            for _ in range(b):
                r = mul(r, a)
            return r
        if b == -1:
            return div(1, a)
    if isinstance(a, int) and a == -1 and kind(b) == "i":
        return mk("i", z3.If(zi(b) % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
    raise Unsupported("pow %r ** %r" % (a, b))


def cmp(op, a, b):
    """op in < <= > >= == != ; returns bool or Sc b"""
    if isinstance(a, Cx) or isinstance(b, Cx):
        if op == "==":
            return and_(cmp("==", re(a), re(b)), cmp("==", im(a), im(b)))
        if op == "!=":
            return not_(cmp("==", a, b))
        raise Unsupported("ordering of complex")
    if is_conc(a) and is_conc(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if is_inf(a) or is_inf(b):
        x, y = (a, 0) if is_inf(a) else (0, b)
        return cmp(op, x, y) if op not in ("==", "!=") else (op == "!=")
    if kind(a) == "b" and kind(b) == "b" and op in ("==", "!="):
        e = zb(a) == zb(b)
        return mk("b", e if op == "==" else z3.Not(e))
    if kind(a) in "ib" and kind(b) in "ib":
        x, y = zi(a), zi(b)
    else:
        x, y = zr(a), zr(b)
    return mk("b", {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op])


def and_(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return mk("b", z3.And(zb(a), zb(b)))


def or_(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return mk("b", z3.Or(zb(a), zb(b)))


def not_(a):
    if isinstance(a, bool):
        return not a
    return mk("b", z3.Not(zb(a)))


def ite(c, a, b):
    """scalar if-then-else"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, Cx) or isinstance(b, Cx):
        return Cx(ite(c, re(a), re(b)), ite(c, im(a), im(b)))
    if is_inf(a) or is_inf(b):
        raise Unsupported("ite of infinities")
    ka, kb = kind(a), kind(b)
    if ka == "b" and kb == "b":
        return mk("b", z3.If(zb(c), zb(a), zb(b)))
    if ka in "ib" and kb in "ib":
        return mk("i", z3.If(zb(c), zi(a), zi(b)))
    return mk("r", z3.If(zb(c), zr(a), zr(b)))


def to_real(a):
    if isinstance(a, (bool, int)):
        return Fraction(int(a))
    if isinstance(a, (Fraction, float)):
        return a
    return mk("r", zr(a))


def conj(a):
    if isinstance(a, Cx):
        return Cx(a.re, neg(a.im))
    return a


def subst(v, pairs):
    """pairs: list of (z3 const, z3 expr)"""
    if isinstance(v, Sc):
        return mk(v.kind, z3.substitute(v.e, *pairs))
    if isinstance(v, Cx):
        return Cx(subst(v.re, pairs), subst(v.im, pairs))
    return v
