"""Abstraction of real nonlinear arithmetic: products and quotients of
non-numerals become uninterpreted.  Unsatisfiable abstractions are
unsatisfiable; used before the nonlinear solver, and to skip it for questions
about indices only."""
import z3

R = z3.RealSort()
MUL = z3.Function("nl*", R, R, R)
DIV = z3.Function("nl/", R, R, R)


class Abs:
    def __init__(self):
        self.cache = {}
        self.keep = []
        self.sk = {}

    def has(self, e):
        return self.ab(e)[1]

    def ab(self, e):
        """(abstraction, anything abstracted)"""
        k = e.get_id()
        if k in self.cache:
            return self.cache[k]
        r = self._ab(e)
        self.cache[k] = r
        self.keep.append(e)
        return r

    def skel(self, e):
        """shape of a term, whatever its integer arguments: equal terms with
        different index expressions are ordered alike"""
        k = e.get_id()
        if k in self.sk:
            return self.sk[k]
        if z3.is_quantifier(e):
            r = "Q"
        elif e.sort() == z3.IntSort():
            r = "#"
        elif z3.is_rational_value(e) or z3.is_to_real(e) or e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_ITE, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL) \
                and all(self.skel(c) == "#r" for c in e.children() if c.sort() == R):
            r = "#r"
        elif z3.is_app(e) and e.num_args():
            r = "%s(%s)" % (e.decl().name(), ",".join(self.skel(c) for c in e.children()))
        else:
            r = e.sexpr()
        self.sk[k] = r
        self.keep.append(e)
        return r

    def _ab(self, e):
        if z3.is_quantifier(e):
            n = e.num_vars()
            vs = [z3.FreshConst(e.var_sort(i), "q") for i in range(n)]
            b = z3.substitute_vars(e.body(), *reversed(vs))
            b, nl = self.ab(b)
            if not nl:
                return e, False
            return (z3.ForAll(vs, b) if e.is_forall() else z3.Exists(vs, b)), True
        if not z3.is_app(e) or e.num_args() == 0:
            return e, False
        subs = [self.ab(c) for c in e.children()]
        nl = any(x[1] for x in subs)
        args = [x[0] for x in subs]
        d = e.decl().kind()
        if d == z3.Z3_OP_MUL and e.sort() == R:
            num = [a for a in args if z3.is_rational_value(a) or (z3.is_app_of(a, z3.Z3_OP_UMINUS) and z3.is_rational_value(a.arg(0)))]
            oth = sorted((a for a in args if not any(a.eq(x) for x in num)), key=lambda a: (self.skel(a), a.sexpr()))
            if len(oth) > 1:
                r = oth[-1]
                for a in reversed(oth[:-1]):
                    r = MUL(a, r)
                for a in num:
                    r = a * r
                return r, True
        elif d == z3.Z3_OP_DIV and not z3.is_rational_value(args[1]):
            return DIV(args[0], args[1]), True
        elif d == z3.Z3_OP_POWER:
            return MUL(args[0], z3.ToReal(args[1]) if args[1].sort() == z3.IntSort() else args[1]), True
        if not nl:
            return e, False
        return e.decl()(*args), True


class Solver2:
    """z3 solver with the abstraction alongside"""

    def __init__(self, timeout):
        self.s = z3.Solver()
        self.s.set("timeout", timeout)
        self.l = z3.Solver()
        self.l.set("timeout", min(timeout, 1500))
        self.a = Abs()
        self.nl = 0
        self.st = []

    def push(self):
        self.s.push()
        self.l.push()
        self.st.append(self.nl)

    def pop(self):
        self.s.pop()
        self.l.pop()
        self.nl = self.st.pop()

    def add(self, *es):
        for e in es:
            self.s.add(e)
            if isinstance(e, bool):
                self.l.add(e)
                continue
            x, nl = self.a.ab(e)
            self.nl += nl
            self.l.add(x)

    def check(self, quick=False):
        if self.nl:
            r = self.l.check()
            if r == z3.unsat:
                return r
            if quick:
                return z3.unknown
        return self.s.check()

    def model(self):
        return self.s.model()

    def assertions(self):
        return self.s.assertions()


_int = {}


def int_only(e):
    """does the formula speak of integers only"""
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or x.sort() == R:
            return False
        if z3.is_app(x):
            st.extend(x.children())
    return True
