"""pyvc core: symbolic heap, journal, decision-replay path exploration, prover."""
import itertools
import time
import z3
from .lin import Solver2, int_only
from . import scal as S, mat as MT
from .scal import Sc, Cx, Unsupported, INF
from fractions import Fraction

MISSING = object()
AXIOMS = {}


class PyExc(Exception):
    """a Python exception raised by the code under verification"""

    def __init__(self, obj):
        self.obj = obj

    def __str__(self):
        return "PyExc(%s)" % (self.obj,)


class Pruned(Exception):
    """path infeasible / irrelevant"""


class NeedTemplate(Exception):
    def __init__(self, loc):
        self.loc = loc


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class Poison:
    """value that may be unassigned or unknown; reading it is unsupported"""

    def __init__(self, why=""):
        self.why = why


class AnyV:
    """specification wildcard: the contract leaves this value open"""


class Opq:
    """opaque value of an unmodelled library: structural identity"""

    def __init__(self, *tag):
        self.tag = tag

    def key(self):
        return "opq(%s)" % ",".join(vkey(t) for t in self.tag)

    def __repr__(self):
        return self.key()


class OStr(Opq):
    """opaque string (formatted text)"""


def vkey(v):
    if isinstance(v, (Sc, Cx)):
        return S.skey(v) if hasattr(S, "skey") else MT.skey(v)
    if isinstance(v, Opq):
        return v.key()
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(vkey(x) for x in v) + "]"
    if isinstance(v, Heap):
        return "%s#%d" % (type(v).__name__, v.serial)
    return repr(v)


class Heap:
    """mutable object; every mutable slot lives in self.f and is journaled"""

    def __init__(self, eng):
        eng.serial += 1
        self.serial = eng.serial
        self.f = {}


class Obj(Heap):
    def __init__(self, eng, cls, open_=False):
        super().__init__(eng)
        self.cls = cls
        self.open_ = open_

    def __repr__(self):
        return "<%s #%d>" % (self.cls.name, self.serial)


class SData:
    """functional contents of a sequence: base closure plus guarded writes"""

    def __init__(self, base, writes=()):
        self.base = base
        self.writes = tuple(writes)


class Seq(Heap):
    """list / tuple / ndarray.  f: kind, dtype, shape, data(SData|None), items(list|None), view"""

    def __init__(self, eng, kind, shape=None, base=None, items=None, dtype=None, data=None):
        super().__init__(eng)
        self.kind = kind
        self.f["dtype"] = dtype
        if items is not None:
            self.f["items"] = list(items)
            self.f["shape"] = (len(items),)
            self.f["data"] = None
        else:
            self.f["items"] = None
            self.f["shape"] = tuple(shape)
            self.f["data"] = data if data is not None else SData(base)
        self.view = None  # (base Seq, fn idx->baseidx)

    def __repr__(self):
        return "<%s #%d shape=%s>" % (self.kind, self.serial, self.f["shape"])


class MatObj(Heap):
    """ndarray ('nd') or Qobj ('qobj') matrix with abstract contents"""

    def __init__(self, eng, lc, kind="nd", shape=None, dims=None):
        super().__init__(eng)
        self.kind = kind
        self.f["lc"] = lc
        self.shape = shape
        self.dims = dims

    def __repr__(self):
        return "<Mat %s %s>" % (self.kind, self.f["lc"])


class PyDict(Heap):
    def __init__(self, eng, items=None):
        super().__init__(eng)
        self.f["items"] = dict(items or {})


class Outcome:
    def __init__(self):
        self.kind = None
        self.value = None
        self.pc = None
        self.diff = None
        self.extra = None


class Ctx:
    def __init__(self):
        self.path = []
        self.nopts = []
        self.ptr = 0
        self.pc = []


class Obligation:
    def __init__(self, name, status, detail="", path="", secs=0.0):
        self.name, self.status, self.detail, self.path, self.secs = name, status, detail, path, secs


class Engine:
    TIMEOUT = 4000
    UNROLL = 8
    MAXPATHS = 4000
    loglevel = 30
    nonneg_fns = ()

    def __init__(self, deadline=None):
        self.solver = Solver2(self.TIMEOUT)
        self.serial = 0
        self.journal = []
        self.ctx = None
        self.loopvars = []
        self.nfresh = 0
        self.targets = None
        self.roots = []
        self.obls = []
        self.solver_time = 0.0
        self.queries = 0
        self.defs = self.base_defs()
        self.seqtemplates = []
        self.sdefs = {}
        self.sums = {}
        self.sumdefs = {}
        self._tried = set()
        self.events = Heap(self)
        self.events.f["log"] = ()
        self.templates = []
        self.deadline = deadline
        self.notes = set()
        self.assumed = set()
        self.lenient = 0
        self.bindfacts = {}
        self.owners = {}

    # ---------------------------------------------------------- heap
    def write(self, owner, key, val):
        d = owner.f
        self.journal.append((owner, key, d.get(key, MISSING)))
        d[key] = val

    def delete(self, owner, key):
        d = owner.f
        self.journal.append((owner, key, d.get(key, MISSING)))
        d.pop(key, None)

    def mark(self):
        return (len(self.journal), self.serial)

    def diff_since(self, mark):
        """{(owner,key): current value} for owners existing at mark"""
        jl, ser = mark
        out = {}
        for owner, key, _ in self.journal[jl:]:
            if owner.serial <= ser:
                out[(owner, key)] = owner.f.get(key, MISSING)
        return out

    def rollback(self, mark):
        jl, ser = mark
        while len(self.journal) > jl:
            owner, key, old = self.journal.pop()
            if owner.serial <= ser:
                if old is MISSING:
                    owner.f.pop(key, None)
                else:
                    owner.f[key] = old

    # ---------------------------------------------------------- fresh
    def fresh(self, kind, name="v"):
        """fresh scalar; inside loop bodies a function of the loop indices"""
        self.nfresh += 1
        nm = "%s!%d" % (name, self.nfresh)
        if kind == "c":
            return Cx(self.fresh("r", name + "_re"), self.fresh("r", name + "_im"))
        sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[kind]
        if self.loopvars:
            f = z3.Function(nm, *([z3.IntSort()] * len(self.loopvars)), sort)
            return Sc(kind, f(*self.loopvars))
        return Sc(kind, z3.Const(nm, sort))

    def fresh_fn(self, kind, arity, name="fn"):
        """fresh function int^arity -> scalar, returns python callable"""
        self.nfresh += 1
        nm = "%s!%d" % (name, self.nfresh)
        lv = list(self.loopvars)
        sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}
        if kind == "c":
            a = z3.Function(nm + "r", *([z3.IntSort()] * (arity + len(lv))), z3.RealSort())
            b = z3.Function(nm + "i", *([z3.IntSort()] * (arity + len(lv))), z3.RealSort())
            return lambda *ix: Cx(Sc("r", a(*lv, *[S.zi(x) for x in ix])), Sc("r", b(*lv, *[S.zi(x) for x in ix])))
        f = z3.Function(nm, *([z3.IntSort()] * (arity + len(lv))), sort[kind])
        return lambda *ix: Sc(kind, f(*lv, *[S.zi(x) for x in ix]))

    def fresh_atom(self, name, *args):
        self.nfresh += 1
        return MT.atom("%s!%d" % (name, self.nfresh), *[Sc("i", v) for v in self.loopvars], *args)

    # ---------------------------------------------------------- solver
    def _check(self, *extra, quick=False):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        t = time.time()
        self.queries += 1
        extra = [self.simp_div(e) for e in extra]
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check(quick=quick or bool(extra) and all(int_only(e) for e in extra))
        self.solver.pop()
        self.solver_time += time.time() - t
        return r

    def assume(self, c):
        """add path condition (scalar bool)"""
        if c is True:
            return
        e = S.zb(c)
        e = self.simp_div(z3.simplify(e))
        if z3.is_true(e):
            return
        self.solver.add(e)
        if self.ctx is not None:
            self.ctx.pc.append(e)

    def fact(self, e):
        """axiom instance about an interpreted symbol"""
        self.solver.add(e)
        if self.ctx is not None:
            self.ctx.pc.append(e)

    def axiom(self, e):
        """like fact, for formulas true in every state: they are not part of
        the condition under which a path is taken"""
        AXIOMS[e.get_id()] = e
        self.fact(e)

    def valid(self, c):
        """True iff c is proved under the current path condition"""
        if isinstance(c, bool):
            return c
        e = z3.simplify(S.zb(c))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return self._check() == z3.unsat
        return self._check(z3.Not(e)) == z3.unsat

    def simp_div(self, e, raw=False):
        """floor divisions by symbolic divisors: k*m + j over m is k when
        0 <= j < m is known; otherwise the defining inequalities are added"""
        done, keep = set(), []
        while True:
            app, seen, st = None, set(), [e]
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and (x.decl().name() == "floordiv" or x.decl().name() in self.owners) and x.get_id() not in done and not self._has_var(x):
                    app = x
                st.extend(x.children())
            if app is None:
                return e
            if app.decl().name() in self.owners:
                q = self._owner(app, e)
                if q is not None:
                    e = z3.simplify(z3.substitute(e, (app, q)))
                else:
                    done.add(app.get_id())
                    keep.append(app)
                continue
            a, b = app.arg(0), app.arg(1)
            q, r = S.split_div(a, b)
            if self._check0(z3.Not(z3.And(r >= 0, r < b))) == z3.unsat:
                e = z3.simplify(z3.substitute(e, (app, q)))
                continue
            q = next((t for t in self._factors(b) if not has_const(t, app) and self._check0(z3.Not(z3.And(t * b <= a, a < t * b + b))) == z3.unsat), None)
            if q is not None:
                e = z3.simplify(z3.substitute(e, (app, q)))
                continue
            done.add(app.get_id())
            keep.append(app)
            f = z3.Implies(b >= 1, z3.And(app * b <= a, a < app * b + b))
            if self.ctx is None or not any(x.eq(f) for x in self.ctx.pc):
                self.fact(f)

    def _owner(self, app, e):
        """the block a position of a list built block by block belongs to"""
        start, n, t0 = self.owners[app.decl().name()]
        x = app.arg(0)
        inst = lambda t: z3.substitute(start, (t0, t))
        cand = []
        for y in self.sum_apps([x]) + self.sum_apps(list(self.solver.assertions())):
            h = y.children()[-1]
            if not _has_bound(h) and not any(h.eq(c) for c in cand) and not has_const(h, app):
                cand.append(h)
        for c in cand[:12]:
            for y in self.sum_apps([inst(z3.simplify(c + 1))]):
                self.sum_facts(y)
            g = z3.Not(z3.And(c >= 0, c < n, inst(c) <= x, x < inst(z3.simplify(c + 1))))
            if self._check0(g) == z3.unsat or self._check_sums(g) == z3.unsat:
                return c
        return None

    def _factors(self, b):
        """terms the path condition multiplies with b"""
        out, seen, st = [], set(), list(self.solver.assertions())
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_mul(x) and x.num_args() == 2:
                for i in (0, 1):
                    t = x.arg(1 - i)
                    if x.arg(i).eq(b) and not z3.is_int_value(t) and not any(t.eq(o) for o in out):
                        out.append(t)
            st.extend(x.children())
        return out[:6]

    def _has_var(self, x):
        seen, st = set(), [x]
        while st:
            y = st.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_var(y):
                return True
            st.extend(y.children())
        return False

    def _check0(self, *extra):
        self.queries += 1
        t = time.time()
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        self.solver.pop()
        self.solver_time += time.time() - t
        return r

    def prove(self, c):
        """-> 'proved' | 'refuted' | 'unknown'"""
        if c is True:
            return "proved", ""
        e = self.simp_div(z3.simplify(S.zb(c)))
        if z3.is_true(e):
            return "proved", ""
        if self.solver.a.has(e) and self._prove_cases(e, 5):
            return "proved", ""
        for attempt in range(9):
            t = time.time()
            self.solver.push()
            self.solver.add(z3.Not(e))
            r = self.solver.check()
            model = None
            if r == z3.sat:
                model = self.solver.model()
            self.solver.pop()
            self.queries += 1
            self.solver_time += time.time() - t
            if r == z3.unsat:
                return "proved", ""
            if self.unify_sums(e):
                continue
            break
        goals = [e] + (list(self.solver.assertions()) if self.sums else [])
        cs = [x for x in self.sum_apps(goals) if x.sort() == z3.IntSort() and not any(map(_has_bound, x.children()))
              and self._nonneg(self.sumdefs[x.decl().name()][3])]
        if cs:
            self.solver.push()
            for x in cs[:6]:
                self._count_facts(x, [], [])
            self._mono_facts(cs[:8])
            self.solver.add(z3.Not(e))
            r = self.solver.check()
            if r == z3.sat:
                model = self.solver.model()
            self.solver.pop()
            self.queries += 1
            if r == z3.unsat:
                return "proved", ""
        if r == z3.sat:
            if any(not (z3.is_int_value(x.arg(x.num_args() - 2)) and z3.is_int_value(x.arg(x.num_args() - 1))) for x in self.sum_apps([e])):
                # the model interprets sums of symbolic length freely
                return "unknown", "model modulo sums: " + str(model)[:1500]
            return "refuted", str(model)[:1500]
        # second back end for undecided queries
        try:
            from .second import cvc5_unsat
            if cvc5_unsat(list(self.solver.assertions()) + [z3.Not(e)]):
                self.notes.add("cvc5 discharged a query z3 left unknown")
                return "proved", "cvc5"
        except Exception:
            pass
        return "unknown", "solver returned unknown"

    def _prove_cases(self, e, depth):
        """nonlinear goals: distinguish the integer equalities in the case
        distinctions, replace equals by equals, decide with products opaque"""
        if z3.is_true(e):
            return True
        self.queries += 1
        t = time.time()
        self.solver.push()
        try:
            self.solver.add(z3.Not(e))
            r = self.solver.check(quick=True)
        finally:
            self.solver.pop()
            self.solver_time += time.time() - t
        if r == z3.unsat:
            return True
        if depth == 0:
            return False
        eqs, seen, st = [], set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                eqs.append(x.arg(0))
            st.extend(x.children())
        at = None
        for c in sorted(eqs, key=lambda c: len(c.sexpr())):
            st = [c]
            while st and at is None:
                x = st.pop()
                if z3.is_eq(x) and x.arg(0).sort() == z3.IntSort():
                    for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                        if z3.is_app_of(a, z3.Z3_OP_UNINTERPRETED) and not has_const(b, a):
                            at = (x, a, b)
                elif z3.is_and(x) or z3.is_or(x) or z3.is_not(x):
                    st.extend(x.children())
            if at:
                break
        if at is None:
            return False
        x, a, b = at
        for c, pairs in ((x, [(x, z3.BoolVal(True)), (a, b)]), (z3.Not(x), [(x, z3.BoolVal(False))])):
            self.solver.push()
            try:
                self.solver.add(c)
                e2 = z3.simplify(z3.substitute(z3.substitute(e, pairs[0]), *pairs[1:]) if len(pairs) > 1 else z3.substitute(e, *pairs))
                ok = self._prove_cases(e2, depth - 1)
            finally:
                self.solver.pop()
            if not ok:
                return False
        return True

    # ---------------------------------------------------------- branching
    def choose(self, options):
        """options: list of (cond scalar bool, value); explored exhaustively"""
        ctx = self.ctx
        if ctx.ptr < len(ctx.path):
            i = ctx.path[ctx.ptr]
        else:
            i = 0
            ctx.path.append(0)
            ctx.nopts.append(len(options))
        ctx.ptr += 1
        c, v = options[i]
        self.assume(c)
        return v

    def branch(self, c):
        """decide a scalar bool, forking if both sides are feasible"""
        if isinstance(c, bool):
            return c
        e = z3.simplify(S.zb(c))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        rt = self._check(e)
        if rt == z3.unsat:
            return False
        rf = self._check(z3.Not(e))
        if rf == z3.unsat:
            return True
        if self.nonneg_fns:
            if self._check_sums(e) == z3.unsat:
                return False
            if self._check_sums(z3.Not(e)) == z3.unsat:
                return True
        return self.choose([(Sc("b", e), True), (Sc("b", z3.Not(e)), False)])

    def explore(self, thunk, on_path=None, mx=None):
        """run thunk over all decision paths; returns list of Outcome"""
        outs = []
        saved = self.ctx
        ctx = Ctx()
        mark = self.mark()
        n = 0
        while True:
            n += 1
            if n > (mx or self.MAXPATHS):
                self.ctx = saved
                raise Unsupported("path limit")
            ctx.ptr = 0
            ctx.pc = []
            self.ctx = ctx
            self.solver.push()
            o = Outcome()
            nf = None
            try:
                try:
                    o.value = thunk()
                    o.kind = "normal"
                except ReturnX as r:
                    o.kind, o.value = "return", r.v
                except PyExc as r:
                    if self._check() == z3.unsat:
                        raise Pruned()
                    o.kind, o.value = "raise", r.obj
                except BreakX:
                    o.kind = "break"
                except ContinueX:
                    o.kind = "continue"
                o.pc = list(ctx.pc)
                o.diff = self.diff_since(mark)
                if on_path:
                    o.extra = on_path(o)
                outs.append(o)
            except Pruned:
                pass
            except BaseException:
                self.ctx = saved
                self.solver.pop()
                self.rollback(mark)
                raise
            self.solver.pop()
            self.rollback(mark)
            # next path
            del ctx.path[ctx.ptr:]
            del ctx.nopts[ctx.ptr:]
            while ctx.path and ctx.path[-1] + 1 >= ctx.nopts[-1]:
                ctx.path.pop()
                ctx.nopts.pop()
            if not ctx.path:
                break
            ctx.path[-1] += 1
        self.ctx = saved
        return outs

    # ---------------------------------------------------------- bound variables
    def scoped(self, vs, cond, thunk):
        """evaluate thunk under cond for bound variables vs; branching inside
        is merged with if-then-else, nothing leaks into the path condition"""
        self.loopvars.extend(vs)
        n0 = [0]

        def run():
            self.assume(cond)
            n0[0] = len(self.ctx.pc)
            return thunk()
        try:
            outs = self.explore(run)
        finally:
            del self.loopvars[len(self.loopvars) - len(vs):]
        if not outs:
            raise Pruned()
        for o in outs:
            if o.kind == "raise":
                raise Unsupported("element expression may raise")
        if len(outs) == 1:
            return outs[0].value
        if not all(S.is_num(o.value) for o in outs):
            raise Unsupported("case split over non-numeric elements")
        r = outs[-1].value
        for o in reversed(outs[:-1]):
            c = o.pc[n0[0]:]
            r = S.ite(Sc("b", z3.And(*c)) if c else True, o.value, r)
        return r

    # ---------------------------------------------------------- sums
    def ssum(self, lo, hi, fn, kind="r"):
        """Sum_{lo<=t<hi} fn(t) as a scalar"""
        if S.is_conc(lo) and S.is_conc(hi):
            r = 0 if kind == "i" else Fraction(0)
            for t in range(lo, hi):
                r = S.add(r, fn(t))
            return r
        b = z3.Int("!sumvar%d" % self._sum_depth())
        self._sd = self._sum_depth() + 1
        try:
            body = self.scoped([b], Sc("b", z3.And(b >= S.zi(lo), b < S.zi(hi))), lambda: fn(Sc("i", b)))
        except Pruned:
            return 0 if kind == "i" else Fraction(0)
        finally:
            self._sd -= 1
        if isinstance(body, Cx):
            return Cx(self.ssum(lo, hi, lambda t: S.re(fn(t))), self.ssum(lo, hi, lambda t: S.im(fn(t))))
        if S.is_conc(body) and body == 0:
            return 0 if kind == "i" else Fraction(0)
        # pull constant: body independent of b
        if S.is_conc(body) or not _has(body.e, b):
            c = S.cmp(">=", hi, lo)
            cnt = S.sub(hi, lo) if self.valid(c) else S.ite(c, S.sub(hi, lo), 0)
            return S.mul(cnt, body)
        k = S.kind(body)
        lo_e, hi_e = S.zi(lo), S.zi(hi)
        body = Sc(body.kind, z3.simplify(body.e, som=True, sort_sums=True))
        # canonical names: equal up to renaming means the same sum function
        args = sorted((c for c in free_ints([body.e]) if not c.eq(b)), key=lambda c: c.decl().name())
        free = [z3.Int("!sp%d" % i) for i in range(len(args))]
        cb = z3.Int("!sv")
        best = None
        for perm in itertools.permutations(args) if len(args) <= 3 else [args]:
            ce = z3.simplify(z3.substitute(body.e, (b, cb), *zip(perm, free)), som=True, sort_sums=True)
            sx = ce.sexpr()
            if best is None or sx < best[0]:
                best = sx, ce, perm
        sx, ce, args = best
        key = (sx, k)
        if key not in self.sums:
            nm = "sum!%d" % len(self.sums)
            f = z3.Function(nm, *([z3.IntSort()] * (len(free) + 2)), z3.IntSort() if k in "ib" else z3.RealSort())
            self.sums[key] = (f, free, cb, ce)
            self.sumdefs[nm] = self.sums[key]
        f, free, b, e = self.sums[key]
        c = f(*args, lo_e, hi_e)
        self.axiom(f(*args, lo_e, lo_e) == 0)
        self.sum_facts(c)
        return Sc("i" if k in "ib" else "r", c)

    def sum_facts(self, app):
        """unfolding facts for a sum application"""
        f, free, b, e = self.sumdefs[app.decl().name()]
        args = app.children()
        lo, hi = args[-2], args[-1]
        prs = list(zip(free, args[:-2]))
        inst = z3.substitute(e, *prs) if prs else e
        self.axiom(z3.Implies(hi <= lo, app == 0))
        prev = f(*args[:-2], lo, z3.simplify(hi - 1))
        self.axiom(z3.Implies(hi > lo, app == prev + z3.substitute(inst, (b, hi - 1))))

    def _nonneg(self, e):
        """syntactically non-negative (counting sums)"""
        if z3.is_int_value(e):
            return e.as_long() >= 0
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE:
                return self._nonneg(e.arg(1)) and self._nonneg(e.arg(2))
            if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
                return all(self._nonneg(c) for c in e.children())
            if e.decl().name() in self.nonneg_fns:
                return True
            if e.decl().name() in self.sumdefs:
                return self._nonneg(self.sumdefs[e.decl().name()][3])
        return False

    def _check_sums(self, e):
        """feasibility of e with the facts about sums of non-negative terms"""
        cs = [x for x in self.sum_apps([e] + list(self.solver.assertions())) if x.sort() == z3.IntSort() and not any(map(_has_bound, x.children()))
              and self._nonneg(self.sumdefs[x.decl().name()][3])]
        if not cs:
            return z3.unknown
        self.solver.push()
        for x in cs[:6]:
            self._count_facts(x, [], [])
        self._mono_facts(cs[:8])
        self.solver.add(e)
        r = self.solver.check()
        self.solver.pop()
        self.queries += 1
        return r

    def _mono_facts(self, apps):
        """partial sums of non-negative terms grow"""
        for x in apps:
            f, free, b, e = self.sumdefs[x.decl().name()]
            for y in apps:
                if x.eq(y) or x.decl().name() != y.decl().name() or not all(p.eq(q) for p, q in zip(x.children()[:-1], y.children()[:-1])):
                    continue
                hx, hy, lo = x.children()[-1], y.children()[-1], x.children()[-2]
                t = z3.substitute(e, *(list(zip(free, x.children()[:-2])) + [(b, hx)]))
                self.solver.add(z3.Implies(z3.And(lo <= hx, hx < hy), x + t <= y), z3.Implies(z3.And(lo <= hx, hx <= hy), x <= y))

    def _count_facts(self, app, vs, gd):
        """a sum of non-negative terms is non-negative, at least each of its
        terms, and positive only if some term is"""
        f, free, b, e = self.sumdefs[app.decl().name()]
        args = app.children()
        lo, hi = args[-2], args[-1]
        if len(vs) > 1 or any(b.eq(v) for v in vs):
            return
        prs = list(zip(free, args[:-2]))
        inst = lambda x: z3.substitute(e, *(prs + [(b, x)]))
        g = list(gd)

        def emit(extra, body):
            w = vs + extra
            c = z3.Implies(z3.And(*g), body) if g else body
            self.solver.add(z3.ForAll(w, c) if w else c)
        emit([], app >= 0)
        t = z3.FreshInt("ct")
        g2 = z3.And(lo <= t, t < hi)
        emit([t], z3.Implies(g2, inst(t) <= app))
        sk = z3.Function("wit:" + app.decl().name(), *([z3.IntSort()] * (len(args) + 1)))(*args)
        emit([], z3.Implies(app > 0, z3.And(lo <= sk, sk < hi, inst(sk) > 0)))
        for x in self.sum_apps([inst(t)]):
            if _mentions(x, t):
                self._count_facts(x, vs + [t], g + [g2])
        if not vs:
            for x in self.sum_apps([inst(sk)]):
                if _mentions(x, sk):
                    self._count_facts(x, [], [])

    _sd = 0

    def _sum_depth(self):
        return self._sd

    def sum_apps(self, es):
        out = {}
        seen = set()
        st = list(es)
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().name() in self.sumdefs:
                out[x.get_id()] = x
            st.extend(x.children())
        return list(out.values())

    def unify_sums(self, goal):
        """prove pairs of sum applications equal (bodies equal on the range)"""
        gl = [x for x in self.sum_apps([goal]) if not any(map(_has_bound, x.children()))]
        if not gl:
            return False
        apps = self.sum_apps(list(self.solver.assertions()))
        live = gl + [x for x in apps if not any(x.eq(g) for g in gl) and not any(map(_has_bound, x.children()))]
        # sums met only under quantifiers: at the goal's arguments
        for nm in {x.decl().name() for x in apps if any(map(_has_bound, x.children()))}:
            f, free, v, e = self.sumdefs[nm]
            for g in gl[:6]:
                if len(free) == g.num_args() - 2 and f.range() == g.sort():
                    y = f(*g.children())
                    if not any(y.eq(x) for x in live):
                        live.append(y)
        live = live[:60]
        done = False
        for x in gl:
            for y in live:
                if x.eq(y) or x.sort() != y.sort():
                    continue
                pk = (x.sexpr(), y.sexpr(), len(self.solver.assertions()))
                if pk in self._tried:
                    continue
                self._tried.add(pk)
                fa, pa, va, ea = self.sumdefs[x.decl().name()]
                fb, pb, vb, eb = self.sumdefs[y.decl().name()]
                xa, ya = x.children(), y.children()
                if self._check(z3.Not(z3.And(xa[-2] == ya[-2], xa[-1] == ya[-1]))) != z3.unsat:
                    continue
                same = all(p.eq(q) for p, q in zip(xa, ya)) and len(xa) == len(ya)
                if self._check(x != y, quick=not same) == z3.unsat:
                    continue
                t = z3.FreshInt("t")
                ia = z3.substitute(ea, *(list(zip(pa, xa[:-2])) + [(va, t)]))
                ib = z3.substitute(eb, *(list(zip(pb, ya[:-2])) + [(vb, t)]))
                for z in self.sum_apps([ia, ib]):
                    self.sum_facts(z)
                if self._check(t >= xa[-2], t < xa[-1], ia != ib, quick=not same) == z3.unsat:
                    self.solver.add(x == y)
                    # the same for every upper limit and (if the parameters agree) every parameter
                    h = z3.Int("!svh")
                    vs, ps = [h], None
                    if same and pa and len(pa) == len(pb):
                        ps = [z3.FreshInt("p") for _ in pa]
                        ga = z3.substitute(ea, *(list(zip(pa, ps)) + [(va, t)]))
                        gb = z3.substitute(eb, *(list(zip(pb, ps)) + [(vb, t)]))
                        if self._check(t >= xa[-2], ga != gb) == z3.unsat:
                            vs = ps + [h]
                        else:
                            ps = None
                    if ps is not None or self._check(t >= xa[-2], ia != ib, quick=not same) == z3.unsat:
                        fx, fy = fa(*(ps or xa[:-2]), xa[-2], h), fb(*(ps or ya[:-2]), xa[-2], h)
                        self.solver.add(z3.ForAll(vs, fx == fy, patterns=[fx]), z3.ForAll(vs, fx == fy, patterns=[fy]))
                    return True
        return done

    # ---------------------------------------------------------- matrices
    def eq_lc(self, a, b, depth=3):
        """prove two linear combinations equal; expands spec definitions"""
        seen = 0
        frontier = [(MT.sub(a, b), 0)]
        visited = set()
        while frontier:
            d, lev = frontier.pop(0)
            k = d.key()
            if k in visited:
                continue
            visited.add(k)
            if self._lc_zero(d):
                return True
            seen += 1
            if seen > 60 or lev >= depth * 2:
                continue
            for nd in self._expansions(d):
                frontier.append((nd, lev + 1))
        return False

    def _lc_zero(self, d):
        ts = d.terms()
        if not ts:
            return True
        groups = []
        for w, c in ts:
            for g in groups:
                if self._eq_word(g[0], w):
                    g[1] = S.add(g[1], c)
                    break
            else:
                groups.append([w, c])
        left = []
        for w, c in groups:
            for part in ((c.re, c.im) if isinstance(c, Cx) else (c,)):
                if part != 0 if S.is_conc(part) else self.prove(S.cmp("==", part, 0))[0] != "proved":
                    if sum(a.name == "elts" for a in w) != 1:
                        return False
                    left.append((w, c))
                    break
        # words that differ in one matrix given elementwise only: their
        # combination has to vanish elementwise
        merged = []
        for w, c in left:
            k = [a.name for a in w].index("elts")
            for m in merged:
                if m[1] == k and self._eq_word(m[0][:k], w[:k]) and self._eq_word(m[0][k + 1:], w[k + 1:]):
                    m[2].append((c, w[k].args[0]))
                    break
            else:
                merged.append((w, k, [(c, w[k].args[0])]))
        for w, k, es in merged:
            if len(es) == 1:
                return False
            i, j = Sc("i", z3.FreshInt("i")), Sc("i", z3.FreshInt("j"))
            self.solver.push()
            try:
                tot = 0
                for c, e in es:
                    self.fact(e.bounds(i.e, j.e))
                for c, e in es:
                    tot = S.add(tot, S.mul(c, e.fn(i, j)))
                ok = self.prove(S.cmp("==", tot, 0))[0] == "proved"
            finally:
                self.solver.pop()
            if not ok:
                return False
        return True

    def _eq_word(self, a, b):
        if len(a) != len(b):
            return False
        return all(self._eq_atom(x, y) for x, y in zip(a, b))

    def _eq_atom(self, x, y):
        if x.key() == y.key():
            return True
        if x.name != y.name or len(x.args) != len(y.args):
            return False
        for p, q in zip(x.args, y.args):
            if isinstance(p, MT.LC) and isinstance(q, MT.LC):
                if not self.eq_lc(p, q, depth=1):
                    return False
            elif isinstance(p, MT.At) and isinstance(q, MT.At):
                if not self._eq_atom(p, q):
                    return False
            elif isinstance(p, MT.Elts) and isinstance(q, MT.Elts):
                i, j = Sc("i", z3.FreshInt("i")), Sc("i", z3.FreshInt("j"))
                self.solver.push()
                try:
                    self.fact(z3.And(p.bounds(i.e, j.e), q.bounds(i.e, j.e)))
                    u, v = p.fn(i, j), q.fn(i, j)
                    ok = self.prove(S.cmp("==", u, v))[0] == "proved"
                finally:
                    self.solver.pop()
                if not ok:
                    return False
            elif isinstance(p, MT.Body) and isinstance(q, MT.Body):
                if p.key() == q.key():
                    continue
                t = Sc("i", z3.FreshInt("t"))
                self.solver.push()
                try:
                    self.fact(z3.And(t.e >= S.zi(x.args[0]), t.e < S.zi(x.args[1])))
                    ok = self.eq_lc(p.fn(t), q.fn(t))
                finally:
                    self.solver.pop()
                if not ok:
                    return False
            elif isinstance(p, str) or isinstance(q, str):
                if p != q:
                    return False
            elif isinstance(p, (MT.LC, MT.At, MT.Elts, MT.Body)) or isinstance(q, (MT.LC, MT.At, MT.Elts, MT.Body)):
                return False
            elif not self.valid(S.cmp("==", p, q)):
                return False
        return True

    def _expansions(self, d):
        """all one-atom definitional expansions of d"""
        out = []
        names = {}
        for w, c in d.terms():
            for a in w:
                base, star = a, None
                if a.name in ("dag", "conj", "T"):
                    base, star = a.args[0], a.name
                if base.name in self.defs:
                    names[base.key()] = base
        for bk, base in names.items():
            try:
                rhs = self.defs[base.name](*base.args)
            except Pruned:
                rhs = None
            if rhs is None:
                continue
            pairs = []
            for w, c in d.terms():
                cur = [((), c)]
                for a in w:
                    if a.key() == bk:
                        r = rhs
                    elif a.name in ("dag", "conj", "T") and a.args[0].key() == bk:
                        r = {"dag": MT.dag, "conj": MT.conj, "T": MT.transp}[a.name](rhs)
                    else:
                        r = None
                    if r is None:
                        cur = [(u + (a,), x) for u, x in cur]
                    else:
                        cur = [(u + rw, S.mul(x, rc)) for u, x in cur for rw, rc in r.terms()]
                pairs += cur
            out.append(MT.build(pairs))
        return out

    def base_defs(self):
        return {"msum": self._def_msum, "mprod": self._def_mprod(0), "mprodr": self._def_mprod(1)}

    def _def_mprod(self, right):
        def d(lo, hi, body):
            if self.valid(S.cmp("<=", hi, lo)):
                return MT.ONE
            if self.valid(S.cmp(">", hi, lo)):
                h1 = S.sub(hi, 1)
                r = MT.atom("mprodr" if right else "mprod", lo, h1, body)
                x = body.fn(h1)
                # not folded again
                return MT.build([(w1 + w2, S.mul(c1, c2)) for w1, c1 in (r if right else x).terms() for w2, c2 in (x if right else r).terms()])
            return None
        return d

    def _def_msum(self, lo, hi, body):
        if self.valid(S.cmp("<=", hi, lo)):
            return MT.ZERO
        if self.valid(S.cmp(">", hi, lo)):
            h1 = S.sub(hi, 1)
            return MT.add(MT.msum(lo, h1, body.fn), body.fn(h1))
        return None

    # ---------------------------------------------------------- sequences
    def seq_len(self, s):
        return s.f["shape"][0]

    def sget(self, s, idx):
        """element of a Seq at full index tuple (no bounds obligation)"""
        if s.view is not None:
            base, fn = s.view
            if isinstance(base, MatObj):
                return MT.elt(base.f["lc"], *fn(idx))
            return self.sget(base, fn(idx))
        if s.f["items"] is not None:
            items = s.f["items"]
            i = idx[0]
            if S.is_conc(i):
                return items[int(i)]
            r = None
            n = len(items)
            if n == 0:
                raise Unsupported("index into empty list")
            if all(S.is_num(x) for x in items):
                r = items[-1]
                for t in range(n - 2, -1, -1):
                    r = S.ite(S.cmp("==", i, t), items[t], r)
                return r
            for t in range(n - 1):
                if self.branch(S.cmp("==", i, t)):
                    return items[t]
            return items[-1]
        return self.dget(s.f["data"], idx)

    def dget(self, data, idx):
        ws = data.writes
        pend = []
        res = None
        for g, v in reversed(ws):
            c = g(idx)
            if isinstance(c, bool):
                if c:
                    res = v(idx)
                    break
                continue
            if self.valid(c):
                res = v(idx)
                break
            if self.valid(S.not_(c)):
                continue
            val = v(idx)
            if S.is_num(val):
                pend.append((c, val))
            else:
                if self.branch(c):
                    res = val
                    break
        else:
            res = data.base(idx)
        for c, val in reversed(pend):
            if S.is_num(res):
                res = S.ite(c, val, res)
            else:
                if self.branch(c):
                    res = val
        return res

    def sset(self, s, guard, val):
        """guarded write: elements with guard(idx) become val(idx)"""
        if s.view is not None:
            raise Unsupported("write through a view")
        if s.f["items"] is not None:
            items = s.f["items"]
            self.write(s, "items", None)
            self.write(s, "data", SData(_items_fn(self, items)))
        d = s.f["data"]
        self.write(s, "data", SData(d.base, d.writes + ((guard, val),)))

    def sset_at(self, s, idx, val):
        if s.view is not None:
            base, fn = s.view
            if isinstance(base, MatObj):
                raise Unsupported("elementwise write into abstract matrix view")
            return self.sset_at(base, fn(tuple(idx)), val)
        if s.f["items"] is not None and S.is_conc(idx[0]):
            items = list(s.f["items"])
            items[int(idx[0])] = val
            self.write(s, "items", items)
            return
        idx = tuple(idx)

        def guard(ix):
            c = True
            for a, b in zip(ix, idx):
                c = S.and_(c, S.cmp("==", a, b))
            return c
        self.sset(s, guard, lambda ix: val)

    # ---------------------------------------------------------- obligations
    def oblige(self, name, status, detail="", secs=0.0):
        if status == "refuted":
            # a structural mismatch only counts on a feasible path
            r = self._check()
            if r == z3.unsat:
                status, detail = "proved", "path infeasible"
            elif r == z3.unknown:
                status, detail = "unknown", "path feasibility undecided: " + detail
        p = ".".join(str(x) for x in (self.ctx.path[:self.ctx.ptr] if self.ctx else []))
        self.obls.append(Obligation(name, status, detail, p, secs))

    def check(self, name, cond):
        t = time.time()
        st, det = self.prove(cond)
        self.oblige(name, st, det, time.time() - t)
        return st == "proved"


def _items_fn(eng, items):
    def fn(idx):
        i = idx[0]
        if not items:
            return Poison("element of an empty list")
        if S.is_conc(i):
            return items[int(i)]
        if all(S.is_num(x) for x in items):
            r = items[-1]
            for t in range(len(items) - 2, -1, -1):
                r = S.ite(S.cmp("==", i, t), items[t], r)
            return r
        for t in range(len(items) - 1):
            if eng.branch(S.cmp("==", i, t)):
                return items[t]
        return items[-1]
    return fn


def _has(e, c):
    seen = set()
    st = [e]
    cid = c.get_id()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == cid:
            return True
        st.extend(x.children())
    return False


def _has_bound(e):
    return z3.is_var(e) or any(map(_has_bound, e.children()))


def _mentions(e, c):
    return e.eq(c) or any(_mentions(x, c) for x in e.children())


def has_const(e, c):
    return _has(e, c)


def free_ints(es):
    """0-ary uninterpreted Int constants occurring in es"""
    out, seen, st = {}, set(), list(es)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == z3.IntSort():
            out[x.get_id()] = x
        st.extend(x.children())
    return list(out.values())
