"""Contract verification driver."""
import ast
import time
import traceback
import z3
from . import scal as S, mat as MT, lib
from .scal import Sc, Cx, Unsupported
from .core import (AXIOMS, Obj, Seq, MatObj, PyDict, Heap, SData, Opq, OStr, Poison, MISSING, PyExc, Pruned,
                   ReturnX, BreakX, ContinueX, NeedTemplate, Obligation, AnyV)
from .interp import Interp, Frame, FuncV, BoundM, ClassInfo, LibFn
from .compare import eq_val, worst

ORDER = {"proved": 0, "unknown": 1, "refuted": 2}


class Contract:
    def __init__(self, qual, setup, spec=None, ensures=(), props=(), old=None, hooks=None, name=None, use=None,
                 result=True, frame=True, bounded=None, note="", nocalls=(), minpaths=1, checkexc=True, sabotage=True,
                 weight=1, loglevels=(30,), pure=False, ret=None):
        self.qual, self.setup, self.spec, self.props = qual, setup, spec, tuple(props)
        self.ensures = tuple(ensures) if isinstance(ensures, (list, tuple)) else (ensures,)
        self.old, self.hooks, self.result, self.frame = old, hooks, result, frame
        self.name = name or qual
        self.use = use
        self.bounded = bounded
        self.note = note
        self.nocalls = nocalls
        self.minpaths = minpaths
        self.checkexc = checkexc
        self.sabotage, self.weight = sabotage, weight
        self.loglevels = loglevels
        # pure: nothing that existed before the call is modified.  ret: value of
        # the result, of which callers know only the first ensures
        self.pure, self.ret = pure, ret


class Result:
    def __init__(self, c):
        self.contract = c
        self.obls = []          # Obligation list
        self.mode = "unbounded"
        self.undecided = []
        self.secs = 0.0
        self.solver = 0.0
        self.paths = 0
        self.queries = 0
        self.inlined = set()
        self.used = set()
        self.lines = None
        self.assumed = set()
        self.notes = set()

    def by_name(self):
        d = {}
        for o in self.obls:
            k = o.name
            if k not in d or ORDER[o.status] > ORDER[d[k].status]:
                d[k] = o
        return d

    def status(self):
        s = "proved"
        for o in self.obls:
            if ORDER[o.status] > ORDER[s]:
                s = o.status
        if self.undecided and s == "proved":
            s = "unknown"
        return s


# ---------------------------------------------------------------- spec language
def install(eng):
    """builtins available to specification programs (never to the code)"""
    def check(e, a, k):
        nm, c = a[0], a[1]
        if isinstance(c, (Seq, MatObj)):
            c = lib.quant(e, c, False)
        if e.post_mode:
            if not S.is_num(c):
                c = e.truth(c)
            if c is False:
                raise Pruned()
            e.assume(c)
            return None
        if e.summary:
            return None
        if not S.is_num(c):
            c = e.truth(c)
        e.check("post: " + nm, c)

    def check_eq(e, a, k):
        if e.post_mode:
            raise Unsupported("check_eq in a postcondition used by callers")
        if e.summary:
            return None
        st, det = eq_val(e, a[1], a[2])
        e.oblige("post: " + a[0], st, det)

    def lemma(e, a, k):
        """proved from arithmetic alone (in a context of its own), then known"""
        c = a[1]
        c = z3.BoolVal(c) if isinstance(c, bool) else S.zb(c)
        s = z3.Solver()
        s.set("timeout", 15000)
        s.add(lib.PI.e > 3, lib.PI.e < 4)
        if len(a) > 2:
            s.add(S.zb(a[2]))
        s.add(z3.Not(z3.simplify(c)))
        t0 = time.time()
        r = s.check()
        e.solver_time += time.time() - t0
        e.queries += 1
        e.oblige("lemma: " + a[0], "proved" if r == z3.unsat else "unknown" if r == z3.unknown else "refuted", str(s.model()) if r == z3.sat else "")

    def require(e, a, k):
        """precondition: assumed when verifying the function itself, an
        obligation of the caller in a call"""
        c = a[0]
        if not S.is_num(c):
            c = e.truth(c)
        if e.summary:
            st, det = e.prove(c)
            e.oblige("pre of %s: %s" % (e.summary_name, a[1] if len(a) > 1 else "requires"), st, det)
        e.assume(c if not isinstance(c, bool) else c)
        if c is False:
            raise Pruned()

    def assume(e, a, k):
        c = a[0]
        if not S.is_num(c):
            c = e.truth(c)
        e.assumed.add(a[1] if len(a) > 1 else "assume")
        if c is False:
            raise Pruned()
        e.assume(c)

    def any_int(e, a, k):
        if e.post_mode:
            raise Unsupported("any_int in a postcondition used by callers")
        v = Sc("i", z3.FreshInt("any"))
        e.assume(S.and_(S.cmp(">=", v, a[0]), S.cmp("<", v, a[1])))
        if not e._check() != z3.unsat:
            raise Pruned()
        return v

    def some_real(e, a, k):
        """an arbitrary real number"""
        return Sc("r", z3.FreshReal("some"))

    def some_int(e, a, k):
        return Sc("i", z3.FreshInt("some"))

    def any_real(e, a, k):
        if not e.summary or e.in_spec:
            return AnyV()
        return e.fresh("r", "any")

    def any_int_(e, a, k):
        if not e.summary or e.in_spec:
            return AnyV()
        return e.fresh("i", "any")

    def _arr(e, dims, f):
        from .loops import map_closure_nd
        if all(S.is_conc(d) for d in dims):
            fn = lambda ix: e.call(f, list(ix))
        else:
            fn = map_closure_nd(e, dims, lambda ix: e.call(f, list(ix)))
        return Seq(e, "ndarray", shape=tuple(dims), base=fn, dtype=lib.probe_dtype(e, fn, tuple(dims)))

    def array(e, a, k):
        return _arr(e, a[:1], a[1])

    def array2(e, a, k):
        return _arr(e, a[:2], a[2])

    def array3(e, a, k):
        return _arr(e, a[:3], a[3])

    def _dt(e, f, shp):
        return lib.probe_dtype(e, lambda ix: e.call(f, list(ix)), shp)

    def listof(e, a, k):
        n, f = a
        if S.is_conc(n):
            return Seq(e, "list", items=[e.call(f, [i]) for i in range(int(n))])
        from .loops import map_closure
        fn = map_closure(e, n, lambda t: e.call(f, [t]))
        return Seq(e, "list", shape=(n,), base=lambda ix: fn(ix[0]))

    def Sum(e, a, k):
        lo, hi, f = a
        lo, hi = a[0], a[1]
        if S.is_conc(lo) and S.is_conc(hi):
            r = None
            for t in range(lo, hi):
                x = e.call(f, [t])
                r = x if r is None else lib.binop(e, "Add", r, x)
            return 0 if r is None else r
        p = lib.probe(e, lambda ix: e.call(f, [S.add(lo, ix[0])]), (S.sub(hi, lo),))
        if isinstance(p, MatObj):
            from .loops import map_closure
            cl = map_closure(e, S.sub(hi, lo), lambda t: e.call(f, [S.add(lo, t)]))
            return MatObj(e, MT.msum(lo, hi, lambda t: cl(S.sub(t, lo)).f["lc"]), p.kind, p.shape, p.dims)
        return e.ssum(lo, hi, lambda t: e.call(f, [t]), "i" if S.kind(p) == "i" else "r")

    def ite(e, a, k):
        c = a[0]
        if S.is_num(a[1]) and S.is_num(a[2]):
            return S.ite(c, a[1], a[2])
        return a[1] if e.truth(c) else a[2]

    def implies(e, a, k):
        return S.or_(S.not_(a[0]), a[1])

    def iff(e, a, k):
        return S.cmp("==", a[0], a[1])

    def conjall(e, a, k):
        r = True
        for x in a:
            r = S.and_(r, x)
        return r

    def disj(e, a, k):
        r = False
        for x in a:
            r = S.or_(r, x)
        return r

    def note(e, a, k):
        e.notes.add(a[0])

    def forall(e, a, k):
        lo, hi, f = a
        t = z3.FreshInt("fa")
        try:
            b = e.scoped([t], Sc("b", z3.And(t >= S.zi(lo), t < S.zi(hi))), lambda: e.call(f, [Sc("i", t)]))
        except Pruned:
            return True
        if isinstance(b, bool) and b:
            return True
        return Sc("b", z3.ForAll([t], z3.Implies(z3.And(t >= S.zi(lo), t < S.zi(hi)), S.zb(b))))

    def exists(e, a, k):
        lo, hi, f = a
        t = z3.FreshInt("ex")
        try:
            b = e.scoped([t], Sc("b", z3.And(t >= S.zi(lo), t < S.zi(hi))), lambda: e.call(f, [Sc("i", t)]))
        except Pruned:
            return False
        return Sc("b", z3.Exists([t], z3.And(t >= S.zi(lo), t < S.zi(hi), S.zb(b))))

    def elt(e, a, k):
        return MT.elt(lib.as_mat(e, a[0]), a[1], a[2])

    def present(e, a, k):
        return isinstance(a[0], Obj) and a[1] in a[0].f

    def havoc(e, a, k):
        """havoc(obj, 'attr', ...): contract leaves these attributes open"""
        o = a[0]
        for n in a[1:]:
            cur = o.f.get(n)
            if not e.summary or e.in_spec:
                e.write(o, n, AnyV())
            elif S.is_num(cur):
                e.write(o, n, e.fresh(S.kind(cur), n))
            else:
                e.write(o, n, Poison("havoc " + n))

    def events(e, a, k):
        """log of file-system / call events since the pre-state"""
        ev = e.events.f["log"][e.ev0:]
        return Seq(e, "list", items=[Seq(e, "tuple", items=list(x)) for x in ev])

    def emit(e, a, k):
        e.events_add(tuple(a))

    def is_same(e, a, k):
        return a[0] is a[1]

    def distinct(e, a, k):
        return a[0] is not a[1]

    def shares(e, a, k):
        """do two array values share storage"""
        def root(v):
            while isinstance(v, Seq) and v.view is not None:
                v = v.view[0]
            return v
        return root(a[0]) is root(a[1])

    def cond(e, a, k):
        return e.branch(a[0]) if isinstance(a[0], Sc) else e.truth(a[0])

    def unchecked(e, a, k):
        e.notes.add(a[0])

    def dimN(e, a, k):
        return Sc("r", MT.DIM)

    for n, f in list(locals().items()):
        if n not in ("eng", "_dt", "_arr") and callable(f):
            eng.specfns[n] = f
    eng.specfns["any_int_value"] = any_int_
    eng.specfns["some_real"] = some_real
    eng.specfns["some_int"] = some_int
    eng.specfns["all_of"] = conjall
    eng.specfns["any_of"] = disj


# ---------------------------------------------------------------- verify
def _run(eng, f, args, kw):
    try:
        return "return", eng.run_func(f, args, dict(kw))
    except PyExc as e:
        return "raise", e.obj


def spec_func(eng, ref):
    """'dynamics:init_timeslots' -> FuncV in specs/dynamics.py"""
    mod, name = ref.split(":")
    m = eng.module("spec_" + mod)
    v = eng.module_get(m, name)
    if v is MISSING:
        raise Unsupported("specification %s missing" % ref)
    return v


def post_summary(c):
    """the result satisfies the postcondition, nothing else is known of it"""
    def summary(eng, args, kw):
        a = spec_args(eng, eng.lookup_qual(c.qual), args, kw)
        r = c.ret(eng, *a)
        old = eng.post_mode, eng.summary, getattr(eng, "summary_name", "")
        eng.post_mode, eng.summary, eng.summary_name = True, 1, c.qual
        try:
            eng.run_func(spec_func(eng, c.ensures[0]), a + [r], {})
        finally:
            eng.post_mode, eng.summary, eng.summary_name = old
        return r
    return summary


def make_summary(c):
    if not c.spec:
        return post_summary(c)

    def summary(eng, args, kw):
        f = spec_func(eng, c.spec)
        # bind with the signature of the real function (defaults!)
        real = eng.lookup_qual(c.qual)
        env = eng.bind(real, args, kw) if real is not None else None
        a = list(args)
        if env is not None:
            names = [x.arg for x in real.node.args.posonlyargs + real.node.args.args + real.node.args.kwonlyargs]
            a = [env[n] for n in names]
            if real.node.args.vararg is not None:
                a.append(env[real.node.args.vararg.arg])
            if real.node.args.kwarg is not None:
                a.append(env[real.node.args.kwarg.arg])
        old = eng.summary, getattr(eng, "summary_name", "")
        eng.summary, eng.summary_name = 1, c.qual
        try:
            return eng.run_func(f, a, {})
        finally:
            eng.summary, eng.summary_name = old
    return summary


def spec_args(eng, real, args, kw):
    env = eng.bind(real, args, kw)
    names = [x.arg for x in real.node.args.posonlyargs + real.node.args.args + real.node.args.kwonlyargs]
    a = [env[n] for n in names]
    if real.node.args.vararg is not None:
        a.append(env[real.node.args.vararg.arg])
    if real.node.args.kwarg is not None:
        a.append(env[real.node.args.kwarg.arg])
    return a


def verify(c, registry, src, deadline=None, bound=None, sabotage=None):
    res = Result(c)
    t0 = time.time()
    eng = Interp(src, deadline)
    eng.bound = bound
    eng.in_spec = False
    eng.post_mode = False
    AXIOMS.clear()
    install(eng)
    res.mode = "unbounded" if bound is None else "bounded(sizes<=%d)" % bound
    eng.verifying = c.qual
    for r in registry:
        if (r.spec or (r.pure and r.ret)) and r.qual != c.qual and not r.name.startswith("lemma:") and r.qual not in c.nocalls:
            if c.use is None or r.qual in c.use:
                eng.contracts[r.qual] = make_summary(r)
    paths = [0]
    if sabotage:
        # vacuity self-test: the contract is checked against an empty body
        try:
            f = eng.lookup_qual(sabotage)
            if isinstance(f, FuncV):
                f.node.body = [ast.Pass()]
        except Unsupported:
            pass

    def one():
        eng.clockh.f.pop("t", None)
        eng.loglevel = eng.choose([(True, l) for l in c.loglevels])
        st = c.setup(eng)
        args, kw = st if isinstance(st, tuple) else (st, {})
        real = eng.lookup_qual(c.qual)
        if real is None:
            raise Unsupported("function %s not found in the source" % c.qual)
        if not isinstance(real, FuncV):
            raise Unsupported("%s is not a plain function" % c.qual)
        res.lines = "%s:%d-%d" % (real.module.path, real.node.lineno, real.node.end_lineno)
        if eng._check() == z3.unsat:
            raise Pruned()
        eng.ev0 = len(eng.events.f["log"])
        eng.pre_serial = eng.serial
        sargs = spec_args(eng, real, args, kw)
        mark = eng.mark()
        old = None
        if c.old:
            old = eng.run_func(spec_func(eng, c.old), sargs, {})
        sk = sv = None
        dspec = {}
        if c.spec:
            eng.in_spec = True
            try:
                sk, sv = _run(eng, spec_func(eng, c.spec), sargs, {})
            finally:
                eng.in_spec = False
            dspec = eng.diff_since(mark)
            eng.targets = dspec
            eng.rollback(mark)
            eng.clockh.f.pop("t", None)
        jl = len(eng.journal)
        mark = (jl, eng.pre_serial)
        k, v = _run(eng, real, args, kw)
        dbody = {}
        pre = {}
        for ow, key, oldv in eng.journal[jl:]:
            if ow.serial <= eng.pre_serial:
                dbody[(ow, key)] = ow.f.get(key, MISSING)
                pre.setdefault((ow, key), oldv)
        paths[0] += 1
        if c.spec:
            if c.checkexc or sk != "raise":
                _cmp_outcome(eng, c, k, v, sk, sv)
            if c.frame and not (k == "raise" and sk == "raise"):
                _cmp_state(eng, dspec, dbody, pre)
        elif c.pure:
            _cmp_state(eng, {}, dbody, pre)
            if k == "raise" and c.checkexc is True:
                eng.oblige("no exception", "refuted", "raises %s" % _excname(v))
        elif k == "raise" and c.checkexc is True:
            eng.oblige("no exception", "refuted", "raises %s" % _excname(v))
        if not c.spec and not c.pure:
            # arguments that belong to the caller keep their contents
            sh = {id(x) for x in getattr(eng, "shared", [])}
            _cmp_state(eng, {}, {key: v2 for key, v2 in dbody.items() if id(key[0]) in sh}, pre)
        if c.ensures and (k != "raise" or c.checkexc is None):
            for en in c.ensures:
                a = list(sargs) + ([v if k != "raise" else v] if c.result else []) + ([old] if c.old else [])
                kk, vv = _run(eng, spec_func(eng, en), a, {})
                if kk == "raise":
                    eng.oblige("post: %s" % en, "refuted", "postcondition raised %s (%s)" % (_excname(vv), _excmsg(vv)))
        return True

    def guarded():
        eng.obl_mark = len(eng.obls)
        try:
            return one()
        except Unsupported as e:
            res.undecided.append(str(e))
        except NeedTemplate as e:
            res.undecided.append("undetermined read of %s" % (e.loc[1],))
        except RecursionError:
            res.undecided.append("recursion limit")
        except z3.Z3Exception as e:
            res.undecided.append("solver exception %s" % str(e)[:100])
        return True
    try:
        eng.explore(guarded, mx=3000)
    except Unsupported as e:
        res.undecided.append(str(e))
    except z3.Z3Exception as e:
        res.undecided.append("solver exception %s" % str(e)[:100])
    except (Pruned, PyExc, BreakX, ContinueX, ReturnX, NeedTemplate) as e:
        res.undecided.append("engine: %r" % (e,))
    res.obls = eng.obls
    res.paths = paths[0]
    res.secs = time.time() - t0
    res.solver = eng.solver_time
    res.queries = eng.queries
    res.inlined = {q for q in eng.executed if not q.startswith("contract:") and not q.startswith("spec_")}
    res.used = {q[9:] for q in eng.executed if q.startswith("contract:")}
    res.assumed = eng.assumed
    res.notes = eng.notes
    if not res.undecided and (res.paths < c.minpaths or not res.obls):
        res.undecided.append("vacuous: %d feasible paths, %d obligations" % (res.paths, len(res.obls)))
    return res


def _excname(o):
    return o.cls.name if isinstance(o, Obj) else repr(o)


def _excmsg(o):
    a = o.f.get("args") if isinstance(o, Obj) else None
    return repr(a.f["items"])[:200] if isinstance(a, Seq) else ""


def _cmp_outcome(eng, c, k, v, sk, sv):
    if sk == "raise" or k == "raise":
        if sk != k:
            if k == "raise":
                eng.oblige("outcome", "refuted", "raises %s (%s) where the contract returns" % (_excname(v), _excmsg(v)))
            else:
                eng.oblige("outcome", "refuted", "returns where the contract raises %s" % _excname(sv))
            return
        same = v.cls is sv.cls or v.cls.issub(sv.cls)
        eng.oblige("outcome", "proved" if same else "refuted", "raises %s, contract %s" % (_excname(v), _excname(sv)))
        return
    if not c.result or isinstance(sv, AnyV):
        return
    st, det = eq_any(eng, v, sv)
    eng.oblige("result", st, det)


def eq_any(eng, a, b):
    if isinstance(b, AnyV) or isinstance(a, AnyV):
        return "proved", ""
    return eq_val(eng, a, b)


def _view(eng, v, diff):
    """value v (pre-existing container) as seen in the specified post-state"""
    if isinstance(v, Seq) and v.view is None:
        ks = {k: diff[(v, k)] for k in ("items", "data", "shape") if (v, k) in diff}
        if ks:
            r = Seq(eng, v.kind, shape=(0,), base=None, dtype=v.f["dtype"])
            for k in ("items", "data", "shape"):
                r.f[k] = ks.get(k, v.f[k])
            return r
    if isinstance(v, PyDict) and (v, "items") in diff:
        return PyDict(eng, diff[(v, "items")])
    if isinstance(v, MatObj) and (v, "lc") in diff:
        return MatObj(eng, diff[(v, "lc")], v.kind, v.shape, v.dims)
    return v


def _preview(eng, v, pre):
    return _view(eng, v, pre)


def _cmp_state(eng, dspec, dbody, pre):
    owners = []
    seen = set()
    for (ow, key) in list(dspec) + list(dbody):
        if isinstance(ow, (Obj,)) and (ow.serial, key) not in seen:
            seen.add((ow.serial, key))
            owners.append((ow, key))
    for ow, key in owners:
        nm = "%s.%s" % (ow.cls.name, key)
        got = ow.f.get(key, MISSING)
        if (ow, key) in dspec:
            want = dspec[(ow, key)]
            if isinstance(want, AnyV):
                continue
            want = _view(eng, want, dspec)
        else:
            p = pre[(ow, key)]
            if p is MISSING:
                eng.notes.add("attribute %s not mentioned by the contract" % nm)
                continue
            # containers: compare against the specified (or pre-) contents
            want = _view(eng, _view(eng, p, {k: v for k, v in pre.items() if k not in dspec}), dspec)
        st, det = eq_any(eng, got, want)
        eng.oblige("state: " + nm, st, det)
    # containers mutated in place
    conts = []
    for (ow, key) in list(dspec) + list(dbody):
        if isinstance(ow, (Seq, PyDict, MatObj)) and ow not in conts:
            conts.append(ow)
    for ow in conts:
        holders = [(r, k) for r in eng.roots for k, x in r.f.items() if x is ow]
        shared = ow in getattr(eng, "shared", [])
        free = [h for h in holders if h not in dspec]
        inspec = any((ow, k) in dspec for k in ("items", "data", "shape", "lc"))
        if not (shared or free):
            continue
        full = dict(pre)
        for k in ("items", "data", "shape", "lc"):
            if (ow, k) in dspec:
                full[(ow, k)] = dspec[(ow, k)]
        want = _view(eng, ow, {k: v for k, v in full.items() if k[0] is ow})
        nm = ("argument" if shared else "%s.%s" % (free[0][0].cls.name, free[0][1])) + " (contents)"
        st, det = eq_any(eng, ow, want)
        eng.oblige("state: " + nm, st, det)
    if (eng.events, "log") in dspec or (eng.events, "log") in dbody:
        want = dspec.get((eng.events, "log"), eng.events.f["log"][:eng.ev0])
        st, det = eq_val(eng, tuple(eng.events.f["log"]), tuple(want))
        eng.oblige("effects: file / call log", st, det)
