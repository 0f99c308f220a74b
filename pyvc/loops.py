"""Loop handling: invariants are closed forms 'state after t iterations',
inferred from the body (or taken from the contract's spec functions) and then
checked: base case, inductive step for an arbitrary iteration, frame."""
import copy
import z3
from fractions import Fraction
from . import scal as S, mat as MT
from .scal import Sc, Cx, Unsupported
from .core import (AXIOMS, Seq, MatObj, Obj, PyDict, Heap, SData, Opq, OStr, Poison, MISSING, NeedTemplate,
                   BreakX, ContinueX, ReturnX, PyExc, Pruned, has_const)
from .compare import eq_val, live


# ---------------------------------------------------------------- substitution
def subst_value(eng, v, pairs):
    if isinstance(v, (Sc, Cx)):
        return unfold_sums(eng, S.subst(v, pairs))
    if isinstance(v, MatObj):
        return MatObj(eng, subst_lc(v.f["lc"], pairs), v.kind,
                      None if v.shape is None else tuple(S.subst(x, pairs) for x in v.shape), v.dims)
    if isinstance(v, MT.LC):
        return subst_lc(v, pairs)
    if isinstance(v, Seq):
        if v.f["items"] is not None and v.view is None:
            r = Seq(eng, v.kind, items=[subst_value(eng, x, pairs) for x in v.f["items"]], dtype=v.f["dtype"])
            return r
        snap = eng.snapshot(v)
        return Seq(eng, v.kind, shape=tuple(S.subst(x, pairs) for x in v.f["shape"]),
                   base=lambda ix: subst_value(eng, snap(ix), pairs), dtype=v.f["dtype"])
    if isinstance(v, PyDict):
        return PyDict(eng, {k: subst_value(eng, x, pairs) for k, x in v.f["items"].items()})
    if type(v).__name__ == "FuncV" and v.defaults and v.closure is not None:
        g = copy.copy(v)
        g.defaults = {k: subst_value(eng, x, pairs) for k, x in v.defaults.items()}
        return g
    if isinstance(v, Opq):
        return type(v)(*[subst_value(eng, x, pairs) for x in v.tag])
    if isinstance(v, tuple):
        if v and v[0] == "loopev":
            return ("loopev", subst_value(eng, v[1], pairs), lambda s: subst_value(eng, v[2](s), pairs))
        return tuple(subst_value(eng, x, pairs) for x in v)
    return v


def map_value(eng, v, f):
    """apply f to the numbers of a value"""
    if isinstance(v, (Sc, Cx)):
        return f(v)
    if isinstance(v, MatObj):
        return MatObj(eng, MT.map_scalars(v.f["lc"], f), v.kind, v.shape, v.dims)
    if isinstance(v, Seq):
        if v.f["items"] is not None and v.view is None:
            return Seq(eng, v.kind, items=[map_value(eng, x, f) for x in v.f["items"]], dtype=v.f["dtype"])
        snap = eng.snapshot(v)
        return Seq(eng, v.kind, shape=tuple(f(x) if isinstance(x, Sc) else x for x in v.f["shape"]),
                   base=lambda ix: map_value(eng, snap(ix), f), dtype=v.f["dtype"])
    if type(v).__name__ == "FuncV" and v.defaults and v.closure is not None:
        g = copy.copy(v)
        g.defaults = {k: map_value(eng, x, f) for k, x in v.defaults.items()}
        return g
    if isinstance(v, Opq):
        return type(v)(*[map_value(eng, x, f) for x in v.tag])
    if isinstance(v, tuple):
        return tuple(map_value(eng, x, f) for x in v)
    return v


def _read_cells(eng, locs):
    """reads of array contents at the start of an iteration: the closed form"""
    arrs = [L for L in locs.values() if hasattr(L, "ufn") and L.closed is not None]
    if not arrs:
        return lambda v: v
    names = {}
    for L in arrs:
        for nm, k in _fn_names(L).items():
            names[nm] = (L, k)

    def f(v):
        if isinstance(v, Cx):
            return Cx(f(v.re), f(v.im))
        if not isinstance(v, Sc):
            return v
        sub, seen, st = [], set(), [v.e]
        while st:
            e = st.pop()
            if e.get_id() in seen or z3.is_quantifier(e):
                continue
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().name() in names and not any(_has_var(c) for c in e.children()):
                L, k = names[e.decl().name()]
                ch = [S.norm(Sc("i", c)) for c in e.children()]
                nd = len(L.owner.f["shape"])
                x = eng.dget(L.closed(ch[-nd - 1]), tuple(ch[-nd:]))
                sub.append((e, _z(S.im(x) if k else S.re(x) if isinstance(x, Cx) else x, e)))
            st.extend(e.children())
        return S.norm(Sc(v.kind, z3.substitute(v.e, *sub))) if sub else v
    return lambda v: map_value(eng, v, f)


def unfold_sums(eng, v):
    """emit the defining facts of sum applications created by substitution"""
    if eng.sumdefs:
        for x in ((v.re, v.im) if isinstance(v, Cx) else (v,)):
            if isinstance(x, Sc):
                for a in eng.sum_apps([x.e]):
                    if not z3.is_var(a) and not any(_has_var(c) for c in a.children()):
                        eng.sum_facts(a)
    return v


def _has_var(e):
    return z3.is_var(e) or any(_has_var(c) for c in e.children())


def subst_lc(l, pairs):
    return MT.map_scalars(l, lambda s: S.subst(s, pairs))


def mentions(v, c, eng=None):
    """does value v mention z3 const c (scalars / matrices only)"""
    if isinstance(v, Sc):
        return has_const(v.e, c)
    if isinstance(v, Cx):
        return mentions(v.re, c) or mentions(v.im, c)
    if isinstance(v, MatObj):
        return mentions(v.f["lc"], c)
    if isinstance(v, MT.LC):
        hit = [False]

        def f(s):
            if mentions(s, c):
                hit[0] = True
            return s
        MT.map_scalars(v, f)
        return hit[0]
    return False


def lc_has_atom(l, name):
    def at(a):
        if a.name == name:
            return True
        for x in a.args:
            if isinstance(x, MT.At) and at(x):
                return True
            if isinstance(x, MT.LC) and lc_has_atom(x, name):
                return True
            if isinstance(x, MT.Body) and lc_has_atom(x.probe(), name):
                return True
        return False
    return any(at(a) for w, c in l.terms() for a in w)


def pc_expr(pc):
    pc = [e for e in pc if e.get_id() not in AXIOMS]
    if not pc:
        return True
    return Sc("b", z3.And(*pc)) if len(pc) > 1 else Sc("b", pc[0])


# ---------------------------------------------------------------- map closures
def map_closure(eng, n, ev):
    fn = map_closure_nd(eng, (n,), lambda ix: ev(ix[0]))
    return lambda t: fn((t,))


def map_closure_nd(eng, dims, ev):
    """value of ev(ix) for arbitrary ix in the box 'dims', as closure.
    ev must not modify pre-existing state (temporaries excepted)."""
    its = []
    for _ in dims:
        eng.nfresh += 1
        its.append(z3.Int("it!%d" % eng.nfresh))
    itv = tuple(Sc("i", it) for it in its)
    eng.loopvars.extend(its)
    try:
        def run():
            for x, n in zip(itv, dims):
                eng.assume(S.and_(S.cmp(">=", x, 0), S.cmp("<", x, n)))
            if eng._check() == z3.unsat:
                raise Pruned()
            n0 = len(eng.ctx.pc)
            v = ev(itv)
            return v, n0
        outs = eng.explore(run)
    finally:
        del eng.loopvars[len(eng.loopvars) - len(its):]
    cases = []
    for o in outs:
        if o.kind == "raise":
            raise Unsupported("comprehension element may raise")
        for (ow, key), val in o.diff.items():
            if not _is_comp_frame(ow):
                raise Unsupported("comprehension element has side effects")
        v, n0 = o.value
        cases.append((pc_expr(o.pc[n0:]), v))

    def fn(ix):
        if not cases:
            raise Pruned()
        pairs = [(it, S.zi(t)) for it, t in zip(its, ix)]
        if len(cases) == 1:
            return subst_value(eng, cases[0][1], pairs)
        if all(S.is_num(v) for _, v in cases):
            r = cases[-1][1]
            for c, v in reversed(cases[:-1]):
                r = S.ite(c, v, r)
            return S.subst(r, pairs)
        for c, v in cases[:-1]:
            if eng.branch(S.subst(c, pairs)):
                return subst_value(eng, v, pairs)
        return subst_value(eng, cases[-1][1], pairs)
    return fn


def _is_comp_frame(ow):
    from .interp import Frame
    return isinstance(ow, Frame)


def flat_comp(eng, e, cf, gi, it, kind):
    """[f(i,j) for i in A for j in B] with symbolic sizes: row-major list"""
    gens = e.generators
    if len(gens) - gi != 2 or gens[gi].ifs or gens[gi + 1].ifs:
        raise Unsupported("comprehension shape")
    n = it.n

    def row(t):
        eng.assign(gens[gi].target, it.item(t), cf)
        it2 = eng.iterate(eng.ev(gens[gi + 1].iter, cf))
        return it2
    ms = []

    def inner_len(t):
        m = row(t).n
        ms.append(m)
        return m
    lenfn = map_closure(eng, n, inner_len)
    t0 = eng.fresh("i", "tt")
    m = lenfn(t0)
    if isinstance(m, Sc) and has_const(m.e, t0.e):
        raise Unsupported("ragged comprehension")

    def elt(t):
        it2 = row(t)
        fn2 = map_closure(eng, it2.n, lambda s: (eng.assign(gens[gi + 1].target, it2.item(s), cf), eng.ev(e.elt, cf))[1])
        return Seq(eng, "list", shape=(it2.n,), base=lambda ix: fn2(ix[0]))
    rows = map_closure(eng, n, elt)
    s = Seq(eng, kind, shape=(S.mul(n, m),), base=lambda ix: eng.sget(rows(S.floordiv(ix[0], m)), (S.mod(ix[0], m),)))
    s.rows = (n, m, lambda i, j: eng.sget(rows(i), (j,)))
    return s


# ---------------------------------------------------------------- loops
class _Loc:
    def __init__(self, owner, key):
        self.owner, self.key = owner, key
        self.mode = "unk"
        self.unk = None
        self.cur = owner.f.get(key, MISSING)
        self.samples = []
        self.closed = None
        self.template = None


def _typename(v):
    if S.is_num(v):
        return "c" if isinstance(v, Cx) else "s"
    return type(v).__name__


def symbolic_loop(eng, n, body, fr, line):
    if not eng.branch(S.cmp(">", n, 0)):
        return "done"
    locs = {}
    it = None
    outs = None
    nf0 = eng.nfresh
    for rnd in range(12):
        eng.nfresh += 1
        it = z3.Int("it!%d" % eng.nfresh)
        itv = Sc("i", it)
        eng.loopvars.append(it)
        try:
            restart = False
            for L in locs.values():
                if L.mode == "unk":
                    _make_unknown(eng, L, itv)

            def run():
                eng.assume(S.and_(S.cmp(">=", itv, 0), S.cmp("<", itv, n)))
                for L in locs.values():
                    eng.write(L.owner, L.key, L.template(itv) if L.mode == "template" else L.unk)
                n0 = len(eng.ctx.pc)
                try:
                    body(itv)
                except ContinueX:
                    pass
                return n0
            try:
                outs = eng.explore(run)
            except NeedTemplate as nt:
                key = (nt.loc[0].serial, nt.loc[1])
                if key not in locs:
                    raise
                L = locs[key]
                L.mode = "template"
                L.template = _find_template(eng, L, n)
                if L.template is None:
                    raise Unsupported("loop at line %d: no invariant for %s" % (line, _locname(L)))
                continue
        finally:
            eng.loopvars.pop()
        new = False
        for o in outs:
            for (ow, key), val in o.diff.items():
                k = (ow.serial, key)
                if k not in locs:
                    if isinstance(ow, Seq) and key == "items":
                        if ow.f["items"] is not None:
                            items = ow.f["items"]
                            from .core import _items_fn
                            eng.write(ow, "items", None)
                            eng.write(ow, "data", SData(_items_fn(eng, items)))
                            restart = True
                        continue
                    locs[k] = _Loc(ow, key)
                    new = True
                if k in locs:
                    locs[k].samples.append(val)
        if not new and not restart:
            break
    else:
        raise Unsupported("loop at line %d: modified set did not stabilise" % line)

    body_outs = [o for o in outs if o.kind == "normal"]
    exits = [o for o in outs if o.kind in ("break", "return", "raise")]
    if body_outs:
        _infer(eng, n, it, itv, locs, body_outs, line)
        # base case
        zero = 0
        for L in locs.values():
            if L.closed is None:
                continue
            v0 = L.closed(zero)
            if isinstance(v0, Poison) or L.cur is MISSING or L.mode == "events":
                continue
            st = _same_loc(eng, L, v0, L.cur)
            if st != "proved":
                raise Unsupported("loop at line %d: invariant for %s fails initially (%s)" % (line, _locname(L), st))
        # inductive step
        eng.nfresh += 1
        i2 = z3.Int("it!%d" % eng.nfresh)
        i2v = Sc("i", i2)

        def step():
            eng.assume(S.and_(S.cmp(">=", i2v, 0), S.cmp("<", i2v, n)))
            for L in locs.values():
                eng.write(L.owner, L.key, L.closed(i2v))
            m = eng.mark()
            try:
                body(i2v)
            except ContinueX:
                pass
            ok = []
            d = eng.diff_since(m)
            for (ow, key) in d:
                if (ow.serial, key) not in locs:
                    if isinstance(ow, Seq) and key == "items" and ow.f["items"] is None:
                        continue
                    ok.append("unexpected write to %s" % key)
            for L in locs.values():
                want = L.closed(S.add(i2v, 1))
                got = L.owner.f.get(L.key, MISSING)
                if isinstance(want, Poison) or (isinstance(L.owner, type(eng.events)) and L.owner is eng.events):
                    continue
                if isinstance(got, Poison):
                    continue
                st = _same_loc(eng, L, got, want)
                if st != "proved":
                    if isinstance(L.unk, Poison) and type(L.owner).__name__ == "Frame":
                        # a loop-local value without closed form: must not be read later
                        L.closed = lambda t: Poison("loop-local value")
                        continue
                    ok.append("%s: %s" % (_locname(L) + _attrname(eng, L), st))
            return ok
        eng.loopvars.append(i2)
        try:
            outs2 = eng.explore(step)
        except NeedTemplate as nt:
            raise Unsupported("loop at line %d: reads undetermined %s" % (line, nt.loc[1]))
        finally:
            eng.loopvars.pop()
        for o in outs2:
            if o.kind == "normal" and o.value:
                raise Unsupported("loop at line %d: invariant not inductive (%s)" % (line, "; ".join(o.value)))
            if o.kind in ("break", "return", "raise") and not exits:
                exits = [o]
        for L in locs.values():
            if L.mode == "events":
                nm = [(pc_expr(o.pc), o.diff[(L.owner, L.key)][len(L.cur):]) for o in outs2 if o.kind == "normal"]

                def tail(s, nm=nm):
                    for c, t in nm[:-1]:
                        if eng.branch(S.subst(c, [(i2, S.zi(s))]) if isinstance(c, Sc) else c):
                            return _at(eng, t, i2, s)
                    return _at(eng, nm[-1][1], i2, s)
                L.closed = lambda t, L=L, tail=tail: L.cur + (("loopev", t, tail),)
        eng.loops_ok = getattr(eng, "loops_ok", 0) + 1
    else:
        for L in locs.values():
            L.closed = lambda t, L=L: L.cur
    which = "complete"
    if exits:
        opts = [(True, "complete")] if body_outs else []
        if body_outs:
            which = eng.choose([(True, "complete"), (True, "exit")])
        else:
            which = "exit"
    if which == "complete":
        if exits and body_outs:
            _assume_completed(eng, n, it, body_outs, nf0)
        for L in locs.values():
            v = L.closed(n)
            if v is MISSING:
                eng.delete(L.owner, L.key)
            else:
                eng.write(L.owner, L.key, v)
        return "done"
    i3 = eng.fresh("i", "itx")
    eng.assume(S.and_(S.cmp(">=", i3, 0), S.cmp("<", i3, n)))
    for L in locs.values():
        v = L.closed(i3)
        if v is MISSING:
            eng.delete(L.owner, L.key)
        else:
            eng.write(L.owner, L.key, v)
    try:
        body(i3)
    except BreakX:
        return "break"
    except ContinueX:
        raise Pruned()
    raise Pruned()


def _assume_completed(eng, n, it, outs, nf0):
    """no early exit happened: every iteration satisfied a normal path's
    condition (used when that condition only concerns the pre-state)"""
    import re
    e = z3.Or(*[z3.And(*o.pc[o.value:]) if o.pc[o.value:] else z3.BoolVal(True) for o in outs])
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(it):
            m = re.search(r"!(\d+)$", x.decl().name())
            if m and int(m.group(1)) > nf0:
                return
        st.extend(x.children())
    eng.fact(z3.ForAll([it], z3.Implies(z3.And(it >= 0, it < S.zi(n)), e)))


def _locname(L):
    o = L.owner
    nm = getattr(o, "kind", None) or (o.cls.name if isinstance(o, Obj) else type(o).__name__)
    return "%s.%s" % (nm, L.key)


def _same_loc(eng, L, a, b):
    if isinstance(L.owner, Seq) and L.key == "data":
        shp = L.owner.f["shape"]
        if any(S.is_conc(d) and d == 0 for d in shp):
            return "proved"
        ix = tuple(eng.fresh("i", "ix") for _ in shp)

        def th():
            for x, d in zip(ix, shp):
                eng.assume(S.and_(S.cmp(">=", x, 0), S.cmp("<", x, d)))
            import os
            if os.environ.get("DBGL"):
                x, y = eng.dget(a, ix), eng.dget(b, ix)
                r = eq_val(eng, x, y)
                if r[0] != "proved":
                    print("CELL", ix, "\n  ", getattr(x, "f", {}).get("lc", x), "\n  ", getattr(y, "f", {}).get("lc", y), r)
                return r[0]
            return eq_val(eng, eng.dget(a, ix), eng.dget(b, ix))[0]
        outs = eng.explore(th)
        for o in outs:
            if o.kind != "normal" or o.value != "proved":
                return o.value or "raised"
        return "proved"
    if isinstance(L.owner, Seq) and L.key == "shape":
        return eq_val(eng, tuple(a), tuple(b))[0]
    if isinstance(L.owner, MatObj) and L.key == "lc":
        return "proved" if eng.eq_lc(a, b) else "unknown"
    return eq_val(eng, a, b)[0]


def _make_unknown(eng, L, itv):
    cur, sm = L.cur, [s for s in L.samples if not isinstance(s, Poison)]
    ow, key = L.owner, L.key
    if ow is eng.events and key == "log":
        L.unk = cur
        L.mode = "events"
        L.unk = cur
        return
    if isinstance(ow, Seq) and key == "data":
        dt = ow.f["dtype"]
        kind = {"float": "r", "complex": "c", "int": "i", "bool": "b"}.get(dt)
        if kind:
            fn = eng.fresh_fn(kind, len(ow.f["shape"]), "ua")
            L.ufn = fn
            L.unk = SData(lambda ix, fn=fn: fn(*ix))
            L.unk.marker = L
        else:
            def rd(ix, L=L):
                raise NeedTemplate((L.owner, L.key))
            L.unk = SData(rd)
            L.unk.marker = L
        return
    if isinstance(ow, Seq) and key == "shape":
        v = eng.fresh("i", "ulen")
        L.unk = (v,) + tuple(cur[1:])
        L.uvar = v
        # a length never becomes negative
        return
    if isinstance(ow, MatObj) and key == "lc":
        L.uatom = "unkM!%d" % eng.nfresh
        eng.nfresh += 1
        L.uatom = "unkM!%d" % eng.nfresh
        L.unk = MT.atom(L.uatom, itv)
        return
    vals = ([cur] if cur is not MISSING else []) + sm
    if cur is MISSING:
        L.mode = "unk"
        L.unk = Poison("assigned in loop")
        return
    if all(S.is_num(v) and not S.is_inf(v) for v in vals):
        if any(isinstance(v, Cx) for v in vals):
            k = "c"
        elif all(S.kind(v) == "b" for v in vals):
            k = "b"
        elif all(S.kind(v) in "ib" for v in vals):
            k = "i"
        else:
            k = "r"
        L.ukind = k
        L.unk = eng.fresh(k, "us")
        return
    if all(isinstance(v, MatObj) for v in vals):
        eng.nfresh += 1
        L.uatom = "unkM!%d" % eng.nfresh
        m0 = vals[0]
        L.unk = MatObj(eng, MT.atom(L.uatom, itv), m0.kind, m0.shape, m0.dims)
        return
    if all(v is cur for v in vals):
        L.unk = cur
        return
    L.unk = Poison("template")


def _find_template(eng, L, n):
    """closed form of the final contents prescribed by the contract"""
    if eng.targets is None:
        return None
    ow, key = L.owner, L.key
    if isinstance(ow, Seq) and key == "data":
        # attribute of a root object holding this sequence
        tgt = eng.targets.get((ow, "data"))
        if tgt is not None:
            fin = tgt
            get = lambda ix: eng.dget(fin, ix)
        else:
            path = None
            for r in eng.roots:
                for k, v in r.f.items():
                    if v is ow:
                        path = (r, k)
            if path is None:
                # an array held by a local name only: the one array of this
                # shape that the contract specifies anew
                cand = [v for v in eng.targets.values() if isinstance(v, Seq) and _alike(eng, v, ow)]
                if len(cand) > 1:
                    zero = (0,) * len(ow.f["shape"])
                    cand = [v for v in cand if _same_num(eng, eng.sget(v, zero), eng.dget(L.cur, zero))]
                if len(cand) != 1:
                    return None
                ts = cand[0]
            elif path not in eng.targets:
                return None
            else:
                ts = eng.targets[path]
            if not isinstance(ts, Seq):
                return None
            snap = eng.snapshot(ts)
            get = lambda ix: snap(ix)
        L.tget = get
        cur = L.cur

        def at(t, get=get):
            return SData(lambda ix: get(ix))
        return at
    return None


def _same_num(eng, a, b):
    return S.is_num(a) and S.is_num(b) and eng.valid(S.cmp("==", a, b))


def _alike(eng, v, ow):
    if ow.kind != "ndarray" or v.kind != ow.kind or v.f["dtype"] != ow.f["dtype"] or len(v.f["shape"]) != len(ow.f["shape"]):
        return False
    pre = getattr(eng, "pre_serial", None)
    if pre is not None and v.serial <= pre:
        return False
    return all(eng.valid(S.cmp("==", a, b)) for a, b in zip(v.f["shape"], ow.f["shape"]))


def _merge_scalar(eng, L, outs):
    cases = []
    for o in outs:
        v = o.diff.get((L.owner, L.key), L.unk)
        # a single normal outcome: earlier iterations necessarily took it
        cases.append((pc_expr(o.pc[o.value:]) if len(outs) > 1 else True, v))
    return cases


def _ite_chain(cases):
    r = cases[-1][1]
    for c, v in reversed(cases[:-1]):
        r = S.ite(c, v, r)
    return r


def _infer(eng, n, it, itv, locs, outs, line):
    unk_consts = {}
    pending = list(locs.values())
    for L in pending:
        if S.is_num(L.unk) if not isinstance(L.unk, tuple) else False:
            for p in ((L.unk.re, L.unk.im) if isinstance(L.unk, Cx) else (L.unk,)):
                unk_consts[p.e.get_id()] = (p.e, L)
    # list lengths first: element positions depend on them
    pending.sort(key=lambda L: 0 if (isinstance(L.owner, Seq) and L.key == "shape") else 1)
    resolved = []          # list of (z3 const/app, closed fn) substitutions

    def resolve(v):
        """replace unknowns of already solved locations by their closed form at it"""
        for term, fn in resolved:
            if isinstance(v, (Sc, Cx)) and mentions_app(v, term):
                v = _simp_ites(eng, S.subst(v, [(term, _z(fn(itv), term))]), it, n)
            elif isinstance(v, MT.LC):
                v = MT.map_scalars(v, lambda s: S.subst(s, [(term, _z(fn(itv), term))]) if mentions_app(s, term) else s)
        if isinstance(v, MT.LC):
            for L in locs.values():
                nm = getattr(L, "uatom", None)
                if nm is not None and L.closed is not None and lc_has_atom(v, nm):
                    v = _subst_atom(v, nm, lambda t, L=L: getattr(L.closed(t), "f", {}).get("lc") if not isinstance(L.closed(t), MT.LC) else L.closed(t))
        return v
    def template(L):
        """contract-provided templates (spec functions of the iteration count)"""
        for name, fn in eng.templates:
            try:
                v0 = fn(0)
                if type(v0) is type(L.cur) or (S.is_num(v0) and S.is_num(L.cur)):
                    if eq_val(eng, v0, L.cur)[0] == "proved":
                        L.closed = fn
                        return True
            except Unsupported:
                continue
        return False
    todo = pending
    for _ in range(8):
        nxt = []
        for L in todo:
            try:
                done = _infer_one(eng, n, it, itv, L, outs, resolve, locs, unk_consts, resolved, line)
            except _Later:
                done = False
            if not done:
                nxt.append(L)
        if not nxt:
            return
        if len(nxt) == len(todo):
            # numbers with a template may unblock the rest
            hit = [L for L in nxt if getattr(L, "ukind", None) in ("r", "i") and isinstance(L.unk, Sc) and template(L)]
            for L in hit:
                resolved.append((L.unk.e, L.closed))
                unk_consts.pop(L.unk.e.get_id(), None)
                nxt.remove(L)
            if not hit:
                break
        todo = nxt
    for L in nxt:
        if not template(L):
            raise Unsupported("loop at line %d: no closed form for %s" % (line, _locname(L)))


def _simp_ites(eng, v, it, n):
    """case distinctions decided by 0 <= it < n"""
    if isinstance(v, Cx):
        return Cx(_simp_ites(eng, v.re, it, n), _simp_ites(eng, v.im, it, n))
    if not isinstance(v, Sc):
        return v
    e = v.e
    tried = set()
    while True:
        hit, seen, st = None, set(), [e]
        while st and hit is None:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE) and has_const(x.arg(0), it) and x.arg(0).sexpr() not in tried:
                hit = x
            st.extend(x.children())
        if hit is None:
            return S.norm(Sc(v.kind, e))
        c = hit.arg(0)
        tried.add(c.sexpr())
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(it >= 0, it < S.zi(n))
        for w, k in ((z3.Not(c), 1), (c, 2)):
            s.push()
            s.add(w)
            r = s.check()
            s.pop()
            if r == z3.unsat:
                e = z3.simplify(z3.substitute(e, (hit, hit.arg(k))))
                break


class _Later(Exception):
    pass


def mentions_app(v, term):
    if isinstance(v, Cx):
        return mentions_app(v.re, term) or mentions_app(v.im, term)
    return isinstance(v, Sc) and has_const(v.e, term)


def _z(v, term):
    if term.sort() == z3.IntSort():
        return S.zi(v)
    if term.sort() == z3.RealSort():
        return S.zr(v)
    return S.zb(v)


def _unresolved(v, unk_consts, own, resolved):
    """does v mention unknowns (other than own) not yet resolved"""
    def chk(s):
        for term, L in unk_consts.values():
            if L is own:
                continue
            if mentions_app(s, term):
                return True
        return False
    if isinstance(v, (Sc, Cx)):
        return chk(v)
    if isinstance(v, MT.LC):
        hit = [False]

        def f(s):
            if chk(s):
                hit[0] = True
            return s
        MT.map_scalars(v, f)
        return hit[0]
    return False


def _at(eng, v, it, t):
    return subst_value(eng, v, [(it, S.zi(t))])


def _infer_one(eng, n, it, itv, L, outs, resolve, locs, unk_consts, resolved, line):
    ow, key = L.owner, L.key
    cases = _merge_scalar(eng, L, outs)
    vals = [v for _, v in cases]
    # -------- events
    if L.mode == "events":
        # determined by the inductive step, when everything else is known
        L.closed = lambda t: L.cur
        return True
    # -------- sequence contents
    if isinstance(ow, Seq) and key == "data":
        return _infer_seq(eng, n, it, itv, L, cases, resolve, unk_consts, resolved, line, locs)
    if isinstance(ow, Seq) and key == "shape":
        d0 = [v[0] for v in vals]
        delta = [_som(S.sub(v, L.uvar)) for v in d0]
        d = delta[0]
        if all(MT.skey(x) == MT.skey(d) for x in delta) and mentions(d, it) and not mentions_app(d, L.uvar.e):
            cur = L.cur
            L.closed = lambda t: (S.add(cur[0], eng.ssum(0, t, lambda s: S.subst(d, [(it, S.zi(s))]), "i")),) + tuple(cur[1:])
            L.blocks = d
            resolved.append((L.uvar.e, lambda t: L.closed(t)[0]))
            return True
        if not all(MT.skey(x) == MT.skey(d) for x in delta) or mentions(d, it) or mentions_app(d, L.uvar.e):
            raise Unsupported("loop at line %d: list growth not uniform" % line)
        cur = L.cur
        L.closed = lambda t: (S.add(cur[0], S.mul(t, d)),) + tuple(cur[1:])
        L.delta = d
        resolved.append((L.uvar.e, lambda t: L.closed(t)[0]))
        return True
    if isinstance(ow, MatObj) and key == "lc":
        lcs = vals
        return _infer_lc(eng, it, L, cases, lcs, resolve, unk_consts, resolved,
                         wrap=lambda lc: lc, curlc=L.cur, locs=locs)
    cur = L.cur
    # -------- missing / poison locals: last value
    if isinstance(L.unk, Poison):
        return _last_value(eng, it, L, cases, resolve, unk_consts, resolved, locs)
    if S.is_num(L.unk):
        new = resolve(_ite_chain(cases))
        parts = [(L.unk.re, S.re(new), S.re(cur)), (L.unk.im, S.im(new), S.im(cur))] if isinstance(L.unk, Cx) else [(L.unk, new, cur)]
        own = [p[0].e for p in parts]
        if not any(mentions_app(new, o) for o in own):
            if _unresolved(new, unk_consts, L, resolved):
                raise _Later()
            return _last_value(eng, it, L, [(True, new)], resolve, unk_consts, resolved, locs)
        closed = []
        for u, nv, cv in parts:
            if S.kind(u) == "b":
                return False
            g = S.sub(nv, u)
            if isinstance(g, Sc):
                g = S.mk(g.kind, z3.simplify(g.e, som=True))
                if any(mentions_app(g, o) for o in own):
                    g = _push_ite(g, u)
            if any(mentions_app(g, o) for o in own):
                return False
            if _unresolved(g, unk_consts, L, resolved):
                raise _Later()
            closed.append((cv, g, "i" if S.kind(u) == "i" else "r"))
        if isinstance(L.unk, Cx):
            L.closed = lambda t: Cx(*[S.add(cv, eng.ssum(0, t, lambda s, g=g: S.subst(g, [(it, S.zi(s))]), k)) for cv, g, k in closed])
        else:
            cv, g, k = closed[0]
            L.closed = lambda t: S.add(cv, eng.ssum(0, t, lambda s: S.subst(g, [(it, S.zi(s))]), k))
        for i, (u, _, _) in enumerate(parts):
            resolved.append((u.e, (lambda t, i=i: (S.re, S.im)[i](L.closed(t))) if isinstance(L.unk, Cx) else L.closed))
            unk_consts.pop(u.e.get_id(), None)
        return True
    if isinstance(L.unk, MatObj):
        if not all(isinstance(v, MatObj) for v in vals):
            raise Unsupported("loop variable type change")
        m0 = L.cur
        return _infer_lc(eng, it, L, cases, [v.f["lc"] for v in vals], resolve, unk_consts, resolved,
                         wrap=lambda lc: MatObj(eng, lc, m0.kind, m0.shape, m0.dims), curlc=m0.f["lc"], locs=locs)
    if L.unk is cur:
        L.closed = lambda t: cur
        return True
    return False


def _push_ite(g, u):
    """distribute the unknown out of if-then-else:  ite(c, u+a, u+b) - u"""
    e = g.e
    lo = z3.simplify(z3.substitute(e, (u.e, z3.RealVal(0) if u.kind == "r" else z3.IntVal(0))))
    t = z3.Solver()
    t.set("timeout", 2000)
    t.add(lo != e)
    if t.check() == z3.unsat:
        return S.norm(Sc(g.kind, lo))
    return g


def _last_value(eng, it, L, cases, resolve, unk_consts, resolved, locs):
    cells = lambda v: _read_cells(eng, locs)(v)
    cs = []
    for c, v in cases:
        if isinstance(v, Poison) or v is MISSING:
            v = Poison("not assigned on every path")
        cs.append((c, v))
    cur = L.cur
    if len(cs) > 1 and not all(S.is_num(v) for _, v in cs):
        rs = [(resolve(c) if isinstance(c, Sc) else c, v) for c, v in cs]
        if any(_unresolved(c, unk_consts, L, resolved) for c, _ in rs if isinstance(c, Sc)):
            raise _Later()
        rng = Sc("b", it >= 0)
        rs = [(c, v) for c, v in rs if not (c is False or isinstance(c, Sc) and eng.valid(S.not_(S.and_(rng, c))))]
        cs = rs or cs
    if all(S.is_num(v) for _, v in cs):
        new = resolve(_ite_chain(cs))
        if _unresolved(new, unk_consts, L, resolved):
            raise _Later()
        last = lambda t: cells(S.subst(new, [(it, S.zi(S.sub(t, 1)))]))
    elif len(cs) == 1 or all(v is cs[0][1] for _, v in cs):
        v0 = cs[0][1]
        last = lambda t: cells(_at(eng, v0, it, S.sub(t, 1)))
    else:
        def last(t):
            for c, v in cs[:-1]:
                if eng.branch(S.subst(c, [(it, S.zi(S.sub(t, 1)))])):
                    return cells(_at(eng, v, it, S.sub(t, 1)))
            return cells(_at(eng, cs[-1][1], it, S.sub(t, 1)))
        if any(isinstance(v, Poison) for _, v in cs):
            L.closed = lambda t: (cur if S.is_conc(t) and t == 0 else Poison("not assigned on every path"))
            return True

    def closed(t):
        if S.is_conc(t) and t == 0:
            return cur
        if eng.valid(S.cmp(">=", t, 1)):
            return last(t)
        if S.is_num(cur) and not S.is_inf(cur):
            try:
                return S.ite(S.cmp("==", t, 0), cur, last(t))
            except Unsupported:
                pass
        return Poison("assigned in loop")
    L.closed = closed
    return True


def _infer_lc(eng, it, L, cases, lcs, resolve, unk_consts, resolved, wrap, curlc, locs):
    new = None
    for i, ((c, _), lc) in enumerate(zip(cases, lcs)):
        lc = resolve(lc)
        if len(lcs) > 1:
            lc = MT.scale(S.ite(c, 1, 0), lc)
        new = lc if new is None else MT.add(new, lc)
    if len(lcs) > 1:
        # sum of indicators over exhaustive disjoint cases is 1
        new = _merge_ind(eng, new)
    if any(a is not L.uatom and lc_has_atom(new, a) for a in (getattr(o, "uatom", None) for o in locs.values()) if a):
        raise _Later()
    if not lc_has_atom(new, L.uatom):
        if _unresolved(new, unk_consts, L, resolved):
            raise _Later()

        def closed(t):
            if S.is_conc(t) and t == 0:
                return wrap(curlc)
            if eng.valid(S.cmp(">=", t, 1)):
                return wrap(subst_lc(new, [(it, S.zi(S.sub(t, 1)))]))
            if eng.branch(S.cmp("==", t, 0)):
                return wrap(curlc)
            return wrap(subst_lc(new, [(it, S.zi(S.sub(t, 1)))]))
        L.closed = closed
        return True
    d = MT.sub(new, MT.atom(L.uatom, Sc("i", it)))
    if lc_has_atom(d, L.uatom):
        for side in (-1, 0):
            a = _factor(new, L.uatom, side)
            if a is None or lc_has_atom(a, L.uatom):
                continue
            if _unresolved(a, unk_consts, L, resolved):
                raise _Later()
            body = lambda s: subst_lc(a, [(it, S.zi(s))])
            if side == -1:
                L.closed = lambda t: wrap(MT.mul(MT.mprod(0, t, body), curlc))
            else:
                L.closed = lambda t: wrap(MT.mul(curlc, MT.mprodr(0, t, body)))
            return True
        return False
    if _unresolved(d, unk_consts, L, resolved):
        raise _Later()
    L.closed = lambda t: wrap(MT.add(curlc, MT.msum(0, t, lambda s: subst_lc(d, [(it, S.zi(s))]))))
    return True


def _subst_atom(lc, name, fn):
    """replace the unknown atoms by their closed form (outside sums only)"""
    out = MT.ZERO
    for w, c in lc.terms():
        r = MT.scale(c, MT.ONE)
        for a in w:
            b, star = (a.args[0], a.name) if a.name in ("dag", "conj", "T") else (a, None)
            v = fn(b.args[0]) if b.name == name else None
            if v is None:
                v = MT.build([((a,), 1)])
            elif star:
                v = {"dag": MT.dag, "conj": MT.conj, "T": MT.transp}[star](v)
            r = MT.mul(r, v)
        out = MT.add(out, r)
    return out


def _factor(lc, name, side):
    """lc = A * unk (side -1) or unk * A (side 0): A"""
    out = []
    for w, c in lc.terms():
        if not w or w[side].name != name:
            return None
        out.append((w[:-1] if side == -1 else w[1:], c))
    return MT.build(out)


def _merge_ind(eng, lc):
    out = []
    for w, c in lc.terms():
        if isinstance(c, Sc) and eng.valid(S.cmp("==", c, 1)):
            c = 1
        out.append((w, c))
    return MT.build(out)


def _solve_it(eng, guard, it, extra):
    """solve guard for the iteration variable: returns z3 expr or None"""
    cand = []
    st = [guard]
    while st:
        x = st.pop()
        if z3.is_and(x):
            st.extend(x.children())
        elif z3.is_eq(x) and x.arg(0).sort() == z3.IntSort():
            cand.append(z3.simplify(x.arg(0) - x.arg(1)))
        elif z3.is_not(x) and (z3.is_or(x.arg(0))):
            st.extend([z3.Not(y) for y in x.arg(0).children()])
        elif z3.is_not(x) and z3.is_not(x.arg(0)):
            st.append(x.arg(0).arg(0))
    for e in cand:
        z = z3.simplify(z3.substitute(e, (it, z3.IntVal(0))))
        c = z3.simplify(z3.substitute(e, (it, z3.IntVal(1))) - z)
        if z3.is_int_value(c) and c.as_long() in (1, -1):
            sol = z3.simplify(-z if c.as_long() == 1 else z)
            chk = z3.simplify(z3.substitute(e, (it, sol)))
            if z3.is_int_value(chk) and chk.as_long() == 0:
                return sol
    return None


def _infer_seq(eng, n, it, itv, L, cases, resolve, unk_consts, resolved, line, locs):
    ow = L.owner
    shp = ow.f["shape"]
    nd = len(shp)
    cur = L.cur
    base_fn = lambda ix: eng.dget(cur, ix)
    allw = []
    if len(cases) == 1 and getattr(cases[0][1], "front", None) and cases[0][1].front[1] is L.unk and not cases[0][1].writes:
        # a list that each iteration extends at the front
        v = cases[0][1].front[0]

        def closed_front(t):
            def base(ix):
                if eng.branch(S.cmp("<", ix[0], t)):
                    return _at(eng, resolve_val(eng, v, resolve), it, S.sub(S.sub(t, 1), ix[0]))
                return eng.dget(cur, (S.sub(ix[0], t),))
            return SData(base)
        L.closed = closed_front
        return True
    for c, d in cases:
        if d is L.unk:
            continue
        if not isinstance(d, SData):
            raise Unsupported("array representation change in loop")
        if d.base is not L.unk.base and L.mode != "template":
            # whole-array replacement (in-place op): value per element
            allw.append((c, None, d))
            continue
        ws = d.writes
        if L.mode == "template":
            pass
        for g, v in ws:
            allw.append((c, g, v))
    X = tuple(Sc("i", z3.Int("!x%d_%s" % (k, it))) for k in range(nd))
    fin = []
    if L.mode != "template" and hasattr(L, "ufn") and all(g is not None for _, g, _ in allw):
        raw = []
        for c, g, v in allw:
            gx = resolve(g(X))
            if gx is True or isinstance(gx, Sc):
                raw.append(gx)
        resolve0 = resolve

        def resolve(v):
            return _never_written(eng, L, resolve0(v), raw, X, it, n)
    for c, g, v in allw:
        if g is None:
            return _infer_seq_whole(eng, it, L, cases, X, resolve, unk_consts, resolved)
        gz = resolve(S.and_(c, g(X)))
        if isinstance(gz, bool):
            if not gz:
                continue
            gz = True
        if _unresolved(gz, unk_consts, L, resolved) if isinstance(gz, Sc) else False:
            raise _Later()
        fin.append((gz, g, v))
    layers = []
    for gz, g, v in fin:
        sol = _solve_it(eng, gz.e, it, None) if isinstance(gz, Sc) else None
        if sol is None:
            # same cells every iteration?  accumulate: val = old + inc
            r = _infer_cell(eng, it, L, gz, v, X, resolve)
            if r is None:
                r = _template_cell(eng, it, L, g, X, resolve, n)
            if r is None:
                r = _template_block(eng, L, locs, n)
            if r is None:
                r = _block_layer(eng, it, itv, L, v, X, resolve, locs, n)
            if r is None:
                raise Unsupported("loop at line %d: cannot locate writes to %s%s (%s)" % (line, _locname(L), _attrname(eng, L), str(gz)[:120]))
            layers.append(r)
            continue

        def tau(ix, sol=sol):
            return S.norm(Sc("i", z3.simplify(z3.substitute(sol, *[(x.e, S.zi(y)) for x, y in zip(X, ix)]))))

        def guard_t(t, tau=tau, gz=gz):
            def guard(ix):
                ti = tau(ix)
                inner = S.subst(gz, [(x.e, S.zi(y)) for x, y in zip(X, ix)] + [(it, S.zi(ti))])
                return S.and_(S.and_(S.cmp(">=", ti, 0), S.cmp("<", ti, t)), inner)
            return guard
        if L.mode == "template":
            def val(ix):
                return L.tget(ix)
        else:
            def val(ix, v=v, tau=tau):
                ti = tau(ix)
                eng.loopvars.append(it)
                try:
                    eng.solver.push()
                    try:
                        # evaluate at symbolic 'it', then substitute
                        x = resolve_val(eng, v(ix), resolve)
                    finally:
                        eng.solver.pop()
                finally:
                    eng.loopvars.pop()
                return subst_value(eng, x, [(it, S.zi(ti))])
        layers.append((guard_t, val))
    for lay in layers:
        if isinstance(lay, _CellLayer):
            continue
        gt, vf = lay
        if L.mode != "template" and hasattr(L, "ufn"):
            x = vf(X)
            if S.is_num(x):
                if _uses_fn(x, L):
                    # reads other cells of the array: needs a template
                    if _seq_template(eng, L):
                        return True
                    tpl = _find_template(eng, L, n)
                    if tpl is None:
                        raise Unsupported("loop at line %d: recurrence over %s" % (line, _locname(L)))
                    L.mode = "template"
                    return _infer_seq(eng, n, it, itv, L, cases, resolve, unk_consts, resolved, line, locs)

    def closed(t):
        ws = tuple((l[0](t), l[1](t) if isinstance(l, _CellLayer) else l[1]) for l in layers)
        return SData(cur.base, cur.writes + ws)
    L.closed = closed
    return True


def _seq_template(eng, L):
    """contract-provided contents after t iterations"""
    for match, at in eng.seqtemplates:
        if match(L.owner):
            eng.nfresh += 1
            if _same_loc(eng, L, at(L.cur, 0), L.cur) == "proved":
                L.closed = lambda t, at=at: at(L.cur, t)
                return True
    return False


def _never_written(eng, L, v, guards, X, it, n):
    """cells that no earlier iteration writes hold what they held before the loop"""
    if isinstance(v, Cx):
        return Cx(*[_never_written(eng, L, p, guards, X, it, n) for p in (v.re, v.im)])
    if not isinstance(v, Sc):
        return v
    names = _fn_names(L)
    probe = L.ufn(*[0] * len(X))
    pre = S.re(probe).e.children()[:-len(X)]
    apps, st, seen = {}, [v.e], set()
    while st:
        e = st.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() in names and not any(_has_var(c) for c in e.children()):
            if all(x.eq(y) for x, y in zip(e.children()[:-len(X)], pre)):
                apps[e.get_id()] = e
        st.extend(e.children())
    sub = []
    memo = L.__dict__.setdefault("nw", {})
    for e in apps.values():
        if e.get_id() not in memo:
            ix = tuple(S.norm(Sc("i", c)) for c in e.children()[-len(X):])
            i2 = z3.FreshInt("nw")
            hit = []
            for g in guards:
                g2 = True if g is True else S.subst(g, [(x.e, S.zi(y)) for x, y in zip(X, ix)] + [(it, i2)])
                hit.append(S.zb(g2))
            eng.solver.push()
            try:
                eng.fact(z3.And(it >= 0, it < S.zi(n), i2 >= 0, i2 < it))
                ok = eng.valid(Sc("b", z3.Not(z3.Or(*hit))))
                new = eng.dget(L.cur, ix) if ok else None
            finally:
                eng.solver.pop()
            memo[e.get_id()] = (e, new)
        new = memo[e.get_id()][1]
        if new is None:
            continue
        part = (S.re(new) if names[e.decl().name()] == 0 else S.im(new)) if isinstance(L.ufn(*[0] * len(X)), Cx) else new
        sub.append((e, _z(part, e)))
    return S.norm(Sc(v.kind, z3.substitute(v.e, *sub))) if sub else v


def _fn_names(L):
    probe = L.ufn(*[Sc("i", z3.IntVal(0)) for _ in L.owner.f["shape"]])
    return {p.e.decl().name(): k for k, p in enumerate((probe.re, probe.im) if isinstance(probe, Cx) else (probe,))}


def resolve_val(eng, x, resolve):
    if isinstance(x, (Sc, Cx)):
        return resolve(x)
    if isinstance(x, MatObj):
        return MatObj(eng, resolve(x.f["lc"]), x.kind, x.shape, x.dims)
    return x


def _uses_fn(x, L):
    probe = L.ufn(*[Sc("i", z3.IntVal(0)) for _ in L.owner.f["shape"]])
    names = {p.e.decl().name() for p in ((probe.re, probe.im) if isinstance(probe, Cx) else (probe,))}
    st = [p.e for p in ((x.re, x.im) if isinstance(x, Cx) else (x,)) if isinstance(p, Sc)]
    seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() in names:
            return True
        st.extend(e.children())
    return False


def _template_cell(eng, it, L, g, X, resolve, n):
    """cells independent of the iteration that hold the specified contents
    from the first iteration on"""
    if getattr(L, "tget", None) is None:
        old = L.template
        if _find_template(eng, L, n) is None:
            return None
        L.template = old
    gx = resolve(g(X))
    if isinstance(gx, Sc) and has_const(gx.e, it):
        return None

    def guard_t(t):
        def guard(ix):
            c = S.cmp(">", t, 0)
            if isinstance(gx, Sc):
                return S.and_(c, S.subst(gx, [(a.e, S.zi(b)) for a, b in zip(X, ix)]))
            return c if gx else False
        return guard
    return guard_t, lambda ix: L.tget(ix)


def _template_block(eng, L, locs, n):
    """a list that each iteration extends by a block: the part appended so
    far holds the specified contents (checked by the inductive step)"""
    sh = locs.get((L.owner.serial, "shape"))
    if sh is None or getattr(sh, "closed", None) is None or L.owner.kind != "list":
        return None
    if getattr(L, "tget", None) is None:
        old = L.template
        if _find_template(eng, L, n) is None:
            return None
        L.template = old
    n0 = sh.cur[0]

    def guard_t(t):
        return lambda ix: S.and_(S.cmp(">=", ix[0], n0), S.cmp("<", ix[0], sh.closed(t)[0]))
    return guard_t, lambda ix: L.tget(ix)


def _block_layer(eng, it, itv, L, v, X, resolve, locs, n):
    """a list that iteration s extends by its own block: position x holds
    what iteration owner(x) wrote there (checked by the inductive step)"""
    sh = locs.get((L.owner.serial, "shape"))
    if sh is None or getattr(sh, "closed", None) is None or L.owner.kind != "list" or len(X) != 1:
        return None
    n0 = sh.cur[0]
    t0 = z3.FreshInt("blk")
    eng.solver.push()
    start = S.zi(sh.closed(Sc("i", t0))[0])
    eng.solver.pop()
    f = z3.Function("blockof!%d" % eng.nfresh, z3.IntSort(), z3.IntSort())
    eng.nfresh += 1
    eng.owners[f.name()] = (start, S.zi(n), t0)

    def guard_t(t):
        return lambda ix: S.and_(S.cmp(">=", ix[0], n0), S.cmp("<", ix[0], sh.closed(t)[0]))

    def val(ix):
        a = f(S.zi(ix[0]))
        q = eng._owner(a, a)
        ti = Sc("i", q if q is not None else a)
        eng.loopvars.append(it)
        eng.solver.push()
        try:
            x = resolve_val(eng, v(ix), resolve)
        finally:
            eng.solver.pop()
            eng.loopvars.pop()
        return subst_value(eng, x, [(it, S.zi(ti))])
    return guard_t, val


def _infer_cell(eng, it, L, gz, v, X, resolve):
    """X[c] = X[c] + g(it) at cells independent of the iteration"""
    if isinstance(gz, Sc) and has_const(gz.e, it):
        return None
    if not hasattr(L, "ufn"):
        return None
    x = v(X)
    if not S.is_num(x):
        return None
    u = L.ufn(*X)
    g = S.sub(x, u)
    g = Cx(*[_som(p) for p in (g.re, g.im)]) if isinstance(g, Cx) else _som(g)
    # the write may address cell via guard equalities: normalise under guard
    if _uses_fn(g, L):
        # substitute cell indices by guard solution
        sub = _guard_subst(gz, X)
        if sub:
            g = S.subst(S.sub(S.subst(x, sub), S.subst(u, sub)), [])
            g = Cx(*[_som(p) for p in (g.re, g.im)]) if isinstance(g, Cx) else _som(g)
        if _uses_fn(g, L):
            return None
    g = resolve(g)
    cur = L.cur

    def guard_t(t):
        def guard(ix):
            c = S.cmp(">", t, 0)
            if isinstance(gz, Sc):
                c = S.and_(c, S.subst(gz, [(a.e, S.zi(b)) for a, b in zip(X, ix)]))
            return c
        return guard

    def val_factory(t):
        def val(ix):
            gg = S.subst(g, [(a.e, S.zi(b)) for a, b in zip(X, ix)])
            return S.add(eng.dget(cur, ix), eng.ssum(0, t, lambda s: S.subst(gg, [(it, S.zi(s))])))
        return val
    return _CellLayer(guard_t, val_factory)


class _CellLayer(tuple):
    def __new__(cls, gt, vf):
        return super().__new__(cls, (gt, vf))


def _som(p):
    return S.norm(Sc(p.kind, z3.simplify(p.e, som=True))) if isinstance(p, Sc) else p


def _guard_subst(gz, X):
    out = []
    st = [gz.e] if isinstance(gz, Sc) else []
    while st:
        x = st.pop()
        if z3.is_and(x):
            st.extend(x.children())
        elif z3.is_eq(x):
            for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                for v in X:
                    if a.eq(v.e) and not has_const(b, v.e):
                        out.append((v.e, b))
                        break
    return out


def _infer_seq_whole(eng, it, L, cases, X, resolve, unk_consts, resolved):
    """whole-array update  A = A + G(it)  (element-wise accumulation)"""
    if len(cases) != 1 or not hasattr(L, "ufn"):
        raise Unsupported("array update form in loop")
    d = cases[0][1]
    x = eng.dget(d, X)
    u = L.ufn(*X)
    g = resolve(S.sub(x, u))
    g = Cx(*[_som(p) for p in (g.re, g.im)]) if isinstance(g, Cx) else _som(g)
    cur = L.cur
    if _uses_fn(x, L):
        if _uses_fn(g, L):
            raise Unsupported("array recurrence in loop")
        if _unresolved(g, unk_consts, L, resolved):
            raise _Later()

        def closed(t):
            def base(ix):
                gg = S.subst(g, [(a.e, S.zi(b)) for a, b in zip(X, ix)])
                return S.add(eng.dget(cur, ix), eng.ssum(0, t, lambda s: S.subst(gg, [(it, S.zi(s))])))
            return SData(base)
        L.closed = closed
        return True
    x = resolve(x)

    def closed2(t):
        def base(ix):
            xx = S.subst(x, [(a.e, S.zi(b)) for a, b in zip(X, ix)] + [(it, S.zi(S.sub(t, 1)))])
            return S.ite(S.cmp("==", t, 0), eng.dget(cur, ix), xx)
        return SData(base)
    L.closed = closed2
    return True


def _attrname(eng, L):
    for r in eng.roots:
        for k, v in r.f.items():
            if v is L.owner:
                return "(" + k + ")"
    return ""
