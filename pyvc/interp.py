"""pyvc interpreter: symbolic execution of the real AST."""
import ast
import os
import z3
from fractions import Fraction
from . import scal as S, mat as MT
from .scal import Sc, Cx, Unsupported, INF
from .core import (Engine, Obj, Seq, MatObj, PyDict, Heap, SData, Opq, OStr, Poison, MISSING,
                   PyExc, Pruned, NeedTemplate, BreakX, ContinueX, ReturnX, has_const)


class ModuleV:
    def __init__(self, name, path=None, tree=None):
        self.name, self.path, self.tree = name, path, tree
        self.defs = {}
        self.cache = {}

    def __repr__(self):
        return "<module %s>" % self.name


class LibMod:
    def __init__(self, name):
        self.name = name


class LibFn:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<lib %s>" % self.name


class TypeV:
    """builtin or library type"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<type %s>" % self.name


class ClassInfo:
    def __init__(self, name, module, node=None, bases=(), builtin=False):
        self.name, self.module, self.node, self.bases, self.builtin = name, module, node, list(bases), builtin
        self.members = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name], c
        return None, None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.name


class Prop:
    def __init__(self, fget=None, fset=None):
        self.fget, self.fset = fget, fset


class FuncV:
    def __init__(self, name, node, module, cls=None, closure=None, static=False):
        self.name, self.node, self.module, self.cls, self.closure = name, node, module, cls, closure
        self.static, self.clsm = static, False
        self.qual = "%s.%s%s" % (module.name.split(".")[-1], (cls.name + ".") if cls else "", name)
        self.defaults = None

    def __repr__(self):
        return "<func %s>" % self.qual


class BoundM:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return "<bound %s>" % self.func


def _simple(e):
    """expressions without side effects"""
    return all(isinstance(x, (ast.Name, ast.Constant, ast.Subscript, ast.Tuple, ast.BinOp, ast.UnaryOp, ast.Compare, ast.operator,
                              ast.unaryop, ast.cmpop, ast.expr_context)) for x in ast.walk(e))


def _accumulates(x):
    """x = x + e, x = e + x, x = x - e: (name, operator, e)"""
    if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.BinOp)):
        return None
    n, b = x.targets[0].id, x.value
    if isinstance(b.op, (ast.Add, ast.Sub)) and isinstance(b.left, ast.Name) and b.left.id == n:
        return n, type(b.op).__name__, b.right
    if isinstance(b.op, ast.Add) and isinstance(b.right, ast.Name) and b.right.id == n:
        return n, "Add", b.left
    return None


def _counter(s):
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and s.body):
        return None
    inc = s.body[-1]
    if not (isinstance(inc, ast.AugAssign) and isinstance(inc.target, ast.Name) and inc.target.id == t.left.id
            and isinstance(inc.value, ast.Constant) and inc.value.value == 1):
        return None
    step = {ast.Add: 1, ast.Sub: -1}.get(type(inc.op))
    op = {(ast.Lt, 1): "<", (ast.LtE, 1): "=", (ast.Gt, -1): "<", (ast.GtE, -1): "="}.get((type(t.ops[0]), step))
    if op is None:
        return None
    for st in s.body[:-1]:
        for x in ast.walk(st):
            if isinstance(x, (ast.Break, ast.Continue, ast.NamedExpr, ast.Return)):
                return None
            if isinstance(x, ast.Name) and x.id == t.left.id and isinstance(x.ctx, (ast.Store, ast.Del)):
                return None
    if any(isinstance(x, (ast.Call, ast.NamedExpr)) and not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len")
           for x in ast.walk(t.comparators[0])):
        return None
    return t.left.id, op, t.comparators[0], step


def _store_of(s):
    return s.body[0]


def _cond_store(s):
    if len(s.body) != 1 or len(s.orelse) > 1:
        return False
    b = s.body[0]
    if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], (ast.Subscript, ast.Name))
            and _simple(s.test) and _simple(b.value) and _simple(b.targets[0])):
        return False
    if not s.orelse:
        return True
    o = s.orelse[0]
    if isinstance(o, ast.If):
        return _cond_store(o) and ast.dump(o.body[0].targets[0]) == ast.dump(b.targets[0])
    return isinstance(o, ast.Assign) and len(o.targets) == 1 and ast.dump(o.targets[0]) == ast.dump(b.targets[0]) and _simple(o.value)


class Frame(Heap):
    def __init__(self, eng, module, func=None, parent=None):
        super().__init__(eng)
        self.module, self.func, self.parent = module, func, parent
        self.globals_ = set()


class IterV:
    """iterable: length n and item(t)"""

    def __init__(self, n, item, conc=None):
        self.n, self.item, self.conc = n, item, conc


BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception",
    "AttributeError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "AssertionError": "Exception", "OSError": "Exception", "IOError": "OSError", "FileExistsError": "OSError",
    "FileNotFoundError": "OSError", "PermissionError": "OSError", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "StopIteration": "Exception",
    "UserWarning": "Exception", "DeprecationWarning": "Exception", "FutureWarning": "Exception", "NameError": "Exception",
    "UnboundLocalError": "NameError", "NotADirectoryError": "OSError", "IsADirectoryError": "OSError", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "FloatingPointError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "Warning": "Exception", "SyntaxError": "Exception",
}

PKG = "qutip_qtrl"
SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")


class Interp(Engine):
    def __init__(self, src="/repo/src/qutip_qtrl", deadline=None):
        super().__init__(deadline)
        self.src = src
        self.modules = {}
        self.exc = {}
        for n in BUILTIN_EXC:
            self._excls(n)
        self.contracts = {}
        self.verifying = None
        self.inlined = set()
        self.trusted_used = set()
        self.depth = 0
        self.executed = set()
        from . import lib
        self.lib = lib
        self.clockh = Heap(self)
        self.symwhile = False
        self.inplace_nodes = {}
        lib.MT.ENG = self
        self.libhooks, self.opqhooks, self.opqattrs, self.specfns = {}, {}, {}, {}
        self.objcls = ClassInfo("object", None, None, [], True)
        self.bound = None
        self.summary = 0

    def _excls(self, n):
        if n not in self.exc:
            b = BUILTIN_EXC[n]
            self.exc[n] = ClassInfo(n, None, None, [self._excls(b)] if b else [], True)
        return self.exc[n]

    # ------------------------------------------------------------ raising
    def raise_(self, name, msg=""):
        o = Obj(self, self.exc[name])
        o.f["args"] = Seq(self, "tuple", items=[msg])
        raise PyExc(o)

    # ------------------------------------------------------------ modules
    def module(self, name):
        """name relative to the package, e.g. 'dynamics'"""
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.src, name + ".py")
        if name.startswith("spec_"):
            path = os.path.join(SPECDIR, name[5:] + ".py")
        with open(path, encoding="utf-8") as f:
            text = f.read()
        tree = ast.parse(text, path)
        m = ModuleV(PKG + "." + name, path, tree)
        self.modules[name] = m
        for st in tree.body:
            self._collect(m, st)
        return m

    def _collect(self, m, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            m.defs[st.name] = st
        elif isinstance(st, ast.Import):
            for a in st.names:
                m.defs[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                m.defs[a.asname or a.name] = ("from", st.module, a.name)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    m.defs[t.id] = st.value
        elif isinstance(st, ast.Try):
            for b in st.body:
                self._collect(m, b)
        elif isinstance(st, ast.If):
            for b in st.body + st.orelse:
                self._collect(m, b)

    def import_(self, dotted):
        if dotted.startswith(PKG + "."):
            return self.module(dotted[len(PKG) + 1:])
        if dotted == PKG:
            return LibMod(PKG)
        return LibMod(dotted)

    def module_get(self, m, name):
        if name in m.cache:
            return m.cache[name]
        if name not in m.defs:
            return MISSING
        d = m.defs[name]
        if isinstance(d, tuple):
            if d[0] == "import":
                v = self.import_(d[1])
            else:
                if d[1] and d[1].startswith(PKG + "."):
                    v = self.module_get(self.module(d[1][len(PKG) + 1:]), d[2])
                elif d[1] and d[1].startswith("spec_"):
                    v = self.module_get(self.module(d[1]), d[2])
                elif d[1] == PKG:
                    v = self.module(d[2])
                else:
                    v = self.lib_attr(LibMod(d[1]), d[2])
        elif isinstance(d, ast.FunctionDef):
            v = FuncV(name, d, m)
        elif isinstance(d, ast.ClassDef):
            v = self.make_class(m, d)
        elif name == "logger" and isinstance(d, ast.Call) and "get_logger" in ast.unparse(d.func).lower().replace("getlogger", "get_logger"):
            v = Opq("logger", m.name)
        else:
            fr = Frame(self, m)
            v = self.ev(d, fr)
        m.cache[name] = v
        return v

    def make_class(self, m, node):
        bases = []
        for b in node.bases:
            bv = self.ev(b, Frame(self, m))
            if isinstance(bv, ClassInfo):
                bases.append(bv)
        c = ClassInfo(node.name, m, node, bases)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = FuncV(st.name, st, m, c)
                deco = [ast.unparse(x) for x in st.decorator_list]
                if "property" in deco:
                    c.members[st.name] = Prop(f)
                elif any(x.endswith(".setter") for x in deco):
                    old = c.members.get(st.name)
                    if not isinstance(old, Prop):
                        old = Prop()
                    c.members[st.name] = Prop(old.fget, f)
                elif "staticmethod" in deco:
                    f.static = True
                    c.members[st.name] = f
                elif deco == ["classmethod"]:
                    f.clsm = True
                    c.members[st.name] = f
                elif deco:
                    c.members[st.name] = Poison("decorated %s" % deco)
                else:
                    c.members[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = self.ev(st.value, Frame(self, m))
        return c

    def get_class(self, mod, name):
        v = self.module_get(self.module(mod), name)
        if not isinstance(v, ClassInfo):
            raise Unsupported("class %s.%s not found" % (mod, name))
        return v

    def lookup_qual(self, qual):
        """'dynamics.Dynamics.init_timeslots' -> FuncV (property: add .fget/.fset)"""
        parts = qual.split(".")
        m = self.module(parts[0])
        v = self.module_get(m, parts[1])
        if v is MISSING:
            return None
        for p in parts[2:]:
            if isinstance(v, ClassInfo):
                v, _ = v.find(p)
                if v is None:
                    return None
            elif isinstance(v, Prop):
                v = v.fget if p == "fget" else v.fset
        if isinstance(v, Prop):
            v = v.fget
        return v

    def lib_attr(self, lm, name):
        full = lm.name + "." + name
        if full == "numpy.newaxis":
            return None
        v = self.lib.lookup(self, full)
        if v is not None:
            return v
        return LibMod(full)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, LibFn):
            return f.fn(self, args, kw)
        if isinstance(f, ClassInfo):
            return self.instantiate(f, args, kw)
        if isinstance(f, TypeV):
            return self.lib.call_type(self, f, args, kw)
        if isinstance(f, LibMod):
            return self.lib.call_unknown(self, f, args, kw)
        if isinstance(f, Obj):
            m, _ = f.cls.find("__call__")
            if m is not None:
                return self.call_func(m, [f] + list(args), kw)
        if isinstance(f, Poison):
            raise Unsupported("call of %s" % f.why)
        if callable(f):
            return f(self, args, kw)
        if isinstance(f, Opq):
            return self.lib.call_opaque(self, f, args, kw)
        if f is None or S.is_num(f) or isinstance(f, (str, Seq, MatObj, PyDict)):
            self.raise_("TypeError", "object is not callable")
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, c, args, kw):
        hook = self.contracts.get("%s()" % c.name)
        if hook is not None:
            r = hook(self, args, kw)
            if r is not NotImplemented:
                return r
        o = Obj(self, c)
        init, owner = c.find("__init__")
        if isinstance(init, FuncV):
            self.call_func(init, [o] + list(args), kw)
        else:
            o.f["args"] = Seq(self, "tuple", items=list(args))
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(names):
            if not a.vararg:
                self.raise_("TypeError", "too many positional arguments for %s" % f.name)
            env[a.vararg.arg] = Seq(self, "tuple", items=args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            env[a.vararg.arg] = Seq(self, "tuple", items=[])
        for n, v in zip(names, args):
            env[n] = v
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in env and k in names:
                self.raise_("TypeError", "multiple values for argument %s" % k)
            if k in names or k in konly:
                env[k] = v
            else:
                extra[k] = v
        if extra:
            if not a.kwarg:
                self.raise_("TypeError", "unexpected keyword arguments %s" % list(extra))
        if a.kwarg:
            env[a.kwarg.arg] = PyDict(self, extra)
        dv = a.defaults
        fr = Frame(self, f.module)
        for n, d in zip(names[len(names) - len(dv):], dv):
            if n not in env:
                env[n] = self.default_value(f, n, d)
        for n, d in zip(konly, a.kw_defaults):
            if n not in env and d is not None:
                env[n] = self.default_value(f, n, d)
        for n in names + konly:
            if n not in env:
                self.raise_("TypeError", "missing argument %s of %s" % (n, f.name))
        return env

    def default_value(self, f, n, d):
        if f.defaults is None:
            f.defaults = {}
        if n not in f.defaults:
            f.defaults[n] = self.ev(d, Frame(self, f.module))
        return f.defaults[n]

    def call_func(self, f, args, kw):
        c = self.contracts.get(f.qual)
        if c is not None and f.qual != self.verifying:
            r = c(self, args, kw)
            if r is not NotImplemented:
                self.executed.add("contract:" + f.qual)
                return r
        return self.run_func(f, args, kw)

    def run_func(self, f, args, kw):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("call depth (recursion) in %s" % f.qual)
        self.executed.add(f.qual)
        try:
            env = self.bind(f, args, kw)
            fr = Frame(self, f.module, f, f.closure)
            fr.f.update(env)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if _is_generator(f.node):
                raise Unsupported("generator function %s" % f.qual)
            try:
                self.block(f.node.body, fr)
            except ReturnX as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ attributes
    def getattr_(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except PyExc as e:
            if default is not MISSING and e.obj.cls.issub(self.exc["AttributeError"]):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Poison):
            raise Unsupported("read of undetermined value %s" % o.why)
        if isinstance(o, Obj):
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return PyDict(self, o.f)
            m, owner = o.cls.find(name)
            if isinstance(m, Prop):
                if m.fget is None:
                    self.raise_("AttributeError", name)
                return self.call_func(m.fget, [o], {})
            v = o.f.get(name, MISSING)
            if v is not MISSING:
                if isinstance(v, Poison):
                    if v.why == "template":
                        raise NeedTemplate((o, name))
                    raise Unsupported("read of undetermined attribute %s (%s)" % (name, v.why))
                return v
            if isinstance(m, FuncV):
                return m if m.static else BoundM(m, o.cls if m.clsm else o)
            if isinstance(m, Poison):
                raise Unsupported(m.why)
            if m is not None or owner is not None:
                return m
            if o.open_:
                raise Unsupported("attribute %s.%s not described by the precondition" % (o.cls.name, name))
            if o.cls.builtin or any(c.builtin for c in o.cls.mro()):
                if name == "message":
                    self.raise_("AttributeError", name)
            self.raise_("AttributeError", "%s has no attribute %s" % (o.cls.name, name))
        if isinstance(o, ModuleV):
            v = self.module_get(o, name)
            if v is MISSING:
                raise Unsupported("module attribute %s.%s" % (o.name, name))
            return v
        if isinstance(o, LibMod):
            return self.lib_attr(o, name)
        if isinstance(o, ClassInfo):
            if name == "__name__":
                return o.name
            m, owner = o.find(name)
            if owner is None:
                self.raise_("AttributeError", name)
            return BoundM(m, o) if isinstance(m, FuncV) and m.clsm else m
        return self.lib.attr_of(self, o, name)

    def setattr_(self, o, name, v):
        if isinstance(o, Obj):
            m, owner = o.cls.find(name)
            if isinstance(m, Prop):
                if m.fset is None:
                    self.raise_("AttributeError", "can't set attribute %s" % name)
                self.call_func(m.fset, [o, v], {})
                return
            self.write(o, name, v)
            return
        if isinstance(o, Opq):
            self.events_add(("setattr", o, name, v))
            return
        if isinstance(o, ModuleV):
            raise Unsupported("module attribute assignment")
        if o is None:
            self.raise_("AttributeError", "None has no attribute %s" % name)
        raise Unsupported("setattr on %r" % (o,))

    def events_add(self, ev):
        self.write(self.events, "log", self.events.f["log"] + (ev,))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, float):
            return True
        if isinstance(v, Sc):
            if v.kind == "b":
                return self.branch(v)
            return self.branch(S.cmp("!=", v, 0))
        if isinstance(v, Cx):
            return self.branch(S.not_(S.cmp("==", v, 0)))
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, Seq):
            if v.kind == "ndarray":
                n = 1
                for d in v.f["shape"]:
                    n = S.mul(n, d)
                if not self.branch(S.cmp("<=", n, 1)):
                    self.raise_("ValueError", "truth value of an array is ambiguous")
                raise Unsupported("truth of small array")
            return self.truth(S.cmp("!=", v.f["shape"][0], 0))
        if isinstance(v, PyDict):
            return bool(v.f["items"])
        if isinstance(v, MatObj):
            if v.kind == "nd":
                raise Unsupported("truth of matrix")
            return True
        if isinstance(v, Obj):
            m, _ = v.cls.find("__bool__")
            if m is None:
                m, _ = v.cls.find("__len__")
            if m is not None:
                return self.truth(self.call_func(m, [v], {}))
            return True
        if isinstance(v, (FuncV, BoundM, ClassInfo, TypeV, LibFn, ModuleV, LibMod)):
            return True
        if isinstance(v, OStr):
            raise Unsupported("truth of opaque string")
        if isinstance(v, Opq):
            if v.tag[:2] == ("obj", "file"):
                return True
            return self.branch(self.opq_bool(v))
        if isinstance(v, Poison):
            raise Unsupported("truth of undetermined value %s" % v.why)
        raise Unsupported("truth of %r" % (v,))

    def opq_bool(self, v):
        return Sc("b", z3.Bool("truth:" + v.key()))

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %d" % (type(s).__name__, s.lineno))
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if self.lib.dropped_call(self, s.value, fr):
            self.eval_log_args(s.value, fr)
            return
        self.ev(s.value, fr)

    def eval_log_args(self, call, fr):
        """logging / warnings: output dropped, arguments still evaluated so
        that exceptions raised while building a message are seen"""
        for a in call.args:
            try:
                self.ev(a, fr)
            except Unsupported:
                self.notes.add("log message argument not evaluated")

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise ReturnX(self.ev(s.value, fr) if s.value else None)

    def s_Break(self, s, fr):
        raise BreakX()

    def s_Continue(self, s, fr):
        raise ContinueX()

    def s_Global(self, s, fr):
        raise Unsupported("global statement")

    def s_Import(self, s, fr):
        for a in s.names:
            self.write(fr, a.asname or a.name.split(".")[0], self.import_(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            if s.module and s.module.startswith(PKG + "."):
                v = self.module_get(self.module(s.module[len(PKG) + 1:]), a.name)
            elif s.module == PKG:
                v = self.module(a.name)
            else:
                v = self.lib_attr(LibMod(s.module), a.name)
            self.write(fr, a.asname or a.name, v)

    def s_FunctionDef(self, s, fr):
        f = self.with_defaults(FuncV(s.name, s, fr.module, None, fr), fr)
        self.write(fr, s.name, f)

    def with_defaults(self, f, fr):
        """default values of nested functions are evaluated at the definition"""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) if a.defaults else []
        ds += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        if ds:
            f.defaults = {n: self.ev(d, fr) for n, d in ds}
        return f

    def _accumulators(self, s, fr):
        """x = x + e in the body of a loop, x a local array that the body does
        not use otherwise: summed in place, on a copy made before the loop"""
        found = {}
        for x in ast.walk(s):
            a = _accumulates(x)
            if a is not None:
                found.setdefault(a[0], []).append(x)
        r = []
        for name, nodes in found.items():
            if any(id(x) in self.inplace_nodes for x in nodes):
                continue
            cur = fr.f.get(name)
            if not (isinstance(cur, Seq) and cur.kind == "ndarray" and cur.f["dtype"] in ("float", "complex")):
                continue
            if sum(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s)) != 2 * len(nodes):
                continue
            snap = self.snapshot(cur)
            self.write(fr, name, Seq(self, "ndarray", shape=tuple(cur.f["shape"]), base=snap, dtype=cur.f["dtype"]))
            for x in nodes:
                self.inplace_nodes[id(x)] = x
            r += nodes
        return r

    def s_Assign(self, s, fr):
        if id(s) in self.inplace_nodes:
            name, op, e = _accumulates(s)
            cur, v = self.ev_name(name, fr), self.ev(e, fr)
            if S.is_num(v) and isinstance(v, Cx) or isinstance(v, Seq) and v.f["dtype"] not in ("float", "int", cur.f["dtype"]) \
                    or not (S.is_num(v) or isinstance(v, Seq)):
                raise Unsupported("sum of arrays of different types")
            self.inplace(op, cur, v)
            return
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.write(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.iterate(v)
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            if not S.is_conc(it.n):
                if not self.valid(S.cmp("==", it.n, n)):
                    raise Unsupported("unpack of symbolic length")
            elif it.n != n:
                self.raise_("ValueError", "unpack mismatch")
            for i, e in enumerate(t.elts):
                self.assign(e, it.item(i), fr)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev_name(t.id, fr)
            v = self.inplace(type(s.op).__name__, cur, self.ev(s.value, fr))
            self.write(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self._getattr(o, t.attr)
            v = self.inplace(type(s.op).__name__, cur, self.ev(s.value, fr))
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.index(t.slice, fr)
            cur = self.getitem(o, ix)
            v = self.inplace(type(s.op).__name__, cur, self.ev(s.value, fr))
            self.setitem(o, ix, v)
        else:
            raise Unsupported("augassign")

    def inplace(self, op, cur, val):
        """augmented assignment; mutable ndarrays / lists are updated in place"""
        if isinstance(cur, MatObj) and cur.kind == "nd":
            r = self.binop(op, cur, val)
            if isinstance(r, MatObj):
                self.write(cur, "lc", r.f["lc"])
                return cur
            raise Unsupported("in-place on matrix")
        if isinstance(cur, Seq) and cur.kind == "ndarray":
            r = self.binop(op, cur, val)
            if cur.view is not None:
                base, fn = cur.view
                self.setitem_all(cur, r)
                return cur
            snap = self.snapshot(r)
            self.write(cur, "data", SData(snap))
            self.write(cur, "items", None)
            return cur
        if isinstance(cur, Seq) and cur.kind == "list" and op == "Add":
            self.lib.list_extend(self, cur, val)
            return cur
        return self.binop(op, cur, val)

    def snapshot(self, s):
        """immutable element closure of the present contents of Seq s"""
        if s.view is not None:
            base, fn = s.view
            if isinstance(base, MatObj):
                lc = base.f["lc"]
                return lambda ix: MT.elt(lc, *fn(ix))
            inner = self.snapshot(base)
            return lambda ix: inner(fn(ix))
        if s.f["items"] is not None:
            from .core import _items_fn
            items = list(s.f["items"])
            return _items_fn(self, items)
        d = s.f["data"]
        return lambda ix: self.dget(d, ix)

    def _cell_if(self, s, fr):
        """if/elif chains that only store numbers in one array cell: one
        conditional store (no side effects, no exceptions)"""
        if not _cond_store(s):
            return False
        tgt = _store_of(s).targets[0]
        m = self.mark()
        try:
            if isinstance(tgt, ast.Name):
                # a number held by a local name, inside a loop
                cur = fr.f.get(tgt.id)
                if not self.loopvars or not S.is_num(cur) or isinstance(cur, Cx) or S.kind(cur) not in ("i", "r") or S.is_inf(cur):
                    return False
            else:
                arr = self.ev(tgt.value, fr)
                if not (isinstance(arr, Seq) and arr.kind == "ndarray" and arr.f["dtype"] == "float" and arr.f["items"] is None):
                    return False
                load = ast.copy_location(ast.Subscript(tgt.value, tgt.slice, ast.Load()), tgt)
                cur = self.ev(load, fr)
                if not S.is_num(cur) or isinstance(cur, Cx):
                    return False

            def val(x):
                c = self.ev(x.test, fr)
                v = self.ev(x.body[0].value, fr)
                if not (isinstance(c, Sc) and c.kind == "b") or not S.is_num(v) or isinstance(v, Cx) or S.is_inf(v):
                    raise Unsupported("not a conditional store")
                if isinstance(tgt, ast.Name) and S.kind(v) != S.kind(cur):
                    raise Unsupported("not a conditional store")
                e = cur if not x.orelse else val(x.orelse[0]) if isinstance(x.orelse[0], ast.If) else self.ev(x.orelse[0].value, fr)
                return S.ite(c, v, e)
            v = val(s)
        except (PyExc, Unsupported):
            self.rollback(m)
            return False
        self.assign(tgt, v, fr)
        return True

    def s_If(self, s, fr):
        if self._cell_if(s, fr):
            return None
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.raise_("AssertionError")

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.delete(fr, t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.index(t.slice, fr)
                if isinstance(o, PyDict):
                    self.lib.dict_del(self, o, k)
                elif isinstance(o, Seq) and o.kind == "list" and isinstance(k, tuple) and k == ("slice", None, None, None):
                    self.lib.list_clear(self, o)
                else:
                    raise Unsupported("del item")
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                self.delete(o, t.attr)
            else:
                raise Unsupported("del")

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = fr.f.get("!exc")
            if cur is None:
                raise Unsupported("bare raise")
            raise PyExc(cur)
        v = self.ev(s.exc, fr)
        if isinstance(v, ClassInfo):
            v = self.instantiate(v, [], {})
        if not isinstance(v, Obj):
            raise Unsupported("raise of %r" % (v,))
        raise PyExc(v)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if self.match_exc(e.obj, h.type, fr):
                        if h.name:
                            self.write(fr, h.name, e.obj)
                        old = fr.f.get("!exc")
                        fr.f["!exc"] = e.obj
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.f["!exc"] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def match_exc(self, obj, typ, fr):
        if typ is None:
            return True
        t = self.ev(typ, fr)
        ts = t.f["items"] if isinstance(t, Seq) else [t]
        for c in ts:
            if isinstance(c, ClassInfo):
                if obj.cls.issub(c):
                    return True
            else:
                raise Unsupported("except clause %r" % (c,))
        return False

    def s_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(s.body, fr)

    def s_While(self, s, fr):
        if self.symwhile:
            return self.sym_while(s, fr)
        if self.counting_while(s, fr):
            return
        for _ in range(40):
            if not self.truth(self.ev(s.test, fr)):
                self.block(s.orelse, fr)
                return
            try:
                self.block(s.body, fr)
            except BreakX:
                return
            except ContinueX:
                pass
        raise Unsupported("while loop without bound")

    def counting_while(self, s, fr):
        """while k < bound: ...; k += 1   (or downwards) as a for loop; the
        bound must be the same whenever it is evaluated"""
        c = _counter(s)
        if c is None or c[0] not in fr.f:
            return False
        name, op, bound, step = c
        k0, b0 = self.ev_name(name, fr), self.ev(bound, fr)
        if not all(S.is_num(x) and S.kind(x) == "i" for x in (k0, b0)) or S.is_conc(k0) and S.is_conc(b0):
            return False
        d = S.mul(step, S.sub(b0, k0))
        if op == "=":
            d = S.add(d, 1)
        if self.branch(S.cmp("<=", d, 0)):
            n = 0
        else:
            n = d

        def body(t):
            self.assign(ast.Name(id=name, ctx=ast.Store()), S.add(k0, S.mul(step, t)), fr)
            if not self.valid(S.cmp("==", self.ev(bound, fr), b0)):
                raise Unsupported("while loop with a changing bound")
            self.block(s.body[:-1], fr)
        from .loops import symbolic_loop
        if n != 0 if S.is_conc(n) else True:
            for q in range(1, 3):
                if not S.is_conc(n) and self.valid(S.cmp("==", n, q)):
                    n = q
            if S.is_conc(n):
                for t in range(int(n)):
                    body(t)
            else:
                symbolic_loop(self, n, body, fr, s.lineno)
        self.assign(ast.Name(id=name, ctx=ast.Store()), S.add(k0, S.mul(step, n)), fr)
        self.block(s.orelse, fr)
        return True

    def sym_while(self, s, fr):
        """n = the number of iterations: the test holds before each of them
        and fails after the last (termination itself is not proved)"""
        if s.orelse:
            raise Unsupported("while-else")
        n = self.fresh("i", "nwhile")
        self.assume(S.cmp(">=", n, 0))

        def body(t):
            if not self.truth(self.ev(s.test, fr)):
                raise Pruned()
            self.block(s.body, fr)
        from .loops import symbolic_loop
        if symbolic_loop(self, n, body, fr, s.lineno) != "break":
            if self.truth(self.ev(s.test, fr)):
                raise Pruned()
        self.notes.add("termination of the while loop at line %d of the function's module is not proved" % s.lineno)

    def s_For(self, s, fr):
        nodes = self._accumulators(s, fr)
        try:
            self._for(s, fr)
        finally:
            for x in nodes:
                self.inplace_nodes.pop(id(x), None)

    def _for(self, s, fr):
        it = self.iterate(self.ev(s.iter, fr))

        def body(t):
            self.assign(s.target, it.item(t), fr)
            self.block(s.body, fr)
        n = it.n
        if not S.is_conc(n):
            for c in range(0, 3):
                if self.valid(S.cmp("==", n, c)):
                    n = c
                    break
        if S.is_conc(n) and (n <= self.UNROLL or it.conc):
            for t in range(int(n)):
                try:
                    body(t)
                except BreakX:
                    return
                except ContinueX:
                    continue
            self.block(s.orelse, fr)
            return
        from .loops import symbolic_loop
        if symbolic_loop(self, n, body, fr, s.lineno) != "break":
            self.block(s.orelse, fr)

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        if isinstance(v, IterV):
            return v
        if isinstance(v, Seq):
            n = v.f["shape"][0]
            if len(v.f["shape"]) == 1:
                return IterV(n, lambda t: self.sget(v, (t,)), conc=v.f["items"] is not None)
            return IterV(n, lambda t: self.getitem(v, t))
        if isinstance(v, PyDict):
            ks = list(v.f["items"].keys())
            return IterV(len(ks), lambda t: ks[t], conc=True)
        if isinstance(v, str):
            return IterV(len(v), lambda t: v[t], conc=True)
        if isinstance(v, MatObj):
            if v.kind == "nd" and v.shape:
                return IterV(v.shape[0], lambda t: self.getitem(v, t))
        if isinstance(v, Obj):
            m, _ = v.cls.find("__iter__")
            if m is not None:
                return self.iterate(self.call_func(m, [v], {}))
        if v is None or S.is_num(v):
            self.raise_("TypeError", "not iterable")
        if isinstance(v, Poison):
            raise Unsupported("iteration over undetermined value")
        raise Unsupported("iteration over %r" % (v,))

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %d" % (type(e).__name__, getattr(e, "lineno", 0)))
        return m(e, fr)

    def e_Constant(self, e, fr):
        return S.from_py(e.value)

    def e_Name(self, e, fr):
        return self.ev_name(e.id, fr)

    def ev_name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.f:
                v = f.f[n]
                if isinstance(v, Poison):
                    if v.why == "template":
                        raise NeedTemplate((f, n))
                    raise Unsupported("read of undetermined local %s (%s)" % (n, v.why))
                return v
            f = f.parent
        v = self.module_get(fr.module, n)
        if v is not MISSING:
            return v
        v = self.lib.builtin(self, n)
        if v is not None:
            return v
        if n in self.exc:
            return self.exc[n]
        if fr.func is not None and n in _assigned_names(fr.func.node):
            self.raise_("UnboundLocalError", n)
        if n in ("None",):
            return None
        self.raise_("NameError", n)

    def e_Attribute(self, e, fr):
        return self._getattr(self.ev(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return Seq(self, "tuple", items=self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return Seq(self, "list", items=self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, fr))
                if not S.is_conc(it.n):
                    raise Unsupported("starred symbolic")
                out += [it.item(i) for i in range(it.n)]
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Set(self, e, fr):
        return Seq(self, "set", items=self.elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                sub = self.ev(v, fr)
                if not isinstance(sub, PyDict):
                    raise Unsupported("** of non dict")
                d.update(sub.f["items"])
            else:
                d[self.hkey(self.ev(k, fr))] = self.ev(v, fr)
        return PyDict(self, d)

    def hkey(self, k):
        if isinstance(k, (str, int, bool, type(None), Fraction)):
            return k
        if isinstance(k, Seq) and k.kind == "tuple" and k.f["items"] is not None:
            return tuple(self.hkey(x) for x in k.f["items"])
        if isinstance(k, (Opq, ClassInfo, FuncV, TypeV)):
            return k
        raise Unsupported("dict key %r" % (k,))

    def e_IfExp(self, e, fr):
        return self.ev(e.body, fr) if self.truth(self.ev(e.test, fr)) else self.ev(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Sc) else False
            if not isand and t:
                return v if not (isinstance(v, Sc) and v.kind == "b") else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Sc) and v.kind == "b":
                return S.not_(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.lib.invert(self, v)
        raise Unsupported("unary op")

    def neg(self, v):
        if S.is_num(v):
            return S.neg(v)
        if isinstance(v, MatObj):
            return MatObj(self, MT.scale(-1, v.f["lc"]), v.kind, v.shape, v.dims)
        if isinstance(v, Seq) and v.kind == "ndarray":
            return self.lib.ew(self, S.neg, [v])
        raise Unsupported("neg %r" % (v,))

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            v = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            if i == len(e.ops) - 1:
                return self.lib.and2(self, res, v)
            if not self.truth(v):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        return self.lib.compare(self, op, a, b)

    def e_Call(self, e, fr):
        if self.lib.dropped_call(self, e, fr):
            self.eval_log_args(e, fr)
            return None
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.f:
            slf = fr.f.get("self")
            return _Super(fr.func.cls, slf)
        f = None
        if isinstance(e.func, ast.Attribute):
            o = self.ev(e.func.value, fr)
            if isinstance(o, _Super):
                for c in o.obj.cls.mro()[o.obj.cls.mro().index(o.cls) + 1:]:
                    if e.func.attr in c.members:
                        f = BoundM(c.members[e.func.attr], o.obj.cls if getattr(c.members[e.func.attr], "clsm", False) else o.obj)
                        break
                else:
                    if e.func.attr == "__init__":
                        f = LibFn("object.__init__", lambda eng, a, k: None)
                    else:
                        self.raise_("AttributeError", e.func.attr)
            else:
                f = self._getattr(o, e.func.attr)
        else:
            f = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if not isinstance(v, PyDict):
                    raise Unsupported("** of non dict")
                kw.update(v.f["items"])
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def e_Lambda(self, e, fr):
        return self.with_defaults(FuncV("<lambda>", e, fr.module, None, fr), fr)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = self.ev(v.format_spec, fr) if v.format_spec is not None else ""
                if v.conversion not in (-1, 115) or not isinstance(spec, str):
                    raise Unsupported("conversion in a formatted string")
                parts.append(self.lib.fmtval(self, x, spec))
        return self.lib.cat(self, *parts)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Slice(self, e, fr):
        return self.index(e, fr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.index(e.slice, fr))

    def index(self, e, fr):
        if isinstance(e, ast.Slice):
            return ("slice", self.ev(e.lower, fr) if e.lower else None,
                    self.ev(e.upper, fr) if e.upper else None,
                    self.ev(e.step, fr) if e.step else None)
        if isinstance(e, ast.Tuple):
            return ("tuple", [self.index(x, fr) for x in e.elts])
        return self.ev(e, fr)

    def getitem(self, o, ix):
        return self.lib.getitem(self, o, ix)

    def setitem(self, o, ix, v):
        return self.lib.setitem(self, o, ix, v)

    def setitem_all(self, o, v):
        return self.lib.setitem(self, o, ("tuple", [("slice", None, None, None)] * len(o.f["shape"])), v)

    # comprehensions
    def e_ListComp(self, e, fr):
        return self.comp(e, fr, "list")

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, "list")

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr, "list")
        return r

    def e_DictComp(self, e, fr):
        if len(e.generators) != 1:
            raise Unsupported("nested dict comprehension")
        g = e.generators[0]
        it = self.iterate(self.ev(g.iter, fr))
        if not S.is_conc(it.n):
            raise Unsupported("symbolic dict comprehension")
        cf = Frame(self, fr.module, fr.func, fr)
        d = {}
        for t in range(it.n):
            self.assign(g.target, it.item(t), cf)
            if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                d[self.hkey(self.ev(e.key, cf))] = self.ev(e.value, cf)
        return PyDict(self, d)

    def comp(self, e, fr, kind):
        cf = Frame(self, fr.module, fr.func, fr)
        return self._comp(e, cf, 0, kind)

    def _comp(self, e, cf, gi, kind):
        g = e.generators[gi]
        it = self.iterate(self.ev(g.iter, cf))
        last = gi == len(e.generators) - 1
        if S.is_conc(it.n) and (it.n <= 64 or it.conc):
            items = []
            for t in range(int(it.n)):
                self.assign(g.target, it.item(t), cf)
                if not all(self.truth(self.ev(c, cf)) for c in g.ifs):
                    continue
                if last:
                    items.append(self.ev(e.elt, cf))
                else:
                    sub = self._comp(e, cf, gi + 1, kind)
                    if sub.f["items"] is None:
                        raise Unsupported("nested symbolic comprehension")
                    items += sub.f["items"]
            return Seq(self, kind, items=items)
        if g.ifs or not last:
            if last and g.ifs:
                raise Unsupported("filtered symbolic comprehension")
            from .loops import flat_comp
            return flat_comp(self, e, cf, gi, it, kind)
        from .loops import map_closure
        fn = map_closure(self, it.n, lambda t: (self.assign(g.target, it.item(t), cf), self.ev(e.elt, cf))[1])
        n = it.n
        if not self.valid(S.cmp(">=", n, 0)):
            n = S.ite(S.cmp(">=", n, 0), n, 0)
        return Seq(self, kind, shape=(n,), base=lambda ix: fn(ix[0]))


class _Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


_an_cache = {}


def _assigned_names(node):
    if node not in _an_cache:
        s = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                s.add(x.id)
        _an_cache[node] = s
    return _an_cache[node]


def _is_generator(node):
    for x in ast.walk(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False
