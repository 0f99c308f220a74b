"""C18, C22, C24: directories, parameter files, amplitude files."""
import errno
from .dynstate import *
from pyvc.core import PyExc
from pyvc.vc import Contract

ERR = ("EEXIST", "EACCES", "ENOENT", "ENOTDIR", "EROFS")


def s_dir(eng):
    """one location in the file system: absent, a file or a directory; another process may create it meanwhile"""
    fresh_roots(eng)
    name = opt(eng, "d", "sub/d", "/abs/d", "~/d", "~user/d", "a~b")
    fs = Heap(eng)
    fs.f = {"kind": opt(eng, "absent", "file", "dir")}

    def expand(e, a, k):
        return OStr("os.path.expanduser", a[0]) if not isinstance(a[0], str) or a[0].startswith("~") else a[0]

    def isabs(e, a, k):
        p = a[0]
        if isinstance(p, str):
            return p.startswith("/")
        return p.tag[0] in ("os.path.expanduser", "os.path.abspath")

    def absp(e, a, k):
        return a[0] if isabs(e, a, k) else OStr("os.path.abspath", a[0])

    def loc(p):
        while isinstance(p, OStr) and p.tag[0] == "os.path.abspath":
            p = p.tag[1]
        if isinstance(p, OStr) and p.tag[0] == "os.path.expanduser":
            return p.tag[1] == name
        return isinstance(p, str) and p == name and not p.startswith("~")

    def ask(*kinds):
        def f(e, a, k):
            if not loc(a[0]):
                return Sc("b", z3.Bool("other:%s:%s" % (kinds, lib.vkey_(a[0]))))
            return fs.f["kind"] in kinds
        return f

    def fail(e, cls, no):
        o = Obj(e, e.exc[cls])
        o.f["args"] = Seq(e, "tuple", items=["os error"])
        o.f["errno"] = no
        raise PyExc(o)

    def makedirs(e, a, k):
        e.events_add(("makedirs", a[0]))
        if not loc(a[0]):
            return
        if fs.f["kind"] != "absent":
            if fs.f["kind"] == "dir" and k.get("exist_ok", a[2] if len(a) > 2 else False) is True:
                return
            fail(e, "FileExistsError" if "FileExistsError" in e.exc else "OSError", errno.EEXIST)
        w = opt(e, "ok", "error", "race dir", "race file")
        if w == "ok":
            e.write(fs, "kind", "dir")
        elif w == "error":
            fail(e, "OSError", opt(e, errno.EACCES, errno.ENOENT, errno.ENOTDIR, errno.EROFS, errno.EEXIST))
        else:
            e.write(fs, "kind", w[5:])
            fail(e, "OSError", errno.EEXIST)
    eng.libhooks.update({"os.path.expanduser": expand, "os.path.isabs": isabs, "os.path.abspath": absp, "os.path.exists": ask("file", "dir"), "os.path.isdir": ask("dir"),
                         "os.path.isfile": ask("file"), "os.makedirs": makedirs, "os.mkdir": makedirs, "os.path.lexists": ask("file", "dir")})
    eng.specfns["ISDIR"] = lambda e, a, k: fs.f["kind"] == "dir"
    eng.specfns["LOC"] = lambda e, a, k: loc(a[0])
    eng.specfns["OLDFILE"] = lambda e, a, k: fs.f["kind"]
    return [name] + ([opt(eng, "output", "dump")] if flag(eng) else []), {}


CONTRACTS = [
    Contract("io.create_dir", s_dir, None, ["files:ens_dir"], ["C22"]),
]


def s_amps(eng):
    fresh_roots(eng)
    n, m = nat(eng, "n"), nat(eng, "m")
    d = obj(eng, "dynamics", opt(eng, "DynamicsUnitary", "DynamicsGenMat"), _ctrls_initialized=flag(eng), _timeslots_initialized=True, _num_tslots=n, _num_ctrls=m, _tau=vec(eng, "tau", n),
            time=vec(eng, "time", S.add(n, 1)), ctrl_amps=arr2(eng, "amp", n, m), def_amps_fname="ctrl_amps.txt", log_level=30)
    f = opt(eng, None, "f.txt")
    t = opt(eng, None, "exclude", "Exclude", "bogus", lambda: vec(eng, "t", n), lambda: vec(eng, "t", n, "list"))
    a = arr2(eng, "other", n, m) if flag(eng) else None
    for x in (t, a, d.f["time"], d.f["ctrl_amps"], d.f["_tau"]):
        if isinstance(x, Seq):
            eng.shared.append(x)
    return [d, f, t, a] + ([True] if flag(eng) else []), {}


# parameter files: texts are opaque, parsing succeeds with an arbitrary value or fails
def s_param(eng):
    fresh_roots(eng)
    kinds = {"f": lambda: real(eng, "f0"), "i": lambda: Sc("i", z3.Int("i0")), "b": lambda: flag(eng), "c": lambda: Cx(real(eng, "cr"), real(eng, "ci")), "s": lambda: "text0",
             "l": lambda: vec(eng, "l0", nat(eng, "ln", 0), "list"), "a": lambda: vec(eng, "a0", nat(eng, "an", 0)), "q": lambda: mat(eng, "Q0", kind="qobj"), "n": lambda: None}
    name = opt(eng, *kinds, "absent")
    o = obj(eng, "optimconfig", "OptimConfig", open_=False, other=real(eng, "other"))
    for k, v in kinds.items():
        o.f[k] = v() if k == name or k not in "bla" else (True if k == "b" else vec(eng, k + "0", 3, "list" if k == "l" else "ndarray"))
    text = OStr("text", name)
    parser = Opq("parser")

    def bad(e):
        e.raise_("ValueError", "invalid text")

    def conv(nm, val):
        """conversion of the text: one outcome for the whole run"""
        def f(e, *a):
            if not e.branch(Sc("b", z3.Bool("valid:" + nm))):
                bad(e)
            return val()
        return f
    arr = vec(eng, "arrval", nat(eng, "avn", 0))
    lst = vec(eng, "listval", nat(eng, "lvn", 0), "list")
    cv = {"float": conv("float", lambda: real(eng, "FLOAT")), "int": conv("int", lambda: Sc("i", z3.Int("INT"))), "bool": conv("bool", lambda: Sc("b", z3.Bool("BOOL"))),
          "complex": conv("complex", lambda: Cx(real(eng, "CRE"), real(eng, "CIM"))),
          "eval": conv("eval", lambda: {"l": lst, "a": arr, "q": mat(eng, "QV")}.get(name) or real(eng, "EVAL"))}

    def opqget(which):
        def f(e, recv, a, k):
            if recv is not parser or a[0] != "sect" or a[1] != name:
                raise Unsupported("another entry of the file is read")
            return text if which is None else cv[which](e)
        return f
    eng.opqhooks.update({"get": opqget(None), "getfloat": opqget("float"), "getint": opqget("int"), "getboolean": opqget("bool")})

    def onlytext(which):
        def f(e, a, k):
            if a[0] is not text:
                raise Unsupported("another text is converted")
            return cv[which](e)
        return f
    eng.specfns["eval"] = onlytext("eval")
    for t in ("float", "int", "complex"):
        eng.libhooks["type:" + t] = onlytext(t)
    for t in cv:
        eng.specfns["AS_" + t.upper()] = lambda e, a, k, t=t: cv[t](e)
    eng.specfns["VALID"] = lambda e, a, k: Sc("b", z3.Bool("valid:" + a[0]))
    eng.specfns["TEXT"] = lambda e, a, k: text
    eng.opqattrs["__name__"] = lambda e, o: NotImplemented
    return [parser, "sect", name, o, name], {}


def s_load(eng):
    """set_param abstracted: it records the entry it was given; an entry of a
    section may be unusable"""
    fresh_roots(eng)
    missing = flag(eng)
    parser = Opq("parser")
    secs = {"config": "optimconfig", "term_conds": "termconds", "dynamics": "dynamics", "optim": "optimizer", "pulsegen": "pulsegen", "obj": "mysect"}
    objs, logs, lens, has = {}, {}, {}, {}
    w = opt(eng, "none", *secs, "config+dynamics", "term_conds+optim", "dynamics+pulsegen", "pulsegen+obj", "config+obj").split("+")
    kw = {}
    for a, s in secs.items():
        objs[s] = obj(eng, "optimconfig", "OptimConfig", open_=False) if a in w else None
        kw[a] = objs[s]
        logs[s] = Seq(eng, "list", items=[])
        lens[s] = nat(eng, "len_" + s, 0)
        has[s] = Sc("b", z3.Bool("has_" + s))
    sec = opt(eng, "mysect", None) if objs["mysect"] is not None else opt(eng, None, "mysect")
    if sec is not None:
        kw["section"] = sec

    def read(e, recv, a, k):
        return Seq(e, "list", items=[] if missing else [a[0]])

    def options(e, recv, a, k):
        s = a[0]
        if s not in lens:
            raise Unsupported("section %r" % (s,))
        if not e.branch(has[s]):
            e.raise_("KeyError", "NoSectionError")
        return Seq(e, "list", shape=(lens[s],), base=lambda ix: OStr("option", s, ix[0]))

    def setp(e, a, k):
        par, s, nm, o, an = e.bind_args("loadparams", "set_param", a, k) if hasattr(e, "bind_args") else a
        e.check("an entry is set on the object of its section", par is parser and s in objs and o is objs[s] and nm.tag[:2] == ("option", s) and an.tag[:2] == ("option", s))
        e.check("the named entry is used", S.cmp("==", nm.tag[2], an.tag[2]))
        i = nm.tag[2]
        if e.branch(Sc("b", z3.Function("unusable_" + s, z3.IntSort(), z3.BoolSort())(S.zi(i)))):
            e.raise_("ValueError", "unusable")
        e.call(e.getattr_(logs[s], "append"), [i])
    eng.opqhooks.update({"read": read, "options": options})
    eng.libhooks["configparser.ConfigParser"] = lambda e, a, k: parser
    eng.contracts["loadparams.set_param"] = setp
    eng.specfns["LOG"] = lambda e, a, k: logs[a[0]]
    eng.specfns["LEN"] = lambda e, a, k: lens[a[0]]
    eng.specfns["HAS"] = lambda e, a, k: has[a[0]]
    eng.specfns["BAD"] = lambda e, a, k: Sc("b", z3.Function("unusable_" + a[0], z3.IntSort(), z3.BoolSort())(S.zi(a[1])))
    eng.specfns["NOFILE"] = lambda e, a, k: missing
    eng.specfns["GIVEN"] = lambda e, a, k: objs[a[0]] is not None
    eng.specfns["MISSING"] = lambda e, a, k: missing or (objs["mysect"] is not None and sec is None)
    return ["params.ini"], kw


CONTRACTS += [
    Contract("dynamics.Dynamics.save_amps", s_amps, "files:save_amps", [], ["C24"]),
    Contract("loadparams.set_param", s_param, "files:set_param", [], ["C18"]),
    Contract("loadparams.load_parameters", s_load, None, ["files:ens_load"], ["C18"], checkexc=None),
]
