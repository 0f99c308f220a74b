"""C17: data dumps."""
from .dynstate import *
from .optim import optimizer
from pyvc.core import PyExc
from pyvc.vc import Contract

QUANT = ("ctrl_amps", "dyn_gen", "prop", "prop_grad", "fwd_evo", "onwd_evo", "onto_evo")
DYNFLAGS = ("dump_amps", "dump_dyn_gen", "dump_prop", "dump_prop_grad", "dump_fwd_evo", "dump_onwd_evo", "dump_onto_evo")
OPTFLAGS = ("dump_fid_err", "dump_grad_norm", "dump_grad")


def files(eng):
    """effects on files, by destination: opening (anew or to append), texts and
    arrays written; a file that is written by name is opened anew"""
    def path(h):
        return h.tag[2] if isinstance(h, Opq) and h.tag[:2] == ("obj", "file") else h

    def open_(e, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        e.events_add(("open", a[0], mode.replace("b", "").replace("t", "")))
        return Opq("obj", "file", a[0], mode)

    def savetxt(e, a, k):
        names = ["fname", "X", "fmt", "delimiter", "newline", "header", "footer", "comments"]
        v = lib.getkw(a, k, names, [None, None, "%.18e", " ", "\n", "", "", "# "])
        h, x = v[0], v[1]
        if not isinstance(h, Opq) or isinstance(h, OStr):
            e.events_add(("open", h, "w"))
        if isinstance(x, Seq):
            x = lib.to_array(e, x)
        elif isinstance(x, MatObj):
            if x.kind != "nd":
                e.raise_("ValueError", "Expected 1D or 2D array, got 0D array instead")
            x = MatObj(e, x.f["lc"], "nd", x.shape)
        e.events_add(("savetxt", path(h), x) + tuple(v[2:5]))

    def text(t):
        return t if not (isinstance(t, OStr) and t.tag[0] == "encode") else t.tag[1]

    def write(e, recv, a, k):
        e.events_add(("text", path(recv), text(a[0])))
    eng.specfns["open"] = open_
    eng.libhooks["builtins.open"] = open_
    eng.libhooks["numpy.savetxt"] = savetxt
    eng.opqhooks["write"] = write
    eng.opqhooks["close"] = lambda e, recv, a, k: None
    eng.opqhooks["flush"] = lambda e, recv, a, k: None
    eng.opqattrs["mode"] = lambda e, o: o.tag[3]


    def handle(e, a, k):
        f = a[0]
        return Opq("obj", "file", f, "wb") if isinstance(f, str) else f
    eng.specfns["HANDLE"] = handle


def stream(eng, mode):
    return Opq("obj", "file", "STREAM", mode)


def dest(eng):
    return opt(eng, None, "all.txt", lambda: stream(eng, "wb"), lambda: stream(eng, "w"))


def history(eng, nm, n=None):
    n = nat(eng, "n_" + nm, 0) if n is None else n
    return Seq(eng, "list", shape=(n,), base=lambda ix: Opq("entry", nm, ix[0]))


def entries(eng):
    eng.specfns["ENTRY"] = lambda e, a, k: Opq("entry", *a)


def dump_(eng, cls, parent, **kw):
    a = dict(parent=parent, write_to_file=False, _dump_dir="dir", dump_file_ext=opt(eng, "txt"), _fname_base="base", dump_summary=True, summary_sep=" ", data_sep=" ",
             _summary_file_path=None, _summary_file_specified=False, _level="SUMMARY")
    a.update({f: False for f in (DYNFLAGS if cls == "DynamicsDump" else OPTFLAGS)})
    if cls == "OptimDump":
        a.update(_fid_err_file=None, _grad_norm_file=None, iter_summary=history(eng, "isum"), fid_err_log=history(eng, "felog"), grad_norm_log=history(eng, "gnlog"), grad_log=history(eng, "glog"))
    else:
        a.update(evo_dumps=history(eng, "evo"), evo_summary=history(eng, "esum"))
    a.update(kw)
    entries(eng)
    return obj(eng, "dump", cls, open_=False, **a)


def dyn_dump(eng, od="nd", **kw):
    d = evo_state(eng, od=od, current=True, **{k: kw.pop(k) for k in list(kw) if k in ("fid", "onwd", "onto", "cache_grad", "stats", "ecs")})
    D = dump_(eng, "DynamicsDump", d, **kw)
    d.f["dump"] = D
    return D


def s_add_evo(eng):
    fresh_roots(eng)
    D = dyn_dump(eng, opt(eng, "nd", "qobj"), onwd=True, onto=True, write_to_file=flag(eng))
    which = opt(eng, "none", "all", *DYNFLAGS)
    for f in DYNFLAGS:
        D.f[f] = which in ("all", f)

    def wr(e, a, k):
        e.events_add(("writeout", a[0]) + tuple(a[0].f.get(q) for q in QUANT + ("idx",)))
    eng.contracts["dump.EvoCompDumpItem.writeout"] = wr
    d = D.f["parent"]
    src = {"ctrl_amps": d.f["ctrl_amps"]}
    src.update({q: d.f["_" + q] for q in QUANT[1:]})
    eng.specfns["FLAGGED"] = lambda e, a, k: D.f[dict(zip(QUANT, DYNFLAGS))[a[0]]]
    eng.specfns["SOURCE"] = lambda e, a, k: src[a[0]]
    eng.specfns["OF"] = lambda e, a, k: a[0].f.get(a[1])
    return [D], {}


def s_item(eng):
    fresh_roots(eng)
    files(eng)
    D = dyn_dump(eng, opt(eng, "nd", "qobj"), onwd=True, onto=True)
    d = D.f["parent"]
    d.f["_dyn_gen"] = matlist(eng, "G", d.f["_num_tslots"], d.f["_kd"], (d.f["_N"],) * 2)
    which = opt(eng, "all", *QUANT)
    at = {"ctrl_amps": d.f["ctrl_amps"]}
    at.update({q: d.f["_" + q] for q in QUANT[1:]})
    it = obj(eng, "dump", "EvoCompDumpItem", open_=False, parent=D, idx=nat(eng, "idx", 0), **{q: at[q] if which in ("all", q) else None for q in QUANT})
    f = dest(eng)
    return [it] + ([f] if f is not None or flag(eng) else []), {}



def old_flags(cls):
    return DYNFLAGS if cls == "DynamicsDump" else OPTFLAGS


def s_summary(eng):
    fresh_roots(eng)
    files(eng)
    st = flag(eng)
    D = dyn_dump(eng, stats=st, ecs=flag(eng), write_to_file=flag(eng), dump_summary=flag(eng))
    d = D.f["parent"]
    if st:
        d.f["stats"].f.update(num_iter=nat(eng, "s_iter", 0), num_fidelity_func_calls=nat(eng, "s_ff", 0), num_grad_func_calls=nat(eng, "s_gf", 0))
    lines(eng)
    return [D] + opt(eng, lambda: [], lambda: [nat(eng, "didx", 0)], lambda: [None]), {}


def lines(eng):
    """header and value line abstracted by their own contracts"""
    eng.contracts["dump.DumpSummaryItem.get_value_line"] = lambda e, a, k: OStr("values", a[0], a[1] if len(a) > 1 else k.get("sep", " "))
    eng.contracts["dump.DumpSummaryItem.get_header_line"] = lambda e, a, k: OStr("header", a[1] if len(a) > 1 else k.get("sep", " "))
    eng.specfns["VALUES"] = lambda e, a, k: OStr("values", *a)
    eng.specfns["HEADER"] = lambda e, a, k: OStr("header", *a)
    eng.specfns["entry"] = lambda e, a, k: Opq("entry", *a)


def new_ois(eng):
    return obj(eng, "optimizer", "OptimIterSummary", idx=0, iter_num=nat(eng, "o_i", 0), fid_func_call_num=nat(eng, "o_f", 0), grad_func_call_num=nat(eng, "o_g", 0), fid_err=real(eng, "o_e"),
               grad_norm=real(eng, "o_gn"), wall_time=real(eng, "o_w"))


def opt_dump(eng, **kw):
    o, d = optimizer(eng, opt(eng, "Optimizer", "OptimizerLBFGSB"))
    D = dump_(eng, "OptimDump", o, **kw)
    o.f["dump"] = D
    return D


def s_isummary(eng):
    D = opt_dump(eng, write_to_file=flag(eng))
    files(eng)
    lines(eng)
    if flag(eng):
        D.f["parent"].f["iter_summary"] = new_ois(eng)
    return [D], {}


def s_log(eng):
    D = opt_dump(eng, write_to_file=flag(eng))
    files(eng)
    for a, f in (("_fid_err_file", "fe"), ("_grad_norm_file", "gn")):
        D.f[a] = opt(eng, None, f)
    return [D, real(eng, "value")], {}


def s_glog(eng):
    D = opt_dump(eng, write_to_file=flag(eng))
    files(eng)
    g = arr2(eng, "g", nat(eng, "n"), nat(eng, "m"))
    eng.shared.append(g)
    return [D, g], {}



# ---- whole dumps
def s_dwrite(eng):
    fresh_roots(eng)
    files(eng)
    n = nat(eng, "n_es", 0)
    # stored summaries are numbered in order
    it = lambda ix: Opq("summary", ix[0])
    D = dyn_dump(eng, dump_summary=flag(eng), evo_summary=Seq(eng, "list", shape=(n,), base=it))
    sumitems(eng)
    mkdir(eng)
    eng.opqhooks["writeout"] = lambda e, recv, a, k: e.events_add(("writeout", recv, a[0] if a else k.get("f")))
    f = dest(eng)
    return [D] + ([f] if f is not None or flag(eng) else []), {}


def sumitems(eng):
    eng.opqattrs["idx"] = lambda e, o: o.tag[1]
    eng.opqhooks["get_value_line"] = lambda e, recv, a, k: OStr("values", recv, a[0] if a else k.get("sep", " "))
    eng.opqhooks["get_header_line"] = lambda e, recv, a, k: OStr("header", a[0] if a else k.get("sep", " "))
    lines(eng)


def mkdir(eng):
    """create_dump_dir by its contract: the directory is there, or writing is off"""
    def h(e, a, k):
        D = a[0]
        ok = e.branch(Sc("b", z3.Bool("dir_ok")))
        if not ok:
            e.write(D, "write_to_file", False)
        e.events_add(("dir", D.f["_dump_dir"]))
        return ok
    eng.contracts["dump.Dump.create_dump_dir"] = h


def s_owrite(eng):
    n = nat(eng, "n_is", 0)
    D = opt_dump(eng, dump_summary=flag(eng))
    D.f["iter_summary"] = Seq(eng, "list", shape=(n,), base=lambda ix: Opq("summary", ix[0]))
    w = opt(eng, "none", "all", *OPTFLAGS)
    for a in OPTFLAGS:
        D.f[a] = w in ("all", a)
    D.f["fid_err_log"] = vec(eng, "felog", nat(eng, "n_fe", 0), "list")
    D.f["grad_norm_log"] = vec(eng, "gnlog", nat(eng, "n_gn", 0), "list")
    gn, gm = nat(eng, "gn"), nat(eng, "gm")
    fn = z3.Function("glog", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
    D.f["grad_log"] = Seq(eng, "list", shape=(nat(eng, "n_g", 0),), base=lambda ix: Seq(eng, "ndarray", shape=(gn, gm), dtype="float",
                          base=lambda q: Sc("r", fn(S.zi(ix[0]), S.zi(q[0]), S.zi(q[1])))))
    files(eng)
    sumitems(eng)
    mkdir(eng)
    f = dest(eng)
    return [D] + ([f] if f is not None or flag(eng) else []), {}


# ---- levels
def s_level(cls):
    def s(eng):
        fresh_roots(eng)
        if cls == "DynamicsDump":
            D = dyn_dump(eng, dump_summary=flag(eng))
            fc = D.f["parent"].f["fid_computer"]
            fc.f["uses_onwd_evo"], fc.f["uses_onto_evo"] = flag(eng), flag(eng)
            for f in DYNFLAGS:
                D.f[f] = sbool(eng, f)
        else:
            D = opt_dump(eng, dump_summary=flag(eng))
            for f in OPTFLAGS:
                D.f[f] = sbool(eng, f)
        return [D], {}
    return s


def s_apply(cls):
    def s(eng):
        (D,), k = s_level(cls)(eng)
        D.f["_level"] = opt(eng, "SUMMARY", "FULL", "CUSTOM", "Custom", "bogus", None)
        lv = opt(eng, None, "summary", "SUMMARY", "Full", "CUSTOM", "custom", "bogus", "", 3)
        return [D] + ([lv] if lv is not None or flag(eng) else []), {}
    return s


def s_new(cls):
    """construction (reset) with every level and parent"""
    def s(eng):
        fresh_roots(eng)
        if cls == "DynamicsDump":
            p = evo_state(eng, od="nd", current=True)
            fc = p.f["fid_computer"]
            fc.f["uses_onwd_evo"], fc.f["uses_onto_evo"] = flag(eng), flag(eng)
        else:
            p, d = optimizer(eng)
        p.f["dump_to_file"] = flag(eng)
        D = obj(eng, "dump", cls, open_=False)
        if flag(eng):
            p = opt(eng, None, "x", lambda: obj(eng, "optimconfig", "OptimConfig"))
        lv = opt(eng, None, "SUMMARY", "full", "CUSTOM", "bogus")
        return [D, p] + ([lv] if lv is not None else []), {}
    return s


def s_clear(cls):
    def s(eng):
        fresh_roots(eng)
        D = dyn_dump(eng) if cls == "DynamicsDump" else opt_dump(eng)
        return [D], {}
    return s


# ---- places
def s_place(eng):
    fresh_roots(eng)
    D = dyn_dump(eng) if flag(eng) else opt_dump(eng)
    D.f["write_to_file"] = flag(eng)
    D.f["_summary_file_specified"] = flag(eng)
    D.f["_summary_file_path"] = opt(eng, None, "old/s.txt")
    D.f["_dump_dir"] = opt(eng, None, "old")
    if D.cls.name == "OptimDump":
        D.f["_fid_err_file"], D.f["_grad_norm_file"] = opt(eng, None, "old/fe"), opt(eng, None, "old/gn")

    def cd(e, a, k):
        """create_dir by its contract (C22)"""
        e.events_add(("create_dir", a[0]))
        ok = e.branch(Sc("b", z3.Bool("created")))
        return Seq(e, "tuple", items=[ok, OStr("located", a[0]), "message"])
    eng.contracts["io.create_dir"] = cd
    eng.specfns["LOCATED"] = lambda e, a, k: OStr("located", a[0])
    eng.specfns["CREATED"] = lambda e, a, k: e.branch(Sc("b", z3.Bool("created")))
    return [D], {}


def s_setdir(eng):
    (D,), k = s_place(eng)
    return [D, opt(eng, "new", "", None)], {}


def s_fname(eng):
    (D,), k = s_place(eng)
    return [D, opt(eng, "new", 3, None)], {}


def s_sumset(eng):
    (D,), k = s_place(eng)
    return [D, opt(eng, "s.txt", "/abs/s.txt", "~/s.txt", "sub/s.txt", 3)], {}


def s_optplace(eng):
    (D,), k = s_place(eng)
    eng.assume(D.cls.name == "OptimDump")
    return [D], {}


# ---- summary lines
def s_line(eng):
    fresh_roots(eng)
    x = new_ecs(eng) if flag(eng) else new_ois(eng)
    if x.cls.name == "EvoCompSummary":
        x.f.update(idx=nat(eng, "x_i", 0))
        if flag(eng):
            x.f.update(evo_dump_idx=nat(eng, "x_d", 0), iter_num=nat(eng, "x_n", 0), fid_func_call_num=nat(eng, "x_f", 0), grad_func_call_num=nat(eng, "x_g", 0))
    elif flag(eng):
        x.f.update(iter_num=None, fid_func_call_num=None, grad_func_call_num=None, fid_err=None, grad_norm=None)
    sep = opt(eng, " ", ",", "\t", None)
    return [x] + ([sep] if sep is not None else []), {}


def s_head(eng):
    fresh_roots(eng)
    c = eng.get_class("tslotcomp", "EvoCompSummary") if flag(eng) else eng.get_class("optimizer", "OptimIterSummary")
    sep = opt(eng, " ", ",", "\t", None)
    return [c] + ([sep] if sep is not None else []), {}


# ---- owners
def s_dumping(which):
    def s(eng):
        fresh_roots(eng)
        if which == "dynamics":
            o = evo_state(eng, od="nd", current=True)
            cls = "DynamicsDump"
            D = dump_(eng, cls, o)
        else:
            o, d = optimizer(eng)
            cls = "OptimDump"
            D = dump_(eng, cls, o)
        o.f["dump_to_file"] = flag(eng)
        o.f["dump"] = opt(eng, None, lambda: D, lambda: Opq("callable", "foreign") if False else None)

        def lev(e, a, k):
            e.events_add(("apply_level", a[0]) + tuple(a[1:]))
        eng.contracts["dump.%s._apply_level" % cls] = lev
        eng.specfns["ISDUMP"] = lambda e, a, k: isinstance(a[0], Obj) and a[0].cls.name == cls
        return [o], {}
    return s


def s_setdumping(which):
    def s(eng):
        (o,), k = s_dumping(which)(eng)
        return [o, opt(eng, None, "NONE", "none", "summary", "FULL", "Custom", "", 3)], {}
    return s


def s_current(eng):
    fresh_roots(eng)
    D = dyn_dump(eng, onwd=True, onto=True, dump_summary=flag(eng))
    d = D.f["parent"]
    w = opt(eng, *DYNFLAGS, "none", "all")
    for f in DYNFLAGS:
        D.f[f] = w in ("all", f)
    if flag(eng):
        d.f["dump"] = opt(eng, None, "x")

    def add(e, a, k):
        it = obj(e, "dump", "EvoCompDumpItem", idx=Sc("i", z3.Int("added")))
        e.events_add(("evo_dump",))
        return it
    eng.contracts["dump.DynamicsDump.add_evo_dump"] = add

    def addsum(e, a, k):
        e.events_add(("summary", a[1] if len(a) > 1 else k.get("dump_item_idx")))
        return None
    eng.contracts["dump.DynamicsDump.add_evo_comp_summary"] = addsum
    eng.specfns["ADDED"] = lambda e, a, k: Sc("i", z3.Int("added"))
    eng.specfns["ANY"] = lambda e, a, k: w != "none"
    return [d.f["tslot_computer"]], {}


CONTRACTS = [
    Contract("dump.DynamicsDump.add_evo_dump", s_add_evo, None, ["dumps:ens_add_evo"], ["C17"], old="dumps:old_add_evo"),
    Contract("dump.EvoCompDumpItem.writeout", s_item, "dumps:item_writeout", [], ["C17"]),
    Contract("dump.DynamicsDump.add_evo_comp_summary", s_summary, "dumps:add_summary", [], ["C17"]),
    Contract("dump.OptimDump.add_iter_summary", s_isummary, "dumps:add_isummary", [], ["C17"]),
    Contract("dump.OptimDump.update_fid_err_log", s_log, "dumps:update_fe", [], ["C17"]),
    Contract("dump.OptimDump.update_grad_norm_log", s_log, "dumps:update_gn", [], ["C17"]),
    Contract("dump.OptimDump.update_grad_log", s_glog, "dumps:update_g", ["dumps:ens_gcopy"], ["C17"], result=False),
    Contract("dump.DynamicsDump.writeout", s_dwrite, "dumps:dyn_writeout", [], ["C17"]),
    Contract("dump.OptimDump.writeout", s_owrite, "dumps:opt_writeout", [], ["C17"]),
    Contract("dump.DumpSummaryItem.get_value_line", s_line, "dumps:value_line", [], ["C17"]),
    Contract("dump.DumpSummaryItem.get_header_line", s_head, "dumps:header_line", [], ["C17"]),
    Contract("dump.Dump.create_dump_dir", s_place, "dumps:create_dir", [], ["C17"]),
    Contract("tslotcomp.TimeslotComputer.dump_current", s_current, "dumps:dump_current", [], ["C17"]),
]
for _c in ("DynamicsDump", "OptimDump"):
    CONTRACTS += [
        Contract("dump.%s._apply_level" % _c, s_apply(_c), "dumps:apply_level", [], ["C17"]),
        Contract("dump.%s.dump_any.fget" % _c, s_level(_c), "dumps:dump_any", [], ["C17"]),
        Contract("dump.%s.dump_all.fget" % _c, s_level(_c), "dumps:dump_all", [], ["C17"]),
        Contract("dump.Dump.level.fget", s_level(_c), "dumps:level", [], ["C17"], name="dump.Dump.level (%s)" % _c),
        Contract("dump.%s.__init__" % _c, s_new(_c), "dumps:init", [], ["C17"]),
        Contract("dump.%s.clear" % _c, s_clear(_c), "dumps:clear", [], ["C17"]),
    ]
for _q, _s, _f in (("dump.Dump.dump_dir.fget", s_place, "dump_dir"), ("dump.Dump.dump_dir.fset", s_setdir, "set_dump_dir"), ("dump.Dump.fname_base.fset", s_fname, "set_fname"),
                   ("dump.Dump.summary_file.fget", s_place, "summary_file"), ("dump.Dump.summary_file.fset", s_sumset, "set_summary_file"),
                   ("dump.OptimDump.fid_err_file.fget", s_optplace, "fid_err_file"), ("dump.OptimDump.grad_norm_file.fget", s_optplace, "grad_norm_file"),
                   ("dynamics.Dynamics.dumping.fget", s_dumping("dynamics"), "dumping"), ("optimizer.Optimizer.dumping.fget", s_dumping("optimizer"), "dumping"),
                   ("dynamics.Dynamics.dumping.fset", s_setdumping("dynamics"), "set_dumping"), ("optimizer.Optimizer.dumping.fset", s_setdumping("optimizer"), "set_dumping")):
    CONTRACTS.append(Contract(_q, _s, "dumps:" + _f, [], ["C17"]))
