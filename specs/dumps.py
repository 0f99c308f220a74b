"""C17"""
import copy
import os
from qutip_qtrl import dump, dynamics, optimizer


def old_add_evo(self):
    return len(self.evo_dumps)


def ens_add_evo(self, result, old):
    L = self.evo_dumps
    check("one item is added", len(L) == old + 1)
    check("the item is the last entry", is_same(L[old], result))
    if old > 0:
        i = any_int(0, old)
        check_eq("earlier items are kept", L[i], ENTRY("evo", i))
    check("numbered in order", result.idx == old)
    ev = events()
    for q in ("ctrl_amps", "dyn_gen", "prop", "prop_grad", "fwd_evo", "onwd_evo", "onto_evo"):
        v = OF(result, q)
        if FLAGGED(q):
            check_eq(q + " is what is recorded as " + q, v, SOURCE(q))
            check(q + " is a copy", not shares(v, SOURCE(q)))
        else:
            check(q + " is not recorded", v is None)
    if self.write_to_file:
        check("written to file once", len(ev) == 1)
        check("that item", is_same(ev[0][1], result))
        check_eq("complete", list(ev[0])[2:], [OF(result, q) for q in ("ctrl_amps", "dyn_gen", "prop", "prop_grad", "fwd_evo", "onwd_evo", "onto_evo", "idx")])
    else:
        check("nothing written", len(ev) == 0)


def arr(x):
    return x.full() if hasattr(x, "full") else x


def item_writeout(self, f):
    dump = self.parent
    one = f is not None
    if hasattr(f, "write"):
        if "b" not in f.mode:
            raise RuntimeError("binary mode")
        to = "STREAM"
        emit("text", to, "EVOLUTION COMPUTATION {}\n".format(self.idx))
    elif one:
        to = f
        emit("open", to, "w")
    else:
        to = None

    def start(name, title):
        if one:
            emit("text", to, title + "\n")
            return to
        p = os.path.join("dir", "{}-evo{}-{}.{}".format("base", self.idx, name, "txt"))
        emit("open", p, "w")
        return p
    sep = " "
    if self.ctrl_amps is not None:
        p = start("ctrl_amps", "Ctrl amps")
        emit("savetxt", p, self.ctrl_amps, "%14.6g", sep, "\n")
    for q, title, line in (("dyn_gen", "Dynamics Generators", "dynamics generator for timeslot {}\n"), ("prop", "Propagators", "Propagator for timeslot {}\n")):
        L = getattr(self, q)
        if L is not None:
            p = start(q, title)
            for k in range(len(L)):
                emit("text", p, line.format(k))
                emit("savetxt", p, arr(L[k]), "%.18e", sep, "\n")
    if self.prop_grad is not None:
        p = start("prop_grad", "Propagator gradients")
        G = self.prop_grad
        for k in range(G.shape[0]):
            for j in range(G.shape[1]):
                emit("text", p, "Propagator gradient for timeslot {} control {}\n".format(k, j))
                emit("savetxt", p, arr(G[k, j]), "%.18e", sep, "\n")
    for q, title, line in (("fwd_evo", "Forward evolution", "Evolution from 0 to {}\n"), ("onwd_evo", "Onward evolution", "Evolution from {} to end\n"),
                           ("onto_evo", "Onto evolution", "Evolution from {} onto target\n")):
        L = getattr(self, q)
        if L is not None:
            p = start(q, title)
            for k in range(len(L)):
                emit("text", p, line.format(k))
                emit("savetxt", p, arr(L[k]), "%.18e", sep, "\n")


def put_line(self, item):
    """the line of a new summary item goes to the summary file"""
    f = "dir/base-summary.txt"
    if self.write_to_file:
        self._summary_file_path = f
        if item.idx == 0:
            emit("open", f, "w")
            emit("text", f, "{}\n{}\n".format(HEADER(" "), VALUES(item, " ")))
        else:
            emit("open", f, "a")
            emit("text", f, "{}\n".format(VALUES(item, " ")))


def appended(L, x):
    n = len(L)
    return listof(n + 1, lambda i: x if i == n else L[i])


def add_summary(self, dump_item_idx):
    dyn = self.parent
    e = dyn.tslot_computer.evo_comp_summary
    if e is None:
        raise RuntimeError("none")
    r = copy.copy(e)
    r.idx = len(self.evo_summary)
    r.evo_dump_idx = dump_item_idx
    if dyn.stats is not None:
        r.iter_num = dyn.stats.num_iter
        r.fid_func_call_num = dyn.stats.num_fidelity_func_calls
        r.grad_func_call_num = dyn.stats.num_grad_func_calls
    self.evo_summary.append(r)
    put_line(self, r)
    return r


def add_isummary(self):
    o = self.parent.iter_summary
    if o is None:
        raise RuntimeError("none")
    r = copy.copy(o)
    r.idx = len(self.iter_summary)
    self.iter_summary.append(r)
    put_line(self, r)
    return r


def put_value(self, name, n, value):
    f = getattr(self, name)
    if f is None:
        f = "dir/base-{}_log.txt".format({"_fid_err_file": "fid_err", "_grad_norm_file": "grad_norm"}[name])
        setattr(self, name, f)
    emit("open", f, "w" if n == 1 else "a")
    emit("text", f, "{}\n".format(value))


def update_fe(self, fid_err):
    self.fid_err_log.append(fid_err)
    if self.write_to_file:
        put_value(self, "_fid_err_file", len(self.fid_err_log), fid_err)


def update_gn(self, grad_norm):
    self.grad_norm_log.append(grad_norm)
    if self.write_to_file:
        put_value(self, "_grad_norm_file", len(self.grad_norm_log), grad_norm)


def update_g(self, grad):
    g = array2(grad.shape[0], grad.shape[1], lambda k, j: grad[k, j])
    self.grad_log.append(g)
    n = len(self.grad_log)
    if self.write_to_file:
        f = os.path.join("dir", "base-fid_err_gradients{}.txt".format(n))
        emit("open", f, "w")
        emit("savetxt", f, g, "%.18e", " ", "\n")


def ens_gcopy(self, grad):
    check("a copy is kept", not shares(self.grad_log[len(self.grad_log) - 1], grad))


# ---- whole dumps
def place(self, f):
    """where everything goes to: one destination, or None for separate files"""
    if hasattr(f, "write"):
        if "b" not in f.mode:
            raise RuntimeError("binary mode")
        return "STREAM"
    if f is not None:
        emit("open", f, "w")
        return f
    self.create_dump_dir()
    return None


def put_lines(self, items, to):
    if self.dump_summary:
        if to is None:
            to = "dir/base-summary.txt"
            self._summary_file_path = to
            emit("open", to, "w")
        for i in range(len(items)):
            if i == 0:
                emit("text", to, "{}\n{}\n".format(HEADER(" "), VALUES(items[i], " ")))
            else:
                emit("text", to, "{}\n".format(VALUES(items[i], " ")))


def dyn_writeout(self, f):
    to = place(self, f)
    put_lines(self, self.evo_summary, to)
    for i in range(len(self.evo_dumps)):
        emit("writeout", self.evo_dumps[i], HANDLE(f))


def opt_writeout(self, f):
    to = place(self, f)
    put_lines(self, self.iter_summary, to)
    for flag, log, title, fn, at in ((self.dump_fid_err, self.fid_err_log, "Fidelity errors:\n", "fid_err", "_fid_err_file"),
                                     (self.dump_grad_norm, self.grad_norm_log, "gradients norms:\n", "grad_norm", "_grad_norm_file")):
        if flag:
            if to is not None:
                emit("text", to, title)
                emit("savetxt", to, array(len(log), lambda i: log[i]), "%.18e", " ", "\n")
            else:
                p = "dir/base-{}_log.txt".format(fn)
                setattr(self, at, p)
                emit("open", p, "w")
                emit("savetxt", p, array(len(log), lambda i: log[i]), "%.18e", " ", "\n")
    if self.dump_grad:
        for i in range(len(self.grad_log)):
            if to is not None:
                emit("text", to, "gradients (call {}):\n".format(i + 1))
                emit("savetxt", to, self.grad_log[i], "%.18e", " ", "\n")
            else:
                p = os.path.join("dir", "base-fid_err_gradients{}.txt".format(i + 1))
                emit("open", p, "w")
                emit("savetxt", p, self.grad_log[i], "%.18e", " ", "\n")


# ---- levels
def dump_any(self):
    if isinstance(self, dump.DynamicsDump):
        return any_of(self.dump_amps, self.dump_dyn_gen, self.dump_prop, self.dump_prop_grad, self.dump_fwd_evo, self.dump_onwd_evo, self.dump_onto_evo)
    return any_of(self.dump_fid_err, self.dump_grad_norm, self.dump_grad)


def dump_all(self):
    if isinstance(self, dump.DynamicsDump):
        fc = self.parent.fid_computer
        return all_of(self.dump_amps, self.dump_dyn_gen, self.dump_prop, self.dump_prop_grad, self.dump_fwd_evo, iff(self.dump_onwd_evo, fc.uses_onwd_evo), iff(self.dump_onto_evo, fc.uses_onto_evo))
    return all_of(self.dump_fid_err, self.dump_grad_norm, self.dump_grad)


def level(self):
    if self.dump_summary and not dump_any(self):
        return "SUMMARY"
    if self.dump_summary and dump_all(self):
        return "FULL"
    return "CUSTOM"


def apply_level(self, level):
    again = level is None
    lv = self._level if again else level
    if not isinstance(lv, str):
        raise ValueError("level")
    lv = lv.upper()
    if lv not in ("SUMMARY", "FULL", "CUSTOM"):
        raise ValueError("level")
    if lv == "CUSTOM" and not again and LEVEL(self) == "CUSTOM":
        return
    full = lv == "FULL"
    self.dump_summary = True
    if isinstance(self, dump.DynamicsDump):
        fc = self.parent.fid_computer
        self.dump_amps = self.dump_dyn_gen = self.dump_prop = self.dump_prop_grad = self.dump_fwd_evo = full
        self.dump_onwd_evo = full and fc.uses_onwd_evo
        self.dump_onto_evo = full and fc.uses_onto_evo
    else:
        self.dump_fid_err = self.dump_grad_norm = self.dump_grad = full


def LEVEL(self):
    return level(self)


def init(self, parent, level):
    dd = isinstance(self, dump.DynamicsDump)
    if not isinstance(parent, dynamics.Dynamics if dd else optimizer.Optimizer):
        raise TypeError("parent")
    self.parent = parent
    self._level = level
    self.write_to_file = parent.dump_to_file
    self._dump_dir = None
    self.dump_file_ext = "txt"
    self._fname_base = "dyndump" if dd else "optimdump"
    self.dump_summary = True
    self.summary_sep = self.data_sep = " "
    self._summary_file_path = None
    self._summary_file_specified = False
    clear(self)
    if not dd:
        self._fid_err_file = self._grad_norm_file = None
    apply_level(self, None)


def clear(self):
    if isinstance(self, dump.DynamicsDump):
        self.evo_dumps = []
        self.evo_summary = []
    else:
        self.iter_summary = []
        self.fid_err_log = []
        self.grad_norm_log = []
        self.grad_log = []


# ---- places
def create_dir(self):
    d = self._dump_dir
    if d is None or d == "":
        d = dump.DUMP_DIR
    emit("create_dir", d)
    self._dump_dir = LOCATED(d)
    ok = CREATED()
    if not ok:
        self.write_to_file = False
    return ok


def dump_dir(self):
    if self._dump_dir is None:
        create_dir(self)
    return self._dump_dir


def forget(self):
    if not self._summary_file_specified:
        self._summary_file_path = None
    if isinstance(self, dump.OptimDump):
        self._fid_err_file = self._grad_norm_file = None


def set_dump_dir(self, value):
    self._dump_dir = value
    forget(self)
    if not create_dir(self):
        self._dump_dir = None


def set_fname(self, value):
    if not isinstance(value, str):
        raise ValueError("name")
    self._fname_base = value
    forget(self)


def summary_file(self):
    if self._summary_file_path is None:
        self._summary_file_path = os.path.join(dump_dir(self), "base-summary.txt")
    return self._summary_file_path


def set_summary_file(self, value):
    if not isinstance(value, str):
        raise ValueError("path")
    self._summary_file_specified = True
    if os.path.isabs(value):
        self._summary_file_path = value
    elif "~" in value:
        self._summary_file_path = os.path.expanduser(value)
    else:
        self._summary_file_path = os.path.join(dump_dir(self), value)


def fid_err_file(self):
    if self._fid_err_file is None:
        self._fid_err_file = os.path.join(dump_dir(self), "base-fid_err_log.txt")
    return self._fid_err_file


def grad_norm_file(self):
    if self._grad_norm_file is None:
        self._grad_norm_file = os.path.join(dump_dir(self), "base-grad_norm_log.txt")
    return self._grad_norm_file


# ---- summary lines
def width(name):
    return max(len(name), 11)


def value_line(self, sep):
    out = ""
    first = True
    for name, typ, prec in zip(self.summary_property_names, self.summary_property_fmt_type, self.summary_property_fmt_prec):
        v = getattr(self, name)
        if not first:
            out = out + sep
        first = False
        fmt = (str(width(name)) if sep == " " else "0") + ("." + str(prec) if prec > 0 else "") + typ
        if v is None:
            out = out + (format("None", str(width(name)) + "s") if sep == " " else "None")
        else:
            out = out + format(v, fmt)
    return out


def header_line(cls, sep):
    out = ""
    first = True
    for name in cls.summary_property_names:
        if not first:
            out = out + sep
        first = False
        out = out + (format(name, str(width(name)) + "s") if sep == " " else name)
    return out


# ---- owners
def dumping(self):
    if self.dump is None:
        return "NONE"
    return level(self.dump)


def set_dumping(self, value):
    if value is None:
        self.dump = None
        return
    if not isinstance(value, str):
        raise TypeError("value")
    lv = value.upper()
    if lv == "NONE":
        self.dump = None
    elif self.dump is not None:
        self.dump._apply_level(lv)
        self.dump._level = lv
    elif isinstance(self, dynamics.Dynamics):
        self.dump = dump.DynamicsDump(self, lv)
    else:
        self.dump = dump.OptimDump(self, lv)


def dump_current(self):
    d = self.parent.dump
    if not isinstance(d, dump.DynamicsDump):
        raise RuntimeError("no dump")
    idx = None
    if ANY():
        emit("evo_dump")
        idx = ADDED()
    if d.dump_summary:
        emit("summary", idx)
