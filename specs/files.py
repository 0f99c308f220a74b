"""C18, C22, C24"""
from qutip import Qobj
from qutip_qtrl import errors


def ens_dir(dir_name, desc, result):
    check("three results", len(result) == 3)
    ok, path, msg = result[0], result[1], result[2]
    check("the returned path is the documented location", LOC(path))
    check("success exactly when a directory exists there", iff(ok, ISDIR()))
    check("a message is given", isinstance(msg, str))


def save_amps(self, file_name, times, amps, verbose):
    if not self._ctrls_initialized:
        raise errors.UsageError("controls not initialised")
    n, m = self._num_tslots, self._num_ctrls
    f = self.def_amps_fname if file_name is None else file_name
    A = self.ctrl_amps if amps is None else amps
    if times in ("exclude", "Exclude") if isinstance(times, str) else False:
        emit("savetxt", f, array2(n, m, lambda k, j: A[k, j]), "%14.6g", "\t", "\n")
        return
    t = self.time if times is None or isinstance(times, str) else times
    emit("savetxt", f, array2(n, m + 1, lambda k, j: ite(j == 0, t[k], A[k, ite(j == 0, 0, j - 1)])), "%14.6g", "\t", "\n")


def set_param(parser, section, option, obj, attrib_name):
    k = attrib_name
    if k == "absent":
        return
    if k == "f":
        if VALID("float"):
            obj.f = AS_FLOAT()
        else:
            obj.f = AS_EVAL()
    elif k == "i":
        obj.i = AS_INT()
    elif k == "b":
        obj.b = AS_BOOL()
    elif k == "c":
        obj.c = AS_COMPLEX()
    elif k == "s":
        obj.s = TEXT()
    elif k == "l":
        v = AS_EVAL()
        obj.l = [v[i] for i in range(len(v))]
    elif k == "a":
        v = AS_EVAL()
        obj.a = array(len(v), lambda i: v[i])
    elif k == "q":
        obj.q = Qobj(AS_EVAL())
    elif VALID("float"):
        obj.n = AS_FLOAT()
    elif VALID("bool"):
        obj.n = AS_BOOL()
    else:
        obj.n = TEXT()


def ens_load(file_name, config, term_conds, dynamics, optim, pulsegen, obj, section, result):
    check("an unreadable file or a general object without section is refused, nothing else", iff(MISSING(), isinstance(result, ValueError)))
    check("no other failure", result is None or isinstance(result, ValueError))
    if NOFILE():
        return
    for s in ("optimconfig", "termconds", "dynamics", "optimizer", "pulsegen", "mysect"):
        L = LOG(s)
        if not GIVEN(s):
            check("nothing is set on objects that are not given", len(L) == 0)
        elif not HAS(s):
            check("no section, nothing set", len(L) == 0)
        else:
            i = any_int(0, len(L))
            check("entries are set in order", L[i] == i)
            check("every entry is set unless one is unusable", any_of(len(L) == LEN(s), all_of(len(L) < LEN(s), BAD(s, len(L)))))
