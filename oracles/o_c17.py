"""C17: dumps record what they say they record."""
import io
import os
import shutil
import tempfile
import numpy as np
from common import need, need_close, Skip
from prob import Prob, rand_case, arr

RULE = ("histories of amplitude updates, error and gradient queries on random problems with dumping NONE/SUMMARY/FULL/CUSTOM (random selections, changed midway), with and without writing to files: "
        "each new dump item compared with separate copies of the object's quantities and with the formulas, earlier items unchanged to the end, numbering, summaries, file names, places and contents; "
        "written-out files and streams; small optimisations with every dump level: logs against recorded calls and the result against the same run without dumping; level, directory and file-name settings")
NAMES = ["amps", "dyn_gen", "prop", "prop_grad", "fwd_evo", "onwd_evo", "onto_evo"]
ITEM = {"amps": "ctrl_amps"}
HEAD = {"dyn_gen": "dynamics generator for timeslot {0}", "prop": "Propagator for timeslot {0}", "prop_grad": "Propagator gradient for timeslot {0} control {1}",
        "fwd_evo": "Evolution from 0 to {0}", "onwd_evo": "Evolution from {0} to end", "onto_evo": "Evolution from {0} onto target"}
SECT = {"amps": "Ctrl amps", "dyn_gen": "Dynamics Generators", "prop": "Propagators", "prop_grad": "Propagator gradients", "fwd_evo": "Forward evolution",
        "onwd_evo": "Onward evolution", "onto_evo": "Onto evolution"}
OPTF = ["fid_err", "grad_norm", "grad"]
LEVELS = ["SUMMARY", "FULL", "CUSTOM", "full", "summary", "custom", "Full", "NONE", "none", "", None, "BAD", "all", 3]


def corner():
    i = 0
    for dyn, fid, prop in (("UNIT", "UNIT", "DIAG"), ("UNIT", "UNIT", "FRECHET"), ("GEN_MAT", "TRACEDIFF", "DEF"), ("GEN_MAT", "TDAPPROX", "APPROX"), ("SYMPL", "TRACEDIFF", "FRECHET")):
        for od in ("qobj", "nd"):
            for lvl, sel in (("SUMMARY", []), ("FULL", []), ("CUSTOM", ["amps"]), ("CUSTOM", ["dyn_gen", "fwd_evo"]), ("CUSTOM", ["prop", "prop_grad"]), ("CUSTOM", ["onwd_evo", "onto_evo"])):
                i += 1
                yield {"kind": "dyn", "dyn": dyn, "seed": i, "N": 2, "m": 2, "n": 3, "tdd": False, "tdc": False, "od": od, "prop": prop, "tau": "var", "spec": "rand", "amp": 1.0, "memopt": None,
                       "cphase": None, "state": False, "fid": fid, "popt": "PSU" if dyn == "UNIT" else None, "level": lvl, "sel": sel, "file": bool(i % 2), "how": ["level", "cfg", "dir"][i % 3],
                       "base": [None, "run1"][i % 2], "ext": [None, "dat"][i % 3 == 0], "sep": [None, ","][i % 4 == 0], "stats": bool(i % 2),
                       "ops": ["set", "err", "grad", "tiny", "err", "same", "err", "set", "err", "clear", "set", "err"]}
    for a in LEVELS:
        for b in LEVELS:
            for w in ("dyn", "opt"):
                yield {"kind": "levels", "who": w, "seq": [a, b]}
    for j, lvl in enumerate(["SUMMARY", "FULL", "CUSTOM:fid_err", "CUSTOM:grad", "CUSTOM:grad_norm,grad", "NONE"]):
        for f in (False, True):
            yield {"kind": "opt", "level": lvl, "file": f, "seed": j, "method": ["FMIN_L_BFGS_B", "FMIN_BFGS"][j % 2], "iters": 3, "n": 3, "dir": j % 2 == 0, "crab": False, "sep": [None, ","][j % 2]}
    yield {"kind": "opt", "level": "FULL", "file": True, "seed": 1, "method": "FMIN", "iters": 4, "n": 4, "dir": True, "crab": True, "sep": None}
    for w in ("dyn", "opt"):
        for seq in (["dir:a", "base:x", "sum", "dir:b", "sum"], ["sum", "base:x", "sum", "ext:dat"], ["set:rel.txt", "sum", "base:q", "sum"], ["sum", "dir:b", "sum", "set:rel.txt", "dir:a", "sum"],
                    ["set:ABS", "dir:a", "sum"], ["badbase", "badset", "sum"], ["dir:~/zz", "sum", "files"], ["dir:FILE", "sum"], ["files", "base:y", "files", "dir:c", "files"]):
            yield {"kind": "paths", "who": w, "seq": seq}


def gen(rng):
    k = rng.random()
    if k < 0.15:
        return {"kind": "levels", "who": rng.choice(["dyn", "opt"]), "seq": [rng.choice(LEVELS + ["set:" + ",".join(rng.sample(NAMES, 2)), "mod"]) for _ in range(rng.randint(1, 5))]}
    if k < 0.25:
        return {"kind": "paths", "who": rng.choice(["dyn", "opt"]), "seq": [rng.choice(["dir:a", "dir:b", "dir:c/d", "base:x", "base:y", "sum", "files", "set:rel.txt", "set:ABS", "badbase", "badset"]) for _ in range(rng.randint(2, 7))]}
    if k < 0.5:
        return {"kind": "opt", "level": rng.choice(["SUMMARY", "FULL", "FULL", "NONE", "CUSTOM:" + ",".join(rng.sample(OPTF, rng.randint(1, 3)))]), "file": rng.random() < 0.5, "seed": rng.randrange(10**6),
                "method": rng.choice(["FMIN_L_BFGS_B", "FMIN_BFGS"]), "iters": rng.randint(1, 5), "n": rng.randint(1, 5), "dir": rng.random() < 0.7, "crab": rng.random() < 0.2, "sep": rng.choice([None, ",", ";"])}
    c = rand_case(rng)
    c["n"], c["m"] = min(c["n"], 4), min(c["m"], 2)
    if c["prop"] == "APPROX":
        c["fid"] = "TDAPPROX"
    c["kind"] = "dyn"
    c["level"] = rng.choice(["SUMMARY", "FULL", "FULL", "CUSTOM", "CUSTOM", "NONE"])
    c["sel"] = rng.sample(NAMES, rng.randint(0, 5)) if c["level"] == "CUSTOM" else []
    c.update(file=rng.random() < 0.5, how=rng.choice(["level", "cfg", "dir"]), base=rng.choice([None, "run1", "a-b"]), ext=rng.choice([None, "dat"]), sep=rng.choice([None, ",", ";"]), stats=rng.random() < 0.6)
    c["ops"] = [rng.choice(["set", "set", "tiny", "same", "err", "err", "grad", "full", "clear", "reinit", "resel", "acc"]) for _ in range(rng.randint(3, 9))]
    return c


def cp(x):
    """an independent plain copy of a (nested) quantity"""
    if x is None:
        return None
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x.copy()
    if isinstance(x, np.ndarray) and x.ndim == 2 and x.dtype == object:
        return [[cp(x[i, j]) for j in range(x.shape[1])] for i in range(x.shape[0])]
    if isinstance(x, (list, tuple, np.ndarray)):
        return [cp(y) for y in x]
    return x.full().copy() if hasattr(x, "full") else x


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
        return a == b
    return a.shape == b.shape and np.array_equal(a, b)


def toks(line, sep):
    return np.array([complex(t.strip().replace("+-", "-")) for t in (line.split(sep) if sep and sep.strip() else line.split()) if t.strip()])


def blocks(text, sep):
    """[(header, matrix)] of a file: header lines start with a letter"""
    out = []
    for line in text.splitlines():
        s = line.strip()
        if not s:
            continue
        if s[0].isalpha() and s[:3] not in ("nan", "inf"):
            out.append([s, []])
        else:
            if not out:
                out.append([None, []])
            out[-1][1].append(toks(s, sep))
    return out


def flat(name, q):
    """list of (expected header, matrix) for a quantity"""
    if name == "prop_grad":
        return [(HEAD[name].format(k, j), q[k][j]) for k in range(len(q)) for j in range(len(q[k]))]
    return [(HEAD[name].format(k), q[k]) for k in range(len(q))]


def need_block(b, header, M, what, tol=1e-12):
    need(b[0] == header, "file header", "%s: %r instead of %r" % (what, b[0], header))
    M = np.atleast_2d(np.asarray(M))
    need(len(b[1]) == M.shape[0], "file rows", "%s: %d rows for %s" % (what, len(b[1]), M.shape))
    need_close(np.array(b[1]), M.astype(complex), "file content", what, tol)


def check_item_blocks(bl, item, what):
    """sections written to one file"""
    i = 0
    for nm in NAMES:
        q = item.get(nm)
        if q is None:
            continue
        need(i < len(bl) and bl[i][0] == SECT[nm], "section", "%s: %s missing (%s)" % (what, nm, bl[i][0] if i < len(bl) else None))
        if nm == "amps":
            need_block(bl[i], SECT[nm], q, what + " amps", 1e-5)
            i += 1
            continue
        i += 1
        for h, M in flat(nm, q):
            need(i < len(bl), "section", "%s: %s %s missing" % (what, nm, h))
            need_block(bl[i], h, M, what + " " + nm)
            i += 1
    return i


def expect_line(obj, sep):
    """summary columns of an object: numbers at the file's precision"""
    out = []
    for nm, t, p in zip(obj.summary_property_names, obj.summary_property_fmt_type, obj.summary_property_fmt_prec):
        v = getattr(obj, nm)
        out.append(None if v is None else float(format(v, ("." + str(p) if p else "") + t)))
    return out


def check_summary_file(text, items, sep, what):
    lines = text.splitlines()
    need(len(lines) == len(items) + (1 if items else 0), "summary lines", "%s: %d lines for %d items" % (what, len(lines), len(items)))
    if not items:
        return
    names = items[0].summary_property_names
    spl = (lambda l: l.split()) if sep == " " else (lambda l: l.split(sep))
    need([s.strip() for s in spl(lines[0])] == list(names), "summary header", "%s: %s" % (what, lines[0]))
    for l, it in zip(lines[1:], items):
        got = [None if s.strip() == "None" else float(s) for s in spl(l)]
        need(got == expect_line(it, sep), "summary values", "%s: %s for %s" % (what, l, [getattr(it, n) for n in names]))


class Home:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c17")
        self.h, self.cwd = os.environ.get("HOME"), os.getcwd()
        os.environ["HOME"] = os.path.join(self.d, "home")
        os.makedirs(os.environ["HOME"])
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.cwd)
        if self.h is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = self.h
        shutil.rmtree(self.d, ignore_errors=True)


def run(c):
    with Home() as tmp:
        return {"dyn": run_dyn, "levels": run_levels, "opt": run_opt, "paths": run_paths}[c["kind"]](c, tmp)


def files(d):
    return {os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs}


ATTR = {"amps": "ctrl_amps", "dyn_gen": "_dyn_gen", "prop": "_prop", "prop_grad": "_prop_grad", "fwd_evo": "_fwd_evo", "onwd_evo": "_onwd_evo", "onto_evo": "_onto_evo"}


def quantities(d):
    return {nm: cp(getattr(d, ATTR[nm])) for nm in NAMES}


def item_state(it):
    return {nm: cp(getattr(it, ITEM.get(nm, nm))) for nm in NAMES}


def run_dyn(c, tmp):
    p = Prob(c)
    twin = p.dynamics(gen_stats=c["stats"])
    p = Prob(c)
    o_d = p.dynamics(init=False, gen_stats=c["stats"])
    d = o_d
    ddir = os.path.join(tmp, "out", "x")
    lvl = c["level"]
    if lvl != "NONE":
        if c["how"] == "cfg" and c["file"]:
            d.dump_to_file = True
        elif c["how"] == "dir":
            d.dump_dir = ddir
            need(d.dumping == "SUMMARY", "dumping from dump_dir", d.dumping)
        d.dumping = lvl
        need(d.dump.parent is d, "dump parent")
        need(os.path.normpath(d.dump_dir) == (ddir if c["how"] == "dir" else os.path.join(os.environ["HOME"], ".qtrl_dump")), "dump dir", d.dump_dir)
        d.dump.dump_dir = ddir
        for s in c["sel"]:
            setattr(d.dump, "dump_" + s, True)
        if c["base"]:
            d.dump.fname_base = c["base"]
        if c["ext"]:
            d.dump.dump_file_ext = c["ext"]
        if c["sep"]:
            d.dump.data_sep = c["sep"]
            d.dump.summary_sep = c["sep"]
        if c["file"]:
            d.dump.write_to_file = True
    base, ext, sep = c["base"] or "dyndump", c["ext"] or "txt", c["sep"] or " "
    d.initialize_controls(p.amps.copy())
    fc = d.fid_computer
    dump = d.dump
    if lvl == "NONE":
        need(dump is None and d.dumping == "NONE", "no dump", d.dumping)

    def selection():
        if lvl == "FULL" and not touched:
            f = {nm: True for nm in NAMES}
            f["onwd_evo"], f["onto_evo"] = bool(fc.uses_onwd_evo), bool(fc.uses_onto_evo)
            return f
        return {nm: nm in sel for nm in NAMES}
    sel, touched = set(c["sel"]), False
    log, summ = [], []
    amps = p.amps.copy()
    computed, dirty, nclear = 0, True, False
    r = p.r
    for op in c["ops"]:
        if op in ("set", "tiny", "same", "reinit"):
            new = p.rand_amps() if op == "set" else amps.copy()
            if op == "tiny":
                new[r.integers(0, p.n), r.integers(0, p.m)] += 1e-7
            if op == "reinit" or not np.array_equal(new, amps):
                dirty = True
            amps = new
            for x in (d, twin):
                (x.initialize_controls if op == "reinit" else x.update_ctrl_amps)(amps.copy())
        elif op == "clear" and dump is not None:
            dump.clear()
            need(dump.evo_dumps == [] and dump.evo_summary == [], "cleared")
            log, summ = [], []
        elif op == "resel" and dump is not None:
            cur = selection()
            f = NAMES[r.integers(0, len(NAMES))]
            setattr(dump, "dump_" + f, not cur[f])
            sel, touched = {k for k in NAMES if cur[k]} ^ {f}, True
        elif op == "acc":
            if dirty:
                continue
            for nm in ("fwd_evo", "prop", "dyn_gen"):
                getattr(d, nm)
        elif op in ("err", "grad", "full"):
            nb, ns = (len(dump.evo_dumps), len(dump.evo_summary)) if dump is not None else (0, 0)
            fb = files(ddir) if os.path.isdir(ddir) else set()
            got, want = [], []
            for x, l in ((d, got), (twin, want)):
                if op == "err":
                    l.append(x.fid_computer.get_fid_err())
                elif op == "grad":
                    l.append(np.array(x.fid_computer.get_fid_err_gradient()))
                else:
                    x.compute_evolution()
                    l.append(arr(x.full_evo))
            need(np.array_equal(np.asarray(got[0]), np.asarray(want[0])), "dumping changed the result", op)
            approx = op == "grad" and p.fidkind() == "TDAPPROX"
            if dump is None:
                dirty = False
                continue
            if approx:
                # finite differences recompute the evolution repeatedly: only numbering and isolation are predicted
                log = [item_state(it) for it in dump.evo_dumps]
                summ = [dict(vars(s)) for s in dump.evo_summary]
                need([it.idx for it in dump.evo_dumps] == list(range(len(log))), "dump numbering")
                need([s.idx for s in dump.evo_summary] == list(range(len(summ))), "summary numbering")
                new = amps + 0.25 + np.abs(p.rand_amps())   # differs everywhere, so the next request recomputes
                dirty, amps = True, new
                for x in (d, twin):
                    x.update_ctrl_amps(amps.copy())
                continue
            f = selection()
            exp = any(f.values()) and dirty
            need(len(dump.evo_dumps) == nb + int(exp), "number of dump items", "%s: %d -> %d, selection %s" % (op, nb, len(dump.evo_dumps), f))
            need(len(dump.evo_summary) == ns + int(dirty), "number of summaries", "%s: %d -> %d" % (op, ns, len(dump.evo_summary)))
            if exp:
                it = dump.evo_dumps[-1]
                need(it.idx == nb and it.parent is dump, "item number", "%s %s" % (it.idx, nb))
                st, q = item_state(it), quantities(d)
                for nm in NAMES:
                    need(same(st[nm], q[nm] if f[nm] else None), "item " + nm, "op %s flags %s: %s, now %s" % (op, f, str(st[nm])[:200], str(q[nm])[:200]))
                if f["amps"]:
                    need_close(st["amps"], amps, "item amps values", "", 0)
                    need(it.ctrl_amps is not d.ctrl_amps and not np.shares_memory(it.ctrl_amps, d.ctrl_amps), "item shares amps")
                if f["dyn_gen"]:
                    need_close(np.array(st["dyn_gen"]), np.array([p.gen(k, amps) for k in range(p.n)]), "item dyn_gen values")
                if f["prop"]:
                    need_close(np.array(st["prop"]), np.array([p.P(k, amps) for k in range(p.n)]), "item prop values", tol=1e-7)
                if f["fwd_evo"]:
                    need_close(np.array(st["fwd_evo"]), np.array(p.fwd(amps)), "item fwd_evo values", tol=1e-7)
                if f["onwd_evo"] and fc.uses_onwd_evo:
                    need_close(np.array(st["onwd_evo"]), np.array(p.onwd(amps)), "item onwd_evo values", tol=1e-7)
                if f["onto_evo"] and fc.uses_onto_evo:
                    need_close(np.array(st["onto_evo"]), np.array(p.onto(amps)), "item onto_evo values", tol=1e-7)
                if f["prop_grad"] and d.prop_computer.grad_exact and st["prop_grad"] is not None:
                    need_close(np.array(st["prop_grad"]), np.array([[p.dP(k, j, amps) for j in range(p.m)] for k in range(p.n)]), "item prop_grad values", tol=1e-5)
                log.append(st)
                if c["file"]:
                    now = files(ddir)
                    exp_files = {"%s-evo%d-%s.%s" % (base, it.idx, ITEM.get(nm, nm), ext): nm for nm in NAMES if st[nm] is not None}
                    need(set(exp_files) <= now, "dump files", "missing %s" % (set(exp_files) - now))
                    need(now - fb <= set(exp_files) | {"%s-summary.%s" % (base, ext)}, "extra dump files", str(now - fb - set(exp_files)))
                    for fn, nm in exp_files.items():
                        text = open(os.path.join(ddir, fn)).read()
                        bl = blocks(text, sep)
                        if nm == "amps":
                            need(len(bl) == 1, "amps file", text[:200])
                            need_block(bl[0], None, st[nm], fn, 1e-5)
                        else:
                            fl = flat(nm, st[nm])
                            need(len(bl) == len(fl), "file blocks", "%s: %d of %d" % (fn, len(bl), len(fl)))
                            for b, (h, M) in zip(bl, fl):
                                need_block(b, h, M, fn)
            if dirty:
                s = dump.evo_summary[-1]
                need(s is not d.tslot_computer.evo_comp_summary, "summary is the live object")
                need(s.idx == ns, "summary number", s.idx)
                need(s.evo_dump_idx == (nb if exp else None), "summary link", "%s for item %s" % (s.evo_dump_idx, nb if exp else None))
                cur = d.tslot_computer.evo_comp_summary
                for nm in ("num_amps_changed", "num_timeslots_changed", "wall_time_dyn_gen_compute", "wall_time_prop_compute", "wall_time_fwd_prop_compute", "wall_time_onwd_prop_compute"):
                    need(getattr(s, nm) == getattr(cur, nm), "summary " + nm)
                if c["stats"]:
                    need((s.iter_num, s.fid_func_call_num, s.grad_func_call_num) == (d.stats.num_iter, d.stats.num_fidelity_func_calls, d.stats.num_grad_func_calls), "summary counters")
                else:
                    need((s.iter_num, s.fid_func_call_num, s.grad_func_call_num) == (None, None, None), "summary counters without stats")
                summ.append(dict(vars(s)))
                if c["file"]:
                    check_summary_file(open(os.path.join(ddir, "%s-summary.%s" % (base, ext))).read(), dump.evo_summary, sep, "summary file")
            dirty = False
    if dump is None:
        return []
    need(len(dump.evo_dumps) == len(log), "items at the end")
    for i, (it, st) in enumerate(zip(dump.evo_dumps, log)):
        now = item_state(it)
        need(it.idx == i, "item number at the end", "%s %s" % (it.idx, i))
        for nm in NAMES:
            need(same(now[nm], st[nm]), "item changed later", "%d %s" % (i, nm))
    for s, st in zip(dump.evo_summary, summ):
        need(dict(vars(s)) == st, "summary changed later", "%s %s" % (vars(s), st))
    if not c["file"]:
        need(not os.path.isdir(ddir) or not files(ddir), "files without write_to_file", str(files(tmp)))
    # writing out
    buf = os.path.join(tmp, "all.bin")
    dump.writeout(buf)
    text = open(buf).read()
    with open(os.path.join(tmp, "all2.bin"), "wb") as fh:
        dump.writeout(fh)
        need(not fh.closed, "stream closed")
    need(open(os.path.join(tmp, "all2.bin")).read() == text, "stream and file differ")
    ns = len(dump.evo_summary) + 1 if dump.evo_summary else 0
    lines = text.splitlines(True)
    check_summary_file("".join(lines[:ns]), dump.evo_summary, sep, "writeout summary")
    bl = blocks("".join(lines[ns:]), sep)
    i = 0
    for k, st in enumerate(log):
        need(i < len(bl) and bl[i][0] == "EVOLUTION COMPUTATION %d" % k, "writeout order", bl[i][0] if i < len(bl) else None)
        i += 1 + check_item_blocks(bl[i + 1:], st, "writeout item %d" % k)
    need(i == len(bl), "extra blocks", str([b[0] for b in bl[i:]]))
    wd = os.path.join(tmp, "wd")
    d.dump_dir = wd
    need(os.path.isdir(wd) and d.dump_dir == wd, "dump dir set later", d.dump_dir)
    dump.writeout()
    exp = {"%s-evo%d-%s.%s" % (base, k, ITEM.get(nm, nm), ext) for k, st in enumerate(log) for nm in NAMES if st[nm] is not None} | {"%s-summary.%s" % (base, ext)}
    need(files(wd) == exp, "written files", "%s" % (files(wd) ^ exp))
    for k, st in enumerate(log):
        for nm in NAMES:
            if st[nm] is None:
                continue
            bl = blocks(open(os.path.join(wd, "%s-evo%d-%s.%s" % (base, k, ITEM.get(nm, nm), ext))).read(), sep)
            fl = [(None, st[nm])] if nm == "amps" else flat(nm, st[nm])
            need(len(bl) == len(fl), "written blocks", "%s item %d" % (nm, k))
            for b, (h, M) in zip(bl, fl):
                need_block(b, h, M, nm, 1e-5 if nm == "amps" else 1e-12)
    if log:
        fn = os.path.join(tmp, "it.bin")
        dump.evo_dumps[-1].writeout(fn)
        check_item_blocks(blocks(open(fn).read(), sep), log[-1], "item to file")
    return []


def host(who):
    p = Prob({"dyn": "UNIT", "seed": 3, "N": 2, "m": 2, "n": 3, "tdd": False, "tdc": False, "od": None, "prop": "DEF", "tau": None, "spec": "rand", "amp": 1.0, "memopt": None, "cphase": None,
              "state": False, "fid": "DEF", "popt": None})
    d = p.dynamics()
    return d if who == "dyn" else p.opt


def flags_of(who, dump):
    ns = NAMES if who == "dyn" else OPTF
    return {n: bool(getattr(dump, "dump_" + n)) for n in ns}


def run_levels(c, tmp):
    h = host(c["who"])
    ns = NAMES if c["who"] == "dyn" else OPTF
    full = {n: True for n in ns}
    if c["who"] == "dyn":
        full["onwd_evo"], full["onto_evo"] = bool(h.fid_computer.uses_onwd_evo), bool(h.fid_computer.uses_onto_evo)
    none = {n: False for n in ns}
    exp = None      # expected flags
    old = None
    for v in c["seq"]:
        if isinstance(v, str) and (v.startswith("set:") or v == "mod"):
            if h.dump is None:
                continue
            for n in ([ns[0]] if v == "mod" else v[4:].split(",")):
                if n in ns:
                    setattr(h.dump, "dump_" + n, not exp[n])
                    exp[n] = not exp[n]
        else:
            try:
                h.dumping = v
                err = None
            except Exception as e:
                err = e
            V = v.upper() if isinstance(v, str) else v
            if V is None or V == "NONE":
                need(err is None and h.dump is None, "dumping off", "%r: %s %s" % (v, err, h.dump))
                exp = None
            elif V in ("SUMMARY", "FULL", "CUSTOM"):
                need(err is None, "level rejected", "%r: %s" % (v, err))
                if V == "CUSTOM":
                    if exp is None or exp == none or exp == full:
                        exp = dict(none)
                else:
                    exp = dict(full if V == "FULL" else none)
            else:
                need(isinstance(err, (ValueError, TypeError)), "bad level accepted", "%r: %s" % (v, type(err)))
                if h.dump is None:
                    exp = None
        if exp is None:
            need(h.dump is None and h.dumping == "NONE", "no dump", "%s %s after %s" % (h.dump, h.dumping, v))
            continue
        need(h.dump is not None, "dump missing", str(c["seq"]))
        need(flags_of(c["who"], h.dump) == exp and h.dump.dump_summary is True, "flags of level", "%s: %s instead of %s" % (c["seq"], flags_of(c["who"], h.dump), exp))
        lv = "SUMMARY" if exp == none else "FULL" if exp == full else "CUSTOM"
        if c["who"] == "dyn" and not any(exp.values()):
            lv = "SUMMARY"
        need(h.dumping == lv and h.dump.level == lv, "reported level", "%s: %s for %s" % (c["seq"], h.dumping, exp))
        need(bool(h.dump.dump_any) == any(exp.values()) and bool(h.dump.dump_all) == (exp == full or all(exp[n] == full[n] for n in ns)), "any / all", str(exp))
    return []


def run_paths(c, tmp):
    h = host(c["who"])
    h.dumping = "SUMMARY"
    du = h.dump
    bdir, base, ext, spec = None, "dyndump" if c["who"] == "dyn" else "optimdump", "txt", None
    ffiles = c["who"] == "opt"
    cached_ext = {}
    dirn = lambda: bdir or os.path.join(os.environ["HOME"], ".qtrl_dump")
    for s in c["seq"]:
        k, _, v = s.partition(":")
        if k == "dir":
            if v == "FILE":
                open(os.path.join(tmp, "plain"), "w").close()
                du.write_to_file = True
                h.dump_dir = os.path.join(tmp, "plain")
                need(du.write_to_file is False, "write_to_file with an unusable directory")
                bdir, cached_ext = None, {}
                if spec and not os.path.isabs(spec[0]):
                    pass
                continue
            h.dump_dir = v
            bdir = os.path.join(os.environ["HOME"], v[2:]) if v.startswith("~/") else os.path.join(tmp, v)
            cached_ext = {}
            need(os.path.isdir(bdir), "directory created", v)
            need(os.path.abspath(h.dump_dir) == bdir and os.path.abspath(du.dump_dir) == bdir, "directory", "%s %s" % (h.dump_dir, bdir))
        elif k == "base":
            du.fname_base = v
            base = v
            need(du.fname_base == v, "fname_base")
            cached_ext = {}
        elif k == "badbase":
            try:
                du.fname_base = 5
                need(False, "bad file base accepted")
            except ValueError:
                pass
        elif k == "badset":
            try:
                du.summary_file = 5
                need(False, "bad summary file accepted")
            except ValueError:
                pass
        elif k == "ext":
            du.dump_file_ext = v
            ext = v
        elif k == "set":
            v = os.path.join(tmp, "abs.txt") if v == "ABS" else v
            du.summary_file = v
            spec = (v, v if os.path.isabs(v) else os.path.join(dirn(), v))
        elif k == "sum":
            want = spec[1] if spec else os.path.join(dirn(), "%s-summary.%s" % (base, cached_ext.setdefault("sum", ext)))
            need(os.path.abspath(du.summary_file) == want, "summary file", "%s: %s instead of %s" % (c["seq"], du.summary_file, want))
        elif k == "files" and ffiles:
            for a, n in (("fid_err_file", "fid_err_log"), ("grad_norm_file", "grad_norm_log")):
                want = os.path.join(dirn(), "%s-%s.%s" % (base, n, cached_ext.setdefault(a, ext)))
                need(os.path.abspath(getattr(du, a)) == want, a, "%s: %s instead of %s" % (c["seq"], getattr(du, a), want))
    return []


def run_opt(c, tmp):
    lvl, _, sel = c["level"].partition(":")
    sel = [s for s in sel.split(",") if s]
    want_flags = {n: lvl == "FULL" or n in sel for n in OPTF}
    ddir = os.path.join(tmp, "od")
    res = []
    for dumping in (False, True):
        p = Prob({"dyn": "UNIT", "seed": c["seed"], "N": 2, "m": 2, "n": c["n"], "tdd": False, "tdc": False, "od": None, "prop": "DEF", "tau": None, "spec": "rand", "amp": 1.0, "memopt": None,
                  "cphase": None, "state": False, "fid": "DEF", "popt": "PSU"})
        if c["crab"]:
            np.random.seed(c["seed"])
            o = p.optim(optim_method="FMIN", alg="CRAB", alg_params={"num_coeffs": 2}, init_pulse_type="DEF", gen_stats=True, max_iter=c["iters"] * 3, fid_err_targ=1e-12, prop_type="DEF")
            d = o.dynamics
            d.initialize_controls(np.zeros([d.num_tslots, d.num_ctrls]))
            for g in o.pulse_generator:
                g.init_pulse()
            d.ctrl_amps  # noqa
            amps = np.zeros([d.num_tslots, d.num_ctrls])
            for j, g in enumerate(o.pulse_generator):
                amps[:, j] = g.gen_pulse()
            d.initialize_controls(amps)
        else:
            o = p.optim(optim_method=c["method"], gen_stats=True, max_iter=c["iters"], fid_err_targ=1e-12)
            d = o.dynamics
            d.initialize_controls(p.amps.copy())
        rec = {"err": [], "norm": [], "grad": [], "summ": []}
        if dumping and lvl != "NONE":
            if c["file"]:
                o.dump_to_file = True
            if c["dir"]:
                o.dump_dir = ddir
            o.dumping = lvl
            for s in sel:
                setattr(o.dump, "dump_" + s, True)
            if c["sep"]:
                o.dump.data_sep = o.dump.summary_sep = c["sep"]
            ew, gw, ic = o.fid_err_func_wrapper, o.fid_err_grad_wrapper, o.iter_step_callback_func

            last = [None]
            getf = d.fid_computer.get_fid_err

            def gf():
                last[0] = getf()
                return last[0]
            d.fid_computer.get_fid_err = gf

            def fe(*a, **k):
                try:
                    return ew(*a, **k)
                finally:
                    rec["err"].append(last[0])

            def gr(*a, **k):
                try:
                    g = gw(*a, **k)
                    rec["grad"].append(np.array(g))
                    return g
                finally:
                    rec["norm"].append(d.fid_computer.grad_norm)
            def it(*a, **k):
                try:
                    return ic(*a, **k)
                finally:
                    rec["summ"].append((o.stats.num_iter, o.stats.num_fidelity_func_calls, o.stats.num_grad_func_calls or None if c["crab"] else o.stats.num_grad_func_calls, last[0]))
            o.fid_err_func_wrapper, o.fid_err_grad_wrapper, o.iter_step_callback_func = fe, gr, it
            if c["file"] and c["dir"] and c["seed"] % 2:
                # files of an earlier run
                for fn in ("fid_err_log", "grad_norm_log", "fid_err_gradients1", "summary"):
                    if fn in ("grad_norm_log", "fid_err_gradients1") and (c["crab"] or c["method"] == "FMIN"):
                        continue  # no gradients in such a run
                    if want_flags.get({"fid_err_log": "fid_err", "grad_norm_log": "grad_norm", "fid_err_gradients1": "grad"}.get(fn), fn == "summary"):
                        with open(os.path.join(ddir, "optimdump-%s.txt" % fn), "w") as fh:
                            fh.write("7.0\n")
        r = o.run_optimization()
        res.append((r.fid_err, np.array(r.final_amps), r.num_iter, r.num_fid_func_calls, r.termination_reason))
    a, b = res
    need(a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:], "dumping changed the optimisation", "%s / %s" % (a, b))
    if lvl == "NONE":
        need(o.dump is None and o.dumping == "NONE" and not files(tmp), "dump without dumping")
        return []
    du = o.dump
    need(flags_of("opt", du) == want_flags, "flags", "%s %s" % (flags_of("opt", du), want_flags))
    where = ddir if c["dir"] else os.path.join(os.environ["HOME"], ".qtrl_dump")
    sep = c["sep"] or " "
    need(du.fid_err_log == (rec["err"] if want_flags["fid_err"] else []), "fid_err log", "%s / %s" % (du.fid_err_log, rec["err"]))
    need(du.grad_norm_log == (rec["norm"] if want_flags["grad_norm"] else []), "grad_norm log", "%s / %s" % (du.grad_norm_log, rec["norm"]))
    if want_flags["grad"]:
        need(len(du.grad_log) == len(rec["norm"]) and all(np.array_equal(np.ravel(x), np.ravel(y)) for x, y in zip(du.grad_log, rec["grad"])), "grad log", "%d / %d" % (len(du.grad_log), len(rec["grad"])))
    else:
        need(du.grad_log == [], "grad log", "not empty")
    if not c["crab"] or rec["summ"]:
        need(len(du.iter_summary) == len(rec["summ"]), "number of iteration summaries", "%d / %d" % (len(du.iter_summary), len(rec["summ"])))
    for i, (s, w) in enumerate(zip(du.iter_summary, rec["summ"])):
        need(s.idx == i and s is not o.iter_summary, "summary number", s.idx)
        need((s.iter_num, s.fid_func_call_num, s.grad_func_call_num) == w[:3], "summary counters", "%s %s" % ((s.iter_num, s.fid_func_call_num, s.grad_func_call_num), w))
        need(s.fid_err == w[3], "summary fid_err", "%s %s" % (s.fid_err, w[3]))

    def numbers(fn):
        return np.atleast_1d(np.loadtxt(fn)) if os.path.getsize(fn) else np.zeros(0)

    def check_files(w, what):
        exp = set()
        if want_flags["fid_err"] and du.fid_err_log:
            exp.add("optimdump-fid_err_log.txt")
            need_close(numbers(os.path.join(w, "optimdump-fid_err_log.txt")), du.fid_err_log, what + " fid_err file", tol=1e-14)
        if want_flags["grad_norm"] and du.grad_norm_log:
            exp.add("optimdump-grad_norm_log.txt")
            need_close(numbers(os.path.join(w, "optimdump-grad_norm_log.txt")), du.grad_norm_log, what + " grad_norm file", tol=1e-14)
        for k, g in enumerate(du.grad_log):
            fn = "optimdump-fid_err_gradients%d.txt" % (k + 1)
            exp.add(fn)
            got = np.loadtxt(os.path.join(w, fn), delimiter=sep if sep != " " else None)
            need_close(np.ravel(got), np.ravel(g), what + " gradient file", tol=1e-14)
        return exp
    if c["file"]:
        exp = check_files(where, "running")
        if du.iter_summary:
            exp.add("optimdump-summary.txt")
            check_summary_file(open(os.path.join(where, "optimdump-summary.txt")).read(), du.iter_summary, sep, "iteration summary file")
        need(files(where) == exp, "running files", str(files(where) ^ exp))
    else:
        need(not files(tmp), "files without dump_to_file", str(files(tmp)))
    if rec["err"] and rec["grad"]:
        o.dump_dir = os.path.join(tmp, "w2")
        du.writeout()
        exp = check_files(os.path.join(tmp, "w2"), "written") | {"optimdump-summary.txt"}
        need(files(os.path.join(tmp, "w2")) == exp, "written files", str(files(os.path.join(tmp, "w2")) ^ exp))
        check_summary_file(open(os.path.join(tmp, "w2", "optimdump-summary.txt")).read(), du.iter_summary, sep, "written summary")
        du.writeout(os.path.join(tmp, "all.bin"))
        text = open(os.path.join(tmp, "all.bin")).read()
        ns = len(du.iter_summary) + 1 if du.iter_summary else 0
        lines = text.splitlines(True)
        check_summary_file("".join(lines[:ns]), du.iter_summary, sep, "one-file summary")
        bl = blocks("".join(lines[ns:]), " ")
        i = 0
        for nm, h, l in (("fid_err", "Fidelity errors:", du.fid_err_log), ("grad_norm", "gradients norms:", du.grad_norm_log)):
            if want_flags[nm]:
                need(bl[i][0] == h, "one-file sections", bl[i][0])
                need_close(np.ravel(np.array(bl[i][1])), np.array(l, dtype=complex), "one-file " + nm, tol=1e-14)
                i += 1
        for k, g in enumerate(du.grad_log):
            need(bl[i][0] == "gradients (call %d):" % (k + 1), "one-file sections", bl[i][0])
            need_close(np.ravel(np.array(bl[i][1])), np.ravel(g).astype(complex), "one-file gradient", tol=1e-14)
            i += 1
        need(i == len(bl), "one-file extra", str(len(bl) - i))
    # the logs hold copies
    g = np.arange(4.0)
    du.write_to_file = False
    du.update_grad_log(g)
    g[:] = -1
    need(np.array_equal(du.grad_log[-1], np.arange(4.0)), "gradient log entry changes with the array it was given")
    du.clear()
    need(du.fid_err_log == [] and du.grad_norm_log == [] and du.grad_log == [] and du.iter_summary == [], "clear")
    return []
