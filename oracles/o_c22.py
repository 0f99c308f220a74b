"""C22: directories."""
import os
import shutil
import tempfile
from common import need

RULE = ("create_dir in a scratch working directory and home directory: relative, nested, absolute, home-relative and tilde-in-the-middle names; absent, existing directory, existing file "
        "(also as a parent), dangling link, makedirs failing with each error and a directory or file appearing while it is created: success iff a directory exists at the returned "
        "path, documented location, contents untouched")
NAMES = ["d", "sub/d", "sub/deep/er", "./d", "../w/d", "@ABS@", "@ABS@/x/y", "~/d", "~/a/b", "~", "a~b", "a~b/c", "d/", "sub/../d", "with space", "é"]
PRE = ["absent", "dir", "file", "parentfile", "link", "linkdir", "linkfile", "nested"]
FAULT = [None, "EACCES", "ENOENT", "ENOTDIR", "EROFS", "EEXIST", "racedir", "racefile"]


def corner():
    for n in NAMES:
        for p in PRE:
            for f in FAULT:
                yield {"kind": "dir", "name": n, "pre": p, "fault": f, "desc": None}


def gen(rng):
    return {"kind": "dir", "name": rng.choice(NAMES), "pre": rng.choice(PRE), "fault": rng.choice(FAULT + [None] * 4), "desc": rng.choice([None, "dump", "x"])}


def tree(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for x in ds:
            out[os.path.join(d, x)] = os.readlink(os.path.join(d, x)) if os.path.islink(os.path.join(d, x)) else "dir"
        for x in fs:
            q = os.path.join(d, x)
            out[q] = os.readlink(q) if os.path.islink(q) else open(q).read()
    return out


def run(c):
    import errno
    from unittest import mock
    import qutip_qtrl.io as qio
    top = tempfile.mkdtemp(prefix="c22_")
    cwd, home = os.getcwd(), os.environ.get("HOME")
    try:
        os.makedirs(top + "/w")
        os.makedirs(top + "/h")
        os.chdir(top + "/w")
        os.environ["HOME"] = top + "/h"
        name = c["name"].replace("@ABS@", top + "/abs")
        if name[0] == "~":
            want = top + "/h" + name[1:]
        elif name[0] == "/":
            want = name
        else:
            want = os.path.join(top, "w", name)
        tgt = os.path.normpath(want)
        pre = c["pre"]
        if not os.path.exists(tgt):
            par = os.path.dirname(tgt)
            if pre == "parentfile":
                if not os.path.exists(par):
                    os.makedirs(os.path.dirname(par), exist_ok=True)
                    open(par, "w").write("keep")
            elif pre != "absent":
                os.makedirs(par, exist_ok=True)
                if pre == "dir":
                    os.mkdir(tgt)
                elif pre == "nested":
                    os.makedirs(tgt + "/inner")
                    open(tgt + "/inner/f", "w").write("inside")
                elif pre == "file":
                    open(tgt, "w").write("keep")
                else:
                    if pre == "linkdir":
                        os.mkdir(top + "/real")
                    if pre == "linkfile":
                        open(top + "/real", "w").write("keep")
                    os.symlink(top + "/real", tgt)
        before = tree(top)
        was = os.path.isdir(tgt)
        real, realm = os.makedirs, os.mkdir
        f = c["fault"]

        def made(orig):
            def m(p, *a, **k):
                if f == "racedir":
                    real(p, exist_ok=True) if not os.path.lexists(p) else None
                    raise FileExistsError(errno.EEXIST, "File exists", p)
                if f == "racefile":
                    if not os.path.lexists(p) and os.path.isdir(os.path.dirname(p)):
                        open(p, "w").write("other")
                    raise FileExistsError(errno.EEXIST, "File exists", p)
                if f:
                    raise OSError(getattr(errno, f), os.strerror(getattr(errno, f)), p)
                return orig(p, *a, **k)
            return m
        with mock.patch("os.makedirs", made(real)):
            args = (name,) if c["desc"] is None else (name, c["desc"])
            r = qio.create_dir(*args)
        need(isinstance(r, tuple) and len(r) == 3, "three results", repr(r))
        ok, path, msg = r
        need(isinstance(path, str) and os.path.normpath(os.path.join(top, "w", path)) == tgt, "documented location", "%r for %r, expected %r" % (path, name, tgt))
        need("~" not in path or "~" in name[1:], "home expanded", path)
        need(bool(ok) == os.path.isdir(tgt), "success exactly when the directory exists", "reported %r, isdir %r (%s)" % (ok, os.path.isdir(tgt), msg))
        need(isinstance(msg, str) and msg.strip() != "", "message", repr(msg))
        if not ok:
            need("is ready" not in msg and ("ail" in msg or "rror" in msg), "failure message", msg)
        if was:
            need(bool(ok), "existing directory accepted", msg)
        if not f and pre in ("absent", "dir", "nested", "linkdir"):
            need(bool(ok), "directory can be created", msg)
        after = tree(top)
        for k, v in before.items():
            need(after.get(k) == v, "existing files are kept", "%s: %r became %r" % (k, v, after.get(k)))
        if not ok and f not in ("racedir", "racefile"):
            new = [k for k in after if k not in before and after[k] != "dir"]
            need(not new, "no files are created", str(new))
        return []
    finally:
        os.chdir(cwd)
        if home is not None:
            os.environ["HOME"] = home
        shutil.rmtree(top, ignore_errors=True)
