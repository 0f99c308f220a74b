"""Applies each behaviour-preserving edit of refacs.py to a scratch copy of the
sources and runs the contracts it touches: no obligation may be refuted.
usage: refac.py [id ...]   (8 at a time)"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import refacs  # noqa

SRC = "/repo/src/qutip_qtrl"
TESTS = os.environ.get("RF_TESTS")


def one(item):
    id, pats, edits = item
    d = tempfile.mkdtemp(prefix="refac_")
    try:
        shutil.copytree(SRC, d + "/src/qutip_qtrl")
        for f, o, n in edits:
            p = "%s/src/qutip_qtrl/%s" % (d, f)
            s = open(p).read()
            if s.count(o) < 1:
                return id, ["%s: text not found: %r" % (f, o[:80])]
            open(p, "w").write(s.replace(o, n, 1))
        out = []
        if TESTS:
            shutil.copytree("/repo/tests", d + "/tests")
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", d + "/tests"],
                               env=dict(os.environ, PYTHONPATH=d + "/src", OMP_NUM_THREADS="1"), cwd=d,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append("tests: " + r.stdout.strip().splitlines()[-1])
        for p in pats:
            try:
                r = subprocess.run(["python3-vt", "-u", "runvc.py", p], cwd=HERE, timeout=400,
                                   env=dict(os.environ, QSRC=d + "/src/qutip_qtrl", OMP_NUM_THREADS="1"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                out += [x[:260] for x in r.stdout.splitlines() if not x.startswith("==") or "]: proved" not in x]
                out.append("%s: %d proved" % (p, r.stdout.count("]: proved")))
            except subprocess.TimeoutExpired as e:
                out.append("%s: time out" % p)
        return id, out
    finally:
        shutil.rmtree(d)


want = sys.argv[1:]
items = [x for x in refacs.R if not want or x[0] in want]
with ThreadPoolExecutor(int(os.environ.get("RF_N", "8"))) as ex:
    for id, out in ex.map(one, items):
        print("###", id)
        for x in out:
            print("   ", x)
        sys.stdout.flush()
