#!/opt/venv/bin/python
"""Concrete oracle: runs the real code of /repo under CPython.

  run.py PROP --seed S --budget SECS --shard i/n --out FILE   (search)
  run.py PROP --replay FILE                                   (replay one case: exit 1 when it fails)
"""
import sys
import os
import json
import time
import random
import types
import argparse
import importlib
import traceback
import warnings
import logging
import io
import contextlib
import shutil
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get("QSRC_ROOT", "/repo/src")
sys.path.insert(0, HERE)
sys.path.insert(0, SRC)
sys.dont_write_bytecode = True


def load():
    if not os.path.exists(os.path.join(SRC, "qutip_qtrl", "version.py")):
        m = types.ModuleType("qutip_qtrl.version")
        m.short_version = m.version = m.__version__ = m.full_version = "0"
        m.release = False
        sys.modules["qutip_qtrl.version"] = m
    os.environ.setdefault("MPLBACKEND", "Agg")
    import qutip_qtrl
    p = os.path.dirname(os.path.abspath(qutip_qtrl.__file__))
    assert p == os.path.join(os.path.abspath(SRC), "qutip_qtrl"), p
    logging.disable(logging.CRITICAL)


def run_case(mod, case):
    """list of (key, message); runs in a scratch directory of its own"""
    from common import Fail, Skip
    d = tempfile.mkdtemp(prefix="qtrlorc")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            import numpy as np
            np.random.seed(case.get("npseed", 7))
            r = mod.run(case)
        return r or []
    except Fail as e:
        return [(e.key, e.msg)]
    except Skip:
        return None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        real = [f for f in tb if "qutip_qtrl" in f.filename]
        last = tb[-1]
        if not real and not getattr(mod, "ALL_EXC", False):
            # the harness itself failed (e.g. an interface it needs is absent): no verdict
            return [("harness", "harness error %s: %s at %s:%d" % (type(e).__name__, e, last.filename, last.lineno))]
        where = real[-1] if real else last
        if isinstance(e, (AttributeError, TypeError, ImportError)) and not real:
            return [("harness", repr(e))]
        return [("exception:%s:%s:%s" % (case.get("kind", ""), type(e).__name__, where.name),
                 "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-6:])))]
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--max", type=int, default=4000)
    a = ap.parse_args()
    load()
    mod = importlib.import_module("o_" + a.prop.lower())
    if a.replay:
        case = json.load(open(a.replay))
        case = case.get("case", case)
        r = run_case(mod, case)
        for k, m in r or []:
            print("FAILS [%s] %s" % (k, m))
        if not r:
            print("holds")
        return 1 if r else 0
    si, sn = map(int, a.shard.split("/"))
    t0 = time.time()
    n = ok = skipped = 0
    fails, samples, seen, harness = [], [], set(), []
    corner = list(mod.corner()) if hasattr(mod, "corner") else []
    idx = si
    while n < a.max:
        # every corner case is always run; random cases fill the budget
        if idx < len(corner):
            case = corner[idx]
        else:
            if time.time() - t0 > a.budget or not hasattr(mod, "gen"):
                break
            case = mod.gen(random.Random("%s-%d-%d" % (a.prop, a.seed, idx)))
        idx += sn
        n += 1
        key = json.dumps(case, sort_keys=True, default=str)
        r = run_case(mod, case)
        if r is None:
            skipped += 1
            continue
        if key not in seen:
            seen.add(key)
            if len(samples) < 3:
                samples.append(case)
        hr = [x for x in r if x[0] == "harness"]
        if hr:
            harness.append((case, hr[0][1]))
            continue
        if r:
            for k, m in ((str(k), m) for k, m in r):
                if sum(1 for f in fails if f["key"] == k) < 2:
                    fails.append({"key": k, "msg": str(m)[:3000], "case": case})
            if len(fails) > 40:
                break
        else:
            ok += 1
    json.dump({"runs": n, "ok": ok, "skipped": skipped, "distinct": len(seen), "fails": fails, "samples": samples,
               "harness": harness[:5], "nharness": len(harness), "secs": time.time() - t0,
               "rule": getattr(mod, "RULE", "")}, open(a.out, "w"), default=str)
    return 0


if __name__ == "__main__":
    sys.exit(main())
