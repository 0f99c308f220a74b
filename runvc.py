#!/usr/bin/env python3-vt
"""debug driver: verify contracts matching a substring"""
import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from contracts import registry
from pyvc.vc import verify
pat = sys.argv[1] if len(sys.argv) > 1 else ""
src = os.environ.get("QSRC", "/repo/src/qutip_qtrl")
bound = int(os.environ["BOUND"]) if os.environ.get("BOUND") else None
reg = registry()
for c in reg:
    if pat in c.name or pat in c.qual or pat in c.props:
        r = verify(c, reg, src, deadline=time.time() + 200, bound=bound)
        bn = r.by_name()
        print("== %s [%s]: %s  paths=%d obl=%d (%d names) %.1fs solver %.1fs q=%d used=%s" % (
            c.name, r.mode, r.status(), r.paths, len(r.obls), len(bn), r.secs, r.solver, r.queries, sorted(r.used)))
        for u in sorted(set(r.undecided))[:6]:
            print("   UNDECIDED", u[:300])
        for n, o in bn.items():
            if o.status != "proved" or os.environ.get("V"):
                print("   ", o.status, n, "|", o.detail[:600].replace("\n", " "), "| path", o.path)
