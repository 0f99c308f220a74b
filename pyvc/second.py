"""second back end: cvc5 on the SMT-LIB text of a query"""
import subprocess
import tempfile
import os
import z3

STATS = {"cvc5_queries": 0, "cvc5_unsat": 0}


def cvc5_unsat(exprs, tmo=5000):
    s = z3.Solver()
    for e in exprs:
        s.add(e)
    text = "(set-logic ALL)\n" + s.sexpr() + "(check-sat)\n"
    STATS["cvc5_queries"] += 1
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        r = subprocess.run(["cvc5", "--tlimit=%d" % tmo, p], capture_output=True, text=True, timeout=tmo / 1000 + 10)
        if r.stdout.strip().startswith("unsat"):
            STATS["cvc5_unsat"] += 1
            return True
        return False
    finally:
        os.unlink(p)
