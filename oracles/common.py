"""Helpers shared by the oracles (independent re-computations, builders)."""
import numpy as np
import scipy.linalg as la


class Fail(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


class Skip(Exception):
    pass


def need(c, key, msg=""):
    if not c:
        raise Fail(key, msg)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b)))))


def need_close(a, b, key, msg="", tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Fail(key, "%s shape %s != %s" % (msg, a.shape, b.shape))
    if not close(a, b, tol):
        raise Fail(key, "%s differs by %.3e (got %s, want %s)" % (msg, float(np.max(np.abs(a - b))), str(a)[:300], str(b)[:300]))
