"""Specification of Euler integration along a grid, as value numbers."""
import numpy as np
from .lab import *
from . import terms as tm


def grid(line, steps=None):
    """Union of the timeline and of the steps within its range, sorted.
    Points are (term, representative) pairs."""
    lo, hi = line[0][1], line[-1][1]
    pts = {}
    for t, r in list(line) + [p for p in steps or () if lo <= p[1] <= hi]:
        pts.setdefault(round(float(r), 12), (t, r))
    return [pts[k] for k in sorted(pts)]


def points(L, arr):
    """(term, representative) pairs of a one-dimensional array value."""
    t = X(L.term(arr))
    reps = tm.REP.ev(t.t)
    return [(t[i], float(r)) for i, r in enumerate(reps)]


def linsteps(line, n):
    """Requested steps for an integer ``steps``."""
    a, b = line[0], line[-1]
    if n == 1:
        return [a]
    out = [a]
    for k in range(1, n - 1):
        out.append((a[0] + (b[0] - a[0]) * (k / (n - 1)),
                    a[1] + (b[1] - a[1]) * (k / (n - 1))))
    return out + [b]


def index(g, rep):
    return [i for i, p in enumerate(g) if abs(p[1] - rep) < 1e-12][0]


def visits(g, line, i0):
    """(s, ds) pairs to be visited: backward from line[i0], then forward."""
    i0 %= len(line)
    j0 = index(g, line[i0][1])
    back = [(g[j], g[j - 1]) for j in range(j0, 0, -1)]
    fwd = [(g[j], g[j + 1]) for j in range(j0, len(g) - 1)]
    return back, fwd


def recursion(g, line, i0, x0, step):
    """States at the timeline points, given step(x, s, ds) -> x."""
    back, fwd = visits(g, line, i0)
    i0 %= len(line)
    state = {round(line[i0][1], 12): x0}
    for seq in (back, fwd):
        x = x0
        for (s, sr), (u, ur) in seq:
            x = step(x, s, u - s)
            state[round(ur, 12)] = x
    return [state[round(r, 12)] for _, r in line]


def stack(xs):
    return NPX.stack(tuple(NPX.asarray(x) for x in xs))


def ufx(name, shape, *args):
    return X(tm.mk('uf', name, tuple(shape), tuple(_t(a) for a in args), 0))


def _t(a):
    return a.t if isinstance(a, X) else a


def calls(L, name):
    """Recorded calls of a user function: tuples of argument terms."""
    return [e for e in L.events('user_call') if e.info['name'] == name]
