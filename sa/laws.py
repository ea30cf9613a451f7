"""Laws of terms in random draws: Gaussian (linear) and counting laws."""
import numpy as np
from . import terms as tm
from .terms import T


class NotLinear(Exception):
    pass


def draws_of(t, dist=None):
    out = {}
    for f in t.leaves:
        if f.op == 'draw' and (dist is None or f.args[1] == dist):
            out[f.args[0]] = f
    return [out[k] for k in sorted(out)]


def with_draws(v, fixed):
    """Copy of a valuation with given values for draws."""
    w = tm.Valuation(v.seed, scale=v.scale, pool=v.pool,
                     fixed=dict(v.fixed, **fixed), pins=v.pins)
    return w


def gaussian(t, v, seed=0):
    """(shape, mean, J) of a term linear in its standard normal draws."""
    ds = draws_of(t)
    bad = [d for d in ds if d.args[1] != 'N']
    if bad:
        raise NotLinear('depends on a non-normal draw (%s)' % bad[0].args[1])
    sizes = [tm._tup(v.ev(d.args[2])) for d in ds]
    zero = {'draw%s' % d.args[0]: np.zeros(s) for d, s in zip(ds, sizes)}
    m = np.asarray(with_draws(v, zero).ev(t), dtype=float)
    rng = np.random.default_rng(seed + 5)
    test, jz = {}, np.zeros(m.size)
    cols = []
    for d, s in zip(ds, sizes):
        key = 'draw%s' % d.args[0]
        z = rng.normal(size=s)
        test[key] = z
        for i in np.ndindex(*s):
            e = np.zeros(s)
            e[i] = 1.
            y = np.asarray(with_draws(v, dict(zero, **{key: e})).ev(t),
                           dtype=float)
            if y.shape != m.shape:
                raise NotLinear('shape depends on draws')
            c = (y - m).ravel()
            cols.append(c)
            jz += c * z[i]
    y = np.asarray(with_draws(v, test).ev(t), dtype=float)
    if not np.allclose((y - m).ravel(), jz, rtol=1e-6, atol=1e-9):
        raise NotLinear('not linear in its normal draws')
    J = np.array(cols).T if cols else np.zeros((m.size, 0))
    return m.shape, m, J


def cov(J):
    return J @ J.T


def same(a, b, rtol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=1e-8 * max(
        1e-300, np.abs(b).max() if b.size else 0.)))


def unique_ids(t, v, dist):
    """Evaluate a term with every element of its draws of a law given a
    distinct value; returns (output, {value: (draw, index)}, draws)."""
    ds = draws_of(t, dist)
    fixed, ids, k = {}, {}, 1000003.
    n = 0
    for d in ds:
        size = np.broadcast_shapes(
            tm._tup(v.ev(d.args[2])),
            *[np.shape(v.ev(p)) for p in d.args[4][:1]])
        a = np.zeros(size, dtype=np.int64)
        for i in np.ndindex(*size):
            n += 1
            a[i] = 1000003 + 7919 * n * n
            ids[int(a[i])] = (d, i)
        fixed['draw%s' % d.args[0]] = a[()]
    return np.asarray(with_draws(v, fixed).ev(t)), ids, ds


def jacobian(t, v, dist):
    """Coefficients of a term linear in its draws of a law: (mean, list of
    (draw, index), J)"""
    ds = draws_of(t, dist)
    sizes = [tm._tup(v.ev(d.args[2])) for d in ds]
    zero = {'draw%s' % d.args[0]: np.zeros(s) for d, s in zip(ds, sizes)}
    m = np.asarray(with_draws(v, zero).ev(t), dtype=float)
    rng = np.random.default_rng(3)
    test, jz, cols, who = {}, np.zeros(m.size), [], []
    for d, s in zip(ds, sizes):
        key = 'draw%s' % d.args[0]
        z = rng.uniform(0.5, 1.5, size=s)
        test[key] = z
        for i in np.ndindex(*s):
            e = np.zeros(s)
            e[i] = 1.
            y = np.asarray(with_draws(v, dict(zero, **{key: e})).ev(t), float)
            if y.shape != m.shape:
                raise NotLinear('shape depends on draws')
            cols.append((y - m).ravel())
            who.append((d, i))
            jz += cols[-1] * z[i]
    y = np.asarray(with_draws(v, test).ev(t), dtype=float)
    if not np.allclose((y - m).ravel(), jz, rtol=1e-6, atol=1e-9):
        raise NotLinear('not linear in the draws')
    return m, who, (np.array(cols).T if cols else np.zeros((m.size, 0)))
