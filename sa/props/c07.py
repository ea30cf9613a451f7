"""Poisson increments: law of poisson_source(t, dt)."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import laws
from .c06 import timesets, names

META = {
    'title': 'Poisson source increments have the specified Poisson law',
    'statement':
    'Called with times t and increments dt, a Poisson source returns, for '
    'every path and value component, an independent Poisson count with mean '
    'abs(dt) times the intensity at the midpoint t + dt/2, carrying the sign '
    'of dt (zero for dt = 0). This holds for every kind of intensity '
    '(number, array, function of time, process) broadcastable to the values '
    'shape and paths, and for scalar or array times.',
    'over': ['inputs', 'configurations'],
    'quant': 'all times and increments (either sign, scalars or arrays), '
             'values shapes, numbers of paths and kinds of intensity',
    'why': 'The tests check means and variances of a few samples within '
           'statistical tolerances, at a handful of shapes; a wrong sign, '
           'evaluation time, or a shared draw between components passes '
           'them or is only seen at other arguments.',
    'files': ['infrastructure.py'],
    'mech': [('poisson_source.__call__', 'sdepy/infrastructure.py'),
             ('intensity parameter setup', 'sdepy/infrastructure.py')],
    'technique': 'abstract interpretation to gated value numbers; '
                 'one-to-one mapping of counts to Poisson draws',
    'note': 'Each context (parameter kind, rank, sign of dt) is decided for '
            'all numeric values up to random-interpretation testing of value '
            'numbers; ranks and kinds are the enumerated ones; numpy is '
            'modelled, Generator.poisson trusted.',
}
WHERE = 'sdepy/infrastructure.py poisson_source.__call__'


def configs():
    def default(L):
        return {}, lambda mid: tm.const(1.)
    yield 'default', (), default

    def num(L):
        a = L.num('lam', 'pos')
        return {'lam': a}, lambda mid: a.t
    yield 'number', (), num
    yield 'number', (2, 3), num

    def vec(L):
        a = L.arr('lam', (3, 1), 'pos')
        t = L.term(a)
        return {'lam': a}, lambda mid: t
    yield 'per component', (3,), vec
    yield 'per component', (2, 3), vec

    def lst(L):
        a = L.num('l0', 'pos')
        b = L.num('l1', 'pos')
        return {'lam': [[a], [b]]}, lambda mid: NPX.stack((X(
            a.t), X(b.t)))[:, None].t
    yield 'list', (2,), lst

    def pp(L):
        a = L.arr('lam', (3, 5), 'pos')
        t = L.term(a)
        return {'lam': a}, lambda mid: t
    yield 'per component and path', (3,), pp

    def fun(L):
        return {'lam': L.uf('lam', (3, 1))}, \
            lambda mid: tm.mk('uf', 'lam', (3, 1), (mid,), 0)
    yield 'function', (3,), fun

    def sfun(L):
        return {'lam': L.uf('lam', (), 'raw')}, \
            lambda mid: tm.mk('uf', 'lam', (), (mid,), 0)
    yield 'scalar function', (), sfun
    yield 'scalar function', (2,), sfun

    def proc(L):
        a = X(tm.leaf('lp', (2, 3, 1), dom='pos'))
        t = L.timeline('lp.t', (0., 9.))
        p = L.ok(L.public('process'), t, x=L.arrt(a.t))

        def c(mid):
            ts = X(L.term(t))
            w = (X(mid) - ts[0]) / (ts[1] - ts[0])
            return (a[0] * (1 - w) + a[1] * w).t
        return {'lam': p}, c
    yield 'process', (3,), proc


def check(R):
    R.explanation = (
        'poisson_source is analysed abstractly for every kind of intensity, '
        'rank and times shape; every element of the value number of the '
        'increments must be sign(dt) times its own element of a Poisson draw '
        'whose mean, in value numbers, is |dt| * lam(t + dt/2).')
    R.rule = 'one obligation per (intensity kind, vshape, times shape)'
    R.floor = 35
    for name, vshape, build in configs():
        for k, tn in enumerate(names()):
            key = 'lam=%s vshape=%s times=%s' % (name, vshape, tn)
            with R.context(key, WHERE):
                L = R.lab()
                kw, lam = build(L)
                _, t, dt, ts = list(timesets(L))[k]
                src = L.ok(L.public('poisson_source'), paths=L.dim(5),
                           vshape=tuple(L.dim(n) for n in vshape), **kw)
                for rep in range(2):
                    dn = L.ok(src, t, dt)
                law(R, key, L, L.term(dn), L.term(t), L.term(dt), ts,
                    vshape + (5,), lam, WHERE)


def mean(v, draw, ix):
    p = v.ev(draw.args[4][0])
    return np.broadcast_to(p, np.broadcast_shapes(
        tm._tup(v.ev(draw.args[2])), np.shape(p)))[ix]


def law(R, key, L, z, t, dt, ts, shape, lam, where, kind='i'):
    if z.opaque:
        return R.unknown(key, 'unmodelled value')
    for v in tm.valuations(2, R.seed, L.ip.facts):
        y, ids, ds = laws.unique_ids(z, v, 'poisson')
        if laws.draws_of(z) != ds:
            return R.bad(key, where, 'counts depend on a draw that is not '
                         'Poisson')
        full = ts + shape
        if y.shape != full:
            return R.bad(key, where, 'increments shaped %s, specified %s'
                         % (y.shape, full))
        if y.dtype.kind not in kind:
            return R.bad(key, where, 'default increments are not integers')
        T, D = np.broadcast_to(v.ev(t), ts), np.broadcast_to(v.ev(dt), ts)
        seen = set()
        for i in np.ndindex(full):
            ti = i[:len(ts)]
            d = D[ti]
            rate = np.broadcast_to(v.ev(lam(tm.const(float(
                T[ti] + d / 2)))), shape)[i[len(ts):]] * abs(d)
            k = int(abs(y[i]))
            if d == 0:
                if y[i] != 0 and (k not in ids or mean(v, *ids[k]) != 0):
                    return R.bad(key, where, 'nonzero count over an empty '
                                 'interval')
                continue
            if k not in ids:
                return R.bad(key, where, 'component %s is not one Poisson '
                             'draw' % (i,))
            if k in seen:
                return R.bad(key, where, 'component %s shares its Poisson '
                             'draw with another' % (i,))
            seen.add(k)
            if np.sign(y[i]) != np.sign(d):
                return R.bad(key, where, 'count has the sign opposite to dt')
            p = mean(v, *ids[k])
            if abs(p - rate) > 1e-9 * abs(rate):
                return R.bad(key, where, 'component %s has mean %.6g, '
                             'specified %.6g' % (i, p, rate))
    R.good(key, where)
