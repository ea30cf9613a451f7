"""Wiener increments: law of wiener_source(t, dt)."""
import itertools
import numpy as np
from ..lab import *
from .. import terms as tm
from ..terms import AInt
from .. import laws

META = {
    'title': 'Wiener source increments have the specified Gaussian law',
    'statement':
    'Called with times t and increments dt, a Wiener source returns jointly '
    'Gaussian increments with zero mean and covariance abs(dt) times the '
    'correlation matrix, given directly or through rho, evaluated at the '
    'midpoint t + dt/2 and acting along the last axis of the values shape. '
    'Increments are independent across paths, across leading components, '
    'across the elements of array times and across calls.',
    'over': ['inputs', 'configurations'],
    'quant': 'all times and increments (either sign, scalars or arrays), '
             'values shapes, numbers of paths, and kinds of correlation '
             '(none, matrix, rho, function of time, process)',
    'why': 'The tests sample a few shapes and compare sample moments within '
           'loose tolerances; a wrong scaling, evaluation time, axis or '
           'cross-correlation shows only at other arguments or below noise.',
    'files': ['infrastructure.py'],
    'mech': [('wiener_source.__call__', 'sdepy/infrastructure.py'),
             ('correlation setup from corr and rho',
              'sdepy/infrastructure.py')],
    'technique': 'abstract interpretation to gated value numbers; covariance '
                 'of linear forms in normal draws',
    'note': 'Each context (parameter kind, rank, sign of dt) is decided for '
            'all numeric values up to random-interpretation testing of value '
            'numbers; ranks and kinds are the enumerated ones; numpy is '
            'modelled, the normal generators trusted.',
}
WHERE = 'sdepy/infrastructure.py wiener_source.__call__'


def corr_rho(r, n):
    R = NPX.diag(NPX.reshape(X(r), (n,)))
    eye = NPX.eye(n)
    return NPX.block([[eye, R], [R, eye]]).t


def spd(a):
    """A symmetric positive definite matrix made of unknowns."""
    a = X(a)
    n = np.shape(tm.REP.ev(a.t))[-1]
    return (a.swapaxes(-1, -2) * .25 + a * .25 +
            (3. * NPX.eye(n))).t


def configs(thorough):
    """(name, vshape, kwargs builder(L) -> (kwargs, corr(ev, mid) -> matrix))"""
    def none(L):
        return {}, None
    yield 'none', (), none
    yield 'none', (3,), none
    yield 'none', (2, 3), none

    def const(L):
        c = spd(tm.leaf('A', (3, 3)))
        return {'corr': L.arrt(c)}, lambda mid: c
    yield 'matrix', (3,), const
    yield 'matrix', (2, 3), const

    def const3(L):
        c = spd(tm.leaf('A', (3, 3)))
        return {'corr': L.arrt(X(c)[..., None].t)}, lambda mid: c
    yield 'matrix with paths axis', (3,), const3

    def lst(L):
        r = L.num('r', 'small')
        return {'corr': [[L.v(1), r], [r, L.v(1)]]}, \
            lambda mid: corr_rho(r.t, 1)
    yield 'nested list', (2,), lst

    def fun(L):
        def c(s):
            return spd(tm.mk('uf', 'C', (3, 3), (s,), 0))
        return {'corr': L.fn('C', c)}, c
    yield 'function', (3,), fun
    yield 'function', (2, 3), fun

    def fun3(L):
        def c(s):
            return spd(tm.mk('uf', 'C', (3, 3), (s,), 0))
        return {'corr': L.fn('C', lambda s: X(c(s))[..., None])}, c
    yield 'function with paths axis', (3,), fun3

    def rho0(L):
        a = L.num('rho', 'small')
        return {'rho': a}, lambda mid: corr_rho(a.t, 1)
    yield 'rho scalar', (2,), rho0
    yield 'rho scalar', (3, 2), rho0

    def rhon(L):
        a = L.arr('rho', (2,), 'small')
        t = L.term(a)
        return {'rho': a}, lambda mid: corr_rho(t, 2)
    yield 'rho vector', (4,), rhon
    yield 'rho vector', (3, 4), rhon

    def rhon1(L):
        a = L.arr('rho', (2, 1), 'small')
        t = L.term(a)
        return {'rho': a}, lambda mid: corr_rho(t, 2)
    yield 'rho vector with paths axis', (4,), rhon1

    def ru(n):
        return lambda s: (X(tm.mk('uf', 'R', (n,) if n else (), (s,), 0)) -
                          1.3).t

    def rhof(L):
        return {'rho': L.fn('R', ru(2))}, lambda mid: corr_rho(ru(2)(mid), 2)
    yield 'rho function', (4,), rhof

    def rhos(L):
        return {'rho': L.fn('R', ru(0), wrap='')}, \
            lambda mid: corr_rho(ru(0)(mid), 1)
    yield 'rho scalar function', (2,), rhos

    def proc(L):
        a = tm.leaf('A', (2, 3, 3))
        x = spd(a)
        t = L.timeline('cp.t', (0., 9.))
        p = L.ok(L.public('process'), t, x=L.arrt(X(x)[..., None].t))

        def c(mid):
            ts = X(L.term(t))
            w = (X(mid) - ts[0]) / (ts[1] - ts[0])
            return (X(x)[0] * (1 - w) + X(x)[1] * w).t
        return {'corr': p}, c
    yield 'process', (3,), proc

    def rproc(L):
        a = X(tm.leaf('r', (2, 2, 1), dom='small'))
        t = L.timeline('cp.t', (0., 9.))
        p = L.ok(L.public('process'), t, x=L.arrt(a.t))

        def c(mid):
            ts = X(L.term(t))
            w = (X(mid) - ts[0]) / (ts[1] - ts[0])
            return corr_rho((a[0] * (1 - w) + a[1] * w)[..., 0], 2)
        return {'rho': p}, c
    yield 'rho process', (4,), rproc


def timesets(L):
    """(name, t, dt, shape)"""
    yield 'step', L.time('t', .7), L.gap('dt', .4), ()
    yield 'backward step', L.time('t', .7), L.gap('dt', -.4), ()
    yield 'zero step', L.time('t', .7), Const(0), ()
    yield 'array of steps', L.timeline('t', (.7, 1.2)), \
        L.ip.arr(tm.leaf('dt', (2,), 'f8', 'gap', (.4, -.3)), 'caller'), (2,)
    yield 'one step from several times', L.timeline('t', (.7, 1.2)), \
        L.gap('dt', .4), (2,)
    yield 'several steps from one time', L.time('t', .7), \
        L.ip.arr(tm.leaf('dt', (2, 2), 'f8', 'gap', (.4, -.3, .2, .1)),
                 'caller'), (2, 2)
    # no threshold below which a step counts as null
    yield 'tiny steps', L.timeline('t', (.7, 1.2)), L.arrt(
        (X(tm.leaf('dt', (2,), 'f8', 'gap', (.4, -.3))) * 1e-13).t), (2,)


def names():
    L = None
    return ['step', 'backward step', 'zero step', 'array of steps',
            'one step from several times', 'several steps from one time',
            'tiny steps']


def check(R):
    R.explanation = (
        'wiener_source is analysed abstractly for every kind of correlation '
        'argument, rank of the values shape and shape of the times; the '
        'value number of the increments must be a linear form in standard '
        'normal draws whose mean is 0 and whose covariance is |dt| times '
        'the specified correlation at the midpoint t + dt/2, independent '
        'across paths, times and leading axes.')
    R.rule = ('one obligation per (correlation kind, vshape, times shape): '
              'shape, mean and covariance J J^T of the increments')
    R.assumptions = ['numpy.random.Generator.normal and multivariate_normal '
                     'draw independent standard normals / N(mean, cov) '
                     'samples (cov symmetric PSD, factor by SVD)']
    R.floor = 40
    paths = 3
    for name, vshape, build in configs(R.thorough):
        for k, tn in enumerate(names()):
            if not R.thorough and len(vshape) > 1 and k in (2, 4, 5):
                continue
            key = 'corr=%s vshape=%s times=%s' % (name, vshape, tn)
            with R.context(key, WHERE):
                L = R.lab()
                kw, corr = build(L)
                _, t, dt, ts = list(timesets(L))[k]
                src = L.ok(L.public('wiener_source'), paths=L.dim(paths),
                           vshape=tuple(L.dim(n) for n in vshape), **kw)
                for rep in range(2):      # the second call has the same law
                    dz = L.ok(src, t, dt)
                law(R, key, L, L.term(dz), L.term(t), L.term(dt), ts, vshape,
                    paths, corr, WHERE)


def law(R, key, L, z, t, dt, ts, vshape, paths, corr, where, mean=None,
        scale=None):
    vals = tm.valuations(2, R.seed, L.ip.facts)
    if z.opaque:
        return R.unknown(key, 'unmodelled value')
    full = ts + vshape + (paths,)
    for v in vals:
        try:
            shape, m, J = laws.gaussian(z, v, R.seed)
        except laws.NotLinear as e:
            return R.bad(key, where, 'increments are not Gaussian: %s' % e)
        if shape != full:
            return R.bad(key, where, 'increments shaped %s, specified %s'
                         % (shape, full))
        T = np.broadcast_to(v.ev(t), ts)
        D = np.broadcast_to(v.ev(dt), ts)
        S = np.zeros(full + full)
        for i in np.ndindex(ts):
            M = vshape[-1] if vshape else 1
            c = np.eye(M) if corr is None else \
                v.ev(corr(tm.const(float(T[i] + D[i] / 2))))
            c = c * abs(D[i])
            for j in np.ndindex(vshape[:-1]):
                for p in range(paths):
                    if not vshape:
                        S[i + (p,) + i + (p,)] = c[0, 0]
                    for a in range(M if vshape else 0):
                        for b in range(M):
                            S[i + j + (a, p) + i + j + (b, p)] = c[a, b]
        n = int(np.prod(full))
        if not laws.same(m, np.zeros(full)):
            return R.bad(key, where, 'increments have nonzero mean')
        C = laws.cov(J)
        if not laws.same(C, S.reshape(n, n)):
            k = np.unravel_index(np.argmax(np.abs(C - S.reshape(n, n))),
                                 C.shape)
            ix = tuple(int(q) for q in np.unravel_index(k[0], full)), \
                tuple(int(q) for q in np.unravel_index(k[1], full))
            return R.bad(key, where, 'covariance of components %s and %s is '
                         '%.6g, specified %.6g' % (
                             ix + (C[k], S.reshape(n, n)[k])))
    R.good(key, where)

