"""Wiener source with memory."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import laws
from .c33 import live
from .c06 import configs, spd

META = {
    'title': 'a Wiener source with memory realizes a two-sided Wiener process',
    'statement':
    'Whatever the times at which a true_wiener_source is realized, and their '
    'order, the values realized are jointly Gaussian with mean z0 and the '
    'covariance of a Wiener process equal to z0 at t0, run forward and '
    'backward independently, with the given correlation between components: '
    'the covariance of the values at s and t is the integral of the '
    'correlation between t0 and the nearest, if they are on the same side of '
    't0, else 0, for constant correlations and those linear in time; for '
    'other correlations, that resulting from the documented recursion, '
    'sampling the correlation at the middle of each interval. Paths, and '
    'components along leading axes, are independent, and so are distinct '
    'instances. Perfect correlations are accepted.',
    'over': ['inputs', 'configurations', 'histories'],
    'quant': 'all sequences of realized times, before and after t0 and '
             'between those realized, all kinds of correlation, shapes, z0',
    'why': 'A bridge with a wrong weight, variance, side or evaluation time '
           'only shows in joint moments at times realized out of order.',
    'files': ['infrastructure.py'],
    'mech': [('true_wiener_source', 'sdepy/infrastructure.py'),
             ('true_source memory', 'sdepy/infrastructure.py')],
    'technique': 'abstract interpretation to linear forms in normal draws, '
                 'joint covariance compared with the specified one',
    'note': 'Decided for enumerated orders of up to 5 realized times, and '
            'kinds of correlation, for all numeric values up to random '
            'interpretation; normal generators trusted.',
}
W = 'sdepy/infrastructure.py true_wiener_source'
REPS = {'t0': .5, 'a': -.3, 'b': .2, 'c': .8, 'd': 1.3, 'e': 1.9, 'f': .65,
        'g': .05}
HIST = ('c d e', 'b a', 'e c d', 'a b', 'd a e b', 'a e b c d', 'e d c f',
        'c c d', '[e,c,d]', 'd+h')
SHORT = ('e c d', 'g b d c')


def check(R):
    R.explanation = ('Wiener sources with memory are realized at unknown '
                     'times in several orders; values are linear forms in '
                     'normal draws, whose joint law is compared.')
    R.rule = 'one obligation per (correlation kind, values shape, history)'
    R.assumptions = ['numpy.random.Generator.normal and multivariate_normal '
                     'draw independent standard normals / N(mean, cov) '
                     'samples']
    R.floor = 40
    for name, vshape, build in cases():
        for h in HIST if name in ('none', 'matrix', 'linear', 'function') \
                and len(vshape) < 2 else SHORT:
            key = 'corr=%s vshape=%s times %s' % (name, vshape, h)
            with R.context(key, W):
                one(R, key, name, vshape, build, h)
    for z in ('scalar', 'array', 'integer'):
        key = 'initial value ' + z
        with R.context(key, W):
            initial(R, key, z)
    with R.context('instances', W):
        instances(R)
    with R.context('perfect correlation', W):
        perfect(R)


def cases():
    yield from configs(False)

    def linear(L):
        a, b = spd(tm.leaf('A', (3, 3))), spd(tm.leaf('B', (3, 3)))

        def c(s):       # A + B s, on a range where it is positive
            return (X(a) * 4 + X(b) * X(s)).t
        return {'corr': L.fn('C', c)}, c
    yield 'linear', (3,), linear
    yield 'linear', (2, 3), linear

    def rlinear(L):
        k = L.num('k', 'small')

        def r(s):
            return (X(k.t) * (.4 + .1 * X(s))).t
        from .c06 import corr_rho
        return {'rho': L.fn('R', r, wrap='')}, lambda m: corr_rho(r(m), 1)
    yield 'linear rho', (2,), rlinear


def realize(L, s, h):
    """Realize a history; [(rep, time term, value term)]."""
    out = []
    T = {k: L.time(k, r) for k, r in REPS.items()}
    for c in h.split():
        if c[0] == '[':
            ks = c[1:-1].split(',')
            a = L.ip.arr(mk('call', 'numpy.array', (tm.Lst(
                T[k].t for k in ks),), ()), 'caller')
            v = X(L.term(live(L.call(s, a))))
            out += [(T[k].t, v[i]) for i, k in enumerate(ks)]
        elif '+' in c:
            k, q = c.split('+')
            hh = L.gap(q, .3)
            v = X(L.term(live(L.call(s, T[k], hh))))
            u = live(L.call(s, T[k]))
            out += [((X(T[k].t) + X(hh.t)).t, v + X(L.term(u))),
                    (T[k].t, X(L.term(u)))]
        else:
            out.append((T[c].t, X(L.term(live(L.call(s, T[c]))))))
    return T, out


def recursion(times, t0, corr, M):
    """Covariance blocks of values realized in order (documented bridge)."""
    mem, n = [(t0, None)], 0        # (time, coefficients {draw: matrix})
    res = []
    eye = np.eye(M)

    def add(*terms):
        o = {}
        for m, f in terms:
            for k, z in (f or {}).items():
                o[k] = o.get(k, 0) + m @ z
        return o
    for s in times:
        hit = [f for t, f in mem if abs(t - s) < 1e-12]
        if hit:
            res.append(hit[0] or {})
            continue
        k = sum(t < s for t, _ in mem)
        n += 1
        if k in (0, len(mem)):
            t, f = mem[0 if k == 0 else -1]
            C = corr((t + s) / 2) * abs(s - t)
            z = add((eye, f))
            z[n] = root(C)
        else:
            (t1, f1), (t2, f2) = mem[k - 1], mem[k]
            A = corr((t1 + s) / 2) * (s - t1)
            B = corr((s + t2) / 2) * (t2 - s)
            Z = B @ np.linalg.inv(A + B)
            z = add((Z, f1), (eye - Z, f2))
            z[n] = root(Z @ A)
        mem.insert(k, (s, z))
        res.append(z)
    N = n + 1
    F = np.zeros((len(times), M, N, M))
    for i, z in enumerate(res):
        for k, m in z.items():
            F[i, :, k, :] = m
    return np.einsum('iakc,jbkc->iajb', F, F)


def root(C):
    C = (C + C.T) / 2
    w, u = np.linalg.eigh(C)
    return u * np.sqrt(np.maximum(w, 0))


def exact(times, t0, corr, M):
    """Covariance blocks for correlations constant or linear in time."""
    n = len(times)
    K = np.zeros((n, M, n, M))
    for i, s in enumerate(times):
        for j, t in enumerate(times):
            if (s - t0) * (t - t0) > 0:
                u = min(s, t) if s > t0 else max(s, t)
                K[i, :, j, :] = corr((t0 + u) / 2) * abs(u - t0)
    return K


def one(R, key, name, vshape, build, h):
    L = R.lab()
    kw, corr = build(L)
    P = 2
    t0 = L.time('t0', REPS['t0'])
    s = live(L.call(L.public('true_wiener_source'), paths=L.dim(P),
                    vshape=tuple(L.dim(n) for n in vshape), t0=t0, **kw))
    T, out = realize(L, s, h)
    joint(R, key, L, out, t0, vshape, P, corr,
          exact if name in ('none', 'matrix', 'linear', 'linear rho',
                            'nested list', 'rho scalar', 'rho vector')
          else recursion)


def joint(R, key, L, out, t0, vshape, P, corr, oracle, mean=None):
    z = NPX.stack(tm.Lst(x.t for _, x in out)).t
    if z.opaque:
        return R.unknown(key, 'unmodelled value')
    M = vshape[-1] if vshape else 1
    full = (len(out),) + vshape + (P,)
    lead = int(np.prod(vshape[:-1]))
    for v in tm.valuations(2, R.seed, L.ip.facts):
        try:
            shape, m, J = laws.gaussian(z, v, R.seed)
        except laws.NotLinear as e:
            return R.bad(key, W, 'values are not Gaussian: %s' % e)
        if shape != full:
            return R.bad(key, W, 'values shaped %s, specified %s' % (
                shape[1:], full[1:]))
        ts = [float(v.ev(t)) for t, _ in out]
        f = (lambda u: np.eye(M)) if corr is None else (
            lambda u: np.asarray(v.ev(corr(tm.const(float(u)))), float))
        K = oracle(ts, float(v.ev(t0.t)), f, M)
        S = np.einsum('iajb,lm,pq->ilapjmbq', K, np.eye(lead), np.eye(P))
        n = int(np.prod(full))
        S = S.reshape(n, n)
        mu = np.zeros(full) if mean is None else np.broadcast_to(
            np.asarray(v.ev(mean), float), full)
        if not laws.same(m, mu):
            return R.bad(key, W, 'mean is not z0')
        C = laws.cov(J)
        if not laws.same(C, S):
            k = np.unravel_index(np.argmax(np.abs(C - S)), C.shape)
            ix = [tuple(int(q) for q in np.unravel_index(i, full))
                  for i in k]
            return R.bad(key, W, 'covariance of values %s and %s is %.6g, '
                         'specified %.6g, realized times %s, t0 %.4g' % (
                             ix[0], ix[1], C[k], S[k],
                             np.round(ts, 4), v.ev(t0.t)))
    R.good(key, W)


def initial(R, key, z):
    L = R.lab()
    z0 = {'scalar': lambda: L.num('z0'),
          'array': lambda: L.arr('z0', (2, 1)),
          'integer': lambda: L.num('z0', 'int', 'i8')}[z]()
    t0 = L.time('t0', REPS['t0'])
    kw = {'dtype': L.v(float)} if z == 'integer' else {}
    s = live(L.call(L.public('true_wiener_source'), paths=L.dim(2),
                    vshape=L.dim(2), t0=t0, z0=z0, **kw))
    T, out = realize(L, s, 't0 d c a')
    joint(R, key, L, out, t0, (2,), 2, None, exact, mean=L.term(z0))


def instances(R):
    """Two sources do not share draws nor memory."""
    L = R.lab()
    S = L.public('true_wiener_source')
    mks = [live(L.call(S, paths=L.dim(2))) for _ in range(2)]
    t0 = L.time('zero', 0.)
    t = L.time('d', 1.3)
    za, zb = (X(L.term(live(L.call(s, t)))) for s in mks)
    zz = NPX.stack(tm.Lst([za.t, zb.t])).t
    v = tm.valuations(1, R.seed, L.ip.facts)[0]
    _, m, J = laws.gaussian(zz, v, R.seed)
    C = laws.cov(J)
    R.must('instances', laws.same(C, np.eye(4) * C[0, 0]) and C[0, 0] > 0, W,
           'values of distinct instances are not independent')


def perfect(R):
    for c in ('1', '-1'):
        for h in ('c d e', 'e c d', 'a b'):
            key = 'perfect correlation %s times %s' % (c, h)
            with R.context(key, W):
                L = R.lab()
                n = L.client('def rho(t):\n    return %s. + 0*t\n' % c)
                t0 = L.time('t0', REPS['t0'])
                s = live(L.call(L.public('true_wiener_source'),
                                paths=L.dim(2), vshape=L.dim(2), t0=t0,
                                rho=n['rho']))
                T, out = realize(L, s, h)
                C = tm.const(np.array([[1., float(c)], [float(c), 1.]]))
                joint(R, key, L, out, t0, (2,), 2, lambda m: C, exact)
