"""Poisson source with memory."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c33 import live
from .c07 import configs

META = {
    'title': 'a Poisson source with memory realizes a two-sided counting path',
    'statement':
    'Whatever the times at which a true_poisson_source is realized, and their '
    'order, the value at t0 is z0, and new values add to the value at the '
    'nearest extreme realized time an independent Poisson count for each '
    'component and path, of mean the intensity at the middle of the interval '
    'times its length, with the sign of time; or, between realized times t1 '
    'and t2, add to the value at t1 an independent binomial share of the '
    'counts between t1 and t2 with probability (s - t1)/(t2 - t1). Hence '
    'values are counts plus z0, never decreasing in time, in the dtype '
    'requested, integer or floating. All draws come from the generator of '
    'the source.',
    'over': ['inputs', 'configurations', 'histories'],
    'quant': 'all sequences of realized times, outcomes of previous draws, '
             'kinds of intensity, shapes, dtypes, z0',
    'why': 'Tests check moments at increasing times; orders of realization '
           'and outcomes with equal or null counts are not reached.',
    'files': ['infrastructure.py'],
    'mech': [('true_poisson_source', 'sdepy/infrastructure.py'),
             ('true_source memory', 'sdepy/infrastructure.py')],
    'technique': 'abstract interpretation with an opaque generator of '
                 'enumerated counts; value numbers of draw parameters',
    'note': 'Decided for enumerated orders of up to 5 realized times and '
            'outcomes of draws, for all times in such order and intensities.',
}
W = 'sdepy/infrastructure.py true_poisson_source'
REPS = {'t0': .5, 'a': -.3, 'b': .2, 'c': .8, 'd': 1.3, 'e': 1.9, 'f': .65,
        'g': .05}
HIST = ('c d e', 'b a', 'e c d', 'a b', 'd a e b', 'a e b c d', 'e d c f',
        'c c d t0', '[e,c,d]', 'd+h', 'a b g')
SHORT = ('e c d', 'g b d c', 'd+h')
# outcomes: counts of the k-th draw
OUT = {
    'mixed': lambda k, i: (7 * i + 3 * k + 2) % 4,
    'zero': lambda k, i: 0,
    'zero first': lambda k, i: 0 if k == 0 else (5 * i + k) % 4,
    'ones': lambda k, i: 1,
    'one path': lambda k, i: 2 if i == 0 else 0,
}


def check(R):
    R.explanation = ('Poisson sources with memory are realized in several '
                     'orders, with a generator recording the parameters of '
                     'each draw and returning enumerated counts.')
    R.rule = ('one obligation per (intensity, values shape, outcomes, '
              'history) and call')
    R.assumptions = ['Generator.poisson and binomial draw independent '
                     'variates for each element']
    R.floor = 150
    for name, vshape, build in configs():
        if name == 'process':
            continue
        for o in OUT if name in ('number', 'function') else ('mixed',):
            for h in HIST if name in ('number', 'function') and \
                    len(vshape) < 2 else SHORT:
                key = 'lam=%s vshape=%s outcomes=%s times %s' % (
                    name, vshape, o, h)
                with R.context(key, W):
                    one(R, key, vshape, build, OUT[o], h)
    num = [b for n, v, b in configs() if n == 'number' and not v][0]
    for dtype in ('float64', 'float32', 'int64', 'int16'):
        for z in (0, 'z0'):
            key = 'dtype=%s z0=%s' % (dtype, z)
            with R.context(key, W):
                one(R, key, (2,), num, OUT['mixed'], 'e a c b d', dtype, z)


def generator(L, out, log):
    """Generator recording draws, with given outcomes."""
    def counts(size, dtype='int64'):
        n = int(np.prod(size))
        k = len(log)
        return np.array([out(k, i) for i in range(n)], dtype).reshape(size)

    def broadcast(ip, size, *a):
        shapes = [np.shape(tm.REP.ev(x) if isinstance(x, tm.T) else x)
                  for x in a]
        try:
            ok = np.broadcast_shapes(size, *shapes) == size
        except ValueError:
            ok = False
        if not ok:
            ip.throw('ValueError', Const('shape mismatch'))

    def poisson(ip, args, kw):
        a = dict(zip(('lam', 'size'), args), **kw)
        lam = ip.models.term(a['lam']) if 'lam' in a else tm.const(1.)
        size = tm._tup(ip.models.static(a['size'])) if 'size' in a else \
            np.shape(tm.REP.ev(lam))
        broadcast(ip, size, lam)
        c = counts(size)
        log.append(('poisson', lam, None, c))
        return ip.arr(tm.const(c))

    def binomial(ip, args, kw):
        a = dict(zip(('n', 'p', 'size'), args), **kw)
        n = np.asarray(tm.REP.ev(ip.models.term(a['n'])))
        p = ip.models.term(a['p'])
        if n.dtype.kind not in 'iu':
            ip.throw('TypeError', Const('n is not integer'))
        if (n < 0).any():
            ip.throw('ValueError', Const('n < 0'))
        size = tm._tup(ip.models.static(a['size'])) if 'size' in a else \
            np.broadcast_shapes(n.shape, np.shape(tm.REP.ev(p)))
        broadcast(ip, size, p, n)
        c = np.minimum(counts(size), n)
        log.append(('binomial', p, n, c))
        return ip.arr(tm.const(c))
    return Host(None, 'rng', {
        'poisson': Host(poisson, 'poisson'),
        'binomial': Host(binomial, 'binomial'), 'callable': False})


def one(R, key, vshape, build, out, h, dtype=None, z=0):
    L = R.lab()
    kw, lam = build(L)
    log = []
    P = 5
    shape = vshape + (P,)
    t0 = L.time('t0', REPS['t0'])
    if dtype:
        kw['dtype'] = L.v(dtype)
    off = 0
    if z:
        off = 3
        kw['z0'] = L.v(3)
    s = live(L.call(L.public('true_poisson_source'), paths=L.dim(P),
                    vshape=tuple(L.dim(n) for n in vshape), t0=t0,
                    rng=generator(L, out, log), **kw))
    T = {k: L.time(k, r) for k, r in REPS.items()}
    T['t0'] = t0
    mem = [(REPS['t0'], t0.t, np.full(shape, off))]
    for j, c in enumerate(h.split()):
        kj = '%s call %d' % (key, j)
        pts, hh = parse(c, T, L)
        n0 = len(log)
        if c[0] == '[':
            a = L.ip.arr(mk('call', 'numpy.array', (tm.Lst(
                t for _, t in pts),), ()), 'caller')
            got = live(L.call(s, a))
        elif hh is not None:
            got = live(L.call(s, T[c[0]], hh))
        else:
            got = live(L.call(s, Num(pts[0][1])))
        draws = log[n0:]
        vals = []
        for r, t in pts:
            v = expect(R, kj, L, mem, r, t, draws, lam, shape)
            if v is None:
                return
            vals.append(v)
        if draws:
            return R.bad(kj, W, 'more draws than new times')
        want = np.stack(vals) if c[0] == '[' else \
            vals[0] - vals[1] if hh is not None else vals[0]
        g = np.asarray(L.rep(got))
        d = np.dtype(dtype or int)
        if g.shape != want.shape or (g != want).any():
            R.bad(kj, W, 'counts %s, specified %s' % (
                g.ravel()[:6], want.ravel()[:6]))
        elif g.dtype != d:
            R.bad(kj, W, 'dtype %s' % g.dtype)
        else:
            R.good(kj, W)
    zs = np.stack([z for _, _, z in mem])
    R.must(key + ' monotone', (np.diff(zs, axis=0) >= 0).all(), W,
           'counts decrease')


def parse(c, T, L):
    if c[0] == '[':
        return [(REPS[k], T[k].t) for k in c[1:-1].split(',')], None
    if '+' in c:
        k, _ = c.split('+')
        h = L.gap('h', .3)
        # t + dt is realized first
        return [(REPS[k] + .3, (X(T[k].t) + X(h.t)).t),
                (REPS[k], T[k].t)], h
    return [(REPS[c], T[c].t)], None


def expect(R, key, L, mem, r, t, draws, lam, shape):
    """Value at a time, taking its draw."""
    for q, _, z in mem:
        if abs(q - r) < 1e-9:
            return z
    k = sum(q < r for q, _, _ in mem)
    inside = 0 < k < len(mem)
    if inside:
        (_, t1, n1), (_, t2, n2) = mem[k - 1], mem[k]
        if (n1 == n2).all():
            # with no counts to share out, a draw is irrelevant
            if draws and draws[0][0] == 'binomial' and \
                    not draws[0][2].any():
                draws.pop(0)
            mem.insert(k, (r, t, n1))
            return n1
    if not draws:
        R.bad(key, W, 'a new value is not drawn')
        return None
    kind, p, n, c = draws.pop(0)
    full = lambda x: NPX.broadcast_to(X(x), shape)
    if np.shape(c) != shape:
        R.bad(key, W, 'counts drawn with shape %s' % (np.shape(c),))
        return None
    if inside:
        if kind != 'binomial' or (np.asarray(n) != n2 - n1).any():
            R.bad(key, W, 'counts between realized times are not a share of '
                  'those between them')
            return None
        w = (X(t) - X(t1)) / (X(t2) - X(t1))
        up = tm.equal(full(p).t, full(w.t).t, L.ip.facts).verdict != 'DIFF'
        if not up:
            R.eq(key + ' share', L, full(p).t, full((1 - w).t), W,
                 'probability')
        else:
            R.eq(key + ' share', L, full(p).t, full(w.t), W, 'probability')
        v = n1 + c if up else n2 - c
    else:
        _, tq, nq = mem[0 if k == 0 else -1]
        if kind != 'poisson':
            R.bad(key, W, 'counts beyond realized times are not Poisson')
            return None
        mid, gap = (X(t) + X(tq)) / 2, X(t) - X(tq)
        R.eq(key + ' mean', L, full(p).t,
             full((X(lam(mid.t)) * NPX.abs(gap)).t), W, 'mean count')
        v = nq + (c if k else -c)
    mem.insert(k, (r, t, v))
    return v
