"""Cumulation of samples by montecarlo."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c33 import live

META = {
    'title': 'montecarlo statistics are those of all samples taken together',
    'statement':
    'After any sequence of samples, given at instantiation or to update, '
    'each along any axis, with any number of paths, the paths, mean, '
    'variance and further statistics of a montecarlo instance are those of '
    'the single sample obtained by joining all of them along the paths axis, '
    'whatever their order and division. vshape is that of the first sample, '
    'to which subsequent ones are broadcast. With use even or odd, the half '
    'sums or half differences of the first and second half of the paths are '
    'cumulated instead, and odd numbers of paths raise ValueError, as other '
    'values of use. Samples are not altered, nor are other instances.',
    'over': ['inputs', 'histories'],
    'quant': 'all sequences of samples, sizes, shapes, axes and settings',
    'why': 'Tests cumulate a few samples; a weight or centering mistake may '
           'vanish for equal sizes.',
    'files': ['infrastructure.py'],
    'mech': [('montecarlo.update, _update_moments',
              'sdepy/infrastructure.py class montecarlo')],
    'technique': 'abstract interpretation; value numbers of statistics '
                 'against those of the joined sample',
    'note': 'Decided per sequence of sizes and shapes (up to 4 samples), for '
            'all values, in exact arithmetic.',
}
W = 'sdepy/infrastructure.py montecarlo.update'
SEQ = ((3,), (1,), (2, 3), (3, 2), (1, 1), (1, 4), (4, 1), (2, 2, 2),
       (1, 2, 3), (3, 1, 2, 2))
SHAPES = ((), (2,), (3, 2))
STATS = ('mean', 'var', 'std', 'skew', 'kurtosis', 'stderr')


def spec(z, n):
    """Statistics of a sample of n paths."""
    m = z.mean(axis=-1)
    d = z - m[..., None]
    v = (d ** 2).mean(axis=-1)
    return {'mean': m, 'var': v, 'std': NPX.sqrt(v),
            'skew': (d ** 3).mean(axis=-1) / v ** 1.5,
            'kurtosis': (d ** 4).mean(axis=-1) / v ** 2,
            'stderr': NPX.sqrt(v / (n - 1.))}


def join(zs):
    if len(zs) == 1:
        return zs[0]
    return NPX.concatenate(tuple(zs), axis=-1)


def verify(R, key, L, a, zs, n, vshape, stats=STATS):
    want = spec(join(zs), n)
    R.must(key + ' paths', L.rep(L.get(a, 'paths')) == n, W,
           '%s paths' % L.rep(L.get(a, 'paths')))
    sh = tuple(int(i) for i in L.rep(L.get(a, 'vshape')))
    R.must(key + ' vshape', sh == vshape, W, 'vshape %s' % (sh,))
    sh = tuple(int(i) for i in L.rep(L.get(a, 'shape')))
    R.must(key + ' shape', sh == vshape + (n,), W, 'shape %s' % (sh,))
    for s in stats:
        if n == 1 and s != 'mean':
            continue
        # 1 added: a null skewness is rounded
        R.eq('%s %s' % (key, s), L, (
            X(L.term(live(L.meth(a, s)))) + 1.).t, want[s] + 1., W,
             s + ' of the cumulated samples', rtol=1e-6)


def check(R):
    R.explanation = (
        'Sequences of updates with unknown samples are analysed; statistics '
        'must have the value numbers of those of the joined sample.')
    R.rule = 'one obligation per (sequence, shape, axis, use) and statistic'
    R.floor = 300
    for vshape in SHAPES:
        for seq in SEQ:
            for first in (True, False):
                key = 'vshape=%s paths %s%s' % (vshape, seq,
                                                '' if first else ' empty')
                with R.context(key, W):
                    cumulate(R, key, vshape, seq, first)
        for axis in range(-len(vshape) - 1, len(vshape) + 1):
            for how in ('positional', 'keyword'):
                key = 'vshape=%s axis=%d %s' % (vshape, axis, how)
                with R.context(key, W):
                    axes(R, key, vshape, axis, how)
        for use in ('all', 'even', 'odd'):
            key = 'vshape=%s use=%s' % (vshape, use)
            with R.context(key, W):
                usage(R, key, vshape, use)
    for vshape, nxt in (((2,), (1,)), ((2,), ()), ((3, 2), (2,)),
                        ((3, 2), (3, 1)), ((3, 2), ()), ((1, 2), (1, 1))):
        key = 'vshape=%s then %s' % (vshape, nxt)
        with R.context(key, W):
            broadcast(R, key, vshape, nxt)
    for kind in ('scalar', 'list', 'process', 'integer', 'float32'):
        with R.context('sample as ' + kind, W):
            kinds(R, 'sample as ' + kind, kind)
    invalid(R)
    separate(R)


def make(L, *a, **kw):
    return live(L.call(L.public('montecarlo'), *a, bins=NONE, **kw))


def cumulate(R, key, vshape, seq, first):
    L = R.lab()
    xs = [L.arr('x%d' % i, vshape + (n,)) for i, n in enumerate(seq)]
    zs = [X(L.term(x)) for x in xs]
    if first:
        a = make(L, xs[0])
    else:
        a = make(L)
        R.must(key + ' no paths', L.rep(L.get(a, 'paths')) == 0, W,
               'an empty instance has paths')
        R.accepts(key + ' update 0', L, L.meth(a, 'update', xs[0]), W)
    n = seq[0]
    verify(R, key + ' after 0', L, a, zs[:1], n, vshape)
    for i in range(1, len(seq)):
        R.accepts('%s update %d' % (key, i), L, L.meth(a, 'update', xs[i]),
                  W)
        n += seq[i]
        verify(R, '%s after %d' % (key, i), L, a, zs[:i + 1], n, vshape)
    for x, z in zip(xs, zs):
        R.eq(key + ' sample', L, L.term(x), z, W, 'sample after the update')


def axes(R, key, vshape, axis, how):
    L = R.lab()
    k = axis if axis >= 0 else axis + len(vshape) + 1

    def shape(n):
        return vshape[:k] + (n,) + vshape[k:]
    x, y = L.arr('x', shape(4)), L.arr('y', shape(3))
    if how == 'positional':
        a = make(L, x, axis)
        live(L.meth(a, 'update', y, axis))
    else:
        a = make(L, sample=x, axis=axis)
        live(L.meth(a, 'update', sample=y, axis=axis))
    zs = [NPX.moveaxis(X(L.term(i)), axis, -1) for i in (x, y)]
    verify(R, key, L, a, zs, 7, vshape)


def usage(R, key, vshape, use):
    L = R.lab()
    x, y = L.arr('x', vshape + (4,)), L.arr('y', vshape + (6,))
    a = make(L, x, use=use)
    live(L.meth(a, 'update', y))
    z, w = X(L.term(x)), X(L.term(y))
    if use != 'all':
        s = 1. if use == 'even' else -1.
        z = (z[..., :2] + s * z[..., 2:]) / 2.
        w = (w[..., :3] + s * w[..., 3:]) / 2.
    verify(R, key, L, a, [z, w], 10 if use == 'all' else 5, vshape)
    a = make(L, L.arrt(NPX.moveaxis(X(L.term(x)), -1, 0).t), 0, use=use)
    verify(R, key + ' axis 0', L, a, [z], 4 if use == 'all' else 2, vshape)


def broadcast(R, key, vshape, nxt):
    L = R.lab()
    x, y = L.arr('x', vshape + (3,)), L.arr('y', nxt + (2,))
    u = L.arr('u', vshape + (4,))
    a = make(L, x)
    for i in (y, u):
        R.accepts(key + ' update', L, L.meth(a, 'update', i), W)
    zs = [X(L.term(x)), NPX.broadcast_to(X(L.term(y)), vshape + (2,)),
          X(L.term(u))]
    verify(R, key, L, a, zs, 9, vshape)


def kinds(R, key, kind):
    L = R.lab()
    if kind == 'scalar':
        p, q = L.num('p'), L.num('q')
        a = make(L, p)
        live(L.meth(a, 'update', q))
        verify(R, key, L, a, [NPX.array([p.t, q.t])], 2, ())
    elif kind == 'list':
        p, q, r = L.num('p'), L.num('q'), L.num('r')
        a = make(L, L.v([p, q]))
        live(L.meth(a, 'update', L.v([r])))
        verify(R, key, L, a, [NPX.array([p.t, q.t, r.t])], 3, ())
    elif kind == 'process':
        p = L.process('p', (.2, .7), (2, 3, 4))
        a = make(L, p)
        verify(R, key, L, a, [X(L.term(p))], 4, (2, 3))
        m = live(L.meth(a, 'mean'))
        R.must(key + ' plain array', L.cls_of(m) != 'process', W,
               'statistics are processes')
    else:
        dt = {'integer': 'i8', 'float32': 'f4'}[kind]
        x = L.arr('x', (2, 4), 'int' if dt == 'i8' else 'real', dt)
        y = L.arr('y', (2, 3))
        a = make(L, x)
        R.must(key + ' type of statistics', L.rep(live(L.meth(
            a, 'mean'))).dtype == np.dtype('f8' if dt == 'i8' else dt), W,
            'type of the mean')
        if dt == 'i8':
            live(L.meth(a, 'update', y))
            verify(R, key, L, a, [X(L.term(x)) * 1., X(L.term(y))], 7, (2,),
                   ('mean', 'var'))
        for d in ('f4', 'f8'):
            a = make(L, y, dtype=L.v(np.dtype(d)))
            R.must('%s dtype=%s' % (key, d), L.rep(live(L.meth(
                a, 'mean'))).dtype == np.dtype(d), W, 'dtype is ignored')


def invalid(R):
    with R.context('invalid use', W):
        L = R.lab()
        M = L.public('montecarlo')
        for use in ('other', 'ALL', ''):
            R.rejects('use=%r' % use, L, L.call(
                M, L.arr('x', (4,)), use=use), W, 'unknown use',
                {'ValueError'})
        for use in ('even', 'odd'):
            for n in (1, 3, 5):
                R.rejects('use=%s %d paths' % (use, n), L, L.call(
                    M, L.arr('x', (2, n)), use=use), W,
                    'odd number of antithetic paths', {'ValueError'})
        a = make(L, L.arr('x', (4,)), use='even')
        R.rejects('update with odd paths', L, L.meth(
            a, 'update', L.arr('y', (3,))), W,
            'odd number of antithetic paths', {'ValueError'})
        verify(R, 'after a rejected update', L, a, [
            (X(leaf('x', (4,), 'f8', 'real'))[:2] +
             X(leaf('x', (4,), 'f8', 'real'))[2:]) / 2.], 2, ())
        a = make(L, L.arr('x', (2, 4)))
        for sh in ((3, 4), (5, 2, 4), (3, 3, 3)):
            R.rejects('update with %s' % (sh,), L, L.meth(
                a, 'update', L.arr('y', sh)), W,
                'sample that does not broadcast', {'ValueError'})
        verify(R, 'after rejected shapes', L, a,
               [X(leaf('x', (2, 4), 'f8', 'real'))], 4, (2,))
        R.rejects('vshape of an empty instance', L, L.run(
            lambda: L.ip.getattr(make(L), 'vshape')), W,
            'vshape without samples', {'ValueError'})


def separate(R):
    """Instances do not share state."""
    with R.context('separate instances', W):
        L = R.lab()
        x, y, z = (L.arr(n, (2, k)) for n, k in (('x', 3), ('y', 2),
                                                  ('z', 4)))
        a, b = make(L, x), make(L)
        live(L.meth(b, 'update', x))
        live(L.meth(a, 'update', y))
        live(L.meth(b, 'update', z))
        x, y, z = (X(L.term(i)) for i in (x, y, z))
        verify(R, 'separate instances a', L, a, [x, y], 5, (2,))
        verify(R, 'separate instances b', L, b, [x, z], 7, (2,))
