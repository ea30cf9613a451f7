"""Indexing of montecarlo instances."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c33 import live
from .c38 import spec, join

META = {
    'title': 'indexing montecarlo instances gives live views of components',
    'statement':
    'For integers, negative integers, slices, Ellipsis and tuples of them, '
    'a[i] is a montecarlo instance with the statistics, paths, histograms '
    'and outpaths of the component a.mean()[i], as if the sample of that '
    'component only had been given. No copy is made: upon subsequent '
    'updates of a, a[i] taken before reports the updated values, as does '
    'one taken after, or an index of an index. Indexing and reading a[i] '
    'leave a unaffected; with bins None, a[i] has statistics and no '
    'histograms.',
    'over': ['inputs', 'histories'],
    'quant': 'all indexes, shapes and sequences of indexing and updates',
    'why': 'Tests index after the last update, with a few indexes.',
    'files': ['infrastructure.py'],
    'mech': [('montecarlo.__getitem__',
              'sdepy/infrastructure.py montecarlo.__getitem__')],
    'technique': 'abstract interpretation with alias analysis; value numbers '
                 'of statistics against those of the component',
    'note': 'Decided per shape and index, for all values of the samples.',
}
W = 'sdepy/infrastructure.py montecarlo.__getitem__'
STATS = ('mean', 'var', 'std', 'skew', 'kurtosis', 'stderr')
INDEX = {
    (1,): (0, -1, (0,), Ellipsis, slice(None)),
    (3,): (0, 2, -1, -3, (1,), slice(1), slice(None, None, 2), Ellipsis,
           (Ellipsis, 1), (1, Ellipsis), (Ellipsis, slice(1, 3))),
    (2, 3): (0, -1, (1, 2), (0, -1), (-2, slice(1, None)),
             (slice(None), 1), (Ellipsis, 0), (1, Ellipsis),
             (slice(None), slice(1)), (slice(None, None, -1), 0), Ellipsis),
    (2, 1, 2): (1, (0, 0), (1, 0, -1), (Ellipsis, 1), (0, Ellipsis, 1),
                (slice(None), 0)),
}


def check(R):
    R.explanation = ('Multiple valued instances with unknown samples are '
                     'indexed before and after updates.')
    R.rule = 'one obligation per (shape, index, reading) and statistic'
    R.floor = 300
    for vshape, index in INDEX.items():
        for i in index:
            for bins in ((None, 'edges', 2) if vshape != (2, 1, 2)
                         else (None,)):
                key = 'vshape=%s [%s] bins=%s' % (vshape, i, bins)
                with R.context(key, W):
                    one(R, key, vshape, i, bins)
    nested(R)
    outside(R)


def verify(R, key, L, c, zs, i, n, edges, stats=STATS):
    z = join(zs)[full(i)]
    want = spec(z, n)
    R.must(key + ' type', L.cls_of(c) == 'montecarlo', W,
           'index is %s' % L.cls_of(c))
    R.must(key + ' paths', L.rep(L.get(c, 'paths')) == n, W,
           '%s paths' % L.rep(L.get(c, 'paths')))
    sh = np.shape(z.t.rep)[:-1]
    R.must(key + ' vshape', tuple(int(k) for k in L.rep(
        L.get(c, 'vshape'))) == sh, W, 'vshape')
    for s in stats:
        r = live(L.meth(c, s))
        R.must('%s %s shape' % (key, s), np.shape(L.rep(r)) == sh, W,
               'shape %s' % (np.shape(L.rep(r)),))
        R.eq('%s %s' % (key, s), L, (X(L.term(r)) + 1.).t, want[s] + 1.,
             W, s, rtol=1e-6)
    if edges is not None and np.prod(sh, dtype=int) == 1:
        o = L.meth(c, 'histogram')
        R.accepts(key + ' histogram', L, o, W, 'histogram')
        h = L.ip.seq(live(o))
        for k, v in zip(('counts', 'edges'), h):
            R.must('%s %s type' % (key, k), L.cls_of(v) in (
                'Arr', 'ndarray'), W, '%s are %s' % (k, L.cls_of(v)))
        R.accepts(key + ' density', L, L.meth(c, 'density_histogram'), W,
                  'density_histogram')
        e = edges[full(i)].reshape((-1,)) if isinstance(edges, X) else None
        z = z.reshape((-1,))
        if e is not None:
            R.eq(key + ' edges', L, L.term(h[1]), e, W, 'edges')
        e = X(L.term(h[1]))
        nb = np.shape(e.t.rep)[0] - 1
        w = [((z >= e[j]) * ((z <= e[j + 1]) if j == nb - 1 else
                             (z < e[j + 1])) * 1).sum() for j in range(nb)]
        w = X(mk('call', 'numpy.stack', (Lst(r.t for r in w),), ()))
        R.eq(key + ' counts', L, L.term(h[0]), w, W, 'counts')
        R.eq(key + ' outpaths', L, (X(L.term(
            L.get(c, 'outpaths'))).sum() * 1.).t, float(n) - w.sum(), W,
            'outpaths')


def full(i):
    """The index of the data, leaving the last axis."""
    i = i if isinstance(i, tuple) else (i,)
    return i + (slice(None),) if Ellipsis in i else i + (Ellipsis, slice(
        None))


def val(L, i):
    if isinstance(i, tuple):
        return tuple(val(L, k) for k in i)
    return i if i is Ellipsis or isinstance(i, slice) else L.dim(i)


def one(R, key, vshape, i, bins):
    L = R.lab()
    xs = [L.arr('x%d' % k, vshape + (n,)) for k, n in enumerate((3, 2, 1))]
    zs = [X(L.term(x)) for x in xs]
    edges = None
    if bins == 'edges':
        b = L.timeline('b', np.cumsum(np.ones(vshape + (4,)), axis=-1) - 2.5
                       + (np.arange(np.prod(vshape, dtype=int)) * .07)
                       .reshape(vshape + (1,)))
        edges = X(L.term(b))
    elif bins:
        b, edges = L.dim(bins), True
    else:
        b = NONE
    a = live(L.call(L.public('montecarlo'), xs[0], bins=b))
    c = live(L.item(a, val(L, i)))
    verify(R, key + ' first', L, c, zs[:1], i, 3, edges)
    R.accepts(key + ' update', L, L.meth(a, 'update', xs[1]), W, 'update')
    verify(R, key + ' taken before', L, c, zs[:2], i, 5, edges)
    verify(R, key + ' taken after', L, live(L.item(a, val(L, i))), zs[:2], i,
           5, edges)
    if bins is None:
        R.accepts(key + ' update 2', L, L.meth(a, 'update', xs[2]), W,
                  'update')
        verify(R, key + ' before two', L, c, zs, i, 6, edges)
        R.rejects(key + ' histogram', L, L.meth(c, 'histogram'), W,
                  'histogram without bins', {'ValueError'})
        verify(R, key + ' whole', L, a, zs, Ellipsis, 6, None)


def nested(R):
    for vshape, i, j, k in (
            ((2, 3), 1, 2, (1, 2)), ((2, 3), slice(None), (1, -1), (1, -1)),
            ((2, 3), (slice(None), 1), 0, (0, 1)),
            ((2, 3), Ellipsis, 0, 0), ((3,), slice(1, None), 1, 2),
            ((3,), slice(None, None, -1), 0, -1)):
        key = 'vshape=%s [%s][%s]' % (vshape, i, j)
        with R.context(key, W):
            L = R.lab()
            x, y = L.arr('x', vshape + (3,)), L.arr('y', vshape + (2,))
            zs = [X(L.term(x)), X(L.term(y))]
            a = live(L.call(L.public('montecarlo'), x, bins=L.dim(2)))
            c = live(L.item(live(L.item(a, val(L, i))), val(L, j)))
            verify(R, key, L, c, zs[:1], k, 3, True)
            live(L.meth(a, 'update', y))
            verify(R, key + ' updated', L, c, zs, k, 5, True)


def outside(R):
    with R.context('invalid indexes', W):
        L = R.lab()
        a = live(L.call(L.public('montecarlo'), L.arr('x', (2, 3, 4)),
                        bins=NONE))
        for i in (2, -3, (0, 3), (0, 0, 0)):
            R.rejects('index %s' % (i,), L, L.item(a, val(L, i)), W,
                      'index out of range', {'IndexError'})
