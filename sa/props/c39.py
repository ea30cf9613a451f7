"""Histograms of montecarlo."""
import numpy as np
from ..lab import *
from .. import terms as tm
from ..extmodels import _histogram, _first, _second
from .c33 import live

META = {
    'title': 'montecarlo histograms count every path once',
    'statement':
    'The first sample fixes the bins of each component: numpy.histogram\'s '
    'for the given number of bins or method and range, or the given edges. '
    'After any sequence of samples the counts are those of the joined sample '
    'in these bins, outpaths the number of paths outside, and counts plus '
    'outpaths add up to paths; outerr is outpaths/paths, density_histogram '
    'has unit integral. With bins None no counts are kept; histograms of '
    'empty instances and without bins raise ValueError, of multiple valued '
    'ones IndexError. Histograms of one component do not depend on others, '
    'bins whose shape does not match the sample raise ValueError, and '
    'updating never raises for values outside the bins.',
    'over': ['inputs', 'histories'],
    'quant': 'all sequences of samples, shapes, bins and ranges',
    'why': 'Tests histogram sampled data; counts lost or counted twice at '
           'boundaries, or for a component, can go unnoticed.',
    'files': ['infrastructure.py'],
    'mech': [('_update_histogram, histogram, density_histogram, outpaths, '
              'outerr', 'sdepy/infrastructure.py class montecarlo')],
    'technique': 'abstract interpretation; value numbers of counts against '
                 'indicator sums over the joined sample; feasibility of '
                 'raising exits',
    'note': 'Decided per sequence of sizes, shape and kind of bins, for all '
            'values; numpy.histogram is modelled.',
}
W = 'sdepy/infrastructure.py montecarlo._update_histogram'


def counts(z, edges, nb):
    """Indicator sums over paths: last bin closed."""
    out = []
    for j in range(nb):
        a, b = edges[j], edges[j + 1]
        hi = (z <= b) if j == nb - 1 else (z < b)
        out.append(((z >= a) * hi * 1).sum())
    return X(mk('call', 'numpy.stack', (Lst(r.t for r in out),), ()))


def check(R):
    R.explanation = (
        'Sequences of updates with unknown samples are analysed for each '
        'kind of bins; counts are compared with indicator sums.')
    R.rule = 'one obligation per (bins, shape, sequence) and result'
    R.floor = 200
    for vshape in ((), (1,), (2,), (2, 3)):
        for bins in ('number', 'number and range', 'edges'):
            for seq in ((5,), (4, 3), (1, 2, 5)):
                for first in (True, False):
                    key = 'vshape=%s bins %s paths %s%s' % (
                        vshape, bins, seq, '' if first else ' empty')
                    with R.context(key, W):
                        one(R, key, vshape, bins, seq, first)
        for what in ('none', 'default', 'auto', 'list', 'different',
                     'array', 'list of lists'):
            with R.context('vshape=%s bins %s' % (vshape, what), W):
                special(R, 'vshape=%s bins %s' % (vshape, what), vshape,
                        what)
        for what in ('sqrt', 'sturges', 'auto'):
            for rng in (None, (-.9, 1.1)):
                key = 'vshape=%s bins %s range %s' % (vshape, what, rng)
                with R.context(key, W):
                    named(R, key, vshape, what, rng)
    errors(R)


def named(R, key, vshape, what, rng):
    """Bins by a rule of numpy, in the range given."""
    L = R.lab()
    x, y = L.arr('x', vshape + (7,)), L.arr('y', vshape + (3,))
    z, w = X(L.term(x)), X(L.term(y))
    a = live(L.call(L.public('montecarlo'), x, bins=L.v(what), **(
        {'range': L.v(rng)} if rng else {})))
    R.accepts(key + ' update', L, L.meth(a, 'update', y), W)
    for i in components(vshape):
        c = a if vshape == () else live(L.item(a, tuple(
            L.dim(k) for k in i)))
        z0, w0 = (z[i], w[i]) if i else (z, w)
        k = '%s %s' % (key, i)
        first = mk('host', 'histogram', _histogram, (z0.t, what, rng))
        e = mk('host', 'histogram_bins', _second, (first,))
        second = mk('host', 'histogram', _histogram, (w0.t, e, None))
        n = X(mk('host', 'histogram_counts', _first, (first,))) + X(
            mk('host', 'histogram_counts', _first, (second,)))
        h = L.ip.seq(live(L.meth(c, 'histogram')))
        R.eq(k + ' edges', L, L.term(h[1]), e, W, 'edges of the bins')
        R.eq(k + ' counts', L, L.term(h[0]), n, W, 'counts')
        R.eq(k + ' outpaths', L, (X(L.term(L.get(c, 'outpaths'))) * 1.).t,
             10. - n.sum(), W, 'paths outside of the bins')


NB = 4


def components(vshape):
    return list(np.ndindex(vshape))


def one(R, key, vshape, bins, seq, first):
    L = R.lab()
    xs = [L.arr('x%d' % i, vshape + (n,)) for i, n in enumerate(seq)]
    zs = [X(L.term(x)) for x in xs]
    kw = {}
    if bins == 'edges':
        b = L.timeline('b', np.broadcast_to(
            (-1.5, -.4, .3, 1., 2.2), vshape + (NB + 1,)))
        kw['bins'] = b
    else:
        kw['bins'] = L.dim(NB)
        if bins == 'number and range':
            kw['range'] = L.v((-1.25, 1.5))
    M = L.public('montecarlo')
    if first:
        o = L.call(M, xs[0], **kw)
        R.accepts(key + ' first sample', L, o, W)
        a = live(o)
    else:
        a = live(L.call(M, **kw))
        R.accepts(key + ' first sample', L, L.meth(a, 'update', xs[0]), W)
    for i, x in enumerate(xs[1:]):
        R.accepts('%s update %d' % (key, i), L, L.meth(a, 'update', x), W,
                  'update')
    n = sum(seq)
    for i in components(vshape):
        c = a if vshape == () else live(L.item(a, tuple(
            L.dim(k) for k in i)))
        z0 = zs[0][i] if i else zs[0]
        if bins == 'edges':
            e = X(L.term(b))
            e = e[i] if i else e
        elif bins == 'number':
            lo, hi = z0.min(), z0.max()
            # a single value is in the middle of a unit range
            if seq[0] == 1:
                lo, hi = z0[0] - .5, z0[0] + .5
            e = NPX.linspace(lo, hi, NB + 1)
        else:
            e = NPX.linspace(-1.25, 1.5, NB + 1)
        z = NPX.concatenate(tuple(y[i] if i else y for y in zs)) \
            if len(zs) > 1 else z0
        verify(R, '%s %s' % (key, i), L, c, z, e, NB, n)


def verify(R, key, L, c, z, e, nb, n):
    want = counts(z, e, nb)
    h = L.ip.seq(live(L.meth(c, 'histogram')))
    R.eq(key + ' counts', L, L.term(h[0]), want, W, 'counts')
    R.eq(key + ' edges', L, L.term(h[1]), e, W, 'edges of the bins')
    h2 = L.ip.seq(L.get(c, 'h'))
    R.eq(key + ' h', L, L.term(h2[0]), want, W, 'counts')
    out = float(n) - want.sum()
    R.eq(key + ' outpaths', L, (X(L.term(L.get(c, 'outpaths'))) * 1.).t,
         out, W, 'paths outside of the bins')
    R.eq(key + ' outerr', L, L.term(live(L.meth(c, 'outerr'))), out / n, W,
         'fraction of paths outside of the bins')
    R.must(key + ' counts are integers', L.rep(h[0]).dtype.kind == 'i', W,
           'type of the counts')
    for k, d in (('density_histogram', live(L.meth(
            c, 'density_histogram'))), ('dh', L.get(c, 'dh'))):
        d = L.ip.seq(d)
        w = e[1:] - e[:-1]
        dens = X(L.term(d[0]))
        # normalized counts, unless there are none
        R.eq('%s %s' % (key, k), L, (dens * want.sum() * w).t,
             want * 1. * (want.sum() / want.sum()), W, 'density')
        R.eq('%s %s edges' % (key, k), L, L.term(d[1]), e, W,
             'edges of the bins')


def special(R, key, vshape, what):
    L = R.lab()
    M = L.public('montecarlo')
    x, y = L.arr('x', vshape + (5,)), L.arr('y', vshape + (3,))
    z, w = X(L.term(x)), X(L.term(y))
    kw = {'none': {'bins': NONE}, 'default': {}, 'auto': {'bins': 'auto'}}
    edges = {}
    if what in kw:
        kw = kw[what]
    elif what in ('list', 'list of lists'):
        if what == 'list' and vshape != () or \
           what == 'list of lists' and len(vshape) != 1:
            return
        ts = [L.time('e%d' % i, r) for i, r in enumerate((-1., .1, 1.))]
        e = NPX.array([t.t for t in ts])
        kw = {'bins': L.v(ts) if vshape == () else L.v([ts] * vshape[0])}
        edges = {i: (e, 2) for i in components(vshape)}
    else:
        b = L.timeline('b', np.cumsum(np.ones(vshape + (4,)), axis=-1) - 2.5
                       + (np.arange(np.prod(vshape, dtype=int)) * .07)
                       .reshape(vshape + (1,)))
        kw = {'bins': b}
        bt = X(L.term(b))
        edges = {i: (bt[i] if i else bt, 3) for i in components(vshape)}
    a = live(L.call(M, x, **kw))
    R.accepts(key + ' update', L, L.meth(a, 'update', y), W)
    for i in components(vshape):
        c = a if vshape == () else live(L.item(a, tuple(
            L.dim(k) for k in i)))
        zi = NPX.concatenate((z[i] if i else z, w[i] if i else w))
        k = '%s %s' % (key, i)
        if what == 'none':
            for n in ('histogram', 'density_histogram', 'outerr'):
                R.rejects('%s %s' % (k, n), L, L.meth(c, n), W,
                          n + ' without bins', {'ValueError'})
            R.rejects(k + ' outpaths', L, L.run(
                lambda: L.ip.getattr(c, 'outpaths')), W,
                'outpaths without bins', {'ValueError'})
        elif what == 'default':
            h = L.ip.seq(live(L.meth(c, 'histogram')))
            R.must(k + ' bins', L.rep(h[0]).shape == (100,), W,
                   'default number of bins')
        elif what == 'auto':
            h = L.ip.seq(live(L.meth(c, 'histogram')))
            R.eq(k + ' counts', L, (X(L.term(h[0])).sum() * 1. +
                                    X(L.term(L.get(c, 'outpaths')))).t,
                 tm.const(8.), W, 'counts plus outpaths')
        else:
            e, nb = edges[i]
            verify(R, k, L, c, zi, e, nb, 8)


def errors(R):
    with R.context('errors', W):
        L = R.lab()
        M = L.public('montecarlo')
        a = live(L.call(M))
        for n in ('histogram', 'density_histogram', 'outerr'):
            R.rejects('empty ' + n, L, L.meth(a, n), W,
                      n + ' of an empty instance', {'ValueError'})
        x = L.arr('x', (2, 5))
        a = live(L.call(M, x, bins=L.dim(3)))
        for n in ('histogram', 'density_histogram', 'outerr'):
            R.rejects('multiple valued ' + n, L, L.meth(a, n), W,
                      n + ' of multiple values', {'IndexError'})
        R.rejects('multiple valued pdf', L, L.meth(a, 'pdf', L.num('z')), W,
                  'pdf of multiple values', {'IndexError'})
        for sh in ((4,), (3, 4), (1, 4), (2, 2, 4)):
            R.rejects('bins shaped %s' % (sh,), L, L.call(
                M, x, bins=L.timeline('b', np.cumsum(np.ones(sh), -1))), W,
                'bins that do not match the sample', {'ValueError'})
