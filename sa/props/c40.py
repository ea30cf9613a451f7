"""Results of montecarlo: shortcuts, short samples, snapshots."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c33 import live

META = {
    'title': 'montecarlo results agree with each other and stay as given',
    'statement':
    'The shortcuts m, s, e, h, dh and the items of stats equal the methods '
    'they stand for, std is the square root of var, stderr is std/sqrt(paths '
    '- 1). With one path the mean is the sample, var, std and skew are null '
    'and stderr is nan. Results are snapshots: means, statistics, '
    'histograms, outpaths once obtained do not change upon later updates, '
    'and altering them does not alter the instance. Reading results, in any '
    'order and number, changes nothing. Empty instances have no paths, '
    'their vshape and shape raise ValueError.',
    'over': ['inputs', 'histories'],
    'quant': 'all samples, shapes, sequences of updates and readings',
    'why': 'Tests read results once, after the last update, so that an alias '
           'of an array updated in place does not show.',
    'files': ['infrastructure.py'],
    'mech': [('statistics, shortcuts', 'sdepy/infrastructure.py class '
              'montecarlo')],
    'technique': 'abstract interpretation with alias analysis; value numbers '
                 'before and after updates',
    'note': 'Decided per shape and sequence, for all values.',
}
W = 'sdepy/infrastructure.py class montecarlo'
STATS = ('mean', 'var', 'std', 'skew', 'kurtosis', 'stderr')


def check(R):
    R.explanation = ('Results of montecarlo instances with unknown samples '
                     'are read before and after updates.')
    R.rule = 'one obligation per (shape, result, reading)'
    R.floor = 150
    for vshape in ((), (1,), (2,), (3, 2)):
        for paths in (1, 2, 5):
            key = 'vshape=%s paths=%s' % (vshape, paths)
            with R.context(key, W):
                agree(R, key, vshape, paths)
            with R.context(key + ' snapshots', W):
                snapshots(R, key + ' snapshots', vshape, paths)
    empty(R)


def results(L, a, single):
    out = {}
    for s in STATS:
        out[s] = live(L.meth(a, s))
    for s in 'mse':
        out[s] = L.get(a, s)
    d = L.get(a, 'stats')
    for s in STATS:
        if s != 'var':
            out['stats ' + s] = live(L.item(d, s))
    if single:
        for s in ('histogram', 'density_histogram', 'h', 'dh'):
            h = live(L.meth(a, s)) if len(s) > 2 else L.get(a, s)
            out[s + ' counts'], out[s + ' edges'] = L.ip.seq(h)
        out['outpaths'] = L.get(a, 'outpaths')
        out['outerr'] = live(L.meth(a, 'outerr'))
    return out


def agree(R, key, vshape, paths):
    L = R.lab()
    x = L.arr('x', vshape + (paths,))
    a = live(L.call(L.public('montecarlo'), x, bins=L.dim(3)))
    r = results(L, a, vshape in ((), (1,)))
    t = {k: L.term(v) for k, v in r.items()}
    for s, m in (('m', 'mean'), ('s', 'std'), ('e', 'stderr')):
        R.eq('%s %s' % (key, s), L, t[s], t[m], W, '%s is not %s' % (s, m))
    for s in STATS:
        if s != 'var':
            R.eq('%s stats[%s]' % (key, s), L, t['stats ' + s], t[s], W,
                 'stats item')
    for s, m in (('h', 'histogram'), ('dh', 'density_histogram')):
        if s + ' counts' in r:
            for k in (' counts', ' edges'):
                R.eq(key + ' ' + s + k, L, t[s + k], t[m + k], W,
                     '%s is not %s' % (s, m))
    R.eq(key + ' std', L, (X(t['std']) ** 2).t, t['var'], W,
         'std is not the square root of var')
    z = X(L.term(x))
    if paths > 1:
        R.eq(key + ' stderr', L, (X(t['stderr']) * (paths - 1) ** .5).t,
             t['std'], W, 'stderr is not std/sqrt(paths - 1)')
    else:
        R.eq(key + ' mean', L, t['mean'], z[..., 0], W, 'mean of one path')
        for s in ('var', 'std', 'skew'):
            R.eq('%s %s' % (key, s), L, t[s], z[..., 0] * 0., W,
                 s + ' of one path')
        R.eq(key + ' stderr', L, t['stderr'], tm.const(float('nan')), W,
             'stderr of one path')
    for s in STATS:
        if paths > 1 or s != 'stderr':
            R.must('%s %s shape' % (key, s), np.shape(L.rep(r[s])) == vshape,
                   W, 'shape %s' % (np.shape(L.rep(r[s])),))
    # reading is free of effects
    again = results(L, a, vshape in ((), (1,)))
    for s in r:
        R.eq('%s %s again' % (key, s), L, L.term(again[s]), t[s], W,
             s + ' read twice')


def snapshots(R, key, vshape, paths):
    L = R.lab()
    x, y = L.arr('x', vshape + (paths,)), L.arr('y', vshape + (3,))
    a = live(L.call(L.public('montecarlo'), x, bins=L.dim(3)))
    single = vshape in ((), (1,))
    old = results(L, a, single)
    t = {k: L.term(v) for k, v in old.items()}
    R.accepts(key + ' update', L, L.meth(a, 'update', y), W, 'update')
    for s in old:
        R.eq('%s %s' % (key, s), L, L.term(old[s]), t[s], W,
             s + ' changed by a later update')
    new = results(L, a, single)
    nt = {k: L.term(v) for k, v in new.items()}
    fill = L.client('def fill(x, v):\n    x[...] = v\n')['fill']
    for s, v in new.items():
        if np.ndim(L.rep(v)) or L.cls_of(v) in ('Arr', 'ndarray'):
            o = L.call(fill, v, 7)
            if o.live:
                now = results(L, a, single)
                for k in ('mean', 'var', 'histogram counts', 'outpaths',
                          'histogram edges'):
                    if k in now:
                        R.eq('%s %s after altering %s' % (key, k, s), L,
                             L.term(now[k]), nt[k], W,
                             '%s altered through %s' % (k, s))
    R.must(key + ' paths', L.rep(L.get(a, 'paths')) == paths + 3, W,
           'number of paths')


def empty(R):
    with R.context('empty', W):
        L = R.lab()
        a = live(L.call(L.public('montecarlo')))
        R.must('empty paths', L.rep(L.get(a, 'paths')) == 0, W, 'paths')
        for n in ('vshape', 'shape'):
            R.rejects('empty ' + n, L, L.run(lambda: L.ip.getattr(a, n)), W,
                      n + ' of an empty instance', {'ValueError'})
        for n in ('var', 'std', 'skew', 'kurtosis'):
            R.rejects('empty ' + n, L, L.meth(a, n), W,
                      n + ' of an empty instance',
                      {'ValueError', 'TypeError', 'AttributeError'})
