"""Summary methods of processes."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c29 import alias

META = {
    'title': 'Summaries reduce paths, values or time, and nothing else',
    'statement':
    'pmin, pmax, psum, pmean, pvar and pstd return a one path process with '
    'the same timeline and values shape, holding that statistic across '
    'paths at each time and value; vmin to vstd a process with values of '
    'shape (), reducing all values axes at each time and path; tmin to tstd '
    'a constant process reducing time; and tcumsum the cumulative sum along '
    'time. Variances use divisor n - ddof, with ddof 0 by default; dtype is '
    'the type used, by default numpy\'s for such sums; means, variances and '
    'deviations of integers are floats and sums of booleans are counts. If an out array is given, it stores '
    'the values. The process is not altered.',
    'over': ['inputs', 'configurations'],
    'quant': 'all processes, values shapes, dtypes, ddof and outputs',
    'why': 'Tests check floats with some shapes; an axis or type mistake for '
           'others would pass.',
    'files': ['infrastructure.py'],
    'mech': [('pmin ... pstd, vmin ... vstd, tmin ... tstd, tcumsum',
              'sdepy/infrastructure.py class process')],
    'technique': 'abstract interpretation; value numbers of results against '
                 'numpy reductions over the specified axes',
    'note': 'Decided per values shape and dtype, for all values; numpy '
            'reductions are modelled.',
}
W = 'sdepy/infrastructure.py process.'
OPS = ('min', 'max', 'sum', 'mean', 'var', 'std')
SHAPES = ((), (2,), (1,), (3, 2), (2, 3, 2))


def axes(pre, vshape):
    n = len(vshape)
    return {'p': n + 1, 't': 0, 'v': tuple(range(1, n + 1))}[pre]


def reduce(z, op, pre, vshape, **kw):
    ax = axes(pre, vshape)
    return getattr(z, op)(axis=ax, keepdims=pre != 'v', **kw)


def rshape(pre, vshape, T, K):
    return {'p': (T,) + vshape + (1,), 't': (1,) + vshape + (K,),
            'v': (T, K)}[pre]


def check(R):
    R.explanation = (
        'Summary methods of unknown processes are analysed; their values, '
        'types and timelines are compared with the specified reductions.')
    R.rule = 'one obligation per (method, values shape, dtype, options)'
    R.floor = 500
    for pre in 'pvt':
        for op in OPS:
            name = pre + op
            for vshape in SHAPES:
                for dt in ('f8', 'f4', 'i8', 'i4', 'c16', 'b1'):
                    if dt == 'c16' and op in ('min', 'max'):
                        continue
                    key = '%s vshape=%s %s' % (name, vshape, dt)
                    with R.context(key, W + name):
                        plain(R, key, name, vshape, dt)
                with R.context('%s vshape=%s options' % (name, vshape),
                               W + name):
                    options(R, name, vshape)
            for T, K in ((1, 1), (1, 3), (3, 1)):
                key = '%s times=%d paths=%d' % (name, T, K)
                with R.context(key, W + name):
                    plain(R, key, name, (2,), 'f8', T, K)
    for vshape in SHAPES:
        for dt in ('f8', 'i8', 'i4', 'b1', 'c16'):
            key = 'tcumsum vshape=%s %s' % (vshape, dt)
            with R.context(key, W + 'tcumsum'):
                cumsum(R, key, vshape, dt)


def start(R, vshape, dt='f8', T=4, K=3):
    L = R.lab()
    p = L.process('p', (.2, .7, 1.1, 2.)[:T], (T,) + vshape + (K,),
                  'int' if dt in ('i8', 'i4') else 'bool' if dt == 'b1'
                  else 'real', dt)
    return L, p, X(L.term(p)), X(L.term(L.get(p, 't')))


def kind(op, dt):
    if op in ('mean', 'var', 'std') and dt in ('i8', 'i4', 'b1'):
        return {'dtype': np.dtype('f8')}
    return {}


def result(R, key, L, q, want, t, pre, vshape, T, K, name):
    w = W + name
    R.must(key + ' type', L.cls_of(q) == 'process', w, 'not a process')
    R.eq(key, L, L.term(q), want, w, 'values of the summary')
    got = L.rep(q)
    R.must(key + ' shape', got.shape == rshape(pre, vshape, T, K), w,
           'shape %s' % (got.shape,))
    if pre == 't':
        R.must(key + ' t', L.rep(L.get(q, 't')).shape == (1,), w,
               'not constant')
    else:
        R.eq(key + ' t', L, L.term(L.get(q, 't')), t, w, 'timeline')


def plain(R, key, name, vshape, dt, T=4, K=3):
    L, p, z, t = start(R, vshape, dt, T, K)
    op, pre = name[1:], name[0]
    o = L.meth(p, name)
    if not o.live:
        raise Rejected(o)
    want = reduce(z, op, pre, vshape, **kind(op, dt))
    result(R, key, L, o.value, want, t, pre, vshape, T, K, name)
    d, e = L.rep(o.value).dtype, tm_rep(want).dtype
    R.must(key + ' dtype', d == e or dt == 'c16', W + name,
           'values of type %s for type %s' % (d, dt))
    R.eq(key + ' process', L, L.term(p), z, W + name,
         'process after the call')


def tm_rep(x):
    return tm.REP.ev(x.t)


def options(R, name, vshape):
    op, pre = name[1:], name[0]
    key = '%s vshape=%s' % (name, vshape)
    T, K = 4, 3
    if op in ('var', 'std'):
        for ddof in (1, 2):
            L, p, z, t = start(R, vshape)
            o = L.meth(p, name, ddof=ddof)
            if not o.live:
                raise Rejected(o)
            result(R, '%s ddof=%d' % (key, ddof), L, o.value,
                   reduce(z, op, pre, vshape, ddof=ddof), t, pre, vshape, T,
                   K, name)
    if op not in ('min', 'max'):
        for dt in ('f4', 'c16'):
            L, p, z, t = start(R, vshape)
            o = L.meth(p, name, dtype=L.v(np.dtype(dt)))
            if not o.live:
                raise Rejected(o)
            result(R, '%s dtype=%s' % (key, dt), L, o.value,
                   reduce(z, op, pre, vshape, dtype=np.dtype(dt)), t, pre,
                   vshape, T, K, name)
            R.must('%s dtype=%s is used' % (key, dt),
                   L.rep(o.value).dtype == tm_rep(
                       reduce(z, op, pre, vshape,
                              dtype=np.dtype(dt))).dtype, W + name,
                   'dtype is ignored')
    L, p, z, t = start(R, vshape)
    out = L.lent(L.arr('out', rshape(pre, vshape, T, K)))
    o = L.meth(p, name, out=out)
    if not o.live:
        raise Rejected(o)
    want = reduce(z, op, pre, vshape)
    result(R, key + ' out', L, o.value, want, t, pre, vshape, T, K, name)
    R.eq(key + ' stored in out', L, L.term(out), want, W + name,
         'output array')
    R.must(key + ' out is returned', alias(L, o.value, out), W + name,
           'result does not use out')


def cumsum(R, key, vshape, dt):
    L, p, z, t = start(R, vshape, dt)
    o = L.meth(p, 'tcumsum')
    if not o.live:
        raise Rejected(o)
    want = z.cumsum(axis=0)
    w = W + 'tcumsum'
    R.eq(key, L, L.term(o.value), want, w, 'values')
    R.must(key + ' type', L.cls_of(o.value) == 'process' and
           L.rep(o.value).dtype == tm_rep(want).dtype, w, 'type of result')
    R.eq(key + ' t', L, L.term(L.get(o.value, 't')), t, w, 'timeline')
    if dt == 'f8':
        L, p, z, t = start(R, vshape)
        out = L.lent(L.arr('out', (4,) + vshape + (3,)))
        o = L.meth(p, 'tcumsum', out=out)
        if not o.live:
            raise Rejected(o)
        R.eq(key + ' out', L, L.term(out), z.cumsum(axis=0), w,
             'output array')
        o = L.meth(p, 'tcumsum', dtype=L.v(np.dtype('f4')))
        R.must(key + ' dtype is used', o.live and
               L.rep(o.value).dtype == np.dtype('f4'), w,
               'dtype is ignored')
