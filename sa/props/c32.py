"""Increments, derivatives and integrals along the timeline."""
import numpy as np
from ..lab import *
from .. import terms as tm

META = {
    'title': 'tdiff, tder and tint are increments, derivatives and integrals',
    'statement':
    'p.tdiff(dt_exp, fwd) has values (p[i+1] - p[i])/(t[i+1] - t[i])**dt_exp '
    'at time t[i] if fwd, else t[i+1]; dt_exp defaults to 0, giving plain '
    'increments, and fwd to True. p.tder() is p.tdiff(dt_exp=1), and '
    'p.tint() is the process on the same timeline starting at 0, whose '
    'increments are p[i]*(t[i+1] - t[i]), so that each undoes the other. '
    'This holds for every values shape, number of paths and timeline, and '
    'integer values and timelines are not truncated.',
    'over': ['inputs', 'configurations'],
    'quant': 'all processes and timelines, exponents and directions',
    'why': 'Tests use evenly spaced or sampled timelines of floats.',
    'files': ['infrastructure.py'],
    'mech': [('tdiff, tder, tint', 'sdepy/infrastructure.py class process')],
    'technique': 'abstract interpretation; value numbers of results',
    'note': 'Decided per rank, number of times and dtype, for all values and '
            'spacings; exact arithmetic.',
}
W = 'sdepy/infrastructure.py process.tdiff'
SHAPES = ((), (2,), (3, 2))


def check(R):
    R.explanation = ('Methods are analysed on unknown processes; value '
                     'numbers are compared with the specified formulas.')
    R.rule = 'one obligation per (method, values shape, dtype, options)'
    R.floor = 200
    for vshape in SHAPES:
        for T in (2, 4):
            for dt in ('f8', 'i8', 'c16'):
                for tdt in ('f8', 'i8'):
                    key = 'vshape=%s times=%d values %s times %s' % (
                        vshape, T, dt, tdt)
                    with R.context(key, W):
                        one(R, key, vshape, T, dt, tdt)
    with R.context('single time', W):
        L = R.lab()
        p = L.process('p', (.5,), (1, 2, 3))
        q = L.meth(p, 'tint').value
        R.eq('single time', L, L.term(q), np.zeros((1, 2, 3)), W, 'tint')


def one(R, key, vshape, T, dt, tdt):
    reps = (.2, .7, 1.1, 2.)[:T] if tdt == 'f8' else (0, 2, 5, 6)[:T]

    def start():
        L = R.lab()
        tl = L.timeline('t', reps, tdt)
        p = L.process('p', tl, (T,) + vshape + (3,),
                      'int' if dt == 'i8' else 'real', dt)
        t = X(L.term(L.get(p, 't')))
        z = X(L.term(p))
        h = (t[1:] - t[:-1]).reshape((T - 1,) + (1,) * (len(vshape) + 1))
        return L, p, t, z, h
    L, p, t, z, h = start()

    def run(k, name, want, tt, *a, **kw):
        o = L.meth(p, name, *a, **kw)
        if not o.live:
            raise Rejected(o)
        q = o.value
        R.must('%s %s type' % (key, k), L.cls_of(q) == 'process', W,
               'not a process')
        R.eq('%s %s' % (key, k), L, L.term(q), want, W, 'values')
        R.eq('%s %s t' % (key, k), L, L.term(L.get(q, 't')), tt, W,
             'timeline')
        R.eq('%s %s process' % (key, k), L, L.term(p), z, W,
             'process after the call')
        return q
    d = z[1:] - z[:-1]
    run('tdiff()', 'tdiff', d, t[:-1])
    run('tdiff(0)', 'tdiff', d, t[:-1], 0)
    run('tdiff(fwd=False)', 'tdiff', d, t[1:], fwd=False)
    run('tdiff(1)', 'tdiff', d / h, t[:-1], 1)
    run('tdiff(dt_exp=.5)', 'tdiff', d / h ** .5, t[:-1], dt_exp=.5)
    run('tdiff(1, False)', 'tdiff', d / h, t[1:], 1, False)
    run('tdiff(fwd=1)', 'tdiff', d, t[:-1], fwd=1)
    run('tdiff(fwd=0)', 'tdiff', d, t[1:], fwd=0)
    run('tdiff(.5, fwd=True)', 'tdiff', d / h ** .5, t[:-1], .5, fwd=True)
    e = L.num('e')
    run('tdiff(e)', 'tdiff', d / h ** X(e.t), t[:-1], e)
    run('tdiff(-1.)', 'tdiff', d * h, t[:-1], -1.)
    run('tder()', 'tder', d / h, t[:-1])
    cs = NPX.concatenate((z[:1] * 0, (z[:-1] * h).cumsum(axis=0)), axis=0)
    q = run('tint()', 'tint', cs, t)
    # repeated: increments of time are cached
    run('tder() again', 'tder', d / h, t[:-1])
    o = L.meth(q, 'tder')
    if not o.live:
        raise Rejected(o)
    R.eq(key + ' tint tder', L, L.term(o.value), z[:-1], W,
         'derivative of the integral')
    o = L.meth(L.meth(p, 'tder').value, 'tint')
    if T > 2:
        if not o.live:
            raise Rejected(o)
        R.eq(key + ' tder tint', L, L.term(o.value),
             (z - z[:1])[:-1], W, 'integral of the derivative')
