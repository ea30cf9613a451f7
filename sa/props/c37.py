"""Piecewise constant processes."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c33 import live, stack

META = {
    'title': 'piecewise() interpolates to a piecewise constant function',
    'statement':
    'A process built by piecewise(t, x= or v=, mode) takes, at any time, the '
    'value of the segment the time falls in: with mode mid, by default, the '
    'value of the closest t[i]; with mode forward x[i] between t[i] and '
    't[i+1], with backward x[i+1], excluding boundaries; and the first and '
    'last values outside the timeline. It has the values shape, paths and '
    'dtype given, behaves so by default upon evaluation, rebase and as an '
    'increment; the arguments and other processes are not affected. Other modes raise '
    'ValueError.',
    'over': ['inputs', 'configurations'],
    'quant': 'all timelines, values, shapes, modes and times of evaluation',
    'why': 'Tests evaluate evenly spaced timelines at a few times.',
    'files': ['infrastructure.py'],
    'mech': [('piecewise', 'sdepy/infrastructure.py')],
    'technique': 'abstract interpretation; value numbers at a time in each '
                 'part of each segment',
    'note': 'Decided per mode, shape, number of times and part of segment, '
            'for all values and spacings. Values at boundaries are not '
            'specified.',
}
W = 'sdepy/infrastructure.py piecewise'
FRAC = (1e-9, .02, .4, .49, .5 - 1e-9, .5 + 1e-9, .51, .6, .97, 1 - 1e-9)


def check(R):
    R.explanation = (
        'Piecewise processes of unknown timeline and values are evaluated '
        'abstractly at times inside each half of each segment and outside.')
    R.rule = 'one obligation per (mode, shape, dtype, entry point)'
    R.floor = 60
    for mode in (None, 'mid', 'forward', 'backward'):
        for vshape in ((), (2,), (3, 2)):
            for kind in 'xv':
                for n in (1, 2, 4):
                    key = 'mode=%s vshape=%s %s= times=%d' % (mode, vshape,
                                                              kind, n)
                    with R.context(key, W):
                        one(R, key, mode, vshape, kind, n)
        for dt in ('f4', 'c16'):
            key = 'mode=%s dtype %s' % (mode, dt)
            with R.context(key, W):
                one(R, key, mode, (2,), 'x', 3, dt)
        key = 'mode=%s given dtype' % (mode,)
        with R.context(key, W):
            one(R, key, mode, (2,), 'x', 3, 'f8', 'f4')
    for mode in ('zzz', 'front', ''):
        with R.context('mode=%r' % mode, W):
            L = R.lab()
            R.rejects('mode=%r' % mode, L, L.call(
                L.public('piecewise'), L.timeline('t', (.2, .7)),
                x=L.arr('x', (2, 3)), mode=mode), W, 'unknown mode',
                {'ValueError'})
    with R.context('process interface', W):
        L = R.lab()
        f = L.public('piecewise')
        t, x = L.timeline('t', (.2, .7)), L.arr('x', (2, 3))
        for k, kw in (('both', {'x': x, 'v': L.arr('v', (2,))}),
                      ('none', {}), ('shape', {'x': L.arr('y', (3, 2))})):
            R.rejects('process interface ' + k, L, L.call(f, t, **kw), W,
                      'invalid values', {'ValueError'})


def one(R, key, mode, vshape, kind, n, dt='f8', dtype=None):
    L = R.lab()
    reps = (.2, .7, 1.9, 2.4)[:n]
    t = L.timeline('t', reps)
    a = L.arr('a', (n,) + vshape + ((3,) if kind == 'x' else ()), 'real', dt)
    kw = {kind: a}
    if mode is not None:
        kw['mode'] = mode
    if dtype is not None:
        kw['dtype'] = L.v(np.dtype(dtype))
    tt, aa = X(L.term(t)), X(L.term(a))
    p = live(L.call(L.public('piecewise'), t, **kw))
    z = aa if kind == 'x' else aa[..., None]
    if dtype is not None:
        z = X(mk('cast', np.dtype(dtype), z.t))
    R.must(key + ' type', L.cls_of(p) == 'process' and
           tuple(int(i) for i in L.rep(L.get(p, 'vshape'))) == vshape and
           L.rep(L.get(p, 'paths')) == (3 if kind == 'x' else 1) and
           L.rep(L.get(p, 'dtype')) == np.dtype(dtype or dt), W,
           'type, values shape, paths or dtype of the process')
    s, want = [tt[0] - 1.5, tt[0] - .01], [z[0], z[0]]
    for i in range(n - 1):
        for f in FRAC:
            s.append(tt[i] + (tt[i + 1] - tt[i]) * f)
            j = {'forward': i, 'backward': i + 1}.get(
                mode, i if f < .5 else i + 1)
            want.append(z[j])
    s += [tt[n - 1] + .01, tt[n - 1] + 2.]
    want += [z[n - 1]] * 2
    s, want = stack(s), stack(want)
    sv = L.arrt(s.t)
    R.eq(key, L, L.term(live(L.call(p, sv))), want, W, 'value')
    q = live(L.meth(p, 'rebase', sv))
    R.eq(key + ' rebase', L, L.term(q), want, W, 'rebased values')
    if n > 1:
        d = live(L.call(p, L.arrt(s[0].t), L.arrt((s - s[0]).t)))
        R.eq(key + ' increment', L, L.term(d), want - want[0], W,
             'increment')
        o = L.process('o', reps, (n,) + vshape + (3,))
        so = L.time('so', .4)
        oz = X(L.term(o))
        R.eq(key + ' other process', L, L.term(live(L.call(o, so))),
             oz[0] + (oz[1] - oz[0]) * ((X(so.t) - X(L.term(
                 L.get(o, 't')))[0]) / (X(L.term(L.get(o, 't')))[1] -
                                        X(L.term(L.get(o, 't')))[0])), W,
             'interpolation of another process')
    R.eq(key + ' t', L, L.term(t), tt, W, 'given timeline')
    R.eq(key + ' values', L, L.term(a), aa, W, 'given values')
