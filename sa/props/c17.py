"""Timelines."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import sde

META = {
    'title': 'Integration timelines are validated, kept, and stepped in floats',
    'statement':
    'A process can be integrated along any one-dimensional, strictly '
    'increasing sequence of numbers (array of any real data type, list, '
    'tuple); any other timeline (more dimensions, repeated or decreasing '
    'points, undefined points) is rejected before anything is simulated. The '
    'result carries exactly the given timeline, while steps and increments '
    'are computed in floats also on integer, unsigned or boolean timelines, '
    'so that values do not depend on the data type used for the times.',
    'over': ['inputs', 'configurations'],
    'quant': 'all timelines, data types of times, steps and coefficients',
    'why': 'Tests use a few well-formed float timelines; wrap-around of '
           'unsigned increments and truncation of steps on integer timelines '
           'appear only in particular combinations.',
    'files': ['integration.py'],
    'mech': [('paths_generator.__call__', 'sdepy/integration.py'),
             ('paths_generator.pace', 'sdepy/integration.py')],
    'technique': 'abstract interpretation with dtype domain and value '
                 'numbers; reachability of normal exits',
    'note': 'Decided per data type and order type of the timeline, for all '
            'coefficients and sources.',
}
W = 'sdepy/integration.py paths_generator.__call__'
SRC = '''
@integrate
def f(t, x):
    return {'dt': A(t, x), 'dw': B(t, x)}
'''


def check(R):
    R.explanation = (
        'A user-defined SDE is integrated abstractly along timelines of '
        'every data type, whose value numbers must agree with the recursion '
        'over the same times as real numbers; malformed timelines must have '
        'no normal exit and no draw before the exception.')
    R.rule = ('one obligation per (dtype, steps, i0), per form of timeline '
              'and per malformed timeline')
    R.floor = 20
    for dt in ('int64', 'int32', 'int8', 'uint8', 'uint64', 'bool',
               'float64', 'float32'):
        reps = (0, 1) if dt == 'bool' else (1, 3, 4, 8)
        for i0 in ((0, -1) if dt == 'bool' else (0, 2, -1)):
            for steps in (None, 4, (1.5, 3.25)):
                if dt == 'float32' and steps == 4:
                    continue
                key = 'times of %s, i0=%d, steps %s' % (dt, i0, steps)
                with R.context(key, W):
                    values(R, key, dt, reps, i0, steps)
    for form in ('list', 'tuple', 'int list'):
        key = 'timeline as ' + form
        with R.context(key, W):
            L = R.lab()
            c = client(L)
            if form == 'int list':
                ts = [L.dim(n) for n in (1, 3, 4)]
                line = [(X(tm.const(float(n))), float(n)) for n in (1, 3, 4)]
            else:
                ts = [L.time('t%d' % k, r) for k, r in
                      enumerate((.1, .5, 1.4))]
                line = [(X(t.t), r) for t, r in zip(ts, (.1, .5, 1.4))]
            P = L.ok(c['f'], paths=L.dim(3), dw=L.source('W', 3, ()))
            z = L.ok(P, tuple(ts) if form == 'tuple' else ts)
            R.eq(key, L, L.term(z), spec(line, line, 0), W,
                 'integrated values')
    bad(R)


def client(L):
    return L.client(SRC, A=L.uf('A', ()), B=L.uf('B', ()))


def spec(g, line, i0):
    def step(x, s, ds):
        return x + sde.ufx('A', (), s, x) * ds + \
            sde.ufx('B', (), s, x) * sde.ufx('W', (3,), s, ds)
    return sde.stack(sde.recursion(g, line, i0, NPX.ones((3,)), step))


def values(R, key, dt, reps, i0, steps):
    L = R.lab()
    c = client(L)
    val = np.array(reps).astype(dt)
    tt = L.arrt(tm.leaf('t', val.shape, dt, 'ord',
                        tuple(float(r) for r in reps)))
    line = [(X(tm.const(float(r))), float(r)) for r in reps]
    if dt.startswith('float'):
        line = sde.points(L, tt)
    st = pts = None
    if isinstance(steps, int):
        st, pts = L.dim(steps), sde.linsteps(line, steps)
    elif steps:
        st = L.timeline('s', steps)
        pts = sde.points(L, st)
    g = sde.grid(line, pts)
    P = L.ok(c['f'], paths=L.dim(3), i0=L.dim(i0), steps=st,
             dw=L.source('W', 3, ()))
    z = L.ok(P, tt)
    t = L.get(z, 't')
    got = np.asarray(L.rep(t))
    R.must(key + ' timeline', got.dtype == val.dtype and
           np.array_equal(got, np.asarray(L.rep(tt))), W,
           'the result has another timeline (%s %s)' % (got, got.dtype))
    R.eq(key, L, L.term(z), spec(g, line, i0), W, 'integrated values',
         **({'rtol': 1e-4} if dt == 'float32' else {}))


def bad(R):
    nan = float('nan')
    for name, reps in (
            ('decreasing', (1.5, .7, 0.)), ('not sorted', (0., 1.5, .7)),
            ('repeated point', (0., .7, .7, 1.5)),
            ('two dimensions', ((0., .7), (1., 1.5))),
            ('a column', ((0.,), (.7,))),
            ('undefined points', (0., nan, 1.)),
            ('undefined repeated points', (0., nan, nan))):
        key = 'timeline ' + name
        with R.context(key, W):
            L = R.lab()
            c = client(L)
            tt = L.arrt(tm.const(np.array(reps))) if 'undef' in name else \
                L.timeline('t', reps)
            P = L.ok(c['f'], paths=L.dim(3), dw=L.source('W', 3, ()))
            n0 = len(sde.calls(L, 'A'))
            R.rejects(key, L, L.call(P, tt), W, 'a timeline with ' + name)
            R.must(key + ' before simulating', not sde.calls(L, 'W') and
                   len(sde.calls(L, 'A')) == n0, W, 'simulation starts '
                   'along a malformed timeline')
    key = 'a number as timeline'
    with R.context(key, W):
        L = R.lab()
        c = client(L)
        P = L.ok(c['f'], paths=L.dim(3), dw=L.source('W', 3, ()))
        R.rejects(key, L, L.call(P, L.time('t', .4)), W, 'a number')
