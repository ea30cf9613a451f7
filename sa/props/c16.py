"""Integration from an inner or final point of the timeline."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import sde
from . import c18

META = {
    'title': 'Integration runs backward and forward from the initial point i0',
    'statement':
    'With i0 indexing (positively or negatively) any point of the timeline, '
    'the initial condition is set at that time, the later points are obtained '
    'by integrating forward and the earlier ones by integrating backward '
    '(negative time increments passed to the sources), both from the same '
    'initial condition and through the requested steps; from the first point '
    '(i0=0) or the last one (i0=-1 or i0=len(timeline)-1) there is a single '
    'run, and the initial condition is set once. No timeline point is '
    'left undefined, and an index out of range or not an integer is '
    'rejected.',
    'over': ['inputs', 'configurations'],
    'quant': 'all timelines, positions of i0 (positive or negative), steps, '
             'coefficients and sources',
    'why': 'Tests integrate backward in one or two cases; equivalent '
           'negative indexes, steps interleaved on both sides and initial '
           'conditions lost between the two runs need all combinations.',
    'files': ['integration.py'],
    'mech': [('paths_generator.__call__', 'sdepy/integration.py'),
             ('paths_generator._generate_paths', 'sdepy/integration.py')],
    'technique': 'abstract interpretation to value numbers with '
                 'uninterpreted coefficients and sources',
    'note': 'Decided for all values in timelines of 1 to 4 points, every '
            'i0 in range.',
}
W = 'sdepy/integration.py paths_generator.__call__'


def check(R):
    R.explanation = (
        'A user-defined SDE with uninterpreted coefficients and source is '
        'integrated abstractly from every point of symbolic timelines; its '
        'value number must be that of the specified backward and forward '
        'recursions.')
    R.rule = 'one obligation per (timeline, i0, steps) plus rejected indexes'
    R.floor = 25
    for reps in ((.4,), (0., 1.), (0., .7, 1.5), (-.5, .1, .7, 1.5)):
        n = len(reps)
        for i0 in range(-n, n):
            for steps in (None, (-.2, .3, .7, .9), 4):
                key = '%d points, i0=%d, steps %s' % (n, i0, steps)
                with R.context(key, W):
                    one(R, key, reps, i0, steps)
    for i0, name in ((2, 'out of range'), (-3, 'negative out of range'),
                     (slice(None), 'a slice'), (None, 'None')):
        key = 'i0 ' + name
        with R.context(key, W):
            L = R.lab()
            c = L.client(c18.SRC['constant coefficients'])
            P = L.ok(c['f'], i0=L.v(i0) if not isinstance(i0, int)
                     else L.dim(i0))
            R.rejects(key, L, L.call(P, L.timeline('t', (0., 1.))), W,
                      'an initial index ' + name)
    key = 'state-dependent initial condition'
    with R.context(key, W):
        L = R.lab()
        c = L.client('''
class my_SDE(SDE):
    def init(self, t, out_x, x0=1.):
        out_x[...] = I(t, x0)
    def sde(self, t, x):
        return {'dt': A(t, x), 'dw': B(t, x)}
class f(my_SDE, integrator):
    pass
''', A=L.uf('A', ()), B=L.uf('B', ()), I=L.uf('I', ()))
        run(R, key, L, c['f'], (0., .7, 1.5), 1, None, lambda x0, t: sde.ufx(
            'I', (), t, x0), L.num('x0'))

    for reps in ((.4,), (0., 1.), (0., .7, 1.5), (-.5, .1, .7, 1.5)):
        n = len(reps)
        for i0 in sorted({0, -1, n - 1}):
            for steps in (None, 4):
                for of in (None, 3):
                    key = 'set once: %d points, i0=%d, steps %s%s' % (
                        n, i0, steps, ', system' if of else '')
                    with R.context(key, W):
                        once(R, key, reps, i0, steps, of)


ONCE = """
class my_SDE(SDE):
    def init(self, t, out_x, x0=1.):
        INIT(t)
        out_x[...] = x0
    def sde(self, t, x):
        return {'dt': A(t, x)}
class f(my_SDE, integrator):
    pass
"""
ONCES = """
class my_SDEs(SDEs):
    q = 3
    def init(self, t, out_X, x0=1.):
        INIT(t)
        super().init(t, out_X, x0)
    def sde(self, t, x, y, z):
        return {'dt': A(t, x)}, {'dt': x}, {'dt': y}
class f(my_SDEs, integrator):
    pass
"""


def once(R, key, reps, i0, steps, of):
    L = R.lab()
    c = L.client(ONCES if of else ONCE, A=L.uf('A', ()), INIT=L.uf('J', ()))
    P = L.ok(c['f'], paths=L.dim(3), i0=L.dim(i0),
             steps=L.dim(steps) if steps else None)
    tt = L.timeline('t', reps)
    L.ok(P, tt)
    ev = sde.calls(L, 'J')
    R.must(key, len(ev) == 1, W, 'the initial condition is set %d times, in '
           'one run' % len(ev))
    if ev:
        R.eq(key + ' time', L, ev[0].info['terms'][0],
             sde.points(L, tt)[i0][0].t, W, 'time of the initial condition')


def one(R, key, reps, i0, steps):
    L = R.lab()
    c = L.client('''
@integrate
def f(t, x):
    return {'dt': A(t, x), 'dw': B(t, x)}
''', A=L.uf('A', ()), B=L.uf('B', ()))
    run(R, key, L, c['f'], reps, i0, steps, lambda x0, t: x0, L.num('x0'))


def run(R, key, L, f, reps, i0, steps, init, x0):
    tt = L.timeline('t', reps)
    line = sde.points(L, tt)
    st, pts = None, None
    if isinstance(steps, int):
        st, pts = L.dim(steps), sde.linsteps(line, steps)
    elif steps:
        st = L.timeline('s', steps)
        pts = sde.points(L, st)
    g = sde.grid(line, pts)
    P = L.ok(f, paths=L.dim(3), x0=x0, i0=L.dim(i0), steps=st,
             dw=L.source('W', 3, ()))
    z = L.ok(P, tt)

    def step(x, s, ds):
        return x + sde.ufx('A', (), s, x) * ds + \
            sde.ufx('B', (), s, x) * sde.ufx('W', (3,), s, ds)
    X0 = NPX.broadcast_to(init(X(L.term(x0)), line[i0][0]), (3,))
    want = sde.stack(sde.recursion(g, line, i0, X0, step))
    R.eq(key, L, L.term(z), want, W, 'integrated values')
    R.eq(key + ' timeline', L, L.term(L.get(z, 't')), L.term(tt), W,
         'timeline of the result')
