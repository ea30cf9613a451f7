"""Characteristic function and distribution estimates."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c33 import live, stack, value, REPS

META = {
    'title': 'chf and cdf are averages across paths, at each time and point',
    'statement':
    'p.chf(t, u) is the average across paths of exp(1j*u*p(t)), and p.cdf(t, '
    'x) the fraction of paths with p(t) <= x, equality included: arrays of '
    'shape t.shape + u.shape + vshape, each entry referring to that time, '
    'point and value. t and u may be of any shape; with u or x only, or with '
    't None, the times are those of the process and nothing is interpolated. '
    'With neither, TypeError is raised. The process is not altered.',
    'over': ['inputs', 'configurations'],
    'quant': 'all processes, shapes of t, u and x, and values',
    'why': 'Tests sample shapes; an axis mix-up between times, points and '
           'values can agree on the sampled ones.',
    'files': ['infrastructure.py'],
    'mech': [('chf, cdf', 'sdepy/infrastructure.py class process')],
    'technique': 'abstract interpretation; value numbers of each entry '
                 'against the average it stands for',
    'note': 'Decided per rank of t, u and values, for all values; estimates, '
            'not their convergence.',
}
TS = {'none': None, 'scalar': .8, 'one': (.8,), 'vector': (.35, .7, 3.),
      'matrix': ((.35, .7, 3.), (.1, .8, 1.9))}
US = {'scalar': (), 'one': (1,), 'vector': (2,), 'matrix': (2, 3)}


def check(R):
    R.explanation = ('Estimates of unknown processes are analysed; each entry '
                     'must be the average of the specified function of the '
                     'values of all paths.')
    R.rule = ('one obligation per (method, values shape, shape of times, '
              'shape of points)')
    R.floor = 100
    for name in ('chf', 'cdf'):
        for vshape in ((), (2,), (3, 2)):
            for tn in TS:
                for un in US:
                    w = 'sdepy/infrastructure.py process.' + name
                    key = '%s vshape=%s t %s u %s' % (name, vshape, tn, un)
                    with R.context(key, w):
                        one(R, key, w, name, vshape, tn, un)
        with R.context(name + ' without points', w):
            L = R.lab()
            p = L.process('p', REPS, (4, 2, 3))
            R.rejects(name + ' without points', L, L.meth(p, name), w,
                      'no points given', {'TypeError'})
    ties(R)


def one(R, key, w, name, vshape, tn, un):
    L = R.lab()
    p = L.process('p', REPS, (4,) + vshape + (3,))
    z, t = X(L.term(p)), X(L.term(L.get(p, 't')))
    u = L.num('u') if un == 'scalar' else L.arr('u', US[un])
    ush = US[un]
    ut = X(L.term(u))
    if TS[tn] is None:
        tsh, vals = (4,), [z[i] for i in range(4)]
    else:
        reps = np.array(TS[tn])
        tsh = reps.shape
        s = L.time('s', TS[tn]) if tsh == () else L.timeline('s', reps)
        st = X(L.term(s))
        vals = [value(z, t, st[i] if i else st, float(reps[i]), 'linear')
                for i in np.ndindex(tsh)]
    rows = []
    for v in vals:
        for j in np.ndindex(ush):
            a = ut[j] if j else ut
            rows.append((NPX.exp(1j * a * v) if name == 'chf' else
                         (v <= a) * 1.).mean(axis=-1))
    want = stack(rows).reshape(tsh + ush + vshape)
    if TS[tn] is None:
        R.eq(key + ' omitted', L, L.term(live(L.meth(p, name, u))), want, w,
             'estimate')
        k = {'chf': 'u', 'cdf': 'x'}[name]
        R.eq(key + ' keyword', L, L.term(live(L.meth(p, name, **{k: u}))),
             want, w, 'estimate')
        R.eq(key + ' None', L, L.term(live(L.meth(p, name, None, u))), want,
             w, 'estimate')
    else:
        R.eq(key, L, L.term(live(L.meth(p, name, s, u))), want, w,
             'estimate')
        k = {'chf': 'u', 'cdf': 'x'}[name]
        R.eq(key + ' keyword', L, L.term(live(L.meth(
            p, name, **{'t': s, k: u}))), want, w, 'estimate')
    R.eq(key + ' process', L, L.term(p), z, w, 'process after the call')


def ties(R):
    """Paths equal to the point are counted."""
    w = 'sdepy/infrastructure.py process.cdf'
    with R.context('cdf at values attained', w):
        L = R.lab()
        p = L.process('p', REPS, (4, 3))
        z = X(L.term(p))
        got = live(L.meth(p, 'cdf', L.arrt(z[1].t)))
        rows = [(z[i] <= z[1, j]) for i in range(4) for j in range(3)]
        R.eq('cdf at values attained', L, L.term(got),
             (stack(rows) * 1.).mean(axis=-1).reshape((4, 3)), w,
             'estimate at values attained')
        # and paths a rounding above are not
        for what, e in (('above', 1e-13), ('below', -1e-13)):
            got = live(L.meth(p, 'cdf', L.arrt((z[1] * (1 + e)).t)))
            rows = [(z[i] <= z[1, j] * (1 + e)) for i in range(4)
                    for j in range(3)]
            R.eq('cdf just %s values attained' % what, L, L.term(got),
                 (stack(rows) * 1.).mean(axis=-1).reshape((4, 3)), w,
                 'estimate just %s values attained' % what)
