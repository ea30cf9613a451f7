"""Diagnostics."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import sde

META = {
    'title': 'Collecting diagnostic info never changes simulation results',
    'statement':
    'For every process class and user-defined SDE, the values returned and '
    'the sequence of source realizations requested are the same whether '
    'getinfo is True or False. With getinfo False nothing is written to the '
    'info dictionary; with True, info is written to the dictionary passed by '
    'the user, reports the initial and extreme times, and each run starts '
    'its counts afresh.',
    'over': ['inputs', 'configurations', 'histories'],
    'quant': 'all process classes, sources, timelines, initial indexes, '
             'parameters; repeated runs',
    'why': 'Tests run with the default setting; a diagnostic hook drawing '
           'numbers, or writing to the state it inspects, changes results '
           'only in comparison with a run not made by any test.',
    'files': ['integration.py'],
    'mech': [('info_begin, info_next, info_store, info_end methods',
              'sdepy/integration.py'),
             ('getinfo handling in paths_generator and integrator',
              'sdepy/integration.py')],
    'technique': 'relational abstract interpretation: value numbers and '
                 'call sequences of two runs differing in getinfo',
    'note': 'Decided for all parameter values and sources on 3-point '
            'timelines with intermediate steps.',
}
W = 'sdepy/integration.py '
CLASSES = ('wiener_process', 'lognorm_process', 'ornstein_uhlenbeck_process',
           'hull_white_process', 'hull_white_1factor_process',
           'cox_ingersoll_ross_process', 'full_heston_process',
           'heston_process', 'jumpdiff_process', 'merton_jumpdiff_process',
           'kou_jumpdiff_process')


def src(L, name, shape, counts=False):
    """User-defined source; counts: exposes dn_value after each call."""
    s = L.source(name, shape[-1], shape[:-1])
    if counts:
        s.attrs['dn_value'] = L.arrt(tm.leaf('dn_' + name, shape, 'i8', 'int'))
    return s


def shapes(cls, vshape):
    if cls == 'hull_white_process':
        return vshape + (2,)
    if 'heston' in cls:
        return (2,) if vshape == () else vshape[:-1] + (2 * vshape[-1],)
    return vshape


def build(L, cls, vshape, **kw):
    w = shapes(cls, vshape) + (3,)
    kw['dw'] = src(L, 'W', w)
    if 'jump' in cls:
        kw['dj'] = src(L, 'J', w, True)
    if cls == 'hull_white_process':
        kw['factors'] = L.dim(2)
    return L.ok(L.public(cls), paths=L.dim(3),
                vshape=tuple(L.dim(n) for n in vshape), **kw)


def check(R):
    R.explanation = (
        'Every process class is integrated abstractly twice, with getinfo '
        'set and not set, on the same symbolic sources and timeline; value '
        'numbers of results and the sequences of source calls must agree.')
    R.rule = ('one obligation per (class, vshape, i0) for values, calls and '
              'contents of info')
    R.floor = 40
    for cls in CLASSES:
        for vshape in ((), (2,)):
            for i0 in (0, 1, -1):
                if i0 == 1 and vshape:
                    continue
                key = '%s vshape=%s i0=%d' % (cls, vshape, i0)
                with R.context(key, W + cls):
                    pair(R, key, cls, vshape, i0)
    reset(R)
    user(R)


def results(L, v):
    r = L.ip.prim(lambda: L.ip.rec(v)) if isinstance(v, Ref) else v
    vs = r.items if isinstance(r, Tup) else [v]
    return [L.term(x) for x in vs]


def run(L, P, tt):
    n0 = len(L.ip.events)
    z = results(L, L.ok(P, tt))
    ev = [(e.info['name'], e.info['terms']) for e in L.ip.events[n0:]
          if e.kind == 'user_call']
    return z, ev


def pair(R, key, cls, vshape, i0):
    L = R.lab()
    tt = L.timeline('t', (.1, .7, 1.5))
    st = L.timeline('s', (.3, .9))
    out = []
    for flag in (True, False):
        d = L.lent(L.v({})) if flag else L.v({})
        P = build(L, cls, vshape, i0=L.dim(i0), steps=st, getinfo=flag,
                  info=d)
        out.append(run(L, P, tt) + (d,))
    (z1, e1, d1), (z2, e2, d2) = out
    if len(z1) != len(z2):
        return R.bad(key, W + cls, 'results of different kind')
    for k, (a, b) in enumerate(zip(z1, z2)):
        R.eq('%s result %d' % (key, k), L, a, b, W + cls,
             'values with and without getinfo')
    same = [n for n, _ in e1] == [n for n, _ in e2]
    R.must(key + ' calls', same, W + cls, 'sources are called %d times with '
           'getinfo, %d without' % (len(e1), len(e2)))
    if same and e1:
        fl = [sde.stack([X(t) for _, ts in e for t in ts]).t
              for e in (e1, e2)]
        R.eq(key + ' call arguments', L, fl[0], fl[1], W + cls,
             'times passed to the sources')
    got = {k.v: v for k, v in L.ip.rec(d1).items.values()}
    R.must(key + ' nothing recorded without getinfo',
           not L.ip.rec(d2).items, W + cls, 'info is written to')
    for k, r in (('t0', i0), ('tmin', 0), ('tmax', -1)):
        if k not in got:
            R.bad('%s info %s' % (key, k), W + cls, 'not recorded in info')
        else:
            R.eq('%s info %s' % (key, k), L, L.term(got[k]),
                 X(L.term(tt))[r], W + cls, 'info')


def reset(R):
    for cls in CLASSES:
        key = 'second run of ' + cls
        with R.context(key, W + cls):
            L = R.lab()
            tt = L.timeline('t', (.1, .7, 1.5))
            d = L.lent(L.v({}))
            P = build(L, cls, (), info=d)
            snaps = []
            for rep in range(2):
                L.ok(P, tt)
                snaps.append({k.v: L.term(v) for k, v in
                              L.ip.rec(d).items.values()})
            a, b = snaps
            ok = set(a) == set(b)
            R.must(key, ok, W + cls, 'different info after a second run')
            for k in sorted(set(a) & set(b)):
                R.eq('%s: %s' % (key, k), L, b[k], a[k], W + cls,
                     'info %s after a second run' % k)


def user(R):
    """Hooks of user-defined SDEs are called only with getinfo."""
    for flag in (True, False):
        key = 'user hooks, getinfo=%s' % flag
        with R.context(key, W + 'SDE'):
            L = R.lab()
            c = L.client('''
class my_SDE(SDE):
    def sde(self, t, x):
        return {'dt': 1., 'dw': 2.}
    def info_begin(self):
        H(1)
    def info_next(self):
        H(2)
    def info_store(self):
        H(3)
    def info_end(self):
        H(4)
class f(my_SDE, integrator):
    pass
''', H=L.uf('H', (), 'raw'))
            P = L.ok(c['f'], paths=L.dim(3), dw=L.source('W', 3, ()),
                     getinfo=flag, steps=L.timeline('s', (.3, .9)))
            L.ok(P, L.timeline('t', (.1, .7, 1.5)))
            got = [int(tm.REP.ev(e.info['terms'][0]))
                   for e in sde.calls(L, 'H')]
            want = [1, 3, 2, 2, 3, 2, 2, 3, 4] if flag else []
            R.must(key, got == want, W + 'SDE', 'hooks called as %s, '
                   'specified %s' % (got, want))
