"""Reproducibility."""
from ..lab import *
from ..randomness import stub
from ..sweep import sweep, in_library
from .c33 import live
from .c20 import CLASSES, results
from .c01 import SOURCES, make

META = {
    'title': 'the same generator state gives the same results',
    'statement':
    'With the same arguments and a generator in the same state, sources, '
    'processes, integrated functions and jump distributions return the same '
    'values, drawing the same variates: results do not depend on former use '
    'of the same object (except for sources with memory, which keep the '
    'values realized) or of others, on the order in which sets are iterated '
    'or hashes of objects, on identities of objects, on the clock or on the '
    'environment. A process called again gives a realization with nothing '
    'left of the former one.',
    'over': ['inputs', 'histories', 'configurations'],
    'quant': 'all sources, processes and integrated functions, all former '
             'uses, all orders of iteration of sets',
    'why': 'Tests run once, in one order, with one hash seed; results kept '
           'from a former call, or set order in the order of draws, show '
           'only when compared.',
    'files': ['infrastructure.py', 'integration.py'],
    'mech': [('SDE sources setup', 'sdepy/integration.py'),
             ('paths_generator.__call__', 'sdepy/integration.py')],
    'technique': 'abstract interpretation; equality of value numbers of two '
                 'uses aligned on the same draws, under both orders of '
                 'iteration of sets; effect analysis for ambient inputs',
    'note': 'Decided for the sources and processes listed and histories of '
            'up to three uses.',
}
W = 'sdepy/infrastructure.py '
WI = 'sdepy/integration.py '

SEVERAL = '''
class my_SDE(SDE):
    sources = {'dt', 'dw', 'dn', 'du', 'dv', 'dz'}
    def sde(self, t, x, a=1., b=2., c=3.):
        return {'dz': b, 'dn': c, 'dv': c, 'du': a, 'dt': a, 'dw': x}
    def source_du(self, du=None):
        return wiener_source(paths=self.paths, vshape=self.vshape,
                             rng=self.rng)
    def source_dv(self, alpha=1., beta=2.):
        return poisson_source(paths=self.paths, vshape=self.vshape,
                              rng=self.rng, lam=alpha*beta)
    def source_dz(self, gamma=1., delta=2.):
        return wiener_source(paths=self.paths, vshape=self.vshape,
                             rng=self.rng)
class f(my_SDE, integrator):
    pass
'''
INTEGRATED = {
    'one equation': '''
@integrate
def f(t, x, a=1., b=2.):
    return {'dt': a, 'dw': x, 'dn': 2*a, 'dj': a*x}
''',
    'system': '''
@integrate(q=2)
def f(t, x=1., y=2., a=1., b=2.):
    return {'dt': a*y, 'dw': x}, {'dt': b*x, 'dw': y*x}
''',
    'several sources': SEVERAL,
    'system of several sources': '''
class my_SDEs(SDEs):
    q = 2
    sources = {'dt', 'dw', 'dj', 'dn'}
    def sde(self, t, x, y, zeta=1., alpha=2., beta=3., gamma=4.):
        return ({'dt': alpha*y, 'dw': x*zeta, 'dn': beta},
                {'dt': beta*x, 'dj': gamma*y})
class f(my_SDEs, integrator):
    pass
''',
}


def check(R):
    R.explanation = (
        'Each source, process and integrated function is used, then used '
        'again, after a second one was made and used, and under the other '
        'order of iteration of sets; with draws renumbered from the same '
        'number, value numbers of results must agree. No analysed context '
        'of any property may read the clock, the environment, identities or '
        'hashes.')
    R.rule = ('one obligation per (source, process or function, history), '
              'and per property the contexts of which are analysed')
    R.floor = 100
    for name in SOURCES:
        with R.context(name, W + name.split()[0]):
            pair(R, name, W + name.split()[0], lambda L, g: (
                lambda: make(L, name, rng=g), lambda s: source(L, s, name)),
                not name.startswith('true'))
    for name in CLASSES:
        for vshape in ((), (2,)):
            key = '%s vshape=%s' % (name, vshape)
            with R.context(key, WI + name):
                pair(R, key, WI + name, lambda L, g: (
                    lambda: live(L.call(
                        L.public(name), rng=g, paths=L.dim(3),
                        vshape=tuple(L.dim(n) for n in vshape),
                        steps=L.timeline('s', (.3, .9)))),
                    lambda p: results(L, live(L.call(
                        p, L.timeline('t', (.1, .7, 1.5)))))), True)
    for name, src in INTEGRATED.items():
        key = 'integrated function, ' + name
        with R.context(key, WI + 'integrate'):
            pair(R, key, WI + 'integrate', lambda L, g: (
                lambda: live(L.call(integrated(L, name, src), rng=g,
                                    paths=L.dim(3))),
                lambda p: results(L, live(L.call(
                    p, L.timeline('t', (.1, .7, 1.5)))))), True)
    everywhere(R)


def integrated(L, name, src):
    return L.client(src)['f']


def source(L, s, name):
    t, dt = L.time('t', .7), L.gap('dt', .4)
    out = []
    if name.startswith('true'):
        for k, r in (('c', 1.8), ('a', -.6), ('b', .9)):
            out.append(L.term(live(L.call(s, L.time(k, r)))))
    out.append(L.term(live(L.call(s, t, dt))))
    return out


def draws(L, n0):
    return [(e.kind, e.info.get('name')) for e in L.ip.events[n0:]
            if e.kind in ('draw', 'jump_draw')]


def one(L, uses, again):
    """Results and draws of uses in a history."""
    ip = L.ip
    make_, use = uses
    nd = ip.ndraw
    out = {}

    def record(what, fn):
        ip.ndraw = nd
        n0 = len(ip.events)
        z = fn()
        out[what] = z, draws(L, n0)
    a = make_()
    record('first', lambda: use(a))
    if again:
        record('used again', lambda: use(a))
    b = make_()
    record('another object', lambda: use(b))
    if again:
        record('used again after another', lambda: use(a))
    return out


def pair(R, key, where, uses, again):
    ref = None
    for order, salt in ((1, 0), (-1, 1)):
        L = R.lab(set_order=order, hash_salt=salt)
        got = one(L, uses(L, stub(L, 'g')), again)
        if ref is None:
            ref = got['first']
        for what, (z, d) in got.items():
            if order > 0 and what == 'first':
                continue
            k = '%s: %s%s' % (key, what, '' if order > 0 else
                              ', sets iterated in another order')
            if d != ref[1]:
                R.bad(k, where, 'draws %s, were %s' % (d[:6], ref[1][:6]))
                continue
            if len(z) != len(ref[0]):
                R.bad(k, where, 'number of results')
                continue
            for x, y in zip(z, ref[0]):
                R.eq(k, L, x, y, where, 'value differs from that of the '
                     'first use')


def effects(name, key, L, evs, report):
    for e in evs:
        if e.kind == 'ambient' and in_library(e):
            report(('bad', key, e.site, 'reads %s' % e.info['name']))


def everywhere(R):
    ctx, fns = 0, set()
    for name, found, nctx, fn in sweep(effects, R.seed):
        key = 'contexts of %s' % name
        ctx += nctx
        fns |= set(fn)
        bad = [f for f in found if f[0] == 'bad']
        fail = [f for f in found if f[0] == 'failed']
        if bad:
            R.bad(key, bad[0][2], '%s, in the context %s' % (
                bad[0][3], bad[0][1]))
        elif fail:
            R.unknown(key, fail[0][3])
        else:
            R.good(key, '%d contexts' % nctx)
    R.extra['swept_contexts'] = ctx
    R.extra['swept_functions'] = len(fns)
