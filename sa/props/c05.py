"""Process-wide settings."""
import numpy as np
from ..lab import *
from .. import terms as tm
from ..randomness import stub
from ..sweep import sweep, in_library
from .c33 import live
from . import c21, c27

META = {
    'title': 'process-wide settings are left, and seen, as found',
    'statement':
    'Any call into sdepy, whether it returns or fails at any point - for '
    'invalid arguments, for an error raised by a function, source or '
    'distribution of the caller, or for a floating point error where the '
    'caller set numpy to raise them - leaves the process-wide settings as it '
    'found them: numpy error handling, print options and buffers, warning '
    'filters, interpreter and garbage collector settings, working directory, '
    'the generators of numpy and python. The functions, sources and '
    'distributions of the caller, when called by sdepy, find the numpy error '
    'handling of the caller in force, so that errors in them are not hidden.',
    'over': ['inputs', 'failures', 'histories'],
    'quant': 'all public callables; exceptions at any external call while '
             'settings are altered; failures at any call of user code',
    'why': 'Settings left altered by a failed call, or altered during a call '
           'of user code, show as missing or spurious errors elsewhere; '
           'tests look at return values of calls that succeed.',
    'files': ['analytical.py', 'infrastructure.py', 'integration.py',
              'kfun.py'],
    'mech': [('bsd1d2', 'sdepy/analytical.py'),
             ('integrator.__call__', 'sdepy/integration.py')],
    'technique': 'typestate of global settings in abstract interpretation '
                 'with exceptional exits at every external call made while '
                 'they are altered, over the contexts of all properties',
    'note': 'Exceptions raised asynchronously (signals) are not considered.',
}
W = 'sdepy/analytical.py '
WI = 'sdepy/integration.py '
WS = 'sdepy/infrastructure.py '
FAIL = """
class Failure(Exception):
    pass

def failing(n):
    count = [0]
    def f(*args, **kw):
        count[0] += 1
        if count[0] >= n:
            raise Failure('call %d' % n)
        return 1.
    return f

class Source:
    def __init__(self, f, paths, vshape):
        self.paths, self.vshape, self.f = paths, vshape, f
    def __call__(self, t, dt):
        return self.f(t, dt)
"""


def check(R):
    R.explanation = (
        'Settings are tracked through every path, exceptional exits '
        'included, of each formula, of runs in which user code fails at its '
        'n-th call, and of the contexts of all other properties.')
    R.rule = ('one obligation per formula and kind of arguments, per failing '
              'user code, and per property the contexts of which are '
              'analysed')
    R.floor = 100
    for f in c27.FUN:
        for form in c27.SHAPES:
            key = '%s %s' % (f, form)
            with R.context(key, W + f):
                L = R.lab()
                L.ip.raise_mode = True
                a = c27.args_of(L, form)
                kw = {n: v for n, v, t in a[2:] if v is not None}
                L.call(L.public(f), a[0][1], a[1][1], **kw)
                judge(R, key, L, W + f)
        for i in range(6):
            key = '%s argument %d not broadcasting' % (f, i)
            with R.context(key, W + f):
                L = R.lab()
                L.ip.raise_mode = True
                v = [L.arr('a%d' % j, (3 if j == i else 2,), 'pos')
                     for j in range(6)]
                o = L.call(L.public(f), v[0], v[1], x0=v[2], r=v[3], q=v[4],
                           sigma=v[5])
                R.must(key + ' fails', not o.live, W + f, 'accepted')
                judge(R, key, L, W + f)
            key = '%s argument %d not a number' % (f, i)
            with R.context(key, W + f):
                L = R.lab()
                L.ip.raise_mode = True
                v = [L.v('text') if j == i else L.num('a%d' % j, 'pos')
                     for j in range(6)]
                L.call(L.public(f), v[0], v[1], x0=v[2], r=v[3], q=v[4],
                       sigma=v[5])
                judge(R, key, L, W + f)
    for name in c21.PARAMS:
        for n in (1, 2, 3):
            failing_params(R, name, n)
    for n in (1, 2, 3, 4):
        failing_sde(R, n)
        failing_source(R, n)
        failing_rv(R, n)
        failing_samples(R, n)
    everywhere(R)


def judge(R, key, L, where):
    R.good(key, where) if not list(faults(L)) else \
        R.bad(key, *list(faults(L))[0])


def faults(L):
    """(site, what) of each fault found in a context."""
    ip = L.ip
    for e in ip.events[ip.base_events:]:
        if e.kind == 'global_state' and in_library(e) and \
           e.info['name'] != 'errstate':
            yield e.site, '%s called' % e.info['name']
        elif e.kind == 'call_altered':
            yield e.site, 'user code is called with the numpy error ' \
                'handling altered'
    for pc, heap, exc in ip.sinks[0]:
        if ip.altered(heap):
            yield str(exc.site), 'the numpy error handling is left altered ' \
                'after an exception raised here'
    if ip.altered():
        yield last(ip), 'the numpy error handling is left altered on return'


def last(ip):
    sites = [e.site for e in ip.events if e.kind == 'global_state']
    return (sites or ['sdepy'])[-1]


def failing_params(R, name, n):
    ps = c21.PARAMS[name]
    for k in ps:
        key = '%s %s failing at call %d' % (name, k, n)
        with R.context(key, WI + name):
            L = R.lab()
            L.ip.raise_mode = True
            f = L.client(FAIL)['failing']
            g = L.ok(f, n)
            o = L.call(L.public(name), rng=stub(L, 'g'), paths=L.dim(2),
                       steps=L.timeline('s', (1.1, .3)), **{k: g})
            if o.live:
                L.call(o.value, L.timeline('t', (.1, .7, 1.5)))
            judge(R, key, L, WI + name)


SDE = {
    'one equation': """
@integrate
def sde(t, x, a=1.):
    step(t)
    return {'dt': a*x, 'dw': x}
""",
    'two equations': """
@integrate
def sde(t=0., x=1., y=2., a=1.):
    step(t)
    return {'dt': a*x, 'dw': y}, {'dt': x}
""",
    'logarithm': """
@integrate(log=True)
def sde(t, x, a=1.):
    step(t)
    return {'dt': a*x, 'dw': x}
""",
}


def failing_sde(R, n):
    for form, src in SDE.items():
        key = '%s, function failing at call %d' % (form, n)
        with R.context(key, WI + 'integrator'):
            L = R.lab()
            L.ip.raise_mode = True
            try:
                ns = L.client(FAIL + 'step = failing(%d)\n' % n + src)
            except Rejected:
                ns = {}
            if 'sde' in ns:
                o = L.call(ns['sde'], rng=stub(L, 'g'), paths=L.dim(2),
                           steps=L.timeline('s', (1.1, .3)))
                if o.live:
                    L.call(o.value, L.timeline('t', (.1, .7, 1.5)))
            judge(R, key, L, WI + 'integrator')


def failing_source(R, n):
    key = 'source failing at call %d' % n
    with R.context(key, WI + 'integrator'):
        L = R.lab()
        L.ip.raise_mode = True
        ns = L.client(FAIL)
        s = L.ok(ns['Source'], L.ok(ns['failing'], n), L.dim(2), L.v(()))
        o = L.call(L.public('wiener_process'), dw=s, paths=L.dim(2),
                   steps=L.timeline('s', (1.1, .3)))
        if o.live:
            L.call(o.value, L.timeline('t', (.1, .7, 1.5)))
        judge(R, key, L, WI + 'integrator')
    for name in ('wiener_source', 'poisson_source', 'true_wiener_source',
                 'true_poisson_source'):
        key = '%s with %s failing at call %d' % (
            name, 'corr' if 'wiener' in name else 'lam', n)
        with R.context(key, WS + name):
            L = R.lab()
            L.ip.raise_mode = True
            f = L.ok(L.client(FAIL)['failing'], n)
            kw = {'rho': f, 'vshape': L.dim(2)} if 'wiener' in name else \
                {'lam': f}
            o = L.call(L.public(name), rng=stub(L, 'g'), paths=L.dim(2), **kw)
            if o.live:
                for k in range(2):
                    L.call(o.value, L.time('t%d' % k, .5 + k),
                           L.gap('dt%d' % k, .2))
            judge(R, key, L, WS + name)


def failing_rv(R, n):
    for name in ('cpoisson_source', 'true_cpoisson_source'):
        key = '%s with distribution failing at call %d' % (name, n)
        with R.context(key, WS + name):
            L = R.lab()
            L.ip.raise_mode = True
            ns = L.client(FAIL + """
class RV:
    def __init__(self, f):
        self.f = f
    def rvs(self, size=None, random_state=None):
        return self.f()*np.ones(size)
""")
            y = L.ok(ns['RV'], L.ok(ns['failing'], n))
            o = L.call(L.public(name), rng=stub(L, 'g'), paths=L.dim(2), y=y)
            if o.live:
                for k in range(2):
                    L.call(o.value, L.time('t%d' % k, .5 + k),
                           L.gap('dt%d' % k, .2))
            judge(R, key, L, WS + name)


def failing_samples(R, n):
    key = 'kfunc failing at call %d' % n
    with R.context(key, 'sdepy/kfun.py kfunc'):
        L = R.lab()
        L.ip.raise_mode = True
        ns = L.client(FAIL + """
count = []
@kfunc(nvar=2)
def f(t, x, *, a=1., b=2.):
    count.append(t)
    if len(count) >= %d:
        raise Failure('call')
    return a*x + b*t
def use(t, x):
    g = f(a=2.)
    for k in range(%d):
        h = g(t, x, b=3.)
    return h
""" % (n, n))
        L.call(ns['use'], L.num('t'), L.arr('x', (2,)))
        judge(R, key, L, 'sdepy/kfun.py kfunc')
    key = 'montecarlo given invalid samples, %d' % n
    with R.context(key, WS + 'montecarlo'):
        L = R.lab()
        L.ip.raise_mode = True
        a = L.call(L.public('montecarlo'), L.arr('x', (3, 2)[:n], 'real'))
        if a.live:
            L.meth(a.value, 'update', L.arr('y', (3, 4, 5)[:n]))
            L.meth(a.value, 'update', L.v('text'))
            for m in ('mean', 'var', 'std', 'stderr'):
                L.meth(a.value, m)
        judge(R, key, L, WS + 'montecarlo')


def effects(name, key, L, evs, report):
    for site, what in faults(L):
        report(('bad', key, site, what))
    report(('n', len(L.ip.sinks[0])))


def everywhere(R):
    ctx, fns, n = 0, set(), 0
    for name, found, nctx, fn in sweep(effects, R.seed, raising=True):
        key = 'contexts of %s' % name
        ctx += nctx
        fns |= set(fn)
        n += sum(f[1] for f in found if f[0] == 'n')
        bad = [f for f in found if f[0] == 'bad']
        fail = [f for f in found if f[0] == 'failed']
        if bad:
            R.bad(key, bad[0][2], '%s, in the context %s' % (
                bad[0][3], bad[0][1]))
        elif fail:
            R.unknown(key, fail[0][3])
        else:
            R.good(key, '%d contexts' % nctx)
    R.extra['swept_contexts'] = ctx
    R.extra['swept_functions'] = len(fns)
    R.extra['swept_exceptional_exits'] = n
