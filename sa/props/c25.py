"""The integrate decorator."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import sde

META = {
    'title': 'integrate() builds the process that the decorated function states',
    'statement':
    'integrate, used as a decorator with or without options or as a function, '
    'turns sde(t, x, ..., params) into a subclass of integrator and of SDE '
    '(if the function returns a dict) or SDEs (if it returns a list or tuple, '
    'one dict per equation), with exactly the sources returned, the given log '
    'and addaxis, and its further parameters as keywords with their defaults. '
    'q and sources are inferred by one test evaluation as sde() or, if it '
    'fails, sde(1., 1.), and not evaluated if both are given (q=0 for a '
    'single equation). A failing evaluation, no equations, or q or sources '
    'inconsistent with it, raise TypeError or ValueError. Different functions '
    'yield independent classes.',
    'over': ['inputs', 'configurations'],
    'quant': 'all functions, signatures, numbers of equations, sources and '
             'options',
    'why': 'Tests decorate a few functions; the inference must hold for any '
           'user function, including those failing a plain evaluation.',
    'files': ['integration.py'],
    'mech': [('integrate, _SDE_from_function', 'sdepy/integration.py')],
    'technique': 'abstract interpretation of client modules using the '
                 'decorator; class, attribute and call-event checks',
    'note': 'Decided on an enumerated family of function shapes and options; '
            'coefficients are uninterpreted.',
}
W = 'sdepy/integration.py integrate'

# name: (client text, q, sources, test evaluations)
GOOD = {
    'defaults for all': ('''
@integrate
def f(t=0., x=0., a=1.):
    LOG(t, x)
    return {'dt': A(t, x, a)}
''', None, {'dt'}, 1),
    'no defaults': ('''
@integrate
def f(t, x, a=1.):
    LOG(t, x)
    return {'dt': A(t, x, a), 'dn': 1.}
''', None, {'dt', 'dn'}, 1),
    'called with options': ('''
@integrate(log=False)
def f(t, x, a=1.):
    LOG(t, x)
    return {'dw': A(t, x, a)}
''', None, {'dw'}, 1),
    'empty parentheses': ('''
@integrate()
def f(t, x, a=1.):
    LOG(t, x)
    return {'dw': A(t, x, a)}
''', None, {'dw'}, 1),
    'as a function': ('''
def g(t, x, a=1.):
    LOG(t, x)
    return {'dw': A(t, x, a), 'dt': x, 'dj': 1.}
f = integrate(g)
''', None, {'dw', 'dt', 'dj'}, 1),
    'as a function with options': ('''
def g(t, x, a=1.):
    LOG(t, x)
    return {'dw': A(t, x, a), 'dt': x, 'dj': 1.}
f = integrate(g, q=0, log=False)
''', None, {'dw', 'dt', 'dj'}, 1),
    'a lambda': ('''
f = integrate(lambda t=0., x=0., a=1.: {'dw': A(t, x, a)})
''', None, {'dw'}, 0),
    'one failing branch': ('''
@integrate
def f(t=None, x=0., a=1.):
    if t is None:
        raise ValueError('t needed')
    LOG(t, x)
    return {'dt': A(t, x, a)}
''', None, {'dt'}, 1),
    'q given': ('''
@integrate(q=0)
def f(t, x, a=1.):
    LOG(t, x)
    return {'dw': A(t, x, a)}
''', None, {'dw'}, 1),
    'sources given': ('''
@integrate(sources=('dt', 'dw'))
def f(t, x, a=1.):
    LOG(t, x)
    return {'dw': A(t, x, a), 'dt': 1.}
''', None, {'dw', 'dt'}, 1),
    'q and sources given': ('''
@integrate(q=0, sources={'dt', 'dw', 'dn'})
def f(t, x, a=1.):
    LOG(t, x)
    return {'dw': A(t, x, a)}
''', None, {'dt', 'dw', 'dn'}, 0),
    'list of sources': ('''
@integrate(q=0, sources=['dt', 'dw'])
def f(t, x, a=1.):
    LOG(t, x)
    return {'dw': A(t, x, a)}
''', None, {'dt', 'dw'}, 0),
    'two equations': ('''
@integrate
def f(t=0., x=0., y=0., a=1.):
    LOG(t, x)
    return {'dw': A(t, x, a)}, {'dt': y}
''', 2, {'dw', 'dt'}, 1),
    'list of three equations': ('''
@integrate
def f(t=0., x=0., y=0., z=0., a=1.):
    LOG(t, x)
    return [{'dw': A(t, x, a)}, {'dt': y}, {'dt': x, 'dn': z}]
''', 3, {'dw', 'dt', 'dn'}, 1),
    'list of one equation': ('''
@integrate
def f(t, x, a=1.):
    LOG(t, x)
    return [{'dw': A(t, x, a)}]
''', 1, {'dw'}, 1),
    'two equations, q given': ('''
@integrate(q=2)
def f(t=0., x=0., y=0., a=1.):
    LOG(t, x)
    return {'dw': A(t, x, a)}, {'dt': y}
''', 2, {'dw', 'dt'}, 1),
    'two equations, q and sources given': ('''
@integrate(q=2, sources={'dw', 'dt'})
def f(t, x, y, a=1.):
    LOG(t, x)
    return {'dw': A(t, x, a)}, {'dt': y}
''', 2, {'dw', 'dt'}, 0),
}

BAD = {
    'test evaluation fails': ('''
@integrate
def f(t, x, y, a=1.):
    return {'dt': 1.}, {'dt': y}
''', 'TypeError'),
    'test evaluation raises': ('''
@integrate
def f(t, x, a=1.):
    raise ValueError('no')
''', 'TypeError'),
    'mandatory parameter': ('''
@integrate
def f(t, x, a):
    return {'dt': a}
''', 'TypeError'),
    'no equations': ('''
@integrate
def f(t=0., x=0., a=1.):
    return []
''', 'ValueError'),
    'too small q': ('''
@integrate(q=1)
def f(t=0., x=0., y=0.):
    return {'dt': 1.}, {'dt': y}
''', 'TypeError'),
    'q for a single equation': ('''
@integrate(q=1)
def f(t=0., x=0.):
    return {'dt': 1.}
''', 'TypeError'),
    'q=0 for a system': ('''
@integrate(q=0)
def f(t=0., x=0., y=0.):
    return {'dt': 1.}, {'dt': y}
''', 'TypeError'),
    'sources too many': ('''
@integrate(sources={'dt', 'dw'})
def f(t=0., x=0.):
    return {'dt': 1.}
''', 'TypeError'),
    'sources too few': ('''
@integrate(sources={'dt'})
def f(t=0., x=0.):
    return {'dt': 1., 'dw': 2.}
''', 'TypeError'),
    'empty sources': ('''
@integrate(sources=())
def f(t=0., x=0.):
    return {'dt': 1., 'dw': 2.}
''', 'TypeError'),
}


def check(R):
    R.explanation = (
        'Client modules decorating functions are analysed; the class that '
        'results, its attributes, the test evaluations performed and the '
        'integrated value numbers are compared with those specified.')
    R.rule = 'one obligation per (function shape, options) and aspect'
    R.floor = 100
    for name in GOOD:
        with R.context(name, W):
            good(R, name)
    for name, (src, exc) in BAD.items():
        key = 'rejected: ' + name
        with R.context(key, W):
            L = R.lab()

            def run():
                try:
                    L.client(src)
                except Rejected as e:
                    return e.out
                return None
            out = run()
            if out is None:
                R.bad(key, W, name + ': accepted')
            else:
                R.rejects(key, L, out, W, name, [exc])
    flags(R)
    independent(R)
    twice(R)


def good(R, name):
    src, q, srcs, nev = GOOD[name]
    L = R.lab()
    c = L.client(src, LOG=L.recorder('LOG'), A=L.uf('A', ()))
    f = c['f']
    n = len(sde.calls(L, 'LOG'))
    R.must(name + ': test evaluations', n == nev, W,
           '%d test evaluations, specified %d' % (n, nev))
    got = names(L, L.get(f, 'sources'))
    R.must(name + ': sources', got == srcs, W,
           'sources %s, specified %s' % (got, srcs))
    mro = [L.ip.rec(r).name for r in L.ip.rec(f).mro
           if isinstance(r, Ref)]
    R.must(name + ': bases', 'integrator' in mro and 'SDE' in mro and
           ('SDEs' in mro) == (q is not None) and
           mro.index('SDE') < mro.index('integrator'), W,
           'classes %s' % mro)
    qv = L.get(f, 'q')
    if q is not None:
        R.must(name + ': q', L.rep(qv) == q, W, 'q=%s' % L.rep(qv))
    # integration
    a = L.num('a')
    kw = {z: L.source('W' + z, 3, (q or 1,) if q else ()) for z in srcs
          if z != 'dt'}
    P = L.ok(f, paths=L.dim(3), a=a, x0=L.num('x0'), **kw)
    tt = L.timeline('t', (.1, .9))
    line = sde.points(L, tt)
    z = L.ok(P, tt)
    if q is None:
        R.must(name + ': one process', L.cls_of(z) == 'process', W,
               'not a process')
    else:
        items = L.ip.seq(z)
        R.must(name + ': processes', len(items) == q and all(
            L.cls_of(i) == 'process' for i in items), W,
            'not a tuple of q processes')
        z = items[0]
    # contribution of A to the first variable
    from_ = 'dw' if "'dw': A" in src else 'dt'
    x0 = NPX.broadcast_to(X(L.num('x0').t), (3,))
    s, u = line[0][0], line[1][0]
    ds = u - s
    co = sde.ufx('A', (), s, x0, X(a.t))

    def dz(k):
        if k == 'dt':
            return ds
        w = sde.ufx('W' + k, ((q,) if q else ()) + (3,), s, ds)
        return w[0] if q else w
    rest = {"'dn': 1.": 'dn', "'dj': 1.": 'dj', "'dt': 1.}": 'dt'}
    first = src.split('return')[-1] if 'return' in src else src
    val = x0 + co * dz(from_)
    for k, z_ in rest.items():
        if k in first:
            val = val + dz(z_)
    if q is None and "'dt': x" in first:
        val = val + x0 * ds
    R.eq(name + ': values', L, L.term(z), sde.stack([x0, val]), W,
         'integrated values')
    # parameters
    out = L.call(f, paths=L.dim(3), b=L.num('b'))
    R.rejects(name + ': unknown parameter', L, out, W, 'a parameter that the '
              'function lacks', ['TypeError'])


def names(L, v):
    return {z.v for z in L.ip.seq(v)}


def flags(R):
    for log in (False, True):
        for addaxis in (False, True):
            for how in ('decorator', 'function'):
                key = 'log=%s, addaxis=%s, %s' % (log, addaxis, how)
                with R.context(key, W):
                    L = R.lab()
                    opts = 'log=%s, addaxis=%s' % (log, addaxis)
                    body = '''
def f(t=0., x=1., y=1.):
    return {'dt': A(t, x)}, {'dt': B(t, x, y)}
'''
                    src = ('@integrate(%s)' % opts + body
                           if how == 'decorator' else
                           body + 'f = integrate(f, %s)' % opts)
                    c = L.client(src, A=L.uf('A', ()), B=L.uf('B', ()))
                    f = c['f']
                    R.must(key + ': log', L.rep(L.get(f, 'log')) == log, W,
                           'log not set as given')
                    R.must(key + ': addaxis', L.rep(L.get(f, 'addaxis')) ==
                           addaxis, W, 'addaxis not set as given')
                    P = L.ok(f, paths=L.dim(3), vshape=L.dim(2),
                             x0=L.num('x0', 'pos'))
                    n = tuple(L.rep(L.get(P, 'xshape')))
                    R.must(key + ': layout', n == ((2, 2) if addaxis else
                                                   (4,)), W,
                           'state shape %s' % (n,))
                    tt = L.timeline('t', (.1, .9))
                    line = sde.points(L, tt)
                    x, y = L.ip.seq(L.ok(P, tt))
                    x0 = NPX.broadcast_to(X(L.num('x0', 'pos').t), (2, 3))
                    ex = NPX.exp if log else lambda z: z
                    x_ = NPX.log(x0) if log else x0
                    s, ds = line[0][0], line[1][0] - line[0][0]
                    R.eq(key + ': values', L, L.term(x), sde.stack(
                        [x0, ex(x_ + sde.ufx('A', (), s, x_) * ds)]), W,
                        'integrated values')
                    R.eq(key + ': second values', L, L.term(y), sde.stack(
                        [x0, ex(x_ + sde.ufx('B', (), s, x_, x_) * ds)]), W,
                        'integrated values')


def independent(R):
    """Classes built from different functions do not interfere."""
    with R.context('independent classes', W):
        L = R.lab()
        c = L.client('''
@integrate(log=True)
def f(t, x, a=1.):
    return {'dt': A(t, x, a)}
@integrate
def g(t=0., x=0., y=0., b=2.):
    return {'dw': B(t, x, b)}, {'dn': 1.}
@integrate
def h(t, x):
    return {'dt': 1., 'dw': 1.}
''', A=L.uf('A', ()), B=L.uf('B', ()))
        for n, srcs, q, log in (('f', {'dt'}, 0, True),
                                ('g', {'dw', 'dn'}, 2, False),
                                ('h', {'dt', 'dw'}, 0, False)):
            R.must('independent classes: sources of ' + n,
                   names(L, L.get(c[n], 'sources')) == srcs, W,
                   'sources changed by another decoration')
            R.must('independent classes: log of ' + n,
                   L.rep(L.get(c[n], 'log')) == log, W,
                   'log changed by another decoration')
            R.must('independent classes: q of ' + n,
                   L.rep(L.get(c[n], 'q')) == q, W,
                   'q changed by another decoration')
        base = L.public('SDE')
        R.must('independent classes: SDE', names(L, L.get(base, 'sources')) ==
               {'dt', 'dw'} and not L.rep(L.get(base, 'log')), W,
               'attributes of SDE changed by a decoration')
        # later decoration does not affect an instance
        P = L.ok(c['f'], paths=L.dim(3), x0=L.num('x0', 'pos'))
        tt = L.timeline('t', (.1, .9))
        line = sde.points(L, tt)
        z = L.ok(P, tt)
        x0 = NPX.broadcast_to(X(L.num('x0', 'pos').t), (3,))
        s, ds = line[0][0], line[1][0] - line[0][0]
        R.eq('independent classes: values', L, L.term(z), sde.stack(
            [x0, NPX.exp(NPX.log(x0) + sde.ufx('A', (), s, NPX.log(x0), 1.)
                         * ds)]), W, 'integrated values')


def twice(R):
    """One function decorated more than once, with different options."""
    opts = {'plain': '', 'log': 'log=True', 'addaxis': 'addaxis=True',
            'both': 'log=True, addaxis=True',
            'sources': "q=2, sources={'dt', 'dw', 'dn'}"}
    for order in (list(opts), list(opts)[::-1]):
        key = 'one function decorated repeatedly, %s first' % order[0]
        with R.context(key, W):
            L = R.lab()
            c = L.client('''
def f(t=0., x=1., y=1., a=1.):
    return {'dt': A(t, x, a)}, {'dw': B(t, x, y)}
''' + ''.join('%s = integrate(f%s%s)\n' % (
                'i_' + k, ', ' * bool(opts[k]), opts[k]) for k in order),
                A=L.uf('A', ()), B=L.uf('B', ()))
            got = {k: c['i_' + k] for k in opts}
            for k in opts:
                R.must('%s: %s log' % (key, k), L.rep(L.get(
                    got[k], 'log')) == (k in ('log', 'both')), W,
                    'log not set as given')
                R.must('%s: %s addaxis' % (key, k), L.rep(L.get(
                    got[k], 'addaxis')) == (k in ('addaxis', 'both')), W,
                    'addaxis not set as given')
                R.must('%s: %s sources' % (key, k), names(L, L.get(
                    got[k], 'sources')) == {'dt', 'dw'} | (
                    {'dn'} if k == 'sources' else set()), W,
                    'sources not as given or inferred')
                R.must('%s: %s own class' % (key, k), all(
                    got[k] != got[j] for j in opts if j != k), W,
                    'one class for two decorations')
