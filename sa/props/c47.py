"""rvmap: functions of jump variates."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c33 import live
from .c46 import gen_

META = {
    'title': 'rvmap maps a function to the variates of a distribution',
    'statement':
    'rvmap(f, y) returns a distribution whose rvs(size, random_state) is f of '
    'one fresh rvs(size, random_state) of y, with the same size and '
    'generator; if y is a function of time, or the first parameter of f is '
    'named t or s, it returns a function of time, its value at t being the '
    'distribution of f of the variates of y, or y(t), with t passed to f if f '
    'takes it. Distributions obtained at different times do not affect each '
    'other, mapping composes, and compound Poisson sources sum the mapped '
    'variates.',
    'over': ['inputs', 'configurations', 'histories'],
    'quant': 'all functions, distributions fixed or time-dependent, sizes, '
             'generators, order of use of the distributions obtained',
    'why': 'Tests check the statistics of one function of one distribution; '
           'a generator not passed on or a time bound late goes unnoticed.',
    'files': ['infrastructure.py'],
    'mech': [('rvmap', 'sdepy/infrastructure.py')],
    'technique': 'abstract interpretation to value numbers, with recorded '
                 'calls of opaque distributions',
    'note': 'Functions and distributions of the user are opaque or '
            'represented by generic polynomials.',
}
W = 'sdepy/infrastructure.py rvmap'
# kind: (source of f, time-dependent, specification)
F = {
    'def f(y)': ('def f(y):\n    return y*y + k*y\n', False),
    'lambda': ('f = lambda u: u*u + k*u\n', False),
    'default second': ('def f(y, t=2):\n    return y*y + k*y + 0*t\n', False),
    'object': ('class C:\n    def __call__(self, y):\n'
               '        return y*y + k*y\nf = C()\n', False),
    'def f(t, y)': ('def f(t, y):\n    return y*y + k*y*t + t\n', True),
    'def f(s, y)': ('def f(s, y):\n    return y*y + k*y*s + s\n', True),
    'lambda t': ('f = lambda t, u: u*u + k*u*t + t\n', True),
    'object of t': ('class C:\n    def __call__(self, s, y):\n'
                    '        return y*y + k*y*s + s\nf = C()\n', True),
    'numpy.exp': ('import numpy as np\nf = np.exp\n', False),
}
Y = 'fixed', 'function of time', 'mapped', 'preset', 'preset of time'


def check(R):
    R.explanation = ('Functions are mapped to distributions and variates of '
                     'the result drawn, at several times in several orders.')
    R.rule = 'one obligation per (function, distribution, draw)'
    R.floor = 150
    for fk in F:
        for yk in Y:
            key = '%s of %s' % (fk, yk)
            with R.context(key, W):
                one(R, key, fk, yk)
    for fk in ('def f(y)', 'def f(t, y)'):
        for yk in ('fixed', 'function of time'):
            key = 'compound Poisson %s of %s' % (fk, yk)
            with R.context(key, W):
                compound(R, key, fk, yk)


def spec(fk, k, x, t):
    if fk == 'numpy.exp':
        return NPX.exp(x)
    if F[fk][1]:
        return x * x + k * x * t + t
    return x * x + k * x


def dist(L, name):
    """Opaque distribution family of the user: (at(params))."""
    def at(params):
        def rvs(ip, args, kw):
            kw = dict(kw)
            size = args[0] if args else kw.pop('size', Const(None))
            rs = args[1] if len(args) > 1 else kw.pop('random_state', None)
            ip.ndraw += 1
            sz = tuple(int(n) for n in np.atleast_1d(ip.models.static(size)))
            t = tm.draw(ip.ndraw, 'Y', tuple(params), sz)
            ip.event('jump_draw', name=name, state=rs, term=t, size=sz,
                     params=tuple(params))
            return ip.arr(t)
        return Host(None, name, {'rvs': Host(rvs, 'rvs'),
                                 'callable': False})
    return at


def build(L, yk):
    """(y, transform of draws at t, time-dependent)"""
    D = dist(L, 'Y')
    ident = lambda x, t: x
    if yk == 'fixed':
        return D(()), ident, False
    if yk == 'function of time':
        return Host(lambda ip, a, kw: D((ip.models.term(a[0]),)), 'y'), \
            ident, True
    if yk == 'mapped':
        n = L.client('def g(t, y):\n    return y*t + 1\n')
        return live(L.call(L.public('rvmap'), n['g'], D(()))), \
            lambda x, t: x * t + 1, True
    a = L.num('a')
    if yk == 'preset':
        return live(L.call(L.public('norm_rv'), a=a)), \
            lambda x, t: x + X(a.t), False
    m = Host(lambda ip, args, kw: ip.models.wrap(
        (X(a.t) * X(ip.models.term(args[0]))).t), 'm')
    return live(L.call(L.public('norm_rv'), a=m)), \
        lambda x, t: x + X(a.t) * t, True


def drawn(L, n0):
    return [e for e in L.ip.events[n0:] if e.kind in ('jump_draw', 'draw')]


def one(R, key, fk, yk):
    L = R.lab()
    k = L.num('k')
    n = L.client(F[fk][0] + 'def isc(a):\n    return callable(a)\n', k=k)
    y, tr, tdep = build(L, yk)
    z = live(L.call(L.public('rvmap'), n['f'], y))
    tdep = tdep or F[fk][1]
    R.must(key + ' time-dependence', L.rep(live(L.call(n['isc'], z))) is tdep,
           W, 'the result is %sa function of time' % ('not ' * tdep))
    ts = [L.time('t1', .3), L.time('t2', .8)] if tdep else [None] * 2
    zs = [live(L.call(z, t)) if tdep else z for t in ts]
    gens = [live(L.call(gen_(L))), NONE]
    seen = set()
    for j, (i, size, g, how) in enumerate((
            (0, (3,), 0, 'keyword'), (1, (2, 2), 0, 'keyword'),
            (0, (4,), 0, 'position'), (1, (), 1, 'default'))):
        kj = '%s draw %d' % (key, j)
        n0 = len(L.ip.events)
        o = L.meth(zs[i], 'rvs', size=size, random_state=gens[g]) \
            if how == 'keyword' else \
            L.meth(zs[i], 'rvs', size, gens[g]) if how == 'position' else \
            L.meth(zs[i], 'rvs', size)
        v = live(o)
        ev = drawn(L, n0)
        if len(ev) != 1:
            R.bad(kj, W, '%d draws of the distribution' % len(ev))
            continue
        e = ev[0]
        d = e.info['term']
        t = X(ts[i].t) if tdep else None
        R.eq(kj, L, L.term(v), spec(fk, X(k.t), tr(X(d), t), t), W,
             'mapped variates')
        if e.kind == 'jump_draw':
            st = e.info['state']
            ok = st == gens[g] or g == 1 and (
                st is None or isinstance(st, Const) and st.v is None)
            if yk == 'function of time':
                R.eq(kj + ' time', L, e.info['params'][0], t, W,
                     'time of the distribution')
        else:
            ok = (e.info['gen'] == gens[g]) if g == 0 else \
                e.info['gen'] == Ext('GLOBAL')
        R.must(kj + ' generator', ok, W, 'the generator is not passed on')
        R.must(kj + ' fresh', d not in seen, W, 'variates drawn before')
        seen.add(d)


def compound(R, key, fk, yk):
    """The mapped distribution as jumps: one jump per component."""
    from .c08 import counting, tup
    L = R.lab()
    k = L.num('k')
    n = L.client(F[fk][0], k=k)
    y, tr, tdep = build(L, yk)
    z = live(L.call(L.public('rvmap'), n['f'], y))
    t, dt = L.time('t', .7), L.gap('dt', .4)
    src = live(L.call(L.public('cpoisson_source'), paths=L.dim(3), y=z,
                      dn=counting(L, tup([1, 1, 1]), (3,), 3, ())))
    n0 = len(L.ip.events)
    o = live(L.call(src, t, dt))
    ev = drawn(L, n0)
    if len(ev) != 1:
        return R.bad(key, W, '%d draws' % len(ev))
    mid = X(t.t) + X(dt.t) / 2
    x = NPX.reshape(X(ev[0].info['term']), (3,))
    R.eq(key, L, L.term(o), spec(fk, X(k.t), tr(x, mid), mid), W, 'jumps')
    R.must(key + ' generator', ev[0].info['state'] == L.get(src, 'rng'), W,
           'the generator of the source is not passed on')
