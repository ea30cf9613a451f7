"""Results belong to the caller."""
import itertools
from ..lab import *
from .. import terms as tm
from ..randomness import stub
from ..sweep import sweep, in_library
from .c33 import live
from .c20 import CLASSES, results, build
from .c01 import SOURCES, make
from .c02 import source
from . import c26
from . import c27
from . import c46

META = {
    'title': 'results are the caller\'s own',
    'statement':
    'Arrays and processes returned by sources, processes generators, '
    'montecarlo instances, process methods and summaries, random variates, '
    'kfuncs and analytical functions are never altered by later calls of '
    'the library, made on the same or on other objects. With the exception '
    'of documented views of the data of a process, or of arrays the caller '
    'has provided, they share no data with the object that returned them: '
    'a caller that alters one in place changes no later result.',
    'over': ['inputs', 'histories'],
    'quant': 'all results of public callables, all sequences of calls '
             'following one another',
    'why': 'Buffers reused across calls, or cached values handed out '
           'uncopied, show only when an earlier result is looked at, or '
           'altered, after a later call; tests look at each result once.',
    'files': ['infrastructure.py', 'integration.py', 'analytical.py',
              'kfun.py'],
    'mech': [('sources and antithetics', 'sdepy/infrastructure.py'),
             ('paths_generator.__call__', 'sdepy/integration.py')],
    'technique': 'ownership analysis of returned arrays over the contexts of '
                 'all properties; equality of value numbers between '
                 'sequences of calls with results left alone and altered',
    'note': 'Sequences of three calls in the explicit contexts.',
}
W = 'sdepy/infrastructure.py '
WI = 'sdepy/integration.py '
WA = 'sdepy/analytical.py '


def check(R):
    R.explanation = (
        'Each kind of object is used three times: earlier results must keep '
        'their values, and results altered in place must leave later ones '
        'unchanged. In the contexts of all properties, arrays returned by '
        'the library are tracked, and any later write to them from inside '
        'the library is a violation.')
    R.rule = ('one obligation per kind of object and result, and per '
              'property the contexts of which are analysed')
    R.floor = 1200
    for name in SOURCES:
        key, where = 'source ' + name, W + name.split()[0]
        with R.context(key, where):
            apart(R, key, where, lambda L, g: make(L, name, rng=g),
                  source_uses)
    for name in CLASSES:
        for vshape in ((), (2,)):
            key = '%s vshape=%s' % (name, vshape)
            with R.context(key, WI + name):
                apart(R, key, WI + name, lambda L, g: live(L.call(
                    L.public(name), rng=g, paths=L.dim(3), vshape=tuple(
                        L.dim(k) for k in vshape),
                    steps=L.timeline('s', (.3,)))),
                    lambda L, p: [lambda: L.call(
                        p, L.timeline('t', (.1, .7)))] * 3)
    for name, args in METHODS:
        key, where = 'process ' + name, W + 'class process.' + name
        for n, shape, paths in itertools.product((1, 3), ((), (2,)), (1, 3)):
            k = '%s %s paths=%d times=%d' % (key, shape, paths, n)
            if n > 1 or name not in ('tder', 'tdiff'):
                with R.context(k, where):
                    apart(R, k, where, lambda L, g: L.process(
                        'p', (.1, .7, 1.5)[:n], (n,) + shape + (paths,),
                        'pos'),
                          lambda L, p: [lambda: method(L, p, name, args)] * 3)
    for name in c46.RV:
        for kind in ('scalar', 'array', 'column', 'default', 'function'):
            key, where = 'variate %s %s' % (name, kind), W + name
            with R.context(key, where):
                apart(R, key, where, lambda L, g: (g, live(L.call(
                    L.public(name), **c46.params(
                        L, name, kind, L.time('t', .7).t)[0])), kind),
                    rv_uses)
    for f in c27.FUN:
        for form in ('scalars', 'grid', 'all'):
            key, where = '%s %s' % (f, form), WA + f
            with R.context(key, where):
                apart(R, key, where, lambda L, g: c27.args_of(L, form),
                      lambda L, a: [lambda: formula(L, f, a)] * 3)
    for p, fs in c26.NAMES.items():
        for f in fs:
            for form in ('scalars', 'times', 'points'):
                name = '%s_%s' % (p, f)
                key = '%s %s' % (name, form)
                with R.context(key, WA + name):
                    apart(R, key, WA + name,
                          lambda L, g: c26.args_of(L, p, f, form),
                          lambda L, a: [lambda: L.call(
                              L.public(name), *[v for v, t in a[0]],
                              **{n: v for n, (v, t) in a[1].items()})] * 3)
    for name in CLASSES:
        key = 'kfunc ' + name
        with R.context(key, WI + name):
            apart(R, key, WI + name, lambda L, g: kfunc(L, g, name),
                  lambda L, p: [lambda: L.call(
                      p, L.timeline('t', (.1, .7)))] * 3)
    everywhere(R)


METHODS = [
    ('__call__', ('t',)), ('__call__', ('tt',)), ('rebase', ('tt',)),
    ('pcopy', ()), ('xcopy', ()), ('tder', ()), ('tint', ()), ('tdiff', ()),
    ('chf', ('none', 'u')), ('cdf', ('none', 'u')), ('chf', ('t', 'u')),
    ('tcumsum', ())] + [
        (a + b, ()) for a in 'pvt'
        for b in ('min', 'max', 'sum', 'mean', 'var', 'std')]


def method(L, p, name, args):
    t = {'t': lambda: L.num('t0'), 'u': lambda: L.arr('u0', (2,)),
         'tt': lambda: L.arr('tt0', (2,)), 'none': lambda: L.v(None)}
    args = [t[a]() for a in args]
    return L.call(p, *args) if name == '__call__' else \
        L.meth(p, name, *args)


def rv_uses(L, grv):
    g, rv, kind = grv
    if kind == 'function':
        rv = live(L.call(rv, L.time('t', .7)))

    def variates():
        sh = {'array': (3,), 'column': (2, 1)}.get(kind, ())
        return L.meth(rv, 'rvs', size=(2, 3)[:2 - (not sh)], random_state=g)

    def moments():
        return Tup([live(L.meth(rv, m)) for m in (
            'mean', 'var', 'std', 'exp_mean')])
    return [moments, variates] * 3


def formula(L, f, args):
    return L.call(L.public(f), args[0][1], args[1][1],
                  **{n: v for n, v, t in args[2:]})


def kfunc(L, g, name):
    K = L.ok(L.public('kfunc'), L.public(name))
    return live(L.call(K, rng=g, paths=L.dim(2)))


def source_uses(L, s):
    t, u = L.time('t', .7), L.time('u', .3)
    return [lambda: L.call(s, t, L.gap('d', .4)),
            lambda: L.call(s, u, L.gap('d', .4)),
            lambda: L.call(s, t, L.gap('d', .4))]


def arrays(L, v):
    """The arrays a result consists of."""
    ip = L.ip
    if isinstance(v, Out):
        v = live(v)
    if isinstance(v, Tup):
        return [a for x in v.items for a in arrays(L, x)]
    if isinstance(v, Ref):
        r = ip.rec(v)
        if isinstance(r, LObj):
            return [a for x in r.items for a in arrays(L, x)]
        if isinstance(r, DObj):
            return [a for x in r.d.values() for a in arrays(L, x)]
        return [v]
    return []


def apart(R, key, where, mk, uses, alter='z *= 0\nz += 99'):
    ref = None
    for mode in ('left', 'altered'):
        L = R.lab()
        obj = mk(L, stub(L, 'g'))
        terms, outs = [], []
        for i, use in enumerate(uses(L, obj)):
            L.ip.ndraw = 1000*(i + 1)
            out = arrays(L, use())
            terms.append([L.term(x) for x in out])
            outs.append(out)
            if mode == 'altered':
                for x in out:
                    L.client(alter, z=x)
        if ref is None:
            ref = terms
            for i, out in enumerate(outs):
                for k, x in enumerate(out):
                    R.eq('%s use %d kept %d' % (key, i, k), L, L.term(x),
                         terms[i][k], where, 'a later call alters the '
                         'result of an earlier one')
            continue
        for i, (a, b) in enumerate(zip(terms, ref)):
            for k, (x, y) in enumerate(zip(a, b)):
                if i:
                    R.eq('%s use %d after altering %d' % (key, i, k), L, x,
                         y, where, 'altering a result alters later ones')


def mutated(name, key, L, evs, report):
    """Writes of the library to arrays it has returned before."""
    given, n = {}, 0
    for e in evs:
        if e.kind == 'returned':
            for o in e.info['roots']:
                if o > L.base_oid:
                    given.setdefault(o, e.info['fn'])
                    n += 1
        elif e.kind == 'mutate' and in_library(e) and \
                e.info['origin'] == 'fresh':
            fn = given.get(e.info['root'].oid)
            if fn is not None:
                report(('bad', key, e.site, 'writes to an array returned '
                        'earlier by %s' % fn))
    report(('n', n))


def everywhere(R):
    ctx, fns, n = 0, set(), 0
    for name, found, nctx, fn in sweep(mutated, R.seed):
        key = 'contexts of %s' % name
        ctx += nctx
        fns |= set(fn)
        n += sum(f[1] for f in found if f[0] == 'n')
        bad = [f for f in found if f[0] == 'bad']
        fail = [f for f in found if f[0] == 'failed']
        if bad:
            R.bad(key, bad[0][2], '%s, in the context %s' % (
                bad[0][3], bad[0][1]))
        elif fail:
            R.unknown(key, fail[0][3])
        else:
            R.good(key, '%d contexts' % nctx)
    R.extra['swept_contexts'] = ctx
    R.extra['swept_functions'] = len(fns)
    R.extra['arrays_returned'] = n
