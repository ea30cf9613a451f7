"""kfunc classes and functions."""
import itertools
import numpy as np
from ..lab import *
from .. import terms as tm
from .c33 import live

META = {
    'title': 'kfuncs keep parameters, take variables, and never change',
    'statement':
    'Wrapping a class, or a function with its first nvar arguments as '
    'variables, by kfunc: K(params) stores the parameters, as given, in a '
    'new object; calling it with variables evaluates as the wrapped class '
    'instantiated with these parameters, or the function, does; calling it '
    'with parameters gives a new object, with these parameters overriding '
    'those stored, calling with both evaluates with the overrides. '
    'Evaluating at once, K(variables, params), is the same, and names and '
    'order of keywords are immaterial. No call alters an existing object, '
    'its params, or other objects; params holds defaults and stored values, '
    'and altering it has no effect. iskfunc tells wrapped from not. Classes '
    'with positional or ambiguous parameters, without __init__ and '
    '__call__, and wrong nvar are refused.',
    'over': ['inputs', 'histories'],
    'quant': 'all parameters and variables, chains of calls, wrapped classes '
             'and functions',
    'why': 'Tests follow a few chains of calls; state leaking from one '
           'object to another shows in specific sequences.',
    'files': ['kfun.py'],
    'mech': [('_kfunc_decorate_class, _kfunc_decorate_function',
              'sdepy/kfun.py')],
    'technique': 'abstract interpretation of user classes wrapped as kfuncs; '
                 'value numbers of evaluations along chains of calls',
    'note': 'Decided for chains of up to 3 calls, for all values.',
}
W = 'sdepy/kfun.py '
SRC = {
    'class': '''
class P:
    def __init__(self, *, a=1.5, b=2.5, c=3.5):
        self.a, self.b, self.c = a, b, c
    def __call__(self, x, y=4.5):
        return self.a*x + self.b*y + self.c*x*y
K = kfunc(P)
''',
    'decorated': '''
@kfunc
class K:
    def __init__(self, *, a=1.5, b=2.5, c=3.5):
        self.a, self.b, self.c = a, b, c
    def __call__(self, x, y=4.5):
        return self.a*x + self.b*y + self.c*x*y
''',
    'keywords': '''
@kfunc
class K:
    def __init__(self, *, a=1.5, **args):
        self.a, self.b = a, args.get('b', 2.5)
        self.c = args.get('c', 3.5)
    def __call__(self, x, y=4.5):
        return self.a*x + self.b*y + self.c*x*y
''',
    'subclass': '''
@kfunc
class Q:
    def __init__(self, *, a=1.5, b=2.5):
        self.a, self.b = a, b
    def __call__(self, x, y=4.5):
        return self.a*x + self.b*y
@kfunc
class K(Q):
    def __init__(self, *, a=1.5, b=2.5, c=3.5):
        super().__init__(a=a, b=b)
        self.c = c
    def __call__(self, x, y=4.5):
        return self.a*x + self.b*y + self.c*x*y
''',
    'function': '''
@kfunc(nvar=2)
def K(x, y=4.5, *, a=1.5, b=2.5, c=3.5):
    return a*x + b*y + c*x*y
''',
    'wrapped function': '''
def p(x, y=4.5, *, a=1.5, b=2.5, c=3.5):
    return a*x + b*y + c*x*y
K = kfunc(nvar=2)(p)
''',
    'function of keywords': '''
@kfunc(nvar=2)
def K(x, y=4.5, *, a=1.5, **args):
    b, c = args.get('b', 2.5), args.get('c', 3.5)
    return a*x + b*y + c*x*y
''',
}
DEF = {'a': 1.5, 'b': 2.5, 'c': 3.5}


def spec(p, x, y=None):
    v = {k: X(tm.const(d)) for k, d in DEF.items()}
    v.update({k: X(z.t) for k, z in p.items()})
    x = X(x.t)
    y = X(tm.const(4.5)) if y is None else X(y.t)
    return v['a'] * x + v['b'] * y + v['c'] * x * y


def check(R):
    R.explanation = ('User classes and functions wrapped as kfuncs are '
                     'called in chains, with unknown arguments.')
    R.rule = 'one obligation per (kind, chain of calls) and evaluation'
    R.floor = 300
    for kind in SRC:
        for one_, two in itertools.product(SETS, SETS):
            key = '%s %s then %s' % (kind, one_, two)
            with R.context(key, W + kind):
                chain(R, key, kind, one_, two)
        with R.context(kind + ' siblings', W + kind):
            siblings(R, kind + ' siblings', kind)
        with R.context(kind + ' parameters as given', W + kind):
            identity(R, kind + ' parameters as given', kind)
        for nm in VALUES:
            key = '%s parameter %s' % (kind, nm)
            with R.context(key, W + kind):
                values(R, key, kind, VALUES[nm])
    for cls in PROCESSES:
        with R.context('process ' + cls, W + cls):
            processes(R, 'process ' + cls, cls)
    for cls in SOURCES:
        with R.context('source ' + cls, W + cls):
            sources(R, 'source ' + cls, cls)
    invalid(R)


SETS = ((), ('a',), ('b',), ('a', 'b'), ('c', 'a'), ('a', 'b', 'c'))


def evaluate(R, key, L, i, p, xy, where=W):
    """All ways to evaluate an object with stored parameters p."""
    x, y = xy
    for how, a, kw, s in (
            ('x', (x,), {}, spec(p, x)), ('x, y', (x, y), {}, spec(p, x, y)),
            ('x, y=y', (x,), {'y': y}, spec(p, x, y)),
            ('y=y, x=x', (), {'y': y, 'x': x}, spec(p, x, y)),
            ('x=x', (), {'x': x}, spec(p, x))):
        o = L.call(i, *a, **kw)
        R.accepts('%s (%s) accepted' % (key, how), L, o, where)
        R.eq('%s (%s)' % (key, how), L, L.term(live(o)), s, where,
             'evaluation')


def params(R, key, L, i, p, full=True):
    d = L.get(i, 'params')
    for k in DEF:
        if k in p or full:
            want = X(p[k].t) if k in p else X(tm.const(DEF[k]))
            R.eq('%s params[%s]' % (key, k), L,
                 L.term(live(L.item(d, k))), want, W, 'params')


def chain(R, key, kind, one_, two):
    L = R.lab()
    K = L.client(SRC[kind])['K']
    full = 'keywords' not in kind
    xy = L.num('x'), L.num('y')
    p1 = {k: L.num(k + '1') for k in one_}
    p2 = {k: L.num(k + '2') for k in two}
    p12 = dict(p1, **p2)
    x, y = xy
    i = live(L.call(K, **p1))
    R.must(key + ' iskfunc', L.rep(live(L.call(
        L.public('iskfunc'), i))) is True, W, 'iskfunc of an object')
    evaluate(R, key + ' one', L, i, p1, xy)
    params(R, key + ' one', L, i, p1, full)
    # evaluation with overrides
    for how, a, kw in (('x', (x, y), p2), ('x=x', (), dict(p2, x=x, y=y)),
                       ('reversed', (), dict(reversed(list(dict(
                           y=y, x=x, **p2).items()))))):
        R.eq('%s override %s' % (key, how), L, L.term(live(L.call(
            i, *a, **kw))), spec(p12, x, y), W, 'evaluation with overrides')
        R.eq('%s at once %s' % (key, how), L, L.term(live(L.call(
            K, *a, **dict(p1, **kw)))), spec(p12, x, y), W,
             'evaluation at once')
    if two:
        j = live(L.call(i, **p2))
        R.must(key + ' new object', j != i, W, 'the object is not new')
        R.must(key + ' new object iskfunc', L.rep(live(L.call(
            L.public('iskfunc'), j))) is True, W, 'iskfunc of an object')
        evaluate(R, key + ' two', L, j, p12, xy)
        params(R, key + ' two', L, j, p12, full)
        # a third one, restoring
        k = live(L.call(j, **p1)) if p1 else None
        if k:
            p = dict(p12, **p1)
            evaluate(R, key + ' three', L, k, p, xy)
            params(R, key + ' three', L, k, p, full)
        evaluate(R, key + ' two after', L, j, p12, xy)
        params(R, key + ' two after', L, j, p12, full)
    evaluate(R, key + ' one after', L, i, p1, xy)
    params(R, key + ' one after', L, i, p1, full)
    # the dictionary of parameters is a copy
    put = L.client('def put(d, k, v):\n    d[k] = v\n')['put']
    L.call(put, L.get(i, 'params'), 'a', L.num('z'))
    evaluate(R, key + ' altered params', L, i, p1, xy)
    params(R, key + ' altered params', L, i, p1, full)
    i = live(L.call(K))
    evaluate(R, key + ' defaults after', L, i, {}, xy)
    R.must(key + ' iskfunc of the class', L.rep(live(L.call(
        L.public('iskfunc'), K))) is True, W, 'iskfunc of a kfunc')


def siblings(R, key, kind):
    """Objects made from one another do not share state."""
    L = R.lab()
    K = L.client(SRC[kind])['K']
    full = 'keywords' not in kind
    xy = L.num('x'), L.num('y')
    n = {k: L.num(k) for k in ('p', 'q', 'r', 's')}
    i = live(L.call(K, a=n['p']))
    j = live(L.call(i, b=n['q']))
    k = live(L.call(i, c=n['r']))
    m = live(L.call(j, a=n['s']))
    live(L.call(k, xy[0], a=n['q'], b=n['s']))
    for nm, o, p in (('i', i, {'a': n['p']}),
                     ('j', j, {'a': n['p'], 'b': n['q']}),
                     ('k', k, {'a': n['p'], 'c': n['r']}),
                     ('m', m, {'a': n['s'], 'b': n['q']})):
        evaluate(R, key + ' ' + nm, L, o, p, xy)
        params(R, key + ' ' + nm, L, o, p, full)


def identity(R, key, kind):
    """Mutable parameters and variables are handed on as they are."""
    L = R.lab()
    src = SRC[kind].replace('return a*x', 'return a, x, a*x').replace(
        'return self.a*x', 'return self.a, x, self.a*x')
    K = L.client(src)['K']
    a, x = L.arr('a', (3,)), L.arr('x', (3,))
    at, xt = X(L.term(a)), X(L.term(x))
    for how, o in (('stored', L.call(live(L.call(K, a=a)), x)),
                   ('at once', L.call(K, x, a=a)),
                   ('new', L.call(live(L.call(live(L.call(
                       K, b=L.num('b'))), a=a)), x))):
        v = L.ip.seq(live(o))
        R.must('%s %s' % (key, how), v[0] == a, W, 'parameter is copied')
        R.must('%s %s variable' % (key, how), v[1] == x, W,
               'variable is copied')
    R.eq(key + ' parameter', L, L.term(a), at, W, 'parameter is altered')
    R.eq(key + ' variable', L, L.term(x), xt, W, 'variable is altered')


VALUES = {'None': lambda L: L.v(None), 'False': lambda L: L.v(False),
          'True': lambda L: L.v(True), 'zero': lambda L: L.v(0),
          'zero float': lambda L: L.v(0.), 'text': lambda L: L.v(''),
          'empty tuple': lambda L: L.v(()), 'empty list': lambda L: L.v([]),
          'empty dict': lambda L: L.v({}), 'class': lambda L: L.v(float),
          'function': lambda L: L.fn('f', lambda t: t),
          'empty array': lambda L: L.arrt(tm.const(np.zeros(0)))}


def same(v, w):
    if isinstance(v, Const) and isinstance(w, Const):
        return type(v.v) is type(w.v) and v.v == w.v
    if isinstance(v, Tup) and isinstance(w, Tup):
        return len(v.items) == len(w.items) and all(
            same(x, y) for x, y in zip(v.items, w.items))
    return v == w


def values(R, key, kind, make):
    """Any value may be stored, override and be overridden."""
    L = R.lab()
    src = SRC[kind].replace('return a*x', 'return a, b, c, x, a*x').replace(
        'return self.a*x', 'return self.a, self.b, self.c, x, self.a*x')
    src = src[:src.rindex(', a*x' if ', a*x' in src else ', self.a*x')] + '\n'
    if 'K = kfunc' in SRC[kind]:
        src += SRC[kind][SRC[kind].index('K = kfunc'):]
    K = L.client(src)['K']
    v, w, x = make(L), make(L), L.v(7)
    a, b = L.v(3), L.v(4)
    ab, av = live(L.call(K, a=a, b=b)), live(L.call(K, a=v))
    new, back = live(L.call(ab, a=v)), live(L.call(av, a=a))
    both = live(L.call(ab, b=w, a=v))
    d = [L.v(DEF[k]) for k in 'abc']
    for nm, o, want in (
            ('stored', av, (v, d[1], d[2])), ('new', new, (v, b, d[2])),
            ('replaced', back, (a, d[1], d[2])), ('both', both, (v, w, d[2])),
            ('former', ab, (a, b, d[2]))):
        got = L.ip.seq(live(L.call(o, x)))
        for k, g, e in zip('abc', got, want):
            R.must('%s %s %s' % (key, nm, k), same(g, e), W,
                   'parameter %s is %r, given %r' % (k, g, e))
        ps = L.get(o, 'params')
        for k, e in zip('abc', want):
            if e not in d:
                R.must('%s %s params[%s]' % (key, nm, k), same(live(L.item(
                    ps, k)), e), W, 'params[%s] is not the value given' % k)
    for nm, o, want in (
            ('override', L.call(ab, x, a=v), (v, b, d[2])),
            ('override c', L.call(ab, x, c=v), (a, b, v)),
            ('at once', L.call(K, x, a=v), (v, d[1], d[2])),
            ('overridden', L.call(av, x, a=a), (a, d[1], d[2]))):
        for k, g, e in zip('abc', L.ip.seq(live(o)), want):
            R.must('%s %s %s' % (key, nm, k), same(g, e), W,
                   'parameter %s is %r, given %r' % (k, g, e))
    got = L.ip.seq(live(L.call(ab, v)))[3]
    R.must(key + ' variable', same(got, v), W, 'variable is not as given')


PROCESSES = {
    'wiener_process': ('x0', 'mu', 'sigma'),
    'lognorm_process': ('mu', 'sigma'),
    'ornstein_uhlenbeck_process': ('x0', 'theta', 'k', 'sigma'),
    'cox_ingersoll_ross_process': ('theta', 'k', 'xi'),
}


def processes(R, key, cls):
    """Wrapped processes integrate as the plain ones."""
    L = R.lab()
    plain = L.public(cls, 'integration')
    K = live(L.call(L.public('kfunc'), plain))
    names = PROCESSES[cls]
    dw = L.source('dw', 2, ())
    p = {n: L.num(n, 'pos') for n in names}
    q = {n: L.num(n + '_', 'pos') for n in names[:2]}
    tt = L.timeline('t', (0., .5, 1.2))

    def run(o):
        return X(L.term(live(o)))
    base = dict(paths=L.dim(2), dw=dw)
    want = {}
    for nm, kw in (('one', p), ('two', dict(p, **q))):
        want[nm] = run(L.call(live(L.call(plain, **kw, **base)), tt))
    i = live(L.call(K, **p, **base))
    j = live(L.call(i, **q))
    for nm, got, w in (
            ('stored', run(L.call(i, tt)), 'one'),
            ('new', run(L.call(j, tt)), 'two'),
            ('override', run(L.call(i, tt, **q)), 'two'),
            ('at once', run(L.call(K, tt, **p, **base)), 'one'),
            ('by name', run(L.call(K, timeline=tt, **p, **base)), 'one'),
            ('stored after', run(L.call(i, tt)), 'one')):
        R.eq('%s %s' % (key, nm), L, got.t, want[w], W + cls,
             'realization of the process')
    for o, r in ((i, p), (j, dict(p, **q)), (i, p)):
        d = L.get(o, 'params')
        for n in names:
            R.eq('%s params[%s]' % (key, n), L, L.term(live(L.item(d, n))),
                 X(r[n].t), W + cls, 'params')
        R.must(key + ' params[paths]', L.rep(live(L.item(
            d, 'paths'))) == 2, W + cls, 'params')


SOURCES = ('wiener_source', 'poisson_source', 'cpoisson_source',
           'odd_wiener_source', 'even_poisson_source', 'even_cpoisson_source',
           'true_wiener_source', 'true_poisson_source',
           'true_cpoisson_source')


def sources(R, key, cls):
    L = R.lab()
    K = live(L.call(L.public('kfunc'), L.public(cls)))
    i = live(L.call(K, paths=L.dim(6)))
    j = live(L.call(i, vshape=(L.dim(3),)))
    for nm, o, sh in (('stored', i, (6,)), ('new', j, (3, 6)),
                      ('stored after', i, (6,))):
        R.must('%s %s paths' % (key, nm), L.rep(L.get(o, 'paths')) == 6,
               W + cls, 'paths')
        x = live(L.call(o, L.v(0.), L.v(1.)))
        R.must('%s %s shape' % (key, nm), np.shape(L.rep(x)) == sh, W + cls,
               'shape %s' % (np.shape(L.rep(x)),))
        R.must('%s %s params' % (key, nm), L.rep(live(L.item(
            L.get(o, 'params'), 'paths'))) == 6, W + cls, 'params')
    x = live(L.call(i, L.v(0.), L.v(1.), paths=L.dim(4)))
    R.must(key + ' override', np.shape(L.rep(x)) == (4,), W + cls, 'shape')
    x = live(L.call(K, L.v(0.), dt=L.v(1.), paths=L.dim(4)))
    R.must(key + ' at once', np.shape(L.rep(x)) == (4,), W + cls, 'shape')
    x = live(L.call(i, L.v(0.), L.v(1.)))
    R.must(key + ' after', np.shape(L.rep(x)) == (6,), W + cls, 'shape')


INVALID = {
    'positional parameters': ('''
class K:
    def __init__(self, a=1.):
        pass
    def __call__(self, x):
        pass
''', None, 'TypeError'),
    'ambiguous': ('''
class K:
    def __init__(self, *, a=1., x=2.):
        pass
    def __call__(self, x):
        pass
''', None, 'TypeError'),
    'no call': ('''
class K:
    def __init__(self, *, a=1.):
        pass
''', None, 'TypeError'),
    'no init': ('''
class K:
    def __call__(self, x):
        pass
''', None, 'TypeError'),
    'new': ('''
class K:
    def __new__(cls, **args):
        return object.__new__(cls)
    def __init__(self, *, a=1.):
        pass
    def __call__(self, x):
        pass
''', None, 'TypeError'),
    'positional after nvar': ('def K(x, y, *, a=1.):\n    pass\n', 1,
                              'TypeError'),
    'nvar 0': ('def K(x, y, *, a=1.):\n    pass\n', 0, 'ValueError'),
    'nvar negative': ('def K(x, y, *, a=1.):\n    pass\n', -1, 'ValueError'),
    'nvar too large': ('def K(x, y, *, a=1.):\n    pass\n', 4, 'ValueError'),
    'function without nvar': ('def K(x, *, a=1.):\n    pass\n', None,
                              'SyntaxError'),
    'class with nvar': ('''
class K:
    def __init__(self, *, a=1.):
        pass
    def __call__(self, x):
        pass
''', 1, 'SyntaxError'),
}


def invalid(R):
    for k, (src, nvar, exc) in INVALID.items():
        with R.context('invalid ' + k, W + 'kfunc'):
            L = R.lab()
            K = L.client(src)['K']
            kf = L.public('kfunc')
            if nvar is None:
                o = L.call(kf, K)
            else:
                o = L.call(live(L.call(kf, nvar=L.v(nvar))), K)
            R.rejects('invalid ' + k, L, o, W + 'kfunc', k, {exc})
    with R.context('invalid arguments', W + 'kfunc'):
        L = R.lab()
        K = L.client(SRC['class'])['K']
        i = live(L.call(K))
        x = L.num('x')
        R.rejects('unknown parameter', L, L.call(K, z=x), W,
                  'unknown parameter', {'TypeError'})
        R.rejects('unknown override', L, L.call(i, x, z=x), W,
                  'unknown parameter', {'TypeError'})
        R.rejects('too many variables', L, L.call(i, x, x, x), W,
                  'too many variables', {'TypeError'})
    with R.context('iskfunc', W + 'iskfunc'):
        L = R.lab()
        n = L.client('class A:\n    pass\na = A()\ndef f():\n    pass\n')
        for k in 'Aaf':
            R.must('iskfunc(%s)' % k, L.rep(live(L.call(
                L.public('iskfunc'), n[k]))) is False, W + 'iskfunc',
                'iskfunc of what is not wrapped')
