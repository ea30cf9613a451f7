"""Sources with memory realize one path."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c33 import live

META = {
    'title': 'sources with memory realize one and the same path',
    'statement':
    'After any sequence of calls, in any order, of a true_source dz: dz(t) is '
    'z0 if t is t0, the value returned before if the source was realized at '
    't, or at a time coinciding with t within rtol, otherwise a new value, '
    'given by new_inside from the values at the realized times next to t '
    'before and after, or by new_outside from the value at the extreme '
    'realized time if t is beyond it (nan, for the base class). dz(t, dt) is '
    'dz(t + dt) - dz(t), for scalars or arrays, elementwise, with t + dt '
    'realized first. Values returned belong to the caller: writing to them '
    'does not alter the path. dz.t are the realized times, sorted, dz.size '
    'the count of values stored. dz[i], for any index of the values (integer, '
    'slice, Ellipsis, list, tuple), is a source with the component i of the '
    'same path, past and future, paths and values shape accordingly.',
    'over': ['inputs', 'configurations', 'histories'],
    'quant': 'all sequences of calls and times, shapes of times and values, '
             'tolerances, indexes, user-defined subclasses',
    'why': 'Tests realize a few increasing sequences; times before, between '
           'or next to realized ones in another order are not reached.',
    'files': ['infrastructure.py'],
    'mech': [('true_source', 'sdepy/infrastructure.py'),
             ('_indexed_true_source', 'sdepy/infrastructure.py')],
    'technique': 'abstract interpretation of a user subclass with opaque '
                 'methods; value numbers against a reference path',
    'note': 'Decided for histories of up to 6 calls enumerated in order and '
            'side of t0, for all times in such order and all values.',
}
W = 'sdepy/infrastructure.py true_source'
SRC = '''
class S(true_source):
    def new_outside(self, z, t, s):
        return out(z, t, s)
    def new_inside(self, z1, z2, t1, t2, s):
        return ins(z1, z2, t1, t2, s)
def put(a):
    a[...] = 7.5
'''
REPS = {'t0': .5, 'a': -.3, 'b': .2, 'c': .8, 'd': 1.3, 'e': 1.9, 'f': .65}
GAPS = {'h': .13, 'k': .31, 'w': 1.87, '0': 0.}
HIST = {
    'forward': 'c d e c d t0',
    'backward': 'b a b t0 a',
    'outward': 'd a e b',
    'inside first': 'e c f d c',
    'inside backward': 'a b f t0 b',
    'both sides': 'a e b c d f',
    'reversed': 'e d c f b a',
    'repeated': 'c c t0 t0 c',
    'arrays': '[d,c,e] [c,d] [a,f]',
    'matrix': '[[d,b],[a,c]] [[c,c],[t0,d]]',
    'repeated in array': '[c,c,d,c] c',
    'increments': 'c+h c+k d+h c+h c',
    'backward increments': 'e-h e-h c-k e',
    'increments both sides': 'd-w b+w d t0+h b-k',
    'increment null': 'c+0 c t0+0',
    'array increments': '[c,d]+[h,k] [t0,b]+[k,k] [c,b]-[w,k]',
    'broadcast': '[c,d]+k b-[h,w] [[c],[d]]+[h,k]',
}
SHAPES = (), (2,)
INDEXES = {
    (3,): ('0', '-1', 'slice(0, 2)', 'slice(None, None, -1)', '[2, 0]',
           'Ellipsis', '()', '(slice(1, 3),)', '(Ellipsis, 1)',
           '[True, False, True]'),
    (2, 3): ('0', '(1, 2)', '(slice(None), 1)', '(Ellipsis, 1)',
             '(0, Ellipsis)', '([0, 1], [2, 0])', '(slice(None), [0, 2])',
             '(1, [0, 2])', '-2'),
    (2, 3, 2): ('(0, slice(None), [1, 0])', '([0, 1], slice(None), 1)',
                '(slice(None), 1)', '([1, 0], Ellipsis, [0, 1])'),
}


def check(R):
    R.explanation = ('A user subclass with opaque methods is realized by '
                     'histories of calls, each value compared with a '
                     'reference path.')
    R.rule = 'one obligation per (history, values shape, call)'
    R.floor = 150
    for h in HIST:
        for vs in SHAPES:
            key = '%s vshape=%s' % (h, vs)
            with R.context(key, W):
                history(R, key, HIST[h].split(), vs)
    with R.context('base class', W):
        base(R)
    for rt in ('max', .01, 1e-4):
        for order in ('near after', 'near before'):
            key = 'rtol=%s %s' % (rt, order)
            with R.context(key, W):
                coincide(R, key, rt, order)
            for t0 in (1000., -250.5):
                with R.context('%s t0=%s' % (key, t0), W):
                    coincide(R, '%s t0=%s' % (key, t0), rt, order, t0)
            if rt == .01:
                continue
            for t0 in (1000., -250.5):
                k = '%s next to t0=%s' % (key, t0)
                with R.context(k, W):
                    coincide(R, k, rt, order, t0, 2.)
    for vs, ix in INDEXES.items():
        for i in ix:
            key = 'vshape=%s index %s' % (vs, i)
            with R.context(key, W + '.__getitem__'):
                index(R, key, vs, i)


class Path:
    """Reference path."""

    def __init__(self, L, shape, t0, z0):
        self.L, self.shape = L, shape
        self.mem = [(REPS['t0'], X(t0.t), NPX.broadcast_to(X(z0.t), shape))]
        self.new = []

    def at(self, rep, t):
        m = self.mem
        for r, _, z in m:
            if abs(r - rep) < 1e-9:
                return z
        k = sum(r < rep for r, _, _ in m)
        f = lambda name, *a: X(mk('uf', name, self.shape, tuple(
            x.t for x in a), 0))
        if k == len(m):
            z = f('out', m[-1][2], m[-1][1], t)
        elif k == 0:
            z = f('out', m[0][2], m[0][1], t)
        else:
            z = f('ins', m[k - 1][2], m[k][2], m[k - 1][1], m[k][1], t)
        m.insert(k, (rep, t, z))
        return z


def setup(R, shape, **kw):
    L = R.lab()
    n = L.client(SRC, out=L.uf('out', shape), ins=L.uf('ins', shape))
    t0 = kw.pop('t0', None) or L.time('t0', REPS['t0'])
    z0 = L.num('z0')
    s = live(L.call(n['S'], paths=L.dim(shape[-1]),
                    vshape=tuple(L.dim(k) for k in shape[:-1]), t0=t0, z0=z0,
                    **kw))
    return L, n, s, t0, z0


def parse(a):
    """Nested lists of names."""
    import re
    return eval(re.sub(r'[a-z0]\w*', lambda m: repr(m.group()), a))


def history(R, key, calls, vs):
    shape = vs + (3,)
    L, n, s, t0, z0 = setup(R, shape)
    P = Path(L, shape, t0, z0)
    T = {k: L.time(k, r) for k, r in REPS.items() if k != 't0'}
    T['t0'] = t0
    T.update((k, L.gap(k, r)) for k, r in GAPS.items() if r)
    T['0'] = Num(tm.const(0.))
    neg = lambda v: L.ip.models.wrap((-X(L.term(v))).t)

    def arg(a):
        if a.shape == ():
            return T[a.item()]
        return L.ip.arr(mk('call', 'numpy.array', (nest(
            a.tolist(), lambda k: T[k].t),), ()), 'caller')
    for j, c in enumerate(calls):
        kj = '%s call %d (%s)' % (key, j, c)
        sign = -1 if '-' in c else 1
        a = [np.array(parse(x), dtype=object)
             for x in c.replace('-', '+').split('+')]
        if len(a) == 1:
            got = live(L.call(s, arg(a[0])))
            want = [P.at(REPS[k], X(T[k].t)) for k in a[0].ravel()]
            tshape = a[0].shape
        else:
            d = arg(a[1])
            got = live(L.call(s, arg(a[0]), d if sign > 0 else neg(d)))
            ts, ds = np.broadcast_arrays(*a)
            tshape, pairs = ts.shape, list(zip(ts.ravel(), ds.ravel()))
            ends = [P.at(REPS[k] + sign * GAPS[q], X(T[k].t) +
                         (X(T[q].t) if sign > 0 else -X(T[q].t)))
                    for k, q in pairs]
            want = [z - P.at(REPS[k], X(T[k].t))
                    for z, (k, q) in zip(ends, pairs)]
        w = NPX.reshape(NPX.stack(tm.Lst(x.t for x in want)),
                        tshape + shape) if tshape else want[0]
        R.eq(kj, L, L.term(got), w, W + '.__call__', 'values')
        L.ok(n['put'], got)
    R.eq(key + ' times', L, L.term(L.get(s, 't')), NPX.array(tm.Lst(
        t.t for _, t, _ in P.mem)), W, 'realized times')
    R.must(key + ' size', L.rep(L.get(s, 'size')) ==
           len(P.mem) * int(np.prod(shape)), W, 'size')


def nest(x, f):
    return tm.Lst(nest(y, f) for y in x) if isinstance(x, list) else f(x)


def base(R):
    L = R.lab()
    s = live(L.call(L.public('true_source'), paths=L.dim(3), z0=L.num('z0')))
    for j, r in enumerate((.7, -.4, .3)):
        v = np.asarray(L.rep(live(L.call(s, L.time('t%d' % j, r)))))
        R.must('base class new value %d' % j, v.shape == (3,) and
               np.isnan(v).all(), W, 'not nan')


def coincide(R, key, rtol, order, start=.5, d=None):
    """Times next to realized ones, within and beyond the tolerance."""
    shape = (3,)
    L, n, s, t0, z0 = setup(R, shape, rtol=Const(rtol),
                           t0=Num(tm.const(start)))
    eps = 2.3e-16 if rtol == 'max' else rtol / 3
    far = 1e-12 if rtol == 'max' else rtol * 3
    c = lambda x: L.v(float(x))
    val = lambda x: L.term(live(L.call(s, c(x))))
    d = d or abs(start) + .5
    A, B, M = start + 1.5 * d, start - 3.5 * d, start + .5 * d
    a, b = val(A), val(B)
    m = val(M)
    side = 1 if order == 'near after' else -1
    for x, z in ((A, a), (B, b), (M, m)):
        near = x + side * eps * abs(x)
        if near == x:
            near = float(np.nextafter(x, side * np.inf))
        R.eq('%s near %s' % (key, x), L, val(near), X(z), W,
             'value at a coinciding time')
        away = val(x + side * far * abs(x))
        R.must('%s beyond %s' % (key, x), tm.equal(
            away, z, L.ip.facts).verdict == 'DIFF', W,
            'value at a time beyond tolerance')
    R.must(key + ' times', len(np.asarray(L.rep(L.get(s, 't')))) == 7, W,
           'number of realized times')


def index(R, key, vs, i):
    shape = vs + (2,)
    L, n, s, t0, z0 = setup(R, shape)
    k = L.client('def ix(s):\n    return s[%s]\n' % i)['ix']
    idx = eval(i)
    ids = np.arange(int(np.prod(vs))).reshape(vs)[idx]
    P = Path(L, shape, t0, z0)
    T = [L.time(q, REPS[q]) for q in 'cde']
    at = lambda q, t: P.at(REPS[q], X(t.t))
    L.ok(s, T[0])
    at('c', T[0])
    x = live(L.call(k, s))
    R.must(key + ' paths', L.rep(L.get(x, 'paths')) == 2 and
           tuple(L.rep(L.get(x, 'vshape'))) == ids.shape, W,
           'paths or values shape %s' % (L.rep(L.get(x, 'vshape')),))
    comp = lambda z: NPX.reshape(NPX.take(NPX.reshape(
        z, (-1, 2)), tm.const(ids.ravel()), axis=0), ids.shape + (2,))
    R.eq(key + ' past', L, L.term(live(L.call(x, T[0]))),
         comp(at('c', T[0])), W, 'component')
    R.eq(key + ' new', L, L.term(live(L.call(x, T[2]))), comp(at('e', T[2])),
         W, 'component')
    R.eq(key + ' source', L, L.term(live(L.call(s, T[2]))), at('e', T[2]), W,
         'source after its component')
    tt = L.ip.arr(mk('call', 'numpy.array', (tm.Lst(t.t for t in T),), ()),
                  'caller')
    want = NPX.stack(tm.Lst(comp(at(q, t)).t for q, t in zip('cde', T)))
    R.eq(key + ' array', L, L.term(live(L.call(x, tt))), want, W,
         'component at several times')
    dt = L.gap('h', .05)
    w = P.at(REPS['c'] + .05, X(T[0].t) + X(dt.t))
    R.eq(key + ' increment', L, L.term(live(L.call(x, T[0], dt))),
         comp(w - at('c', T[0])), W, 'increment of the component')
