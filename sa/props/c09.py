"""Source protocol: shapes, dtypes, attributes, parameter validation."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c08 import jump_rv, counting, tup

META = {
    'title': 'Sources honour the protocol: shape, dtype, paths, vshape, checks',
    'statement':
    'For every source class, a realization at (t, dt) has shape '
    '(t + dt).shape + vshape + (paths,) for scalar or array times that '
    'broadcast together, has the requested dtype, and the source exposes the '
    'paths and the (tuple) vshape it was given. Arguments that cannot yield '
    'such realizations (a correlation not matching the last axis of vshape or '
    'not square, an intensity not broadcastable to vshape and paths, an odd '
    'number of antithetic paths, something that is not a generator as rng, a '
    'source object of other paths or of values not broadcastable to those '
    'expected, an object that is no source) '
    'are rejected with an exception at construction or call.',
    'over': ['inputs', 'configurations'],
    'quant': 'all source classes, values shapes (including int), numbers of '
             'paths, dtypes, shapes of t and dt',
    'why': 'The tests enumerate some combinations with shapes that often '
           'share equal dimensions; the guarantee is for all combinations, '
           'including those where two axes would be confused.',
    'files': ['infrastructure.py'],
    'mech': [('source classes', 'sdepy/infrastructure.py'),
             ('parameter validation in source constructors',
              'sdepy/infrastructure.py')],
    'technique': 'abstract interpretation with shape and dtype domains',
    'note': 'Shapes and dtypes are computed in contexts with pairwise '
            'distinct dimensions; numpy is modelled.',
}
WHERE = 'sdepy/infrastructure.py '
TIMES = ((), (), 's'), ((3,), (3,), 'v'), ((3,), (), 'vs'), ((), (3,), 'sv'), \
    ((3, 1), (2,), 'b')


def tarr(L, name, shape, dom, base):
    n = int(np.prod(shape))
    rep = np.array([base * (1 + .13 * i) for i in range(n)]).reshape(shape)
    if shape == ():
        return Num(tm.leaf(name, (), 'f8', dom, base))
    return L.ip.arr(tm.leaf(name, shape, 'f8', dom, rep), 'caller')


def make(L, cls, paths, vshape, **kw):
    if cls == 'cpoisson_source':
        pat = np.arange(int(np.prod(vshape + (paths,)))) % 3
        kw.setdefault('dn', counting(L, tup(pat.reshape(
            vshape + (paths,)).tolist()), vshape + (paths,), paths, vshape))
    v = tuple(L.dim(n) for n in vshape)
    return L.ok(L.public(cls), paths=L.dim(paths), vshape=v, **kw)


CLASSES = ['source', 'wiener_source', 'poisson_source', 'cpoisson_source',
           'odd_wiener_source', 'even_poisson_source', 'true_source',
           'true_wiener_source', 'true_poisson_source']


def check(R):
    R.explanation = (
        'Every source class is analysed abstractly, with pairwise distinct '
        'dimensions; shapes and dtypes of realizations and the protocol '
        'attributes are read off the resulting value numbers, and '
        'inadmissible arguments must have only raising exits.')
    R.rule = ('one obligation per (class, vshape, shapes of t and dt, dtype) '
              'and per rejected argument')
    R.floor = 80
    for cls in CLASSES:
        w = WHERE + cls
        for vshape in ((), (4,), (4, 5)):
            for ts, ds, tn in TIMES:
                if cls == 'true_poisson_source' and tn in ('v', 'b', 'sv'):
                    continue
                key = '%s shape vshape=%s times=%s' % (cls, vshape, tn)
                with R.context(key, w):
                    L = R.lab()
                    src = make(L, cls, 6, vshape)
                    t = tarr(L, 't', ts, 'ord', .7)
                    dt = tarr(L, 'dt', ds, 'gap', .4)
                    z = L.ok(src, t, dt)
                    s = np.shape(L.rep(z))
                    full = np.broadcast_shapes(ts, ds) + vshape + (6,)
                    if cls == 'source':
                        full = np.broadcast_shapes(ts, ds)
                        if s != full:   # a placeholder: any compatible shape
                            full = s
                    R.must(key, s == full, w, 'realization shaped %s, '
                           'specified %s' % (s, full))
            key = '%s attributes vshape=%s' % (cls, vshape)
            with R.context(key, w):
                L = R.lab()
                src = make(L, cls, 6, vshape)
                p, vs = L.rep(L.get(src, 'paths')), \
                    L.rep(L.get(src, 'vshape'))
                R.must(key, p == 6 and tuple(vs) == vshape, w,
                       'paths and vshape attributes are %s, %s' % (p, vs))
        key = '%s integer vshape' % cls
        with R.context(key, w):
            L = R.lab()
            kw = {} if cls != 'cpoisson_source' else {
                'dn': counting(L, tup([[0, 1, 2, 0, 0, 1]] * 4), (4, 6), 6,
                               (4,))}
            src = L.ok(L.public(cls), paths=L.dim(6), vshape=L.dim(4), **kw)
            vs = L.rep(L.get(src, 'vshape'))
            ok = tuple(vs) == (4,)
            if cls != 'source':
                z = L.ok(src, L.time('t', .7), L.gap('dt', .4))
                ok = ok and np.shape(L.rep(z)) == (4, 6)
            R.must(key, ok, w, 'vshape=4 does not mean vshape=(4,)')
        if cls == 'source':
            continue
        for dt_ in ('float32', 'float64'):
            for corr in ((False, True, 'f') if 'wiener' in cls else (False,)):
                key = '%s dtype=%s corr=%s' % (cls, dt_, corr)
                with R.context(key, w):
                    L = R.lab()
                    kw = {}
                    if corr:
                        from .c06 import spd
                        c = spd(tm.leaf('A', (4, 4)))
                        kw['corr'] = L.arrt(c) if corr is True else \
                            L.fn('C', lambda s: spd(tm.mk(
                                'uf', 'C', (4, 4), (s,), 0)))
                    src = make(L, cls, 6, (4,), dtype=Ext('numpy.' + dt_),
                               **kw)
                    z = L.ok(src, L.time('t', .7), L.gap('dt', .4))
                    d = np.asarray(L.rep(z)).dtype
                    R.must(key, d == np.dtype(dt_), w,
                           'realization has dtype %s' % d)
    rejections(R)
    given(R)
    indexed(R)


def rejections(R):
    def rej(key, cls, mk_, call=False):
        w = WHERE + cls
        with R.context(key, w):
            L = R.lab()
            paths, vshape, kw = mk_(L)
            out = L.call(L.public(cls), paths=L.dim(paths), vshape=tuple(
                L.dim(n) for n in vshape), **kw)
            if call and out.live:
                out = L.call(out.value, L.time('t', .7), L.gap('dt', .4))
            R.rejects(key, L, out, w, key)
    for cls in ('wiener_source', 'true_wiener_source', 'odd_wiener_source'):
        rej(cls + ': corr with scalar values', cls, lambda L: (
            6, (), {'corr': L.arr('c', (2, 2))}))
        rej(cls + ': corr not matching vshape', cls, lambda L: (
            6, (3,), {'corr': L.arr('c', (2, 2))}))
        rej(cls + ': corr matching the wrong axis', cls, lambda L: (
            6, (2, 3), {'corr': L.arr('c', (2, 2))}))
        rej(cls + ': corr not square', cls, lambda L: (
            6, (3,), {'corr': L.arr('c', (3, 2))}))
        rej(cls + ': corr not a matrix', cls, lambda L: (
            6, (3,), {'corr': L.arr('c', (3,))}))
        rej(cls + ': rho not matching vshape', cls, lambda L: (
            6, (3,), {'rho': L.arr('r', (2,), 'small')}))
        rej(cls + ': rho a matrix', cls, lambda L: (
            6, (4,), {'rho': L.arr('r', (2, 2), 'small')}))
        rej(cls + ': corr function of wrong shape', cls, lambda L: (
            6, (3,), {'corr': L.uf('c', (2, 2))}), call=True)
    for cls in ('poisson_source', 'true_poisson_source',
                'even_poisson_source'):
        rej(cls + ': lam not broadcastable', cls, lambda L: (
            6, (3,), {'lam': L.arr('l', (2, 1), 'pos')}))
    for cls in ('odd_wiener_source', 'even_poisson_source',
                'even_cpoisson_source'):
        rej(cls + ': odd paths', cls, lambda L: (7, (3,), {}))
    for cls in CLASSES + ['even_cpoisson_source', 'true_cpoisson_source']:
        rej(cls + ': integer as rng', cls, lambda L: (6, (3,), {
            'rng': L.v(1234)}))


def given(R):
    """Sources handed over as objects: their paths must be those of the
    process and their vshape broadcastable to that of the process."""
    users = {
        'wiener_process': (lambda L: L.public('wiener_process'), 'dw'),
        'jumpdiff_process': (lambda L: L.public('jumpdiff_process'), 'dj'),
        'cpoisson_source': (lambda L: L.public('cpoisson_source'), 'dn'),
    }
    shapes = ((), (1,), (3,), (2,), (3, 1), (1, 3), (2, 3))
    for name, (cls, arg) in users.items():
        for vs in shapes:
            for ss in shapes:
                for n in (4, 1) if vs == ss else (4,):
                    offer(R, name, cls, arg, vs, ss, n)
        for what, src in MALFORMED.items():
            key = '%s: %s as %s' % (name, what, arg)
            with R.context(key, WHERE + '_check_source'):
                L = R.lab()
                c = L.client(src)
                R.rejects(key, L, L.call(
                    cls(L), paths=L.dim(4), vshape=(L.dim(3),),
                    **{arg: c['s']}), WHERE + '_check_source', what)


MALFORMED = {
    'a function': 's = lambda t, dt: dt',
    'a function with paths only': """
def s(t, dt):
    return dt
s.paths = 4
""",
    'a function with vshape only': """
def s(t, dt):
    return dt
s.vshape = (3,)
""",
    'an object that is not callable': """
class T:
    paths, vshape = 4, (3,)
s = T()
""",
    'a number': 's = 1.',
    'a string': 's = "dw"',
}


def offer(R, name, cls, arg, vs, ss, n):
    key = '%s(vshape=%s, paths=4): %s with vshape=%s, paths=%d' % (
        name, vs, arg, ss, n)
    w = WHERE + '_check_source'
    try:
        np.broadcast_to(np.empty(ss), vs)
        fits = n == 4
    except ValueError:
        fits = False
    with R.context(key, w):
        L = R.lab()
        out = L.call(cls(L), paths=L.dim(4), vshape=tuple(
            L.dim(k) for k in vs), **{arg: L.source('Z', n, ss)})
        if fits:
            R.accepts(key, L, out, w, 'a source that fits', explore=False)
        else:
            R.rejects(key, L, out, w, 'a source that does not fit',
                      ['ValueError'])


def indexed(R):
    """Indexing a true source restricts its values."""
    for vshape, idx in (((4,), 1), ((4, 5), 1), ((4, 5), (1, 2)),
                        ((4, 5), slice(0, 2)), ((4, 5), (slice(0, 2), 3)),
                        ((4,), slice(1, 3))):
        key = 'indexed true source vshape=%s index=%s' % (vshape, idx)
        w = WHERE + 'true_source.__getitem__'
        with R.context(key, w):
            L = R.lab()
            src = make(L, 'true_wiener_source', 6, vshape)
            sub = L.ok(L.meth, src, '') if False else L.item(src, idx).value
            t, dt = tarr(L, 't', (3,), 'ord', .7), L.gap('dt', .4)
            a, b = L.ok(src, t, dt), L.ok(sub, t, dt)
            full = np.empty(vshape)[idx].shape
            it = (slice(None),) + (idx if isinstance(idx, tuple) else (idx,))
            spec = X(L.term(a))[it]
            ok = tuple(L.rep(L.get(sub, 'vshape'))) == full and \
                L.rep(L.get(sub, 'paths')) == 6
            if not ok:
                R.bad(key, w, 'indexed source has wrong paths or vshape')
            else:
                R.eq(key, L, b, spec, w, 'realization of the indexed source '
                     'is not that of the source, indexed')
