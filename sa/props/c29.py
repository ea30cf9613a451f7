"""Process instances: timeline and values."""
import numpy as np
from ..lab import *

META = {
    'title': 'A process stores the given timeline and values',
    'statement':
    'process(t, x=), process(t, v=) and process(t, c=) build a process with '
    'timeline t, a scalar t standing for a single time, whose values at time '
    'i are x[i], v[i] for a single path, or c at all times for a single '
    'path, converted to dtype if given, and otherwise not altered. vshape, '
    'paths, tx, dt and dtx are those of the stored arrays, and x and t share '
    'memory with the given arrays if no conversion is needed. An empty or '
    'multidimensional timeline, values whose first dimension does not match '
    'it, and none or more than one of x, v and c raise ValueError.',
    'over': ['inputs', 'configurations'],
    'quant': 'all timelines, values, values shapes, paths and dtypes',
    'why': 'Tests sample a few shapes of real numbers; a value dropped or '
           'converted for some dtype or number of times would pass.',
    'files': ['infrastructure.py'],
    'mech': [('process.__new__, process properties',
              'sdepy/infrastructure.py class process')],
    'technique': 'abstract interpretation; value numbers, dtypes and alias '
                 'relations of the attributes of the process built',
    'note': 'Decided per rank, number of times and dtype class; for all '
            'values.',
}
W = 'sdepy/infrastructure.py process.__new__'
DT = (None, 'f4', 'f8', 'i8', 'c16', 'b1')


def alias(L, a, b):
    """Arrays sharing memory (views of the same array)."""
    ip = L.ip
    return ip.prim(lambda: ip.root(a)) == ip.prim(lambda: ip.root(b))


def check(R):
    R.explanation = (
        'Processes are built abstractly from unknown arrays; values, dtypes '
        'and aliases of the resulting attributes are compared with the '
        'specification.')
    R.rule = 'one obligation per (parameters, shapes, dtype) and attribute'
    R.floor = 300
    for tname in ('array', 'list', 'single', 'scalar', 'zero-dim', 'integer',
                  'constant'):
        for kind in 'xvc':
            for vshape in ((), (2,), (3, 2)):
                key = 't=%s %s= vshape=%s' % (tname, kind, vshape)
                with R.context(key, W):
                    built(R, key, tname, kind, vshape)
    for dt in DT:
        for src in ('f8', 'c16', 'i8', 'b1', 'f4'):
            if dt not in (None, 'c16') and src == 'c16':
                continue
            for kind in 'xvc':
                for n in (1, 2):
                    key = 'dtype=%s of %s %s= times=%d' % (dt, src, kind, n)
                    with R.context(key, W):
                        dtypes(R, key, dt, src, kind, n)
    for vals in ('list', 'scalar', 'int scalar', 'complex scalar',
                 'process'):
        with R.context('values as ' + vals, W):
            plain(R, vals)
    invalid(R)
    default_t(R)


def times(L, tname):
    """Timeline argument, and its term as stored."""
    if tname == 'array':
        t = L.timeline('t', (.5, 1.5, 2.))
        return t, X(L.term(t)), 3
    if tname == 'list':
        ts = [L.time('t%d' % i, z) for i, z in enumerate((.5, 1.5))]
        return L.v(ts), NPX.array([z.t for z in ts]), 2
    if tname == 'single':
        t = L.timeline('t', (.5,))
        return t, X(L.term(t)), 1
    if tname == 'scalar':
        t = L.time('t', .5)
        return t, NPX.asarray(t.t).reshape(1), 1
    if tname == 'zero-dim':
        t = L.timeline('t', .5)
        return t, X(L.term(t)).reshape(1), 1
    if tname == 'integer':
        t = L.arr('t', (4,), 'real', 'i8')
        return t, X(L.term(t)), 4
    return L.v((0., 1.)), NPX.array([0., 1.]), 2


def built(R, key, tname, kind, vshape):
    L = R.lab()
    P = L.public('process')
    t, tt, n = times(L, tname)
    if kind == 'x':
        for paths in (1, 2):
            a = L.arr('x%d' % paths, (n,) + vshape + (paths,))
            p = L.ok(P, t, x=a)
            attrs(R, '%s paths=%d' % (key, paths), L, p, t, tt,
                  X(L.term(a)), vshape, paths, n)
            R.must(key + ' aliases x', alias(L, L.get(p, 'x'), a), W,
                   'values are copied')
        return
    a = L.arr('a', ((n,) if kind == 'v' else ()) + vshape)
    p = L.ok(P, t, **{kind: a})
    z = X(L.term(a))
    if kind == 'v':
        want = z[..., None]
        R.must(key + ' aliases v', alias(L, L.get(p, 'x'), a), W,
               'values are copied')
    else:
        want = NPX.broadcast_to(z[..., None], (n,) + vshape + (1,))
    attrs(R, key, L, p, t, tt, want, vshape, 1, n)


def attrs(R, key, L, p, t, tt, want, vshape, paths, n):
    R.eq(key + ' values', L, L.term(p), want, W, 'values of the process')
    R.eq(key + ' x', L, L.term(L.get(p, 'x')), want, W, 'attribute x')
    R.must(key + ' type', L.cls_of(p) == 'process' and
           L.cls_of(L.get(p, 'x')) in ('Arr', 'ndarray'), W,
           'not a process, or x is not a plain array')
    st = L.get(p, 't')
    R.eq(key + ' t', L, L.term(st), tt, W, 'attribute t')
    if L.cls_of(t) == 'Arr':
        R.must(key + ' aliases t', alias(L, st, t), W, 'timeline is copied')
    vs = tuple(int(z) for z in L.rep(L.get(p, 'vshape')))
    R.must(key + ' vshape', vs == vshape, W, 'vshape %s' % (vs,))
    R.must(key + ' paths', L.rep(L.get(p, 'paths')) == paths, W,
           'wrong number of paths')
    ones = (1,) * (len(vshape) + 1)
    dt = tt[1:] - tt[:-1]
    for k in range(2):
        # twice: it is cached
        R.eq(key + ' dt', L, L.term(L.get(p, 'dt')), dt, W, 'attribute dt')
        R.eq(key + ' dtx', L, L.term(L.get(p, 'dtx')),
             dt.reshape((n - 1,) + ones), W, 'attribute dtx')
    R.eq(key + ' tx', L, L.term(L.get(p, 'tx')), tt.reshape((n,) + ones), W,
         'attribute tx')


def dtypes(R, key, dt, src, kind, n):
    L = R.lab()
    P = L.public('process')
    sh = {'x': (n, 2, 3), 'v': (n, 2), 'c': (2,)}[kind]
    a = L.arr('a', sh, 'real', src)
    kw = {} if dt is None else {'dtype': L.v(np.dtype(dt))}
    p = L.ok(P, L.timeline('t', (.5, 1.5)[:n]), **{kind: a}, **kw)
    z = X(L.term(a))
    if dt is not None:
        z = X(mk('cast', np.dtype(dt), z.t)) if src != dt else z
    want = {'x': z, 'v': z[..., None],
            'c': NPX.broadcast_to(z[..., None], (n, 2, 1))}[kind]
    R.eq(key + ' values', L, L.term(p), want, W, 'values of the process')
    d = L.rep(L.get(p, 'dtype'))
    R.must(key + ' dtype', d == np.dtype(dt or src), W,
           'values are stored as %s' % d)


def plain(R, vals):
    L = R.lab()
    P = L.public('process')
    t = L.timeline('t', (.5, 1.5))
    key = 'values as ' + vals
    if vals == 'list':
        a, b = L.num('a'), L.num('b')
        p = L.ok(P, t, v=L.v([a, b]))
        R.eq(key + ' v', L, L.term(p), NPX.array([[a.t], [b.t]]), W, 'values')
        p = L.ok(P, t, x=L.v([[a, b], [b, a]]))
        R.eq(key + ' x', L, L.term(p),
             NPX.array([[a.t, b.t], [b.t, a.t]]), W, 'values')
        p = L.ok(P, t, c=L.v([a, b]))
        R.eq(key + ' c', L, L.term(p),
             NPX.array([[[a.t], [b.t]]] * 2), W, 'values')
    elif vals == 'process':
        q = L.process('q', (.2, .7), (2, 3))
        p = L.ok(P, t, x=q)
        R.eq(key, L, L.term(p), L.term(q), W, 'values')
        R.eq(key + ' t', L, L.term(L.get(p, 't')), L.term(t), W, 'timeline')
        R.eq(key + ' original t', L, L.term(L.get(q, 't')),
             L.term(L.get(q, 'x')) if 0 else leaf(
                 'q.t', (2,), 'f8', 'ord', np.array((.2, .7))), W,
             'timeline of the process given as values')
    else:
        c = L.num('c', 'real', {'scalar': 'f8', 'int scalar': 'i8',
                                'complex scalar': 'c16'}[vals])
        p = L.ok(P, t, c=c)
        R.eq(key, L, L.term(p), NPX.array([[c.t]] * 2), W, 'values')


def invalid(R):
    with R.context('invalid arguments', W):
        L = R.lab()
        P = L.public('process')
        t = L.timeline('t', (.5, 1.5))
        x, v, c = L.arr('x', (2, 3)), L.arr('v', (2,)), L.num('c')
        for kw in ({}, {'x': x, 'v': v}, {'x': x, 'c': c},
                   {'v': v, 'c': c}, {'x': x, 'v': v, 'c': c}):
            R.rejects('given ' + ''.join(sorted(kw)), L,
                      L.call(P, t, **kw), W, 'values given as %s'
                      % (sorted(kw),), {'ValueError'})
        for name, bad in (('empty', L.arr('e', (0,))),
                          ('2-d', L.arr('m', (2, 1))),
                          ('empty list', L.v([]))):
            for k, z in (('x', x), ('v', v), ('c', c)):
                R.rejects('timeline %s %s' % (name, k), L,
                          L.call(P, bad, **{k: z}), W, name + ' timeline',
                          {'ValueError'})
        for k, sh in (('x', (3, 2)), ('x', (1, 2)), ('x', ()), ('v', (3,)),
                      ('v', (1,)), ('v', ())):
            R.rejects('mismatch %s %s' % (k, sh), L,
                      L.call(P, t, **{k: L.arr('z', sh)}), W,
                      'values shaped %s with two times' % (sh,),
                      {'ValueError'})
        R.rejects('mismatch scalar t', L,
                  L.call(P, L.time('s', .4), x=x), W,
                  'two values with one time', {'ValueError'})


def default_t(R):
    with R.context('default timeline', W):
        L = R.lab()
        P = L.public('process')
        c = L.num('c')
        p = L.ok(P, c=c)
        R.eq('default timeline', L, L.term(L.get(p, 't')), NPX.array([0.]),
             W, 'default timeline')
        R.eq('default timeline values', L, L.term(p), NPX.array([[c.t]]), W,
             'values')
