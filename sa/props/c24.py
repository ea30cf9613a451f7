"""Customization hooks of SDEs."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import sde

META = {
    'title': 'Shapes, init, let, result and dtype hooks are honoured exactly',
    'statement':
    'For every SDE with shapes(vshape) returning (vshape, xshape, wshape), '
    'the working state has shape wshape + (paths,), sources are realized with '
    'values shape wshape, and results are stored with shape xshape + '
    '(paths,), all with the requested dtype. init fills the state before the '
    'first step; let(t, out_x, x) is invoked once per timeline point with '
    'the state there and its output is what is stored (exponentiated if log); '
    'result(tt, xx) receives the timeline as given and all stored values, and '
    'what it returns is what the call returns. By default this is one '
    'process, with that timeline, shaped (times,) + vshape + (paths,).',
    'over': ['inputs', 'configurations'],
    'quant': 'all shapes, dtypes, hook definitions, timelines and initial '
             'points',
    'why': 'Hooks are code of users; tests define few of them, on one shape '
           'each, while state, noise and result shapes may all differ.',
    'files': ['integration.py'],
    'mech': [('SDE.begin, store, exit, let, result, shapes',
              'sdepy/integration.py'),
             ('paths_generator.__call__', 'sdepy/integration.py')],
    'technique': 'abstract interpretation with uninterpreted hooks; event '
                 'typestate of hook calls',
    'note': 'Decided for all values on enumerated shapes and 3-point '
            'timelines with inner steps.',
}
W = 'sdepy/integration.py SDE'
SRC = '''
class my_SDE(SDE):
    sources = {'dt', 'dz'}
    log = %s
    def shapes(self, vshape):
        SHAPES(vshape)
        return %s
    def source_dz(self, dz=None):
        SRC(self.wshape, self.paths)
        return Z
    def init(self, t, out_x, x0=1.):
        INIT(t, out_x.shape)
        out_x[...] = x0
    def sde(self, t, x):
        SDE_(t, x.shape)
        return {'dt': A(t, x), 'dz': B(t, x)}
    def let(self, t, out_x, x):
        LET(t, out_x.shape, x)
        out_x[...] = %s
    def result(self, tt, xx):
        RESULT(tt, xx)
        return %s
class P(my_SDE, integrator):
    pass
'''
SHAPES = {
    # vshape, returned, xshape, wshape, let
    'same': ((2,), '(vshape, vshape, vshape)', (2,), (2,), 'G(t, x)'),
    'factors': ((2,), '(vshape, vshape, vshape + (4,))', (2,), (2, 4),
                'G(t, x).sum(axis=-2)'),
    'leading': ((), '(vshape, (3,), (4, 3))', (3,), (4, 3), 'G(t, x)[1]'),
    'larger result': ((2,), '(vshape, (5,) + vshape, vshape)', (5, 2), (2,),
                      'G(t, x)'),
    'other vshape': ((4,), '((2,), (2,), (2,))', (2,), (2,), 'G(t, x)'),
}
LETF = {'same': lambda g: g, 'factors': lambda g: g.sum(axis=-2),
        'leading': lambda g: g[1],
        'larger result': lambda g: NPX.broadcast_to(g, (5, 2, 3)),
        'other vshape': lambda g: g}


def check(R):
    R.explanation = (
        'An SDE whose hooks record their arguments is integrated abstractly; '
        'calls of hooks (number, order, arguments, shapes) and the value '
        'number of results are compared with those specified.')
    R.rule = 'one obligation per (shapes, log, i0) and hook, and per dtype'
    R.floor = 80
    for name in SHAPES:
        for log in (False, True):
            for i0 in (0, 1, -1):
                key = 'shapes %s log=%s i0=%d' % (name, log, i0)
                with R.context(key, W):
                    hooks(R, key, name, log, i0)
    for what in ('a process', 'the array', 'a tuple', 'None', 'a user value'):
        with R.context('result returning ' + what, W):
            result(R, what)
    default(R)
    generator(R)


def hooks(R, key, name, log, i0):
    vshape, ret, xshape, wshape, let = SHAPES[name]
    L = R.lab()
    rec = {n: L.recorder(n) for n in ('SHAPES', 'SRC', 'INIT', 'SDE_', 'LET',
                                      'RESULT')}
    c = L.client(SRC % (log, ret, let, '(tt, xx)'), Z=L.source('Z', 3, wshape),
                 A=L.uf('A', ()), B=L.uf('B', ()), G=L.uf('G', ()), **rec)
    x0 = L.num('x0', 'pos')
    P = L.ok(c['P'], paths=L.dim(3), vshape=tuple(L.dim(n) for n in vshape),
             steps=L.timeline('s', (.4,)), i0=i0, x0=x0)
    full = wshape + (3,)

    def shape(v):
        return tuple(int(n) for n in L.rep(v))
    es = sde.calls(L, 'SHAPES')
    R.must(key + ' shapes', len(es) == 1 and
           shape(es[0].info['args'][0]) == vshape, W,
           'shapes not called once with vshape')
    es = sde.calls(L, 'SRC')
    R.must(key + ' noise shape', len(es) == 1 and
           shape(es[0].info['args'][0]) == wshape and
           L.rep(es[0].info['args'][1]) == 3, W,
           'sources are not set up with wshape and paths')
    tt = L.timeline('t', (.1, .9, 2.))
    line = sde.points(L, tt)
    st = sde.points(L, L.timeline('s', (.4,)))
    out = L.ok(P, tt)
    back, fwd = sde.visits(sde.grid(line, st), line, i0)
    dirs = [d for d in (back, fwd) if d]
    es = sde.calls(L, 'INIT')
    R.must(key + ' init', len(es) == len(dirs) and all(
        shape(e.info['args'][1]) == full for e in es), W,
        'init is not called once per direction on a state of shape wshape + '
        '(paths,)')
    for e in es:
        R.eq(key + ' init time', L, L.term(e.info['args'][0]),
             line[i0][0], W, 'time given to init')
    es = sde.calls(L, 'SDE_')
    R.must(key + ' sde', len(es) == len(back) + len(fwd) and all(
        shape(e.info['args'][1]) == full for e in es), W,
        'sde is not called once per step on a state of shape wshape + '
        '(paths,)')
    # let, once per point and direction
    es = sde.calls(L, 'LET')
    idx = sum(([j for j, p in enumerate(line)
                if p[1] <= line[i0][1]][::-1] if d is back else
               [j for j, p in enumerate(line) if p[1] >= line[i0][1]]
               for d in dirs), [])

    def step(x, s, ds):
        return x + sde.ufx('A', (), s, x) * ds + \
            sde.ufx('B', (), s, x) * sde.ufx('Z', full, s, ds)
    start = NPX.broadcast_to(X(x0.t), full)
    xs = sde.recursion(sde.grid(line, st), line, i0,
                       NPX.log(start) if log else start, step)
    if len(es) != len(idx):
        R.bad(key + ' let', W, '%d calls of let, specified %d'
              % (len(es), len(idx)))
    else:
        for k, (e, j) in enumerate(zip(es, idx)):
            a = e.info['args']
            R.eq(key + ' let time %d' % k, L, L.term(a[0]), line[j][0], W,
                 'time given to let')
            R.must(key + ' let shape %d' % k, shape(a[1]) == xshape + (3,),
                   W, 'let gets an output of shape %s' % (shape(a[1]),))
    vals = sde.stack([LETF[name](sde.ufx('G', (), t, x))
                      for (t, r), x in zip(line, xs)])
    if log:
        vals = NPX.exp(vals)
    es = sde.calls(L, 'RESULT')
    R.must(key + ' result', len(es) == 1, W, '%d calls of result' % len(es))
    t_, x_ = L.ip.seq(out)
    R.eq(key + ' timeline', L, L.term(t_), L.term(tt), W,
         'timeline given to result')
    R.eq(key + ' values', L, L.term(x_), vals, W, 'values given to result')


RES = {'a process': 'process(t=tt, x=2*xx)', 'the array': 'xx[-1]',
       'a tuple': '(xx[0], tt)', 'None': 'None', 'a user value': 'V(xx)'}


def result(R, what):
    L = R.lab()
    key = 'result returning ' + what
    c = L.client('''
class P(SDE, integrator):
    def init(self, t, out_x, x0=1.): out_x[...] = x0
    def sde(self, t, x): return {'dt': 1.}
    def result(self, tt, xx): return %s
''' % RES[what], V=L.uf('V', ()))
    x0 = L.num('x0')
    tt = L.timeline('t', (.1, .9, 2.))
    P = L.ok(c['P'], paths=L.dim(3), x0=x0)
    out = L.ok(P, tt)
    t = X(L.term(tt))
    xx = NPX.broadcast_to((X(x0.t) + (t - t[0]))[:, None], (3, 3))
    if what == 'None':
        R.must(key, getattr(out, 'v', 0) is None, W, 'not returned')
    elif what == 'a tuple':
        a, b = L.ip.seq(out)
        R.eq(key + ' 0', L, L.term(a), xx[0], W, 'returned value')
        R.eq(key + ' 1', L, L.term(b), t, W, 'returned value')
    else:
        want = {'a process': 2 * xx, 'the array': xx[-1],
                'a user value': NPX.asarray(sde.ufx('V', (), xx))}[what]
        R.eq(key, L, L.term(out), want, W, 'returned value')
        R.must(key + ' kind', (L.cls_of(out) == 'process') ==
               (what == 'a process'), W, 'returned object of another type')


def default(R):
    for vshape in ((), (2,), (4, 2)):
        for dtype in (None, 'float32', 'float64', 'complex128'):
            for kind in ('float', 'int', 'list'):
                key = 'default vshape=%s dtype=%s timeline=%s' % (
                    vshape, dtype, kind)
                with R.context(key, W):
                    L = R.lab()
                    Pc = L.public('wiener_process')
                    kw = {} if dtype is None else {'dtype': dtype}
                    if dtype == 'complex128':
                        kw['dw'] = L.source('Z', 3, vshape)
                    P = L.ok(Pc, paths=L.dim(3), vshape=tuple(
                        L.dim(n) for n in vshape), **kw)
                    if kind == 'float':
                        tt = L.timeline('t', (.1, .9, 2.))
                    elif kind == 'int':
                        tt = L.timeline('t', (1, 3, 4), 'i8')
                    else:
                        tt = L.v([L.time('t%d' % i, r) for i, r in
                                  enumerate((.1, .9, 2.))])
                    z = L.ok(P, tt)
                    a = np.asarray(L.rep(z))
                    R.must(key + ' kind', L.cls_of(z) == 'process', W,
                           'not a process')
                    R.must(key + ' shape', a.shape == (3,) + vshape + (3,),
                           W, 'result of shape %s' % (a.shape,))
                    R.must(key + ' dtype', a.dtype == np.dtype(
                        dtype or 'float64'), W, 'result of dtype %s' % a.dtype)
                    R.eq(key + ' timeline', L, L.term(L.get(z, 't')),
                         NPX.asarray(X(L.term(tt))), W, 'timeline')
                    R.must(key + ' timeline dtype', np.asarray(L.rep(
                        L.get(z, 't'))).dtype == np.asarray(L.rep(tt)).dtype,
                        W, 'timeline of another dtype')
    for dtype in (None, 'float32', 'complex128'):
        key = 'dtypes with dtype=%s' % dtype
        with R.context(key, W):
            L = R.lab()
            names = ('INIT', 'SDE_', 'LET', 'RESULT')
            c = L.client(DT, **{n: L.recorder(n) for n in names})
            kw = {} if dtype is None else {'dtype': dtype}
            P = L.ok(c['P'], paths=L.dim(3), vshape=L.dim(2), **kw)
            L.ok(P, L.timeline('t', (1, 2, 4), 'i8'))
            want = np.dtype(dtype or 'float64')
            for n in names:
                es = sde.calls(L, n)
                R.must('%s %s' % (key, n), es and all(np.asarray(
                    L.rep(v)).dtype == want for e in es
                    for v in e.info['args']), W,
                    'values given to %s are not of the requested dtype'
                    % n.strip('_').lower())
    key = 'integer vshape'
    with R.context(key, W):
        L = R.lab()
        P = L.ok(L.public('wiener_process'), paths=L.dim(3),
                 vshape=L.dim(4))
        a = np.shape(L.rep(L.ok(P, L.timeline('t', (.1, .9)))))
        R.must(key, a == (2, 4, 3), W, 'shape %s' % (a,))
    key = 'default paths and vshape'
    with R.context(key, W):
        L = R.lab()
        P = L.ok(L.public('wiener_process'))
        a = np.shape(L.rep(L.ok(P, L.timeline('t', (.1, .9)))))
        R.must(key, a == (2, 1), W, 'shape %s' % (a,))


DT = '''
class P(SDE, integrator):
    sources = {'dt'}
    def init(self, t, out_x, x0=1.):
        INIT(out_x)
        out_x[...] = x0
    def sde(self, t, x):
        SDE_(x)
        return {'dt': x}
    def let(self, t, out_x, x):
        LET(out_x, x)
        out_x[...] = x
    def result(self, tt, xx):
        RESULT(xx)
        return xx
'''
GEN = '''
class G(paths_generator):
    def begin(self): BEGIN()
    def next(self):
        NEXT()
        self.itervars['xw'][-1][...] = 1.
    def store(self, i, k): STORE()
    def end(self): END()
    def exit(self, tt, xx):
        EXIT(tt, xx)
        return V(xx)
'''


def generator(R):
    """Order of the calls of the hooks of a path generator."""
    for i0, order in ((0, 'BSNSNSE'), (-1, 'BSNSNSE'), (1, 'BSNSEBSNSE')):
        key = 'hooks of paths_generator, i0=%d' % i0
        with R.context(key, W):
            L = R.lab()
            ns = ('BEGIN', 'NEXT', 'STORE', 'END', 'EXIT')
            c = L.client(GEN, V=L.uf('V', ()),
                         **{n: L.recorder(n) for n in ns})
            G = L.ok(c['G'], paths=L.dim(3), xshape=L.dim(2),
                     wshape=(L.dim(4), L.dim(2)), i0=i0)
            tt = L.timeline('t', (.1, .9, 2.))
            out = L.ok(G, tt)
            got = ''.join(e.info['name'][0] if e.info['name'] != 'EXIT'
                          else 'X' for e in L.events('user_call')
                          if e.info['name'] in ns)
            R.must(key, got == order + 'X', W,
                   'hooks called as %s, specified %s' % (got, order + 'X'))
            e = sde.calls(L, 'EXIT')[-1].info['args']
            R.must(key + ' shapes', np.shape(L.rep(e[1])) == (3, 2, 3), W,
                   'stored values of shape %s' % (np.shape(L.rep(e[1])),))
            R.eq(key + ' timeline', L, L.term(e[0]), L.term(tt), W,
                 'timeline given to exit')
            R.eq(key + ' returned', L, L.term(out), NPX.asarray(sde.ufx(
                'V', (), X(L.term(e[1])))), W, 'value returned by exit')
    for dt in (int, np.int8, complex, np.float32, bool, None):
        key = 'values of a path generator, dtype=%s' % getattr(
            dt, '__name__', dt)
        with R.context(key, W):
            L = R.lab()
            c = L.client(VALUES)
            G = L.ok(c['G'], paths=L.dim(3), xshape=L.dim(2), steps=L.dim(4),
                     wshape=L.dim(2), dtype=L.v(dt))
            out = L.term(L.ok(G, L.timeline('t', (.1, .9, 2.))))
            want = np.dtype(float if dt is None else dt)
            got = np.asarray(tm.REP.ev(out))
            R.must(key + ' dtype', got.dtype == want, W,
                   'paths stored with dtype %s' % got.dtype)
            R.eq(key, L, out, tm.const(np.ones((3, 2, 3), dtype=want)), W,
                 'values stored')


VALUES = '''
class G(paths_generator):
    def begin(self):
        self.itervars['xw'][0][...] = 1
    def next(self):
        iv = self.itervars
        iv['xw'][1][...] = iv['xw'][0] * iv['xw'][0]
    def store(self, i, k):
        self.itervars['xx'][i][...] = self.itervars['xw'][k]
    def exit(self, tt, xx):
        return xx
'''
