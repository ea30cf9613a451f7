"""Systems of SDEs."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import sde

META = {
    'title': 'Systems of SDEs integrate all equations jointly, unmixed',
    'statement':
    'In a system of q equations each variable starts from its own initial '
    'condition, the SDE function receives the q current variables, each '
    'shaped vshape + (paths,), and variable k evolves by the Euler recursion '
    'with the coefficients of equation k and with components k of the '
    'sources, which are realized jointly for all equations; sources missing '
    'from an equation do not affect it. The result is a tuple of q '
    'processes, one per variable in order. This holds whether equations are '
    'laid out along the last axis of values or along an additional axis, and '
    'pack and unpack are inverse to each other.',
    'over': ['inputs', 'configurations'],
    'quant': 'all numbers of equations, values shapes, layouts, '
             'coefficients, sources and initial conditions',
    'why': 'Tests use few systems of two similar equations: variables '
           'exchanged, or a slice misplaced when q and the last dimension '
           'differ, need all shapes and asymmetric coefficients.',
    'files': ['integration.py'],
    'mech': [('SDEs.pack, SDEs.unpack, SDEs.A', 'sdepy/integration.py'),
             ('SDEs.shapes, SDEs.init, SDEs.result',
              'sdepy/integration.py')],
    'technique': 'abstract interpretation to value numbers with '
                 'uninterpreted coefficients and sources',
    'note': 'Decided for all values, for q of 1 to 3 and values of rank 0 '
            'to 2, on 3-point grids.',
}
W = 'sdepy/integration.py SDEs'
LOG = False


def text(q, srcs, log=False, addaxis=False, how='function'):
    xs = ', '.join('x%d' % k for k in range(q))
    eqs = ', '.join('{%s}' % ', '.join(
        "'%s': %s" % (z, 'C_%s%d(t, %s, a)' % (z, k, xs)) for z in srcs[k])
        for k in range(q))
    if how == 'function':
        return '''
@integrate(log=%s, addaxis=%s)
def f(t=0., %s, a=1.):
    return [%s]
''' % (log, addaxis, ', '.join('x%d=1.' % k for k in range(q)), eqs)
    return '''
class my_SDE(SDEs):
    q = %d
    sources = %s
    log = %s
    addaxis = %s
    def sde(self, t, %s, a=1.):
        return (%s,)
class f(my_SDE, integrator):
    pass
''' % (q, '{%s}' % ', '.join(repr(z) for z in sorted(set(sum(
        map(list, srcs), [])))), log, addaxis, xs, eqs)


def wshape(q, vshape, addaxis):
    if addaxis or vshape == ():
        return vshape + (q,)
    return vshape[:-1] + (vshape[-1] * q,)


def part(z, k, vshape, addaxis):
    if addaxis or vshape == ():
        return z[..., k, :]
    d = vshape[-1]
    return z[..., k * d:(k + 1) * d, :]


def system(L, line, i0, q, srcs, vshape, addaxis, x0, a, log=False):
    """Specified values: list of q arrays along the timeline."""
    w = wshape(q, vshape, addaxis) + (3,)
    full = vshape + (3,)

    def step(xs, s, ds):
        out = []
        for k in range(q):
            y = xs[k]
            for z in srcs[k]:
                c = sde.ufx('C_%s%d' % (z, k), (), s, *xs, a)
                dz = ds if z == 'dt' else part(sde.ufx(
                    'W' + z, w, s, ds), k, vshape, addaxis)
                y = y + c * dz
            out.append(y)
        return out
    x0 = [NPX.broadcast_to(x, full) for x in x0]
    if log:
        x0 = [NPX.log(x) for x in x0]
    st = sde.recursion(line, line, i0, x0, step)
    out = [sde.stack([s[k] for s in st]) for k in range(q)]
    return [NPX.exp(x) for x in out] if log else out


CASES = [
    (2, (('dt', 'dw'), ('dt', 'dw'))),
    (2, (('dw',), ('dt',))),
    (3, (('dt', 'dw'), ('dn', 'dw'), ('dt',))),
    (1, (('dt', 'dw'),)),
]


def check(R):
    R.explanation = (
        'Systems of SDEs with uninterpreted coefficients and sources are '
        'integrated abstractly; the value number of each resulting process '
        'must be that of the specified recursion for its equation.')
    R.rule = ('one obligation per (equations, sources, vshape, layout, '
              'definition) and per variable')
    R.floor = 60
    for q, srcs in CASES:
        for vshape in ((), (2,), (4,), (4, 2)):
            for addaxis in (False, True):
                for how in ('function', 'class'):
                    for x0 in ('number', 'sequence'):
                        if how == 'class' and (x0 == 'number' or q == 3):
                            continue
                        key = 'q=%d sources=%s vshape=%s addaxis=%s %s ' \
                            'x0=%s' % (q, '/'.join('+'.join(s) for s in srcs),
                                       vshape, addaxis, how, x0)
                        with R.context(key, W):
                            one(R, key, q, srcs, vshape, addaxis, how, x0)
    packing(R)
    wrong(R)


def build(L, q, srcs, vshape, addaxis, how, log=False, **kw):
    ufs = {'C_%s%d' % (z, k): L.uf('C_%s%d' % (z, k), ())
           for k in range(q) for z in srcs[k]}
    c = L.client(text(q, srcs, log, addaxis, how), **ufs)
    w = wshape(q, vshape, addaxis)
    for z in ('dw', 'dn'):
        if any(z in s for s in srcs):
            kw[z] = L.source('W' + z, 3, w)
    return L.ok(c['f'], paths=L.dim(3), vshape=tuple(
        L.dim(n) for n in vshape), **kw)


def initial(L, q, kind, dom='real'):
    if kind == 'number':
        a = L.num('x0', dom)
        return a, [X(a.t)] * q
    ns = [L.num('x0%d' % k, dom) for k in range(q)]
    return list(ns), [X(n.t) for n in ns]


def one(R, key, q, srcs, vshape, addaxis, how, x0, log=False, W=W):
    L = R.lab()
    tt = L.timeline('t', (.1, .7, 1.5))
    line = sde.points(L, tt)
    a = L.num('a')
    xv, xt = initial(L, q, x0, 'pos' if log else 'real')
    P = build(L, q, srcs, vshape, addaxis, how, log, x0=xv, a=a)
    z = L.ok(P, tt)
    items = L.ip.seq(z)
    if len(items) != q:
        return R.bad(key, W, '%d results for %d equations' % (len(items), q))
    want = system(L, line, 0, q, srcs, vshape, addaxis, xt, X(a.t), log)
    for k in range(q):
        R.must('%s variable %d kind' % (key, k),
               L.cls_of(items[k]) == 'process', W, 'not a process')
        R.eq('%s variable %d' % (key, k), L, L.term(items[k]), want[k], W,
             'integrated values')


def packing(R):
    for vshape in ((), (2,), (4, 2)):
        for addaxis in (False, True):
            key = 'pack, unpack vshape=%s addaxis=%s' % (vshape, addaxis)
            with R.context(key, W):
                L = R.lab()
                srcs = (('dt', 'dw'),) * 3
                P = build(L, 3, srcs, vshape, addaxis, 'class')
                xs = [L.arr('v%d' % k, vshape + (3,)) for k in range(3)]
                Z = L.meth(P, 'pack', tuple(xs))
                w = wshape(3, vshape, addaxis) + (3,)
                z = X(L.term(Z.value))
                R.must(key + ' shape', np.shape(tm.REP.ev(z.t)) == w, W,
                       'packed values of another shape')
                back = L.ip.seq(L.meth(P, 'unpack', Z.value).value)
                for k in range(3):
                    R.eq('%s %d' % (key, k), L, L.term(back[k]),
                         L.term(xs[k]), W, 'unpack(pack(xs))')
                    R.eq('%s layout %d' % (key, k), L, part(
                        z, k, vshape, addaxis).t, L.term(xs[k]), W,
                        'layout of packed values')


def wrong(R):
    """Coefficients that do not match the equations are rejected."""
    for name, ret in (('too few equations', "[{'dt': 1.}]"),
                      ('too many equations',
                       "[{'dt': 1.}, {'dt': 1.}, {'dt': 1.}]"),
                      ('a dict', "{'dt': 1.}"),
                      ('unknown source',
                       "[{'dt': 1.}, {'dz': 1.}]")):
        key = 'sde returning ' + name
        with R.context(key, W):
            L = R.lab()
            c = L.client('''
class my_SDE(SDEs):
    q = 2
    def sde(self, t, x, y):
        return %s
class f(my_SDE, integrator):
    pass
''' % ret)
            P = L.ok(c['f'], paths=L.dim(3), dw=L.source('W', 3, (2,)))
            R.rejects(key, L, L.call(P, L.timeline('t', (0., 1.))), W,
                      'an sde returning ' + name)
    key = 'q = 0'
    with R.context(key, W):
        L = R.lab()
        c = L.client('''
class my_SDE(SDEs):
    q = 0
    def sde(self, t):
        return ()
class f(my_SDE, integrator):
    pass
''')
        R.rejects(key, L, L.call(c['f']), W, 'a system of 0 equations')
