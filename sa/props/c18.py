"""Euler steps."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import sde

META = {
    'title': 'Integration performs exactly the Euler recursion of the SDE',
    'statement':
    'The value of an integrated process at each timeline point is obtained '
    'from the initial condition by x(s + ds) = x(s) + sum over the sources z '
    'of A_z(s, x(s), parameters(s)) * dz(s, ds) along consecutive steps, each '
    'coefficient being evaluated at the beginning of the step on the state '
    'there, each source once per step with that s, ds, and sources missing '
    'from the returned coefficients not contributing. It holds for every '
    'coefficient function, parameter and source, and for every values shape.',
    'over': ['inputs', 'configurations'],
    'quant': 'all coefficient functions, constant or time-dependent '
             'parameters, sources, timelines, steps and values shapes',
    'why': 'The tests compare sample moments or preset processes with linear '
           'coefficients; a coefficient taken at the wrong time or state '
           '(anticipating) converges to the same moments as steps shrink.',
    'files': ['integration.py'],
    'mech': [('integrator.euler_next', 'sdepy/integration.py'),
             ('SDE.A, SDE.dZ', 'sdepy/integration.py'),
             ('paths_generator._generate_paths', 'sdepy/integration.py')],
    'technique': 'abstract interpretation to value numbers with '
                 'uninterpreted coefficients and sources',
    'note': 'Decided for all values, coefficients and sources, on grids of up '
            'to 6 points; the step loop body is the same beyond.',
}
W = 'sdepy/integration.py integrator.euler_next'

SRC = {
    'dw': '''
@integrate
def f(t, x, a=1., b=2.):
    return {'dt': A(t, x, a), 'dw': B(t, x, b)}
''',
    'dt only': '''
@integrate
def f(t, x, a=1., b=2.):
    return {'dt': A(t, x, a)}
''',
    'dw, dn and dj': '''
@integrate
def f(t, x, a=1., b=2.):
    return {'dj': C(t, x, a), 'dw': B(t, x, b), 'dt': A(t, x, a),
            'dn': D(t, x)}
''',
    'constant coefficients': '''
@integrate
def f(t, x, a=1., b=2.):
    return {'dt': a, 'dw': b}
''',
    'state-dependent keys': '''
@integrate(q=0, sources={'dt', 'dw'})
def f(t, x, a=1., b=2.):
    return {'dw': B(t, x, b)}
''',
    'class': '''
class my_SDE(SDE):
    sources = {'dt', 'dw'}
    def sde(self, t, x, a=1., b=2.):
        return {'dt': A(t, x, a), 'dw': B(t, x, b)}
class f(my_SDE, integrator):
    pass
''',
    'class with own clock': '''
class my_SDE(SDE):
    sources = {'dt', 'dw'}
    def source_dt(self, clock):
        return clock
    def sde(self, t, x, a=1., b=2.):
        return {'dt': A(t, x, a), 'dw': B(t, x, b)}
class f(my_SDE, integrator):
    pass
''',
    'class with own source': '''
class my_SDE(SDE):
    sources = {'dt', 'dz'}
    def source_dz(self, dz=None):
        return dz
    def sde(self, t, x, a=1., b=2.):
        return {'dt': A(t, x, a), 'dz': B(t, x, b)}
class f(my_SDE, integrator):
    pass
''',
}
USES = {'dw': 'wt', 'dt only': 't', 'dw, dn and dj': 'wnjt',
        'constant coefficients': 'cwt', 'state-dependent keys': 'w',
        'class': 'wt', 'class with own clock': 'wk',
        'class with own source': 'zt'}


def params(L, kind):
    """A parameter and its value at time s."""
    if kind == 'number':
        a = L.num('a')
        return a, lambda s: X(a.t)
    if kind == 'array':
        a = L.arr('a', (2, 1))
        return a, lambda s: X(L.term(a))
    if kind == 'function':
        return L.uf('pa', (2, 1)), lambda s: sde.ufx('pa', (2, 1), s)
    t = L.timeline('pt', (-1., 9.))
    x = X(tm.leaf('px', (2, 2, 1)))
    p = L.ok(L.public('process'), t, x=L.arrt(x.t))

    def at(s):
        T_ = X(L.term(t))
        w = (s - T_[0]) / (T_[1] - T_[0])
        return x[0] * (1 - w) + x[1] * w
    return p, at


def check(R):
    R.explanation = (
        'User-defined SDEs with uninterpreted coefficients, parameters and '
        'sources are integrated abstractly on a symbolic timeline; the value '
        'number of the resulting process must equal that of the Euler '
        'recursion written as the specification.')
    R.rule = 'one obligation per (SDE kind, parameter kind, vshape, steps)'
    R.floor = 15
    for kind in SRC:
        for pk in ('number', 'array', 'function', 'process'):
            for steps in ((None, 'steps') if pk in ('number', 'function')
                          else (None,)):
                key = 'sde=%s parameters=%s steps=%s' % (kind, pk, steps)
                with R.context(key, W):
                    one(R, key, kind, pk, steps)
    scalar(R)
    dtypes(R)


def one(R, key, kind, pk, steps):
    L = R.lab()
    c = L.client(SRC[kind], A=L.uf('A', (2, 1)), B=L.uf('B', (), 'raw'),
                 C=L.uf('C', (2, 3)), D=L.uf('D', (1, 3)))
    a, at = params(L, pk)
    b = L.num('b')
    line = sde.points(L, L.timeline('t', (0., .7, 1.5)))
    st = None
    if steps:
        st = L.timeline('s', (-.3, .2, .7, 1.1))
    kw = {}
    for ch, arg in (('w', 'dw'), ('n', 'dn'), ('j', 'dj'), ('z', 'dz'), ('k', 'clock')):
        if ch in USES[kind]:
            kw[arg] = L.source('W' + ch, 3, (2,))
    x0 = L.arr('x0', (2, 1))
    P = L.ok(c['f'], paths=L.dim(3), vshape=L.dim(2), steps=st, x0=x0, a=a,
             b=b, **kw)
    z = L.ok(P, L.arrt(tm.leaf('t', (3,), 'f8', 'ord', (0., .7, 1.5))))
    g = sde.grid(line, sde.points(L, st) if steps else None)
    B_ = X(b.t)

    def step(x, s, ds):
        al = at(s)
        co = {'t': sde.ufx('A', (2, 1), s, x, al),
              'w': sde.ufx('B', (), s, x, B_),
              'j': sde.ufx('C', (2, 3), s, x, al),
              'k': sde.ufx('A', (2, 1), s, x, al),
              'n': sde.ufx('D', (1, 3), s, x),
              'z': sde.ufx('B', (), s, x, B_)}
        if 'c' in USES[kind]:
            co['t'], co['w'] = al, B_
        y = x
        for ch in USES[kind]:
            if ch != 'c':
                y = y + co[ch] * (ds if ch == 't' else sde.ufx(
                    'W' + ch, (2, 3), s, ds))
        return y
    X0 = NPX.broadcast_to(X(L.term(x0)), (2, 3))
    want = sde.stack(sde.recursion(g, line, 0, X0, step))
    if kind == 'dt only':
        want = NPX.broadcast_to(want, (3, 2, 3))
    R.eq(key, L, L.term(z), want, W, 'integrated values')
    n = len(g) - 1
    for ch in 'wnjzk':
        if ch in USES[kind]:
            m = sde.calls(L, 'W' + ch)
            R.must(key + ' one call per step of d' + ch, len(m) == n and
                   not any(e.pc for e in m), W,
                   'the source is called %d times in %d steps' % (len(m), n))


def scalar(R):
    """Scalar values, and integration in other dtypes."""
    for vshape in ((), (2, 4)):
        key = 'sde=dw vshape=%s' % (vshape,)
        with R.context(key, W):
            L = R.lab()
            c = L.client(SRC['dw'], A=L.uf('A', ()), B=L.uf('B', (), 'raw'))
            line = L.timeline('t', (.1, .7, 1.5, 1.6))
            x0 = L.num('x0')
            P = L.ok(c['f'], paths=L.dim(3), vshape=tuple(
                L.dim(n) for n in vshape), x0=x0, dw=L.source('W', 3, vshape))
            z = L.ok(P, line)
            pts = sde.points(L, line)
            s3 = vshape + (3,)

            def step(x, s, ds):
                return x + sde.ufx('A', (), s, x, 1.) * ds + \
                    sde.ufx('B', (), s, x, 2.) * sde.ufx('W', s3, s, ds)
            want = sde.stack(sde.recursion(pts, pts, 0, NPX.broadcast_to(
                X(x0.t), s3), step))
            R.eq(key, L, L.term(z), want, W, 'integrated values')


def dtypes(R):
    for dt in (None, 'float32', 'complex128'):
        key = 'dtype %s' % dt
        with R.context(key, W):
            L = R.lab()
            c = L.client(SRC['constant coefficients'])
            P = L.ok(c['f'], paths=L.dim(3), vshape=L.dim(2),
                     dw=L.source('W', 3, (2,)),
                     dtype=None if dt is None else L.v(np.dtype(dt)))
            z = L.ok(P, L.timeline('t', (.1, .7)))
            got = np.asarray(L.rep(z)).dtype
            R.must(key, got == np.dtype(dt or 'float64'), W,
                   'values of dtype %s' % got)
