"""Integration of the logarithm."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import sde
from . import c23

META = {
    'title': 'With log set, the logarithm is integrated and exponentiated once',
    'statement':
    'If log is true the SDE (or system) given is that of the logarithm: the '
    'logarithm of the initial condition is taken once, the Euler recursion '
    'runs on logarithms, which are the state passed to the SDE function, and '
    'the final values are exponentiated exactly once, so that the process '
    'equals the initial condition at the initial time. Without log no '
    'transformation occurs. The preset lognormal, jump-diffusion and Heston '
    'processes obey the same rule for the components they model by '
    'logarithms, and Heston volatilities are untouched.',
    'over': ['inputs', 'configurations'],
    'quant': 'all coefficients, sources, positive initial conditions, '
             'initial indexes, single SDEs and systems, user overrides of '
             'let and init',
    'why': 'Only the preset single-equation processes are tested with log; '
           'a transformation missed or applied twice for systems, backward '
           'runs or user-defined classes is not exercised.',
    'files': ['integration.py'],
    'mech': [('SDE.begin, SDE.exit', 'sdepy/integration.py'),
             ('SDEs.result', 'sdepy/integration.py'),
             ('full_heston_SDE, heston_SDE', 'sdepy/integration.py')],
    'technique': 'abstract interpretation to value numbers',
    'note': 'Decided for all values on 3-point grids.',
}
W = 'sdepy/integration.py SDE.begin, SDE.exit'


def check(R):
    R.explanation = (
        'SDEs, systems and preset processes are integrated abstractly with '
        'and without log; value numbers must be exp of the recursion started '
        'from the logarithm of the initial condition, or the plain one.')
    R.rule = 'one obligation per (kind of SDE, log, vshape, i0)'
    R.floor = 30
    for log in ('1', '0', 'np.bool_(True)', 'np.bool_(False)', '2.5'):
        for how in ('function', 'class'):
            for vshape in ((), (2,)):
                key = '%s log=%s vshape=%s' % (how, log, vshape)
                with R.context(key, W):
                    single(R, key, how, log, vshape, 0)
    for log in (False, True):
        for how in ('function', 'class', 'class overriding let',
                    'class overriding init'):
            for vshape in ((), (2,)):
                for i0 in (0, 1, -1):
                    key = '%s log=%s vshape=%s i0=%d' % (how, log, vshape, i0)
                    with R.context(key, W):
                        single(R, key, how, log, vshape, i0)
        for q, srcs in c23.CASES:
            for how in ('function', 'class'):
                for vshape, ax in (((), False), ((2,), False), ((2,), True)):
                    key = 'system q=%d %s %s log=%s vshape=%s addaxis=%s' % (
                        q, '/'.join('+'.join(s) for s in srcs), how, log,
                        vshape, ax)
                    with R.context(key, W):
                        c23.one(R, key, q, srcs, vshape, ax, how,
                                'sequence', log, W)
    presets(R)


def single(R, key, how, log, vshape, i0):
    L = R.lab()
    more = {'function': '', 'class': '',
            'class overriding let': '''
    def let(self, t, out_x, x):
        out_x[...] = 2.*x
''', 'class overriding init': '''
    def init(self, t, out_x, x0=1.):
        out_x[...] = 3.*x0
'''}[how]
    if how == 'function':
        text = '''
import numpy as np
@integrate(log=%s)
def f(t, x):
    return {'dt': A(t, x), 'dw': B(t, x)}
''' % log
    else:
        text = '''
import numpy as np
class my_SDE(SDE):
    log = %s
    def sde(self, t, x):
        return {'dt': A(t, x), 'dw': B(t, x)}
%s
class f(my_SDE, integrator):
    pass
''' % (log, more)
    c = L.client(text, A=L.uf('A', ()), B=L.uf('B', ()))
    tt = L.timeline('t', (.1, .7, 1.5))
    line = sde.points(L, tt)
    log = bool(eval(str(log)))
    x0 = L.num('x0', 'pos')
    P = L.ok(c['f'], paths=L.dim(3), vshape=tuple(L.dim(n) for n in vshape),
             x0=x0, i0=L.dim(i0), dw=L.source('W', 3, vshape))
    z = L.ok(P, tt)
    full = vshape + (3,)

    def step(x, s, ds):
        return x + sde.ufx('A', (), s, x) * ds + \
            sde.ufx('B', (), s, x) * sde.ufx('W', full, s, ds)
    X0 = NPX.broadcast_to(X(x0.t), full)
    if 'init' in how:
        X0 = 3. * X0
    if log:
        X0 = NPX.log(X0)
    xs = sde.recursion(line, line, i0, X0, step)
    if 'let' in how:
        xs = [2. * x for x in xs]
    want = sde.stack(xs)
    if log:
        want = NPX.exp(want)
    R.eq(key, L, L.term(z), want, W, 'integrated values')


def presets(R):
    """The initial condition is recovered at the initial time."""
    from . import c20
    for cls in ('lognorm_process', 'jumpdiff_process', 'heston_process',
                'merton_jumpdiff_process', 'kou_jumpdiff_process',
                'full_heston_process'):
        for vshape in ((), (2,)):
            key = '%s at the initial time vshape=%s' % (cls, vshape)
            w = 'sdepy/integration.py ' + cls
            with R.context(key, w):
                L = R.lab()
                x0, y0 = L.num('x0', 'pos'), L.num('y0', 'pos')
                kw = {'y0': y0} if 'heston' in cls else {}
                P = c20.build(L, cls, vshape, x0=x0, i0=L.dim(1), **kw)
                z = L.ok(P, L.timeline('t', (.1, .7, 1.5)))
                zs = [z]
                if cls == 'full_heston_process':
                    zs = list(L.ip.seq(z))
                    if len(zs) != 2:
                        R.bad(key, w, 'no pair of processes')
                        continue
                for v, a in zip(zs, (x0, y0)):
                    R.eq(key, L, X(L.term(v))[1].t, NPX.broadcast_to(
                        X(a.t), vshape + (3,)), w, 'values at initial time')
