"""Preset processes."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import sde
from . import c20, c23

META = {
    'title': 'Preset processes integrate their documented equations',
    'statement':
    'Each preset process (Wiener, lognormal, Ornstein-Uhlenbeck, Hull-White '
    'with any number of factors, Cox-Ingersoll-Ross, Heston with and without '
    'volatility, jump-diffusion, Merton, Kou) realizes the Euler recursion '
    'of the equations in its documentation, with the documented parameter '
    'names and defaults, parameters that are numbers, arrays or functions of '
    'time taken at the beginning of each step, and square roots of variance '
    'variables truncated at 0. Jumps of Merton and Kou processes follow the '
    'normal and double exponential distributions with the given parameters.',
    'over': ['inputs', 'configurations'],
    'quant': 'all parameter values and kinds, initial conditions, values '
             'shapes, factors, sources and timelines',
    'why': 'Tests compare means and variances of samples with closed forms '
           'for constant parameters within tolerances; a wrong Ito term, '
           'truncation or parameter evaluation time may be invisible there.',
    'files': ['integration.py'],
    'mech': [('preset *_SDE and *_process classes',
              'sdepy/integration.py')],
    'technique': 'abstract interpretation to value numbers compared with '
                 'recursions written from the documentation',
    'note': 'Decided for all values of parameters and sources on 3-point '
            'grids, ranks 0 to 2.',
}
W = 'sdepy/integration.py '

# parameters with documented defaults; equations of the integrated variables
PARAMS = {
    'wiener_process': dict(x0=0., mu=0., sigma=1.),
    'lognorm_process': dict(x0=1., mu=0., sigma=1.),
    'ornstein_uhlenbeck_process': dict(x0=0., theta=0., k=1., sigma=1.),
    'hull_white_process': dict(x0=0., theta=0., k=1., sigma=1.),
    'hull_white_1factor_process': dict(x0=0., theta=0., k=1., sigma=1.),
    'cox_ingersoll_ross_process': dict(x0=1., theta=1., k=1., xi=1.),
    'full_heston_process': dict(x0=1., mu=0., sigma=1., y0=1., theta=1.,
                                k=1., xi=1.),
    'heston_process': dict(x0=1., mu=0., sigma=1., y0=1., theta=1., k=1.,
                           xi=1.),
    'jumpdiff_process': dict(x0=1., mu=0., sigma=1.),
    'merton_jumpdiff_process': dict(x0=1., mu=0., sigma=1.),
    'kou_jumpdiff_process': dict(x0=1., mu=0., sigma=1.),
}
POS = ('x0', 'y0', 'sigma', 'xi', 'k', 'theta')


def pos(x):
    return NPX.maximum(x, 0.)


def stepper(cls, p, w, vshape):
    """One step of the (transformed) variables."""
    def dw(s, ds):
        return sde.ufx('W', w, s, ds)

    def step(x, s, ds):
        q = {k: f(s) for k, f in p.items() if k not in ('x0', 'y0')}
        if 'heston' in cls:
            d = 1 if vshape == () else vshape[-1]
            z = dw(s, ds)
            zx, zy = (z[..., 0, :], z[..., 1, :]) if vshape == () else \
                (z[..., :d, :], z[..., d:, :])
            a, y = x
            yp = pos(y)
            return [a + (q['mu'] - q['sigma']**2 * yp / 2) * ds +
                    q['sigma'] * NPX.sqrt(yp) * zx,
                    y + q['k'] * (q['theta'] - yp) * ds +
                    q['xi'] * NPX.sqrt(yp) * zy]
        if cls == 'wiener_process':
            return x + q['mu'] * ds + q['sigma'] * dw(s, ds)
        if cls == 'lognorm_process':
            return x + (q['mu'] - q['sigma']**2 / 2) * ds + \
                q['sigma'] * dw(s, ds)
        if 'jump' in cls:
            return x + (q['mu'] - q['sigma']**2 / 2) * ds + \
                q['sigma'] * dw(s, ds) + sde.ufx('J', w, s, ds)
        if cls == 'cox_ingersoll_ross_process':
            return x + q['k'] * (q['theta'] - pos(x)) * ds + \
                q['xi'] * NPX.sqrt(pos(x)) * dw(s, ds)
        return x + q['k'] * (q['theta'] - x) * ds + q['sigma'] * dw(s, ds)
    return step


def spec(cls, line, i0, p, w, vshape):
    full = w if cls == 'hull_white_process' else vshape + (3,)
    x0 = NPX.broadcast_to(p['x0'], full)
    log = cls == 'lognorm_process' or 'jump' in cls or 'heston' in cls
    if log:
        x0 = NPX.log(x0)
    if 'heston' in cls:
        x0 = [x0, NPX.broadcast_to(p['y0'], full)]
    st = sde.recursion(line, line, i0, x0, stepper(cls, p, w, vshape))
    if 'heston' in cls:
        xs = sde.stack([NPX.exp(s[0]) for s in st])
        ys = sde.stack([s[1] for s in st])
        return [xs, ys] if 'full' in cls else [xs]
    if cls == 'hull_white_process':
        st = [s.sum(axis=-2) for s in st]
    z = sde.stack(st)
    return [NPX.exp(z) if log else z]


def check(R):
    R.explanation = (
        'Every preset process is integrated abstractly with symbolic '
        'parameters of each kind and uninterpreted sources, and its value '
        'number compared with the recursion of the documented equations.')
    R.rule = ('one obligation per (class, kind of parameters, vshape, i0) and '
              'variable')
    R.floor = 60
    for cls, defaults in PARAMS.items():
        for kind in ('defaults', 'numbers', 'arrays', 'functions', 'mixed'):
            for vshape in ((), (2,), (4, 2)) + (
                    ((3,), (2, 5)) if kind == 'arrays' else ()):
                for i0 in (0, -1):
                    if i0 and kind != 'functions':
                        continue
                    key = '%s %s vshape=%s i0=%d' % (cls, kind, vshape, i0)
                    with R.context(key, W + cls):
                        one(R, key, cls, defaults, kind, vshape, i0)
    jumps(R)
    factors(R)


def one(R, key, cls, defaults, kind, vshape, i0):
    L = R.lab()
    tail = (2, 1) if cls == 'hull_white_process' else (1,)
    ps = vshape + tail if vshape or tail != (1,) else ()
    given, p = {}, {}
    for n, (k, d) in enumerate(sorted(defaults.items())):
        dom = 'pos' if k in POS else 'real'
        how = kind
        if kind == 'mixed':
            how = ('numbers', 'functions', 'arrays', 'defaults')[n % 4]
        if how == 'functions' and k in ('x0', 'y0'):
            how = 'numbers'
        if how == 'arrays' and ps == ():
            how = 'numbers'
        if how == 'defaults':
            p[k] = (lambda d: lambda s: X(tm.const(d)))(d)
        elif how == 'numbers':
            a = given[k] = L.num(k, dom)
            p[k] = (lambda a: lambda s: X(a.t))(a)
        elif how == 'arrays':
            a = given[k] = L.arr(k, ps, dom)
            p[k] = (lambda t: lambda s: X(t))(L.term(a))
        else:
            given[k] = L.uf('p_' + k, ps)
            p[k] = (lambda k: lambda s: sde.ufx('p_' + k, ps, s))(k)
    for k in ('x0', 'y0'):
        if k in p:
            p[k] = p[k](None)
    tt = L.timeline('t', (.1, .7, 1.5))
    line = sde.points(L, tt)
    P = c20.build(L, cls, vshape, i0=L.dim(i0), **given)
    z = c20.results(L, L.ok(P, tt))
    w = c20.shapes(cls, vshape) + (3,)
    want = spec(cls, line, i0, p, w, vshape)
    if len(z) != len(want):
        return R.bad(key, W + cls, '%d results, %d specified' % (
            len(z), len(want)))
    for n, (a, b) in enumerate(zip(z, want)):
        R.eq(key + (' variable %d' % n if n else ''), L, a, b, W + cls,
             'integrated values')


def jumps(R):
    """Jump distributions of Merton and Kou processes."""
    for cls, names in (('merton_jumpdiff_process', 'ab'),
                       ('kou_jumpdiff_process', ('a', 'b', 'pa'))):
        for kind in ('defaults', 'numbers', 'functions'):
            key = '%s jumps, %s' % (cls, kind)
            with R.context(key, W + cls):
                L = R.lab()
                d = dict(a=0., b=1.) if 'merton' in cls else \
                    dict(a=.5, b=.5, pa=.5)
                kw, p = {}, {k: X(tm.const(v)) for k, v in d.items()}
                t = L.time('t', .7)
                for k in names:
                    dom = 'prob' if k == 'pa' else 'pos'
                    if kind == 'numbers':
                        kw[k] = L.num(k, dom)
                        p[k] = X(kw[k].t)
                    elif kind == 'functions':
                        kw[k] = L.fn(k, lambda s, k=k: .5 + .3 * NPX.sin(
                            X(s) + len(k) + ord(k[0])))
                        p[k] = .5 + .3 * NPX.sin(X(t.t) + len(k) + ord(k[0]))
                P = L.ok(L.public(cls), paths=L.dim(3), **kw)
                dj = L.item(L.get(P, 'sources'), 'dj').value
                y = L.get(dj, 'y')
                if kind == 'functions':
                    y = L.ok(y, t)
                a, b = p['a'], p['b']
                if 'merton' in cls:
                    m, v = a, b**2
                else:
                    m = p['pa'] * a - (1 - p['pa']) * b
                    v = 2 * p['pa'] * a**2 + 2 * (1 - p['pa']) * b**2 - m**2
                R.eq(key + ' mean', L, L.term(L.meth(y, 'mean').value), m,
                     W + cls, 'mean of the jump distribution')
                R.eq(key + ' variance', L, L.term(L.meth(y, 'var').value), v,
                     W + cls, 'variance of the jump distribution')
                R.must(key + ' distribution', L.cls_of(y) == L.cls_of(L.ok(
                    L.public('norm_rv' if 'merton' in cls else
                             'double_exp_rv'))), W + cls,
                       'jumps of class ' + L.cls_of(y))


def factors(R):
    for F in (1, 3):
        for vshape in ((), (2,)):
            cls = 'hull_white_process'
            key = '%s factors=%d vshape=%s' % (cls, F, vshape)
            with R.context(key, W + cls):
                L = R.lab()
                w = vshape + (F, 3)
                th, k, sg = (L.arr(n, (F, 1), 'pos') for n in
                             ('theta', 'k', 'sigma'))
                P = L.ok(L.public(cls), paths=L.dim(3), vshape=tuple(
                    L.dim(n) for n in vshape), factors=L.dim(F), theta=th,
                    k=k, sigma=sg, dw=L.source('W', 3, w[:-1]))
                tt = L.timeline('t', (.1, .7, 1.5))
                z = L.ok(P, tt)
                line = sde.points(L, tt)
                p = {'theta': th, 'k': k, 'sigma': sg}
                p = {n: (lambda t: lambda s: X(t))(L.term(a))
                     for n, a in p.items()}
                p['x0'] = X(tm.const(0.))
                st = sde.recursion(line, line, 0, NPX.zeros(w), stepper(
                    cls, p, w, vshape))
                R.eq(key, L, L.term(z), sde.stack([s.sum(axis=-2)
                                                   for s in st]), W + cls,
                     'integrated values')
