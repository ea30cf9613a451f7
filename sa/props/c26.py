"""Analytical moments and distributions."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c33 import live

META = {
    'title': 'analytical moments and distributions are those of the processes',
    'statement':
    'For any time and any values of the parameters, given as scalars, lists '
    'or arrays broadcasting together, the *_mean, *_var, *_std, *_pdf, '
    '*_cdf, *_chf functions of the Wiener, lognormal, Ornstein-Uhlenbeck, '
    'Hull-White 1 and 2 factors, Cox-Ingersoll-Ross, Heston, Merton and Kou '
    'processes equal the mean, variance, standard deviation, density, '
    'distribution and characteristic functions of the solution at time t, '
    'started at x0, of the stochastic differential equation of the process '
    'of that name; *_log_* are those of its logarithm. The *_log_pdf '
    'integrate over the real line the real part of exp(-iux) times the '
    'characteristic function over 2 pi, at each of the times, or points, '
    'given. Results have the broadcast shape, parameters omitted take their '
    'default, arguments are not altered.',
    'over': ['inputs'],
    'quant': 'all times, points, parameters, shapes and kinds of arguments',
    'why': 'Tests compare a few values with simulations, within statistical '
           'errors, at parameters where terms may vanish.',
    'files': ['analytical.py'],
    'mech': [('functions of analytical.py', 'sdepy/analytical.py')],
    'technique': 'abstract interpretation; value numbers of results against '
                 'independent derivations of the formulae',
    'note': 'Decided per function and shape of arguments, for all values, in '
            'exact arithmetic; the integral of *_log_pdf is a generic linear '
            'functional, its accuracy is not decided.',
}
W = 'sdepy/analytical.py '


def phi(z):
    return NPX.exp(z * z / -2.) / (2. * np.pi) ** .5


def Phi_(z):
    return .5 * (1. + SPX.special.erf(z / 2. ** .5))


# mean reversion: E x_t and var x_t of dx = k(theta - x)dt + sigma dw
def ou(t, x0, theta, k, sigma):
    a = NPX.exp(-1. * k * t)
    return x0 * a + theta * (1. - a), sigma * sigma * (1. - a * a) / k / 2.


def gauss(m, v):
    s = NPX.sqrt(v)
    return {'mean': lambda: m, 'var': lambda: v, 'std': lambda: s,
            'pdf': lambda x: phi((x - m) / s) / s,
            'cdf': lambda x: Phi_((x - m) / s),
            'chf': lambda u: NPX.exp(1j * u * m - u * u * v / 2.)}


def wiener(t, x0, mu, sigma):
    return gauss(x0 + mu * t, sigma ** 2 * t)


def lognorm(t, x0, mu, sigma):
    v = sigma * sigma * t
    m = x0 * NPX.exp(mu * t)
    g = gauss(NPX.log(x0) + mu * t - v / 2., v)
    return {'mean': lambda: m, 'var': lambda: m * m * NPX.expm1(v),
            'std': lambda: m * NPX.sqrt(NPX.expm1(v)),
            'pdf': lambda x: g['pdf'](NPX.log(x)) / x,
            'cdf': lambda x: g['cdf'](NPX.log(x)), 'log_chf': g['chf']}


def oruh(t, x0, theta, k, sigma):
    g = gauss(*ou(t, x0, theta, k, sigma))
    del g['chf']
    return g


def hw2f(t, x0, theta, k, sigma, rho):
    (x1, x2), (th1, th2), (k1, k2), (s1, s2) = (
        factors(z) for z in (x0, theta, k, sigma))
    (m1, v1), (m2, v2) = ou(t, x1, th1, k1, s1), ou(t, x2, th2, k2, s2)
    cov = rho * s1 * s2 * (1. - NPX.exp(-1. * (k1 + k2) * t)) / (k1 + k2)
    g = gauss(m1 + m2, v1 + v2 + 2. * cov)
    del g['chf']
    return g


def factors(z):
    n = np.ndim(z.t.rep)
    if n == 0:
        return z, z
    if n == 1:
        return z[0], z[-1]
    return z[..., 0, :], z[..., -1, :]


def cir(t, x0, theta, k, xi):
    a = NPX.exp(-1. * k * t)
    c = 2. * k / (1. - a) / xi ** 2
    # var: xi^2 times the integral of exp(-2k(t - s)) E x_s
    var = xi ** 2 * (theta * (1. - a) ** 2 / (2. * k)
                     + x0 * (a - a * a) / k)
    return {'mean': lambda: x0 * a + theta * (1. - a), 'var': lambda: var,
            'std': lambda: NPX.sqrt(var),
            'pdf': lambda x: 2. * c * SPX.stats.ncx2.pdf(
                2. * c * x, 4. * k * theta / xi ** 2, 2. * c * a * x0)}


GX, GW = np.polynomial.legendre.leggauss(24)


def heston(t, x0, mu, sigma, y0, theta, k, xi, rho):
    v0, th, xi = sigma ** 2 * y0, sigma ** 2 * theta, sigma * xi
    ev = (1. - NPX.exp(-1. * k * t)) / k
    mean = NPX.log(x0) + mu * t - .5 * (th * t + (v0 - th) * ev)
    # Ito isometry: the integral of E v_s (1 - rho xi B + xi^2 B^2 / 4),
    # where B = (1 - exp(-k(t - s)))/k
    var = 0. * t
    for x, w in zip(GX, GW):
        s = t * float((x + 1) / 2)
        B = (1. - NPX.exp(k * (s - t))) / k
        var = var + float(w / 2) * t * (
            th + (v0 - th) * NPX.exp(-1. * k * s)) * (
            1. - rho * xi * B + xi ** 2 * B ** 2 / 4.)

    def chf(u):
        # solution of the Riccati equation by hyperbolic functions
        b = k - rho * xi * u * 1j
        d = NPX.sqrt(b * b + xi ** 2 * (u * u + 1j * u))
        # cosh and sinh of dt/2, times 2 exp(-dt/2)
        e = NPX.exp(-1. * d * t)
        ch, sh = 1. + e, 1. - e
        D = -1. * (u * u + 1j * u) * sh / (d * ch + b * sh)
        C = k * th / xi ** 2 * (
            b * t - d * t - 2. * NPX.log((ch + b * sh / d) / 2.))
        return NPX.exp(1j * u * (NPX.log(x0) + mu * t) + C + D * v0)
    return {'log_mean': lambda: mean, 'log_var': lambda: var,
            'log_std': lambda: NPX.sqrt(var), 'log_chf': chf,
            'log_pdf': invert(chf)}


def invert(chf):
    def pdf(x):
        u = X(tm.leaf('quad:u', (), 'f8', 'real'))
        f = NPX.real(NPX.exp(-1j * u * x) * chf(u)) / (2. * np.pi)
        return X(mk('quad', f.t, -np.inf, np.inf))
    return pdf


def jumps(t, x0, mu, sigma, lam, mean, chf_j):
    def chf(u):
        return NPX.exp(1j * u * (NPX.log(x0) + (mu - sigma ** 2 / 2.) * t)
                       - u * u * sigma ** 2 * t / 2.
                       + lam * t * (chf_j(u) - 1.))
    return {'mean': lambda: x0 * NPX.exp((mu + lam * (mean - 1.)) * t),
            'log_chf': chf, 'log_pdf': invert(chf)}


def mjd(t, x0, mu, sigma, lam, a, b):
    return jumps(t, x0, mu, sigma, lam, NPX.exp(a + b * b / 2.),
                 lambda u: NPX.exp(1j * a * u - (b * u) ** 2 / 2.))


def kou(t, x0, mu, sigma, lam, a, b, pa):
    # exponential laws of mean a upwards, b downwards
    return jumps(t, x0, mu, sigma, lam, pa / (1. - a) + (1. - pa) / (1. + b),
                 lambda u: pa / (1. - 1j * u * a)
                 + (1. - pa) / (1. + 1j * u * b))


R_, P, Q = 'real', 'pos', 'prob'
Z2, O2 = (0., 0.), (1., 1.)
OU = [('x0', R_, 0.), ('theta', R_, 0.), ('k', P, 1.), ('sigma', P, 1.)]
JD = [('x0', P, 1.), ('mu', R_, 0.), ('sigma', P, 1.), ('lam', P, 1.)]
PROCESS = {
    'wiener': (wiener, [('x0', R_, 0.), ('mu', R_, 0.), ('sigma', P, 1.)],
               R_, P),
    'lognorm': (lognorm, [('x0', P, 1.), ('mu', R_, 0.), ('sigma', P, 1.)],
                P, P),
    'oruh': (oruh, OU, R_, P), 'hw1f': (oruh, OU, R_, P),
    'hw2f': (hw2f, [('x0', R_, Z2), ('theta', R_, Z2), ('k', P, O2),
                    ('sigma', P, O2), ('rho', 'small', 0.)], R_, P),
    'cir': (cir, [('x0', P, 1.), ('theta', P, 1.), ('k', Q, 1.),
                  ('xi', P, 1.)], P, Q),
    'heston': (heston, [('x0', P, 1.), ('mu', R_, 0.), ('sigma', P, 1.),
                        ('y0', P, 1.), ('theta', P, 1.), ('k', P, 1.),
                        ('xi', P, 1.), ('rho', 'small', 0.)], R_, Q),
    'mjd': (mjd, JD + [('a', R_, 0.), ('b', P, 1.)], R_, P),
    'kou': (kou, JD + [('a', Q, .5), ('b', P, .5), ('pa', Q, .5)], R_, P),
}
NAMES = {p: tuple(f) for p, f in {
    'wiener': ('mean', 'var', 'std', 'pdf', 'cdf', 'chf'),
    'lognorm': ('mean', 'var', 'std', 'pdf', 'cdf', 'log_chf'),
    'oruh': ('mean', 'var', 'std', 'pdf', 'cdf'),
    'hw1f': ('mean', 'var', 'std', 'pdf', 'cdf'),
    'hw2f': ('mean', 'var', 'std', 'pdf', 'cdf'),
    'cir': ('mean', 'var', 'std', 'pdf'),
    'heston': ('log_mean', 'log_var', 'log_std', 'log_chf', 'log_pdf'),
    'mjd': ('mean', 'log_chf', 'log_pdf'),
    'kou': ('mean', 'log_chf', 'log_pdf')}.items()}


def check(R):
    R.explanation = (
        'Each function is analysed with unknown arguments in several shapes; '
        'results are compared with formulae derived from the equation.')
    R.rule = 'one obligation per (function, arguments)'
    R.floor = 300
    for p, fs in NAMES.items():
        for f in fs:
            name = p + '_' + f
            for form in FORMS:
                if p == 'hw2f' and form in ('broadcast', 'list of values'):
                    continue
                with R.context(name + ' ' + form, W + name):
                    one(R, name, p, f, form)
            params = PROCESS[p][1]
            for q in params:
                with R.context('%s default %s' % (name, q[0]), W + name):
                    one(R, name, p, f, 'default ' + q[0])
            with R.context(name + ' default', W + name):
                one(R, name, p, f, 'default')
    for f in NAMES['hw2f']:
        for form in ('paths', 'paths 1', 'mixed', 'matrix', 'grid'):
            with R.context('hw2f_%s %s' % (f, form), W + 'hw2f_' + f):
                one(R, 'hw2f_' + f, 'hw2f', f, form)
    invalid(R)
    partial_pdf(R)


FORMS = ('scalars', 'times', 'points', 'broadcast', 'lists', 'integers',
         'list of points', 'list of values', 'one time', 'one point',
         'one time in a matrix', 'short times', 'long times',
         'slow reversion')
SCALE = {'short times': ('t', 1e-5), 'long times': ('t', 15.),
         'slow reversion': ('k', .01)}


def args_of(L, p, f, form):
    """(values, terms) of variables and parameters."""
    _, params, xdom, tdom = PROCESS[p]
    f = f.replace('log_', '')
    if f == 'chf':
        xdom = 'real'
    hasx = f in ('pdf', 'cdf', 'chf')
    inv = f == 'pdf' and p in ('heston', 'mjd', 'kou')
    var, par = [], {}

    def get(name, dom, shape, kind='f8'):
        if kind == 'i8':
            dom = {'real': 'int', 'pos': 'int'}.get(dom, dom)
            if dom != 'int':
                kind = 'f8'
        if shape == ():
            v = L.num(name, dom, kind)
        elif shape == 'list':
            w = [L.num(name + str(i), dom) for i in range(3)]
            return L.v(w), NPX.array([z.t for z in w])
        else:
            v = L.arr(name, shape, dom, kind)
        z = X(L.term(v))
        if SCALE.get(form, ('',))[0] == name:
            v = L.arrt((z * SCALE[form][1]).t)
            z = X(L.term(v))
        return v, z
    tsh = xsh = ()
    if form in ('times', 'lists', 'broadcast'):
        tsh = 'list' if form == 'lists' else (3,)
    if form == 'points':
        xsh = (2, 2)
    if form[:8] == 'one time':
        tsh = (1,) * (1 + (form != 'one time'))
    if form == 'one point':
        xsh = (1,)
    if form == 'broadcast' and not inv:
        xsh = (2, 1)
    if form == 'lists' and hasx and not inv or form == 'list of points':
        xsh = 'list'
    if form in ('paths', 'paths 1', 'matrix'):
        tsh = {'paths': (2, 1), 'paths 1': (1,), 'matrix': (3, 1)}[form]
        xsh = {'paths': (2, 5), 'paths 1': (4,), 'matrix': (3, 5)}[form]
        if inv:
            xsh = ()
    kind = 'i8' if form == 'integers' else 'f8'
    var.append(get('t', tdom, tsh, kind))
    if hasx:
        var.append(get('x', xdom, xsh, kind))
    for i, (n, dom, d) in enumerate(params):
        if form == 'default ' + n or form == 'default':
            par[n] = None, X(tm.const(np.asarray(d)))
            continue
        sh = ()
        if isinstance(d, tuple):
            sh = {'mixed': ((2,), (), (1,), (2,))[i % 4],
                  'paths': (2, 1), 'paths 1': (1, 1), 'matrix': (3, 2, 1),
                  'grid': ((2, 1), (1, 1), (2,), (2,))[i % 4]}.get(
                      form, (2,))
            if form == 'grid':
                sh = ((2, 1), (1, 1), (), (2, 1))[i]
        elif form == 'list of values' and not inv:
            sh = ('list', ())[i % 2]
        elif form == 'broadcast' and not inv:
            sh = ((2, 1), (), (1,), (3,))[i % 4]
        par[n] = get(n, dom, sh, kind)
    return var, par


def one(R, name, p, f, form):
    L = R.lab()
    fn = L.public(name)
    var, par = args_of(L, p, f, form)
    kw = {n: v for n, (v, t) in par.items() if v is not None}
    o = L.call(fn, *[v for v, t in var], **kw)
    R.accepts('%s %s accepted' % (name, form), L, o, W + name, name)
    ts = {n: t for n, (v, t) in par.items()}
    if p == 'hw2f':
        # the arguments of each factor broadcast together
        b = NPX.broadcast_arrays
        sh = np.broadcast_shapes(*[np.shape(ts[n].t.rep) for n in (
            'x0', 'theta', 'k', 'sigma')])
        ts = {n: (t if n == 'rho' else NPX.broadcast_to(t, sh))
              for n, t in ts.items()}
    t = var[0][1]
    x = [v[1] for v in var[1:]]
    r = live(o)
    key = '%s %s' % (name, form)
    if f == 'log_pdf' and (np.ndim(t.t.rep) or np.ndim(x[0].t.rep)):
        z = t if np.ndim(t.t.rep) else x[0]
        want = []
        for i in np.ndindex(np.shape(z.t.rep)):
            a, b = (z[i], x[0]) if z is t else (t, z[i])
            want.append(PROCESS[p][0](a, **ts)[f](b).t)
        want = X(mk('call', 'numpy.stack', (Lst(want),), ())).reshape(
            np.shape(z.t.rep))
    else:
        want = PROCESS[p][0](t, **ts)[f](*x)
    shape = np.broadcast_shapes(*[np.shape(v.t.rep) for v in [t] + x + [
        z for z in ts.values() if p != 'hw2f']], *(
            [np.shape(v.t.rep) for n, z in ts.items() for v in
             (factors(z) if n != 'rho' else (z,))] if p == 'hw2f' else ()))
    R.must(key + ' shape', np.shape(L.rep(r)) == shape, W + name,
           'shape %s' % (np.shape(L.rep(r)),))
    R.eq(key, L, L.term(r), NPX.broadcast_to(want, shape), W + name, name,
         rtol=1e-6)
    for n, (v, z) in list(par.items()) + list(zip(('t', 'x'), var)):
        if v is not None and L.cls_of(v) in ('Arr', 'ndarray'):
            R.eq('%s argument %s' % (key, n), L, L.term(v), z, W + name,
                 'argument is altered')


def invalid(R):
    for f in NAMES['hw2f']:
        with R.context('hw2f_%s invalid' % f, W + 'hw2f_' + f):
            L = R.lab()
            fn = L.public('hw2f_' + f)
            for sh in ((3,), (3, 1)):
                a = [L.num('t', 'pos')] + (
                    [L.num('x')] if f in ('pdf', 'cdf') else [])
                R.rejects('hw2f_%s factors %s' % (f, sh), L, L.call(
                    fn, *a, x0=L.arr('x0', sh)), W + 'hw2f_' + f,
                    'wrong number of factors', {'ValueError'})


def partial_pdf(R):
    """Unknown parameters are refused."""
    for p, fs in NAMES.items():
        for f in fs:
            name = p + '_' + f
            with R.context(name + ' unknown parameter', W + name):
                L = R.lab()
                var, par = args_of(L, p, f, 'default')
                R.rejects(name + ' unknown parameter', L, L.call(
                    L.public(name), *[v for v, t in var], other=L.num('o')),
                    W + name, 'unknown parameter', {'TypeError'})
