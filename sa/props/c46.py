"""Preset jump distributions."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import laws
from .c33 import live

META = {
    'title': 'preset jump distributions have the stated laws and moments',
    'statement':
    'norm_rv, uniform_rv, exp_rv and double_exp_rv return, for parameters in '
    'their domains, distributions whose rvs(size, random_state) draws from '
    'the given generator an array of that size of independent variates with '
    'the documented law: normal with mean a and standard deviation b; uniform '
    'between a and b; exponential with mean a, on the side of the sign of a; '
    'exponential with scale a with probability pa, opposite of an exponential '
    'with scale b otherwise. Their mean, std, var and exp_mean are those of '
    'that law, exp_mean being infinite where the mean of the exponential '
    'diverges, elementwise if parameters are arrays. If any parameter is a '
    'callable, the result is a callable with the distribution at the '
    'parameter values at each time. Exponential scales 0, double exponential '
    'scales not positive and probabilities outside [0, 1] are rejected.',
    'over': ['inputs', 'configurations'],
    'quant': 'all parameters, scalars, arrays or functions of time, in any '
             'mix, all sizes',
    'why': 'Tests compare sample statistics of a few parameters within '
           'tolerances; branches for signs, divergence and arrays are not '
           'reached.',
    'files': ['infrastructure.py'],
    'mech': [('norm_rv, uniform_rv, exp_rv, double_exp_rv',
              'sdepy/infrastructure.py'),
             ('time-dependent parameters', 'sdepy/infrastructure.py')],
    'technique': 'abstract interpretation to value numbers; affine forms in '
                 'standard draws, threshold of the mixing draw',
    'note': 'Variates are decided as transformations of standard normal, '
            'uniform and exponential draws; scipy laws are trusted.',
}
W = 'sdepy/infrastructure.py '


def cond(c, x, y):
    return NPX.where(c, x, y)


# name: parameters (domain, default), law, mean, var, exp_mean
RV = {
    'norm_rv': ((('a', 'real', 0.), ('b', 'pos', 1.)), 'N',
                lambda a, b: a, lambda a, b: b * b,
                lambda a, b: NPX.exp(a + b * b / 2)),
    'uniform_rv': ((('a', 'neg', 0.), ('b', 'pos', 1.)), 'U',
                   lambda a, b: (a + b) / 2,
                   lambda a, b: (b - a) * (b - a) / 12,
                   lambda a, b: (NPX.exp(b) - NPX.exp(a)) / (b - a)),
    'exp_rv': ((('a', 'real', 1.),), 'E',
               lambda a: a, lambda a: a * a,
               lambda a: cond(a < 1, 1 / (1 - a), np.inf)),
    'double_exp_rv': ((('a', 'pos', 1.), ('b', 'pos', 1.),
                       ('pa', 'prob', .5)), 'D',
                      lambda a, b, pa: pa * a - (1 - pa) * b,
                      lambda a, b, pa: 2 * pa * a * a + 2 * (1 - pa) * b * b
                      - (pa * a - (1 - pa) * b) * (pa * a - (1 - pa) * b),
                      lambda a, b, pa: cond(a < 1, pa / (1 - a), np.inf) +
                      (1 - pa) / (1 + b)),
}
KINDS = 'scalar', 'shifted', 'array', 'column', 'function', 'mixed', 'default'


def check(R):
    R.explanation = (
        'Preset distributions are built with unknown parameters and their '
        'variates and moments compared with the documented ones.')
    R.rule = ('one obligation per (distribution, kind of parameters, '
              'variates or moment)')
    R.floor = 150
    for name in RV:
        for kind in KINDS:
            if kind == 'shifted' and name != 'uniform_rv':
                continue
            key = '%s %s' % (name, kind)
            with R.context(key, W + name):
                one(R, key, name, kind)
    domains(R)


def value(p, dom, t):
    """Positive or signed or probability-valued function of time."""
    u = X(mk('uf', p, (), (t,), 0))
    if dom == 'pos':
        return NPX.exp(u) * .7
    if dom == 'neg':
        return -NPX.exp(u) * .7
    if dom == 'prob':
        return 1 / (1 + NPX.exp(u))
    return u


def params(L, name, kind, t):
    """Arguments and parameter terms (at time t)."""
    kw, terms = {}, []
    for j, (p, dom, d) in enumerate(RV[name][0]):
        shape = {'array': (3,), 'column': (2, 1)}.get(kind, ())
        if kind == 'default':
            terms.append(X(tm.const(np.asarray(d))))
        elif kind == 'function' or kind == 'mixed' and j == 0:
            kw[p] = Host(lambda ip, a, k, p=p, dom=dom: ip.models.wrap(
                value(p, dom, ip.models.term(a[0])).t), p)
            terms.append(value(p, dom, t))
        else:
            kw[p] = L.arr(p, shape, dom) if shape else L.num(p, dom)
            if dom == 'neg':
                x = L.arr(p, shape, 'pos') if shape else L.num(p, 'pos')
                kw[p] = L.ip.models.wrap((-X(L.term(x))).t)
            terms.append(X(L.term(kw[p])))
    if kind == 'shifted':       # a of any sign, b > a
        w = X(L.num('w', 'pos').t)
        kw['a'] = L.num('a')
        terms = [X(kw['a'].t), w + X(kw['a'].t)]
        kw['b'] = L.ip.models.wrap(terms[1].t)
    return kw, terms


def one(R, key, name, kind):
    L = R.lab()
    t = L.time('t', .7)
    kw, ps = params(L, name, kind, t.t)
    n = L.client('def isc(a):\n    return callable(a)\n')
    o = L.call(L.public(name), **kw)
    y = live(o)
    call = kind in ('function', 'mixed')
    if call:
        R.must(key + ' callable', L.rep(live(L.call(n['isc'], y))) is True, W + name,
            'time-dependent parameters do not make a callable')
        y = live(L.call(y, t))
    _, law, mean, var, expm = RV[name]
    shape = {'array': (3,), 'column': (2, 1)}.get(kind, ())
    full = lambda x: NPX.broadcast_to(X(x.t if hasattr(x, 't') else
                                        tm.const(np.asarray(x))), shape)
    for m, spec in (('mean', mean(*ps)), ('var', var(*ps)),
                    ('std', NPX.sqrt(var(*ps))), ('exp_mean', expm(*ps))):
        R.eq('%s %s' % (key, m), L, L.term(live(L.meth(y, m))), full(spec),
             W + name, m, rtol=1e-6)
    for size in ((5,), (4, 3), (2, 3), ()):
        if shape and size[-len(shape):] != (2, 3)[-len(shape):]:
            continue
        for gen in ('keyword', 'position')[:1 + (size == (5,))]:
            variates(R, '%s size=%s %s' % (key, size, gen), L, name, y, law,
                     ps, size, gen)


def gen_(L):
    return L.client('import numpy as np\n'
                    'def gen():\n    return np.random.default_rng(7)\n'
                    )['gen']


def variates(R, key, L, name, y, law, ps, size, gen):
    where = W + name
    g = live(L.call(gen_(L)))
    n0 = len(L.ip.events)
    o = L.meth(y, 'rvs', size=size, random_state=g) if gen == 'keyword' \
        else L.meth(y, 'rvs', size, g)
    z = L.term(live(o))
    ev = [e for e in L.ip.events[n0:] if e.kind == 'draw']
    R.must(key + ' generator', bool(ev) and all(e.info['gen'] == g
                                                for e in ev),
           where, 'variates are not drawn from the given generator')
    if z.opaque:
        return R.unknown(key, 'unmodelled value')
    n = int(np.prod(size))
    seen = set()
    for seed in range(2 if law == 'D' else 4):
        v = tm.Valuation(seed + 1, scale=None)
        a = [np.broadcast_to(np.asarray(v.ev(p.t), float), size) for p in ps]
        if law != 'D':
            try:
                m, who, J = laws.jacobian(z, v, law)
            except laws.NotLinear as e:
                return R.bad(key, where, 'variates are not affine in '
                             'standard draws: %s' % e)
            if m.shape != size:
                return R.bad(key, where, 'variates shaped %s' % (m.shape,))
            own = np.count_nonzero(J, axis=0).max(initial=0) <= 1 and \
                (np.count_nonzero(J, axis=1) == 1).all()
            if not own:
                return R.bad(key, where, 'variates are not one per draw')
            c, m = J.sum(axis=1), m.ravel()
            b = [x.ravel() for x in a]
            if law == 'N':
                ok = np.allclose(m, b[0]) and np.allclose(np.abs(c), b[1])
            elif law == 'U':
                ok = np.allclose(np.sort([m, m + c], axis=0),
                                 np.sort([b[0], b[1]], axis=0))
            else:
                ok = np.allclose(m, 0) and np.allclose(c, b[0])
            if not ok:
                return R.bad(key, where, 'variates do not have the '
                             'documented law: %s + %s draw at parameters %s'
                             % (m[:3], c[:3], [x[:3] for x in b]))
        else:
            e = mixture(z, v, a, size)
            if e:
                return R.bad(key, where, e)
    R.good(key, where)


def mixture(z, v, ps, size):
    """Check where(mixing draw, a*E, -b*E) elementwise."""
    a, b, pa = ps
    us = laws.draws_of(z, 'U')
    es = laws.draws_of(z, 'E')
    if len(us) != 1 or laws.draws_of(z, 'N'):
        return 'expected one mixing draw and exponential draws'
    ks = {d: 'draw%s' % d.args[0] for d in us + es}
    if any(tm._tup(v.ev(d.args[2])) != size for d in us + es):
        return 'draws are not sized as the variates'

    def ev(u, e):
        w = laws.with_draws(v, {ks[us[0]]: np.full(size, u)[()], **{
            ks[d]: x for d, x in zip(es, e)}})
        return np.asarray(w.ev(z), float)
    rng = np.random.default_rng(4)
    E = [rng.uniform(.5, 1.5, size=size)[()] for d in es]
    grid = (np.arange(150) + .5) / 150
    out = np.array([ev(u, E) for u in grid])
    if out.shape[1:] != size:
        return 'variates shaped %s' % (out.shape[1:],)
    plus = np.mean(out > 0, axis=0)
    if np.abs(plus - pa).max(initial=0) > 1 / 140:
        return 'positive with probability %s, expected %s' % (
            plus.ravel()[:3], pa.ravel()[:3])
    for i in np.ndindex(size):
        for pos in (True, False):
            vals = out[(slice(None),) + i]
            vals = vals[vals > 0] if pos else vals[vals <= 0]
            want = a[i] if pos else -b[i]
            # one and the same exponential draw, times the scale
            r = [np.asarray(x)[i] * want for x in E]
            if vals.size and not any(np.allclose(vals, q) for q in r):
                return 'component %s: %s variates are not the scale times ' \
                    'its own exponential draw' % (
                        i, 'positive' if pos else 'negative')
    return None


def domains(R):
    for name, kw in (('exp_rv', {'a': 0.}), ('exp_rv', {'a': [1., 0.]}),
                     ('double_exp_rv', {'a': 0.}),
                     ('double_exp_rv', {'a': -1.}),
                     ('double_exp_rv', {'b': 0.}),
                     ('double_exp_rv', {'b': -.3}),
                     ('double_exp_rv', {'b': [1., -.3]}),
                     ('double_exp_rv', {'pa': 1.1}),
                     ('double_exp_rv', {'pa': -.1}),
                     ('double_exp_rv', {'pa': [.2, 1.2]}),
                     ('double_exp_rv', {'a': -1e-12}),
                     ('double_exp_rv', {'b': [1., -1e-300]}),
                     ('double_exp_rv', {'pa': 1 + 1e-12}),
                     ('double_exp_rv', {'pa': -1e-300})):
        key = 'domain %s %s' % (name, kw)
        with R.context(key, W + name):
            L = R.lab()
            R.rejects(key, L, L.call(L.public(name), **{
                k: L.v(x) for k, x in kw.items()}), W + name,
                'parameters outside the domain', ('ValueError',))
    for name, kw in (('exp_rv', {'a': -1.}), ('double_exp_rv', {'pa': 0.}),
                     ('double_exp_rv', {'pa': 1.}),
                     ('double_exp_rv', {'a': 1.5, 'pa': 1}),
                     ('exp_rv', {'a': 1e-12}), ('exp_rv', {'a': -1e-300}),
                     ('double_exp_rv', {'a': 1e-12, 'b': 1e-300}),
                     ('double_exp_rv', {'pa': 1e-300})):
        key = 'domain %s %s accepted' % (name, kw)
        with R.context(key, W + name):
            L = R.lab()
            R.accepts(key, L, L.call(L.public(name), **{
                k: L.v(x) for k, x in kw.items()}), W + name,
                'parameters in the domain')
    for name, kw, rest in (('exp_rv', {}, 0.), ('double_exp_rv', {
            'b': 1., 'pa': .5}, .25)):
        # finite up to a = 1, whatever the distance
        for a, want in ((1 - 2.**-40, 2.**40), (1., np.inf),
                        (1 + 2.**-40, np.inf)):
            key = '%s exp_mean at a = %r' % (name, a)
            with R.context(key, W + name):
                L = R.lab()
                y = L.ok(L.public(name), a=L.v(a), **{
                    k: L.v(x) for k, x in kw.items()})
                R.eq(key, L, L.term(live(L.meth(y, 'exp_mean'))), tm.const(
                    np.asarray(want * (1 - rest * 2) + rest)), W + name,
                    'exp_mean', rtol=1e-6)
