"""Compound Poisson increments."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import laws

META = {
    'title': 'Compound Poisson increments sum independent jumps per count',
    'statement':
    'For each component, path and time, a compound Poisson source returns the '
    'sum of as many fresh, mutually independent variates of the jump '
    'distribution, taken at the midpoint t + dt/2, as the absolute value of '
    'the underlying Poisson increment over the same times, with the sign of '
    'dt; where the count is 0 the increment is 0. The underlying counts come '
    'from exactly one call of the counting source with the same t and dt, and '
    'the counts and jumps used are exposed after the call.',
    'over': ['inputs', 'configurations', 'histories'],
    'quant': 'all count patterns, times, signs of dt, values shapes, kinds of '
             'jump distribution (fixed, time-dependent, preset, user-defined) '
             'and of counting source (none, class, instance)',
    'why': 'The tests compare sample statistics with closed forms for one or '
           'two distributions; reuse of a variate, a wrong count or a wrong '
           'evaluation time on rare count patterns stays within tolerance.',
    'files': ['infrastructure.py'],
    'mech': [('cpoisson_source.__call__', 'sdepy/infrastructure.py'),
             ('counting source setup', 'sdepy/infrastructure.py')],
    'technique': 'abstract interpretation to gated value numbers; linear '
                 'forms over jump draws, per finite count pattern',
    'note': 'Decided for enumerated count patterns (0 to 3 jumps per '
            'component, both signs) and symbolic times, jump values and '
            'parameters; beyond that the loop body is the same.',
}
WHERE = 'sdepy/infrastructure.py cpoisson_source.__call__'


def jump_rv(L, name='Y', accept=True):
    """A user-defined jump distribution: fresh draws of law Y(params)."""
    def at(params):
        def rvs(ip, args, kw):
            kw = dict(kw)
            size = args[0] if args else kw.pop('size', Const(None))
            rs = kw.pop('random_state', None) if len(args) < 2 else args[1]
            ip.ndraw += 1
            sz = tuple(int(n) for n in np.atleast_1d(
                ip.models.static(size)))
            t = tm.draw(ip.ndraw, 'Y', tuple(params), sz)
            ip.event('jump_draw', state=rs, term=t, params=params)
            return ip.arr(t, 'caller')
        return Host(None, name, {'rvs': Host(rvs, 'rvs'),
                                 'callable': False})
    return at


def counting(L, pats, shape, paths, vshape, dtype=None):
    """A counting source with given absolute counts; sign of dt applied."""
    def body(ip, args, kw):
        c = NPX.asarray(X(tm.const(pats)))
        if dtype:
            c = c.astype(dtype)
        s = NPX.sign(X(ip.models.term(args[1]))).astype('int64')
        ts = np.shape(tm.REP.ev(s.t))
        s = NPX.reshape(s, ts + (1,) * len(shape))
        return ip.arr((NPX.asarray(c) * s).t)
    return L.source('dn', paths, vshape, body=body)


PAT = {
    (): {'mixed': [0, 2, 1, 2, 0], 'none': [0, 0, 0, 0, 0],
         'ones': [1, 1, 1, 1, 1], 'gap': [0, 3, 1, 0, 3]},
    (2,): {'mixed': [[0, 2, 1, 0, 3], [1, 0, 2, 2, 0]],
           'none': [[0] * 5, [0] * 5]},
}


def cases(L):
    yield 'step', L.time('t', .7), L.gap('dt', .4), ()
    yield 'backward step', L.time('t', .7), L.gap('dt', -.4), ()
    yield 'array of steps', L.timeline('t', (.7, 1.2)), \
        L.ip.arr(tm.leaf('dt', (2,), 'f8', 'gap', (.4, -.3)), 'caller'), (2,)
    yield 'tiny steps', L.timeline('t', (.7, 1.2)), L.arrt(
        (X(tm.leaf('dt', (2,), 'f8', 'gap', (.4, -.3))) * 1e-13).t), (2,)


CASES = ('step', 'backward step', 'array of steps', 'tiny steps')


def tup(x):
    return tm.Lst(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def check(R):
    R.explanation = (
        'cpoisson_source is analysed abstractly with counting sources of '
        'known finite count patterns, symbolic times and opaque jump '
        'distributions; each component of the increments must be a sum, with '
        'the sign of dt, of as many jump draws as counted, no draw serving '
        'two components, each drawn from the distribution at the midpoint.')
    R.rule = ('one obligation per (count pattern, times shape, jump '
              'distribution kind), plus the setup of the counting source')
    R.floor = 20
    for vshape, pats in PAT.items():
        for pn, pat in pats.items():
            for k, tn in enumerate(CASES):
                for yk in ('fixed', 'function of time'):
                    key = 'counts=%s vshape=%s times=%s y=%s' % (
                        pn, vshape, tn, yk)
                    with R.context(key, WHERE):
                        one(R, key, vshape, pat, k, yk)
                    if pn in ('mixed', 'gap'):
                        key += ' floating counts'
                        with R.context(key, WHERE):
                            one(R, key, vshape, pat, k, yk, 'float64')
    presets(R)
    arrays(R)
    setup(R)


def one(R, key, vshape, pat, k, yk, dtype=None):
    L = R.lab()
    _, t, dt, ts = list(cases(L))[k]
    at = jump_rv(L)
    if ts:
        alt = np.roll(np.array(pat), 1, axis=-1).tolist()
        pat = [pat, alt]
    if yk == 'fixed':
        y = at(())
    else:
        y = Host(lambda ip, args, kw: at((ip.models.term(args[0]),)), 'y')
    src = L.ok(L.public('cpoisson_source'), paths=L.dim(5),
               vshape=tuple(L.dim(n) for n in vshape), y=y,
               dn=counting(L, tup(pat), vshape + (5,), 5, vshape, dtype))
    for rep in range(2):
        n0 = len(L.ip.events)
        L.ip.event('mark')
        z = L.term(L.ok(src, t, dt))
        calls = [e for e in L.ip.events[n0:] if e.kind == 'user_call'
                 and e.info['name'] == 'dn']
        if len(calls) != 1:
            return R.bad(key, WHERE, 'the counting source is called %d times'
                         % len(calls))
        for a, b in zip(calls[0].info['terms'], (t, dt)):
            b = NPX.broadcast_to(X(L.term(b)), ts)
            if tm.equal(a, b.t, L.ip.facts).verdict == 'DIFF':
                return R.bad(key, WHERE, 'the counting source is called '
                             'with times other than t, dt')
    if z.opaque:
        return R.unknown(key, 'unmodelled value')
    v = tm.valuations(1, R.seed, L.ip.facts)[0]
    m, who, J = laws.jacobian(z, v, 'Y')
    full = ts + vshape + (5,)
    if m.shape != full:
        return R.bad(key, WHERE, 'increments shaped %s, specified %s' % (
            m.shape, full))
    if np.abs(m).max() > 1e-12:
        return R.bad(key, WHERE, 'increments do not vanish with the jumps')
    T, D = np.broadcast_to(v.ev(L.term(t)), ts), \
        np.broadcast_to(v.ev(L.term(dt)), ts)
    C = np.array(pat)
    used = {}
    for r, i in enumerate(np.ndindex(full)):
        ti = i[:len(ts)]
        s = np.sign(D[ti])
        nz = np.nonzero(J[r])[0]
        if len(nz) != C[i] or not np.allclose(J[r][nz], s):
            return R.bad(key, WHERE, 'component %s with %d counts adds jump '
                         'draws with weights %s' % (i, C[i], J[r][nz][:5]))
        for c in nz:
            if c in used:
                return R.bad(key, WHERE, 'components %s and %s share a jump '
                             'draw' % (used[c], i))
            used[c] = i
            if yk != 'fixed':
                mid = float(T[ti] + D[ti] / 2)
                p = float(v.ev(who[c][0].args[4][0]))
                if abs(p - mid) > 1e-9:
                    return R.bad(key, WHERE, 'jump distribution taken at '
                                 '%.6g, midpoint is %.6g' % (p, mid))
    # exposed counts and jumps
    dn = L.get(src, 'dn_value')
    if dn is None:
        return R.bad(key, WHERE, 'counts used are not exposed')
    got = np.asarray(v.ev(L.term(dn)))
    want = C * np.sign(D).reshape(ts + (1,) * (len(vshape) + 1))
    if got.shape != want.shape or (got != want).any():
        return R.bad(key, WHERE, 'exposed counts differ from those used')
    R.good(key, WHERE)


def presets(R):
    """Preset distributions: sums of their variates."""
    for name, kw, dist, trans in (
            ('uniform_rv', {}, 'U', lambda a, u: u),
            ('default', None, 'U', lambda a, u: u),
            ('norm_rv', {'a': 'real', 'b': 'pos'}, 'N',
             lambda a, u: a['a'] + a['b'] * u),
            ('uniform_rv', {'a': 'real', 'b': 'pos'}, 'U',
             lambda a, u: a['a'] + (a['b'] - a['a']) * u),
            ('exp_rv', {'a': 'pos'}, 'E', lambda a, u: a['a'] * u)):
        key = 'preset jumps %s%s' % (name, sorted(kw or ()))
        with R.context(key, WHERE):
            L = R.lab()
            t, dt = L.time('t', .7), L.gap('dt', .4)
            ps = {k: L.num(k, d) for k, d in (kw or {}).items()}
            pat = [0, 2, 1, 0, 3]
            args = {}
            if kw is not None:
                args['y'] = L.ok(L.public(name), **ps)
            src = L.ok(L.public('cpoisson_source'), paths=L.dim(5),
                       dn=counting(L, tup(pat), (5,), 5, ()), **args)
            z = L.term(L.ok(src, t, dt))
            if z.opaque:
                R.unknown(key, 'unmodelled value')
                continue
            v = tm.valuations(1, R.seed, L.ip.facts)[0]
            m, who, J = laws.jacobian(z, v, dist)
            a = {k: v.ev(p.t) for k, p in ps.items()}
            c0 = float(trans(a, 0.)) if ps else 0.
            c1 = float(trans(a, 1.)) - c0 if ps else 1.
            ok = np.allclose(m, c0 * np.array(pat)) and \
                all(len(np.nonzero(J[i])[0]) == pat[i] and
                    np.allclose(J[i][np.nonzero(J[i])[0]], c1)
                    for i in range(5)) and \
                (np.count_nonzero(J, axis=0) <= 1).all()
            R.must(key, ok, WHERE, 'increments are not sums of %s variates'
                   % name)


def arrays(R):
    """Distribution parameters broadcastable to vshape + (paths,)."""
    key = 'array-valued jump distribution parameters'
    with R.context(key, WHERE):
        L = R.lab()
        t, dt = L.time('t', .7), L.gap('dt', .4)
        y = L.ok(L.public('norm_rv'), a=L.arr('a', (2, 1)),
                 b=L.arr('b', (2, 1), 'pos'))
        pat = PAT[(2,)]['mixed']
        src = L.ok(L.public('cpoisson_source'), paths=L.dim(5), vshape=2,
                   dn=counting(L, tup(pat), (2, 5), 5, (2,)), y=y)
        z = L.ok(src, t, dt)
        R.must(key, np.shape(L.rep(z)) == (2, 5), WHERE, 'wrong shape')


def setup(R):
    """The counting source built from class or default."""
    P = R.lab()
    key = 'default counting source'
    with R.context(key, WHERE):
        L = R.lab()
        lam = L.num('lam', 'pos')
        src = L.ok(L.public('cpoisson_source'), paths=L.dim(5), vshape=(
            L.dim(2),), lam=lam)
        from .c07 import law
        t, dt = L.time('t', .7), L.gap('dt', -.4)
        dn = L.get(src, 'dn')
        z = L.term(L.ok(dn, t, dt))
        law(R, key, L, z, t.t, dt.t, (), (2, 5), lambda m: lam.t, WHERE)
    key = 'default counting source, ptype=float'
    with R.context(key, WHERE):
        L = R.lab()
        lam = L.num('lam', 'pos')
        src = L.ok(L.public('cpoisson_source'), paths=L.dim(5), vshape=(
            L.dim(2),), lam=lam, ptype=L.v(float))
        t, dt = L.time('t', .7), L.gap('dt', .4)
        z = L.term(L.ok(L.get(src, 'dn'), t, dt))
        law(R, key, L, z, t.t, dt.t, (), (2, 5), lambda m: lam.t, WHERE,
            'f')
        R.must(key + ' type', np.asarray(tm.REP.ev(z)).dtype == float,
               WHERE, 'counts are not of the type given')
    key = 'counting source class'
    with R.context(key, WHERE):
        L = R.lab()
        lam = L.num('lam', 'pos')
        src = L.ok(L.public('cpoisson_source'), paths=L.dim(6), vshape=(
            L.dim(2),), lam=lam, dn=L.public('even_poisson_source'))
        dn = L.get(src, 'dn')
        R.must(key, L.cls_of(dn) == 'even_poisson_source' and
               L.rep(L.get(dn, 'paths')) == 6 and
               tuple(L.rep(L.get(dn, 'vshape'))) == (2,), WHERE,
               'the counting source class is not instantiated with the '
               'paths and vshape of the compound source')
