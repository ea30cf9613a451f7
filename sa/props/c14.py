"""Compound Poisson source with memory."""
import itertools
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import laws
from .c33 import live
from .c08 import jump_rv

META = {
    'title': 'a compound Poisson source with memory realizes one jump path',
    'statement':
    'Whatever the times at which a true_cpoisson_source is realized, and '
    'their order, its values at any two realized times differ by the sum of '
    'as many jumps as the counts of the underlying Poisson source differ, '
    'each jump being a variate of the jump distribution drawn once, '
    'belonging to one interval, component and path only, and never changing '
    'or disappearing: values once returned are returned again, and a new '
    'value shares out the jumps of the interval it falls in according to the '
    'counts of the underlying source. The value at t0 is z0. The counting '
    'source is the one given, or a true_poisson_source with the given '
    'intensity, paths, values shape and generator. A variate beyond the '
    'realized times is taken from the distribution at the middle of the '
    'interval.',
    'over': ['inputs', 'configurations', 'histories'],
    'quant': 'all sequences of realized times, count paths, values shapes, '
             'jump distributions',
    'why': 'Tests realize sequences with few jumps; a jump lost or moved '
           'between intervals needs several jumps in an interval realized '
           'inside more than once.',
    'files': ['infrastructure.py'],
    'mech': [('true_cpoisson_source', 'sdepy/infrastructure.py'),
             ('splitting of stored jumps', 'sdepy/infrastructure.py')],
    'technique': 'abstract interpretation to linear forms in jump draws, '
                 'for enumerated count paths',
    'note': 'Decided for enumerated histories of up to 6 realized times and '
            'count paths of up to 4 jumps per interval, for all values of '
            'the jumps.',
}
W = 'sdepy/infrastructure.py true_cpoisson_source'
REPS = {'t0': .5, 'a': -.3, 'b': .2, 'c': .8, 'd': 1.3, 'e': 1.9, 'f': .65,
        'g': .05, 'h': 1.05}
HIST = ('c d e', 'b a', 'e c d', 'a b', 'd a e b', 'a e b c d', 'e d c f h',
        'c c d t0', '[e,c,d]', 'd+h', 'a b g', 'e h d c', 'e f h c d',
        'a g b f d h')
# times of jumps for each path (component, path)
JUMPS = {
    (): ([.9, 1.4, 1.5, 1.6], [], [.6, .7, .75, -.1], [-.2, .1, .3, 1.],
         [1.1, 1.2, 1.35]),
    (2,): (([.9, 1.4, 1.5, 1.6], [.1], [1.7]),
           ([.55, .56, .9], [], [-.25, -.2, 0., .25])),
    'sparse': ([1.7], [1.8], [-.2]),
    'none': ([], []),
    'packed': ([.82, .84, .86, .88], [1.82, 1.84, 1.86, .82]),
}


def check(R):
    R.explanation = ('Compound Poisson sources with memory are realized in '
                     'several orders on count paths with given jump times; '
                     'values are linear forms in jump draws.')
    R.rule = 'one obligation per (count path, history)'
    R.floor = 80
    for name, J in JUMPS.items():
        for h in HIST:
            for y in ('fixed', 'function of time'):
                if y != 'fixed' and name not in ((), (2,)):
                    continue
                key = 'counts=%s y=%s times %s' % (name, y, h)
                with R.context(key, W):
                    one(R, key, J, name == (2,), h, y)
                if name == 'packed' or y == 'fixed' and name == ():
                    key += ' floating counts'
                    with R.context(key, W):
                        one(R, key, J, name == (2,), h, y, 'float64')
    setup(R)


def one(R, key, J, two, h, yk, dtype='int64'):
    L = R.lab()
    vshape = (2,) if two else ()
    P = len(J[0]) if two else len(J)
    shape = vshape + (P,)
    flat = [x for r in J for x in r] if two else J
    jumps = [np.array(x, float) for x in flat]
    z0 = L.num('z0')

    def N(r):
        # counts from a remote time, minus those at t0
        return np.array([(x <= r).sum() - (x <= REPS['t0']).sum()
                         for x in jumps]).reshape(shape)

    def body(ip, args, kw):
        args = list(args) + [kw[k] for k in ('t', 'dt') if k in kw]
        rs = [np.asarray(tm.REP.ev(ip.models.term(a)), float) for a in args]
        t = rs[0]

        def at(t):
            return np.array([N(x) for x in t.ravel()]).reshape(
                t.shape + shape)
        if len(rs) == 1:
            return ip.arr(tm.const(at(t).astype(dtype)))
        t, d = np.broadcast_arrays(*rs)
        return ip.arr(tm.const((at(t + d) - at(t)).astype(dtype)))
    at = jump_rv(L)
    y = at(()) if yk == 'fixed' else \
        Host(lambda ip, a, k: at((ip.models.term(a[0]),)), 'y')
    dn = L.source('dn', P, vshape, body=body)
    t0 = L.time('t0', REPS['t0'])
    s = live(L.call(L.public('true_cpoisson_source'), paths=L.dim(P),
                    vshape=tuple(L.dim(n) for n in vshape), t0=t0, z0=z0,
                    dn=dn, y=y))
    T = {k: L.time(k, r) for k, r in REPS.items()}
    T['t0'] = t0
    times, vals = {}, []
    for c in h.split():
        if c[0] == '[':
            ks = c[1:-1].split(',')
            a = L.ip.arr(mk('call', 'numpy.array', (tm.Lst(
                T[k].t for k in ks),), ()), 'caller')
            v = X(L.term(live(L.call(s, a))))
            vals += [((k,), v[i]) for i, k in enumerate(ks)]
        elif '+' in c:
            k, q = c.split('+')
            gap = L.gap('gap', .37)
            v = X(L.term(live(L.call(s, T[k], gap))))
            u = Num((X(T[k].t) + X(gap.t)).t)
            T['u'] = u
            vals.append((('u', k), v))
            ks = [k, 'u']
        else:
            ks = [c]
            vals.append(((c,), X(L.term(live(L.call(s, T[c]))))))
        for k in ks:
            times[k] = float(tm.REP.ev(T[k].t))
    n0 = len(L.ip.events)
    final = {k: X(L.term(live(L.call(s, T[k])))) for k in times}
    final['t0'] = X(L.term(live(L.call(s, t0))))
    times['t0'] = REPS['t0']
    if any(e.kind in ('jump_draw', 'draw') for e in L.ip.events[n0:]):
        return R.bad(key, W, 'retrieving realized values draws new jumps')
    ks = sorted(times, key=times.get)
    z = NPX.stack(tm.Lst([final[k].t for k in ks] + [
        v.t for _, v in vals])).t
    if z.opaque:
        return R.unknown(key, 'unmodelled value')
    v = tm.valuations(1, R.seed, L.ip.facts)[0]
    try:
        m, who, JJ = laws.jacobian(z, v, 'Y')
    except laws.NotLinear as e:
        return R.bad(key, W, 'values are not sums of jumps: %s' % e)
    n = int(np.prod(shape))
    if m.shape != (len(ks) + len(vals),) + shape:
        return R.bad(key, W, 'values shaped %s' % (m.shape[1:],))
    JJ = JJ.reshape((len(ks) + len(vals), n, len(who)))
    mean = m.reshape(len(ks) + len(vals), n)
    row = dict(zip(ks, JJ))
    base = dict(zip(ks, mean))
    for i, (q, _) in enumerate(vals):
        a = JJ[len(ks) + i]
        w = row[q[0]] - (row[q[1]] if len(q) > 1 else 0)
        b = base[q[0]] - (base[q[1]] if len(q) > 1 else 0)
        if not (np.allclose(a, w) and np.allclose(mean[len(ks) + i], b)):
            return R.bad(key, W, 'the value returned at %s by call %d is not '
                         'the one retrieved later' % (q, i))
    if not np.allclose(mean[:len(ks)], v.ev(z0.t)):
        return R.bad(key, W, 'values do not equal z0 with null jumps')
    if np.abs(row['t0']).max(initial=0):
        return R.bad(key, W, 'the value at t0 is not z0')
    used = {}
    for p, q in zip(ks, ks[1:]):
        d = row[q] - row[p]
        C = (N(times[q]) - N(times[p])).ravel()
        for i in range(n):
            nz = np.nonzero(np.abs(d[i]) > 1e-9)[0]
            if len(nz) != C[i] or not np.allclose(d[i][nz], 1):
                return R.bad(key, W, 'with %d counts between %s and %s, '
                             'component %d adds jumps with weights %s' % (
                                 C[i], p, q, i, d[i][nz][:6]))
            for j in nz:
                if j in used:
                    return R.bad(key, W, 'jump shared by %s and %s' % (
                        used[j], (p, q, i)))
                used[j] = (p, q, i)
    if yk != 'fixed':
        ends = [tm.REP.ev(T[k].t) for k in times if k != 't0'] + [
            REPS['t0']]
        mids = {round((a + b) / 2, 6) for a, b in
                itertools.combinations(ends, 2)}
        first = middles(h, times)
        for j in used:
            mid = float(tm.REP.ev(who[j][0].args[4][0]))
            if first is not None and min(abs(mid - x) for x in first) > 1e-6:
                return R.bad(key, W, 'jumps taken from the distribution at '
                             '%.4g, not the middle of a new interval' % mid)
    R.good(key, W)


def middles(h, times):
    """Middles of the intervals beyond those realized, in a history."""
    if '+' in h or '[' in h:
        return None
    lo = hi = REPS['t0']
    out = []
    for c in h.split():
        r = times[c]
        if r > hi:
            out.append((hi + r) / 2)
            hi = r
        elif r < lo:
            out.append((lo + r) / 2)
            lo = r
    return out


def setup(R):
    key = 'default counting source'
    with R.context(key, W):
        L = R.lab()
        lam, g = L.num('lam', 'pos'), Host(None, 'rng', {'callable': False})
        s = live(L.call(L.public('true_cpoisson_source'), paths=L.dim(6),
                        vshape=(L.dim(2),), lam=lam, rng=g))
        dn = L.get(s, 'dn')
        R.must(key, L.cls_of(dn) == 'true_poisson_source' and
               L.rep(L.get(dn, 'paths')) == 6 and
               tuple(L.rep(L.get(dn, 'vshape'))) == (2,) and
               L.get(dn, 'rng') == g, W, 'not a true_poisson_source with '
               'the given paths, values shape and generator')
        R.eq(key + ' intensity', L, L.term(L.get(dn, 'lam')), X(lam.t), W,
             'intensity')
    key = 'given counting source'
    with R.context(key, W):
        L = R.lab()
        dn = live(L.call(L.public('true_poisson_source'), paths=L.dim(6),
                         vshape=(L.dim(2),)))
        s = live(L.call(L.public('true_cpoisson_source'), paths=L.dim(6),
                        vshape=(L.dim(2),), dn=dn))
        R.must(key, L.get(s, 'dn') == dn, W, 'not used')
