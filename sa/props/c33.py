"""Interpolation of processes."""
import numpy as np
from ..extmodels import _interp1d
from ..lab import *
from .. import terms as tm

META = {
    'title': 'Processes interpolate in time and are constant outside it',
    'statement':
    'p(s), p.interp()(s) and p.rebase(s) give the values of p at times s, of '
    'any shape: shape s.shape + vshape + (paths,), the stored value at '
    'points of the timeline, the interpolation of the neighbouring values '
    'between them, of the kind given, else of the interp_kind of the '
    'process, linear by default, and the first and last values before and '
    'after the timeline. A process with one time is constant. p(s, ds) is '
    'p(s + ds) - p(s), of the same kind. p.rebase(s) is a process with '
    'timeline s. The function p.interp() refers to the values of p and '
    'follows their changes. Results have the dtype of the process, which is '
    'not altered.',
    'over': ['inputs', 'configurations'],
    'quant': 'all processes, timelines, times of evaluation inside, outside '
             'and at points of the timeline, shapes and kinds',
    'why': 'Tests evaluate sampled processes at sampled times.',
    'files': ['infrastructure.py'],
    'mech': [('interp, __call__, rebase',
              'sdepy/infrastructure.py class process')],
    'technique': 'abstract interpretation; value numbers of results against '
                 'piecewise formulas on each ordering of times',
    'note': 'Decided per rank and per position of s relative to the timeline '
            '(finite set of orderings), for all values; linear, nearest, '
            'previous, next and zero kinds have formulas of their own, cubic '
            'and quadratic are those of scipy.',
}
W = 'sdepy/infrastructure.py process.interp'
REPS = (.2, .7, 1.1, 2.)
SHAPES = ((), (2,), (3, 2))
# representatives of evaluation times: before, first, inside, at, last, after
S = (-1., .2, .35, .7, .8, 1.1, 1.9, 2., 3.5)


def value(z, t, s, rep, kind, reps=REPS):
    """Value at time s, with the ordering of the representatives."""
    n = len(reps)
    if rep <= reps[0] or n == 1:
        return z[0]
    if rep >= reps[-1]:
        return z[-1]
    if rep in reps:
        return z[list(reps).index(rep)]
    i = int(np.searchsorted(reps, rep)) - 1
    if kind in ('linear', 'slinear'):
        return z[i] + (z[i + 1] - z[i]) * ((s - t[i]) / (t[i + 1] - t[i]))
    if kind in ('previous', 'zero'):
        return z[i]
    if kind == 'next':
        return z[i + 1]
    raise ValueError(kind)


def check(R):
    R.explanation = (
        'Processes are evaluated abstractly at times in each position '
        'relative to their timeline; value numbers are compared with the '
        'interpolation formula for that ordering.')
    R.rule = ('one obligation per (values shape, kind, position of the time, '
              'entry point)')
    R.floor = 250
    for vshape in SHAPES:
        for kind in (None, 'linear', 'previous', 'next', 'zero'):
            for via in ('attribute', 'argument') if kind else ('default',):
                key = 'vshape=%s kind=%s by %s' % (vshape, kind, via)
                with R.context(key, W):
                    points(R, key, vshape, kind, via)
        for how in ('scalar', 'matrix', 'list'):
            key = 'vshape=%s times as %s' % (vshape, how)
            with R.context(key, W):
                shapes(R, key, vshape, how)
        key = 'vshape=%s single time' % (vshape,)
        with R.context(key, W):
            single(R, key, vshape)
        increments(R, vshape)
    for kind in ('quadratic', 'cubic', 'nearest'):
        with R.context('kind ' + kind, W):
            splines(R, 'kind ' + kind, kind)
    for kind in ('linear', 'previous', 'next', 'zero'):
        with R.context('next to the times, kind ' + kind, W):
            near(R, kind)
    for dt in ('f4', 'i8', 'c16'):
        with R.context('values of type ' + dt, W):
            types(R, 'values of type ' + dt, dt)
    alias(R)


def start(R, vshape, dt='f8', reps=REPS):
    L = R.lab()
    p = L.process('p', reps, (len(reps),) + vshape + (2,),
                  'int' if dt == 'i8' else 'real', dt)
    return L, p, X(L.term(p)), X(L.term(L.get(p, 't')))


def stack(rows):
    return X(mk('call', 'numpy.stack', (Lst(r.t for r in rows),),
                (('axis', 0),)))


def live(o):
    if not o.live:
        raise Rejected(o)
    return o.value


def points(R, key, vshape, kind, via):
    L, p, z, t = start(R, vshape)
    kw = {}
    if via == 'attribute':
        L.client('p.interp_kind = k', p=p, k=L.v(kind))
    elif via == 'argument':
        kw = {'kind': kind}
        L.client("p.interp_kind = 'next' if k != 'next' else 'linear'", p=p,
                 k=L.v(kind))
    k = kind or 'linear'
    ts = L.timeline('s', S)
    s = X(L.term(ts))
    want = stack([value(z, t, s[i], r, k) for i, r in enumerate(S)])
    R.eq(key + ' p(s)', L, L.term(live(L.call(p, ts, **kw))), want, W,
         'value of the process')
    f = live(L.meth(p, 'interp', **kw))
    R.eq(key + ' p.interp()(s)', L, L.term(live(L.call(f, ts))), want, W,
         'value of the interpolating function')
    q = live(L.meth(p, 'rebase', ts, **kw))
    R.must(key + ' rebase type', L.cls_of(q) == 'process', W,
           'not a process')
    R.eq(key + ' rebase', L, L.term(q), want, W, 'values of the rebased '
         'process')
    R.eq(key + ' rebase t', L, L.term(L.get(q, 't')), s, W,
         'timeline of the rebased process')
    # increments: s + ds at the representatives U
    U = (.1, .35, .8, .7, 2., 3.5, 2.5, 1.1, -2.)
    ds = L.arrt(mk('bin', '-', leaf('u', (len(U),), 'f8', 'ord',
                                    np.array(U)), s.t))
    u = X(leaf('u', (len(U),), 'f8', 'ord', np.array(U)))
    end = stack([value(z, t, u[i], r, k) for i, r in enumerate(U)])
    if k == 'linear':
        # continuous: rounding of s + ds is immaterial
        R.eq(key + ' p(s, ds)', L, L.term(live(L.call(p, ts, ds, **kw))),
             end - want, W, 'increment')
    else:
        U = (-.9, .35, .8, 1.9, 3.4)
        u = X(leaf('u', (len(U),), 'f8', 'ord', np.array(U)))
        s0 = L.time('s0', -2.)
        end = stack([value(z, t, u[i], r, k) for i, r in enumerate(U)])
        R.eq(key + ' p(s, ds)', L, L.term(live(L.call(
            p, s0, L.arrt((u - X(s0.t)).t), **kw))), end - z[0], W,
            'increment')
    R.eq(key + ' process', L, L.term(p), z, W, 'process after evaluation')
    R.eq(key + ' timeline', L, L.term(L.get(p, 't')), t, W,
         'timeline after evaluation')


def shapes(R, key, vshape, how):
    L, p, z, t = start(R, vshape)
    if how == 'scalar':
        s = L.time('s', .8)
        want = value(z, t, X(s.t), .8, 'linear')
    elif how == 'list':
        a, b = L.time('a', .8), L.time('b', .3)
        s = L.v([b, a])
        want = stack([value(z, t, X(b.t), .3, 'linear'),
                      value(z, t, X(a.t), .8, 'linear')])
    else:
        r = np.array([[.1, .3, .8], [2.5, 1.5, .7]])
        s = L.timeline('s', r)
        st = X(L.term(s))
        want = stack([value(z, t, st[i, j], r[i, j], 'linear')
                      for i in range(2) for j in range(3)]).reshape(
                          (2, 3) + vshape + (2,))
    R.eq(key, L, L.term(live(L.call(p, s))), want, W, 'value')
    f = live(L.meth(p, 'interp'))
    R.eq(key + ' interp', L, L.term(live(L.call(f, s))), want, W, 'value')
    if how == 'scalar':
        q = live(L.meth(p, 'rebase', s))
        R.eq(key + ' rebase', L, L.term(q), want[None], W, 'values')
        R.eq(key + ' rebase t', L, L.term(L.get(q, 't')),
             NPX.asarray(s.t).reshape(1), W, 'timeline')


def single(R, key, vshape):
    L, p, z, t = start(R, vshape, reps=(.5,))
    for n, s in (('scalar', L.num('s')), ('array', L.arr('s', (3,))),
                 ('matrix', L.arr('m', (3, 2)))):
        sh = tuple(np.shape(L.rep(s)))
        want = NPX.broadcast_to(z[0], sh + vshape + (2,))
        R.eq('%s %s' % (key, n), L, L.term(live(L.call(p, s))), want, W,
             'value of a constant process')
        R.eq('%s %s increment' % (key, n), L,
             L.term(live(L.call(p, s, L.num('ds')))), want * 0, W,
             'increment of a constant process')
        if n != 'matrix':
            q = live(L.meth(p, 'rebase', s))
            R.eq('%s %s rebase' % (key, n), L, L.term(q),
                 want.reshape((-1,) + vshape + (2,)), W, 'values')


def increments(R, vshape):
    """Null increments, and increments and times that broadcast."""
    zero = np.zeros

    def partly(L):
        L.u = [L.time('s', .8), L.time('b', 1.2), L.time('s', .8),
               L.time('a', .6)]
        s0 = X(L.u[0].t)
        return L.arrt(stack([X(tm.const(np.array(0.))), X(L.u[1].t) - s0,
                            X(tm.const(np.array(0.))), X(L.u[3].t) - s0]).t)
    for times in (1, len(REPS)):
        for n, mk_s, mk_d in (
                ('0', lambda L: L.time('s', .8), lambda L: L.v(0)),
                ('0.', lambda L: L.time('s', .8), lambda L: L.v(0.)),
                ('0. at the timeline', lambda L: L.get(L.p, 't'),
                 lambda L: L.v(0.)),
                ('null array', lambda L: L.timeline('s', (.3, .8)),
                 lambda L: L.arrt(tm.const(zero(2)))),
                ('null integers', lambda L: L.timeline('s', (.3, .8)),
                 lambda L: L.arrt(tm.const(zero(2, int)))),
                ('null list', lambda L: L.time('s', .8),
                 lambda L: L.v([0., 0.])),
                ('partly null', lambda L: L.time('s', .8),
                 partly),
                ('null and broadcast', lambda L: L.timeline('s', [[.3], [.8]]),
                 lambda L: L.arrt(tm.const(zero(3))))):
            key = '%d times vshape=%s increment %s' % (times, vshape, n)
            with R.context(key, W):
                L, p, z, t = start(R, vshape, reps=(
                    (.5,) if times == 1 else REPS))
                L.p = p
                s, ds = mk_s(L), mk_d(L)
                sa, da = np.asarray(L.rep(s)), np.asarray(
                    [0., 0.] if n == 'null list' else L.rep(ds))
                got = L.term(live(L.call(p, s, ds)))
                sh = np.broadcast_shapes(sa.shape, da.shape)
                if not da.any():
                    want = X(tm.const(zero(sh + vshape + (2,))))
                else:
                    v = lambda u: value(z, t, X(u.t), float(L.rep(u)),
                                        'linear') if times > 1 else z[0]
                    want = stack([v(u) - v(L.u[0]) for u in L.u])
                R.eq(key, L, got, want, W, 'increment')


def splines(R, key, kind):
    L, p, z, t = start(R, (2,))
    ts = L.timeline('s', S)
    s = X(L.term(ts))
    inner = X(mk('host', 'interp1d', _interp1d, (
        t.t, z.t, mk('call', 'numpy.clip', (s.t, t[0].t, t[-1].t), ()),
        Dct((('axis', 0), ('kind', kind))))))
    R.eq(key, L, L.term(live(L.call(p, ts, kind=kind))), inner, W, 'value')


def near(R, kind):
    """At times a rounding away from those of the process."""
    L = R.lab()
    reps = (0., .5, .5 + 1e-9, 1e6)
    p = L.process('p', L.v(np.array(reps)), (4, 2), 'real')
    z, t = X(L.term(p)), X(tm.const(np.array(reps)))
    up = np.nextafter
    # (time, step function or not: values cannot tell otherwise)
    S = [up(.5, 0), .5, .5 + 5e-10, .5 + 1e-9, -1e-300, 1e-300, up(1e6, 0),
         up(1e6, 2e6)]
    want = stack([value(z, t, X(tm.const(np.asarray(s))), s, kind, reps)
                  for s in S])
    key = 'next to the times, kind ' + kind
    R.eq(key, L, L.term(live(L.call(p, L.v(np.array(S)), kind=kind))), want,
         W, 'value of the process')
    for s, w in zip(S, range(len(S))):
        R.eq('%s at %r' % (key, s), L, L.term(live(L.call(
            p, L.v(s), kind=kind))), want[w], W, 'value of the process')


def types(R, key, dt):
    L, p, z, t = start(R, (2,), dt)
    for n, a in (('inside', L.time('s', .8)), ('at', L.time('s', .7)),
                 ('after', L.time('s', 9.))):
        v = live(L.call(p, a))
        R.must('%s %s dtype' % (key, n), L.rep(v).dtype == np.dtype(dt), W,
               'dtype %s' % L.rep(v).dtype)
        if n != 'inside' or dt == 'c16':
            R.eq('%s %s' % (key, n), L, L.term(v),
                 value(z, t, X(a.t), L.rep(a), 'linear'), W, 'value')


def alias(R):
    """f refers to the process, without storing copies."""
    with R.context('interpolating function refers to the process', W):
        for reps in ((.5,), REPS):
            L, p, z, t = start(R, (2,), reps=reps)
            s = L.time('s', .8)
            ns = L.client("""
f = p.interp()
p.x[...] = v
y = f(s)
""", p=p, v=L.num('v'), s=s)
            R.eq('reference times=%d' % len(reps), L, L.term(ns['y']),
                 NPX.broadcast_to(leaf('v', (), 'f8', 'real'), (2, 2)), W,
                 'value after writing to the process')
