"""Black-Scholes formulae."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c33 import live
from .c26 import Phi_

META = {
    'title': 'Black-Scholes formulae, with their limits',
    'statement':
    'For all positive strikes and initial values, maturities t >= 0, rates '
    'r and q and volatilities sigma >= 0, given as scalars, lists or arrays '
    'broadcasting together: bsd1d2 gives d1 = (log(x0/k) + (r - q + '
    'sigma^2/2)t)/(sigma sqrt(t)) and d2 = d1 - sigma sqrt(t); bscall and '
    'bsput give the expectation of the discounted payoff max(x - k, 0), '
    'max(k - x, 0) of a lognormal x with forward x0 exp((r - q)t), which '
    'satisfy put-call parity; bscall_delta and bsput_delta their derivative '
    'with respect to x0. With sigma = 0 or t = 0 values are those of the '
    'deterministic payoff, elementwise, and never nan. Arguments are not '
    'altered, omitted parameters take their default.',
    'over': ['inputs'],
    'quant': 'all strikes, maturities, parameters, shapes; degenerate cases',
    'why': 'Tests check a handful of values and limits.',
    'files': ['analytical.py'],
    'mech': [('bsd1d2, bscall, bsput, bscall_delta, bsput_delta',
              'sdepy/analytical.py')],
    'technique': 'abstract interpretation; value numbers of results against '
                 'the formulae',
    'note': 'Decided per function and shape of arguments, for all values, in '
            'exact arithmetic.',
}
W = 'sdepy/analytical.py '
PAR = [('x0', 'pos', 1.), ('r', 'real', 0.), ('q', 'real', 0.),
       ('sigma', 'pos', 1.)]
FUN = ('bsd1d2', 'bscall', 'bscall_delta', 'bsput', 'bsput_delta')
SHAPES = {
    'scalars': ((), (), (), (), (), ()),
    'strikes': ((3,), (), (), (), (), ()),
    'maturities': ((), (2, 2), (), (), (), ()),
    'grid': ((3,), (2, 1), (), (), (), ()),
    'prices': ((), (), (4,), (), (), ()),
    'rates': ((2,), (), (), (2,), (), ()),
    'dividends': ((), (3,), (), (), (2, 1), ()),
    'volatilities': ((), (), (), (), (), (3,)),
    'all': ((3, 1), (2,), (1, 2), (3, 1), (), (3, 2)),
    'lists': ('list', 'list', (), (), (), ()),
    'list of prices': ((), (), 'list', (), (), ()),
    'list of volatilities': ((), (), (), 'list', 'list', 'list'),
    'integers': 'int',
}


def d12(k, t, x0, r, q, sigma):
    s = sigma * NPX.sqrt(t)
    d1 = NPX.log(x0 * NPX.exp((r - q) * t) / k) / s + s / 2.
    return d1, d1 - s


def spec(k, t, x0, r, q, sigma):
    d1, d2 = d12(k, t, x0, r, q, sigma)
    a, b = x0 * NPX.exp(-1. * q * t), k * NPX.exp(-1. * r * t)
    call = a * Phi_(d1) - b * Phi_(d2)
    n = NPX.exp(-1. * q * t)
    return {'bsd1d2': (d1, d2), 'bscall': (call,),
            'bsput': (b * Phi_(-1. * d2) - a * Phi_(-1. * d1),), 'bscall_delta': (n * Phi_(d1),),
            'bsput_delta': (-1. * n * Phi_(-1. * d1),)}


def limit(k, t, x0, r, q, sigma):
    """Deterministic payoff."""
    a, b = x0 * NPX.exp(-1. * q * t), k * NPX.exp(-1. * r * t)
    n = NPX.exp(-1. * q * t)
    return {'bscall': (NPX.maximum(a - b, 0.),),
            'bsput': (NPX.maximum(b - a, 0.),),
            'bscall_delta': (n * (a > b),),
            'bsput_delta': (-1. * n * (a < b),)}


def check(R):
    R.explanation = ('Each formula is analysed with unknown arguments in '
                     'several shapes, and with null time or volatility.')
    R.rule = 'one obligation per (function, arguments)'
    R.floor = 100
    for form in SHAPES:
        with R.context('parity ' + form, W + 'bsput'):
            parity(R, form)
    for f in FUN:
        for form in SHAPES:
            with R.context('%s %s' % (f, form), W + f):
                one(R, f, form, ())
        for omit in [(p[0],) for p in PAR] + [tuple(p[0] for p in PAR)]:
            with R.context('%s default %s' % (f, omit), W + f):
                one(R, f, 'grid', omit)
        for what in ('t', 'sigma', 'both', 'some t', 'some sigma'):
            for form in ('scalars', 'grid', 'all'):
                with R.context('%s null %s %s' % (f, what, form), W + f):
                    null(R, f, what, form)
        for what in SMALL:
            with R.context('%s %s' % (f, what), W + f):
                small(R, f, what)
        with R.context(f + ' at the money', W + f):
            money(R, f)
        with R.context(f + ' unknown parameter', W + f):
            L = R.lab()
            R.rejects(f + ' unknown parameter', L, L.call(
                L.public(f), L.num('k', 'pos'), L.num('t', 'pos'),
                mu=L.num('o')), W + f, 'unknown parameter', {'TypeError'})


def args_of(L, form, omit=()):
    out = []
    for i, (n, dom, d) in enumerate([('k', 'pos', None), ('t', 'pos', None)]
                                    + PAR):
        if n in omit:
            out.append((n, None, X(tm.const(np.asarray(d)))))
            continue
        sh = SHAPES[form]
        if sh == 'int':
            v = L.num(n, 'int', 'i8')
        elif sh[i] == 'list':
            w = [L.num('%s%d' % (n, j), dom) for j in range(3)]
            out.append((n, L.v(w), NPX.array([z.t for z in w])))
            continue
        else:
            v = L.num(n, dom) if sh[i] == () else L.arr(n, sh[i], dom)
        out.append((n, v, X(L.term(v))))
    return out


def run(R, key, L, f, args, want, shape):
    kw = {n: v for n, v, t in args[2:] if v is not None}
    o = L.call(L.public(f), args[0][1], args[1][1], **kw)
    R.accepts(key + ' accepted', L, o, W + f, f, explore=False)
    r = live(o)
    r = L.ip.seq(r) if f == 'bsd1d2' else [r]
    for i, w in enumerate(want):
        k = key + (' d%d' % (i + 1) if f == 'bsd1d2' else '')
        R.must(k + ' shape', np.shape(L.rep(r[i])) == shape, W + f,
               'shape %s' % (np.shape(L.rep(r[i])),))
        R.eq(k, L, L.term(r[i]), NPX.broadcast_to(w, shape), W + f, f,
             rtol=1e-6)
    for n, v, t in args:
        if v is not None and L.cls_of(v) in ('Arr', 'ndarray'):
            R.eq('%s argument %s' % (key, n), L, L.term(v), t, W + f,
                 'argument is altered')


def shape_of(args):
    return np.broadcast_shapes(*[np.shape(t.t.rep) for n, v, t in args])


def one(R, f, form, omit):
    L = R.lab()
    args = args_of(L, form, omit)
    key = '%s %s default %s' % (f, form, omit) if omit else \
        '%s %s' % (f, form)
    run(R, key, L, f, args, spec(*[t for n, v, t in args])[f],
        shape_of(args))


def parity(R, form):
    L = R.lab()
    args = args_of(L, form)
    kw = {n: v for n, v, t in args[2:]}
    k, t, x0, r, q, s = (t for n, v, t in args)
    v = {f: X(L.term(L.ok(L.public(f), args[0][1], args[1][1], **kw)))
         for f in FUN[1:]}
    a = NPX.exp(-1. * q * t)
    shape = shape_of(args)
    R.eq('parity ' + form, L, (v['bscall'] - v['bsput']).t,
         NPX.broadcast_to(x0 * a - k * NPX.exp(-1. * r * t), shape),
         W + 'bsput', 'call minus put')
    R.eq('delta parity ' + form, L, (
        v['bscall_delta'] - v['bsput_delta']).t, NPX.broadcast_to(a, shape),
        W + 'bsput_delta', 'call delta minus put delta')


def null(R, f, what, form):
    """Null volatility or time: everywhere, or at some elements."""
    L = R.lab()
    args = args_of(L, form)
    for i, (n, v, t) in enumerate(args):
        if n == 't' and what in ('t', 'both', 'some t') or \
           n == 'sigma' and what in ('sigma', 'both', 'some sigma'):
            sh = np.shape(t.t.rep)
            if what[:4] == 'some':
                if not sh:
                    return
                m = np.arange(np.prod(sh)).reshape(sh) % 2 * 1.
                z = t * tm.const(m)
            else:
                z = t * 0.
            v = L.arrt(z.t)
            args[i] = (n, v, X(L.term(v)))
    a = dict((n, t) for n, v, t in args)
    lim = limit(**a)
    if f == 'bsd1d2':
        # infinite, with the sign of the forward moneyness
        s = NPX.log(a['x0'] / a['k']) + (a['r'] - a['q']) * a['t']
        lim = {f: (s * np.inf,) * 2}
    shape = shape_of(args)
    want = lim[f]
    if what[:4] == 'some':
        # replaced by a positive value where the limit applies
        b = {n: (t if n not in ('t', 'sigma') else NPX.where(
            t == 0., tm.const(1.), t)) for n, t in a.items()}
        z = NPX.broadcast_to((a['t'] * a['sigma']) == 0., shape)
        want = [NPX.where(z, w, g) for w, g in zip(want, spec(**b)[f])]
    run(R, '%s null %s %s' % (f, what, form), L, f, args, want, shape)


# factors of times and volatilities, distance of strikes from prices, and
# whether the volatility is null
SMALL = {
    'small volatility': (1., 1e-9, None, False),
    'small time': (1e-14, 1., None, False),
    'small volatility above the money': (1., 1e-9, 1e-9, False),
    'small volatility below the money': (1., 1e-9, -1e-9, False),
    'null volatility just above the money': (1., 0., 1e-9, True),
    'null volatility just below the money': (1., 0., -1e-9, True),
    'null time just above the money': (0., 1., 1e-9, True),
    'null time just below the money': (0., 1., -1e-9, True),
}


def small(R, f, what):
    """Next to the limits: no threshold takes the place of the formulae."""
    L = R.lab()
    ft, fs, away, null = SMALL[what]
    args = args_of(L, 'strikes')
    a = dict((n, t) for n, v, t in args)
    new = dict(t=a['t'] * ft, sigma=a['sigma'] * fs)
    if away is not None:
        new['k'] = NPX.broadcast_to(a['x0'] * (1. - away), (3,))
        new['r'] = new['q'] = a['r'] * 0. if null or away else a['r']
    args = [(n, L.arrt(new[n].t) if n in new else v, new.get(n, t))
            for n, v, t in args]
    args = [(n, v, X(L.term(v))) for n, v, t in args]
    a = dict((n, t) for n, v, t in args)
    if null:
        want = limit(**a)
        want['bsd1d2'] = (NPX.log(a['x0'] / a['k']) * np.inf,) * 2
    else:
        want = spec(**a)
    run(R, '%s %s' % (f, what), L, f, args, want[f], shape_of(args))


def money(R, f):
    """At the money, null volatility or time: limits."""
    L = R.lab()
    p, r = L.num('p', 'pos'), L.num('r')
    for n, t, s in (('t', L.v(0.), L.num('s', 'pos')),
                    ('both', L.v(0.), L.v(0.))):
        o = L.call(L.public(f), p, t, x0=p, r=r, q=r, sigma=s)
        key = '%s at the money null %s' % (f, n)
        R.accepts(key + ' accepted', L, o, W + f, f, explore=False)
        v = live(o)
        v = L.ip.seq(v) if f == 'bsd1d2' else [v]
        want = {'bsd1d2': (0., 0.), 'bscall': (0.,), 'bsput': (0.,)}.get(f)
        for i, w in enumerate(want or ()):
            R.eq('%s %d' % (key, i), L, L.term(v[i]), tm.const(
                np.asarray(w)), W + f, f + ' at the money')
        if not want:
            R.must(key + ' finite', True, W + f, '')
            # any value between the limits
            R.eq(key + ' is not nan', L, (X(L.term(v[0])) * 0.).t,
                 tm.const(np.asarray(0.)), W + f, f + ' is nan')
