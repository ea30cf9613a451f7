"""Distribution functions of montecarlo."""
import numpy as np
from ..lab import *
from .. import terms as tm
from ..extmodels import _interp1d
from .c33 import live

META = {
    'title': 'montecarlo pdf and cdf are those of the histogram, by method',
    'statement':
    'With the gaussian_kde method, the default, pdf(x) is the mixture of '
    'normal densities centered at the midpoints of the bins, with standard '
    'deviation bandwidth times the width of the bin and weight the fraction '
    'of the counts in the bin; cdf(x) is its integral up to x. With the '
    'interp method, pdf(x) interpolates, by scipy.interpolate.interp1d with '
    'the given kind, the densities at the midpoints of the bins, 0 at both '
    'ends and outside; cdf(x) the cumulated fractions at the edges, 0 below '
    'and 1 above. Results have the shape of x, for any x and type of the '
    'bins; other methods raise ValueError. Neither x nor the instance are '
    'altered.',
    'over': ['inputs', 'histories'],
    'quant': 'all samples, bins, arguments, bandwidths and kinds',
    'why': 'Tests compare a few curves by eye-set tolerances.',
    'files': ['infrastructure.py'],
    'mech': [('montecarlo._pdf_or_cdf, pdf, cdf',
              'sdepy/infrastructure.py montecarlo._pdf_or_cdf')],
    'technique': 'abstract interpretation; value numbers against the formula '
                 'of the documentation',
    'note': 'Decided per shape of x, method, kind and type of bins, for all '
            'values; scipy.interpolate.interp1d is modelled.',
}
W = 'sdepy/infrastructure.py montecarlo._pdf_or_cdf'
XS = {'scalar': (), 'array': (4,), 'matrix': (2, 3), 'list': (2,),
      'single': (1,), 'integer': (), 'integers': (3,), 'empty': (0,),
      '3d': (2, 1, 2)}
KINDS = ('linear', 'nearest', 'previous', 'zero', 'slinear', 'quadratic',
         'cubic')


def check(R):
    R.explanation = ('pdf and cdf of instances with unknown counts are '
                     'analysed at unknown points.')
    R.rule = 'one obligation per (x, method, kind, bins) and function'
    R.floor = 100
    for x in XS:
        for bins in ('edges', 'number', 'integer', 'component', 'float32'):
            key = 'x %s bins %s' % (x, bins)
            with R.context(key, W):
                one(R, key, x, bins)
    for kind in KINDS:
        with R.context('kind=' + kind, W):
            kinds(R, 'kind=' + kind, kind)
    nodes(R)
    defaults(R)
    invalid(R)


def build(L, bins):
    x = L.arr('x', (6,))
    y = L.arr('y', (3,))
    M = L.public('montecarlo')
    if bins == 'component':
        x, y = L.arr('x', (2, 6)), L.arr('y', (2, 3))
        b = L.dim(4)
    elif bins == 'edges':
        b = L.timeline('b', (-1.3, -.4, .2, .9, 2.))
    elif bins == 'float32':
        b = L.timeline('b', (-1.25, -.5, .25, 1., 2.), 'f4')
    elif bins == 'integer':
        b = L.v([-3, -1, 0, 2, 3])
    else:
        b = L.dim(4)
    a = live(L.call(M, x, bins=b))
    live(L.meth(a, 'update', y))
    if bins == 'component':
        a = live(L.item(a, L.dim(1)))
    h = L.ip.seq(live(L.meth(a, 'histogram')))
    return a, X(L.term(h[0])), X(L.term(h[1]))


def xval(L, x):
    if x == 'list':
        v = [L.num('u0'), L.num('u1')]
        return L.v(v), NPX.array([k.t for k in v])
    if x in ('integer', 'integers'):
        v = L.arr('u', XS[x], 'int', 'i8') if XS[x] else \
            L.num('u', 'int', 'i8')
        return v, X(L.term(v))
    if x == 'scalar':
        v = L.num('u')
        return v, X(L.term(v))
    v = L.arr('u', XS[x])
    return v, X(L.term(v))


def spec(u, counts, e, bandwidth, cdf):
    """Mixture of normal laws."""
    frac = counts * 1. / counts.sum()
    mid, wid = (e[:-1] + e[1:]) / 2., (e[1:] - e[:-1]) * bandwidth
    z = (u[..., None] - mid) / wid
    if cdf:
        return (frac * .5 * (1. + SPX.special.erf(z / 2. ** .5))).sum(-1)
    return (frac * NPX.exp(z * z / -2.) / wid
            / (2. * np.pi) ** .5).sum(-1)


def ispec(u, counts, e, kind, cdf):
    frac = counts * 1. / counts.sum()
    if cdf:
        xx = e
        yy = NPX.concatenate((tm.const(np.zeros(1)), frac.cumsum()))
        fill = (0., 1.)
    else:
        z = tm.const(np.zeros(1))
        xx = NPX.concatenate((e[:1], (e[:-1] + e[1:]) / 2., e[-1:]))
        yy = NPX.concatenate((z, frac / (e[1:] - e[:-1]), z))
        fill = 0.
    return X(mk('host', 'interp1d', _interp1d, (xx.t, yy.t, u.t, tm.Dct((
        ('kind', kind), ('bounds_error', False), ('fill_value', fill))))))


def one(R, key, x, bins):
    L = R.lab()
    a, c, e = build(L, bins)
    u, ut = xval(L, x)
    w = L.num('w', 'pos')
    for f in ('pdf', 'cdf'):
        for how, args, kw, want in (
                ('', (), {}, spec(ut, c, e, 1., f == 'cdf')),
                (' bandwidth', (), {'bandwidth': w},
                 spec(ut, c, e, X(w.t), f == 'cdf')),
                (' positional', ('gaussian_kde', w), {},
                 spec(ut, c, e, X(w.t), f == 'cdf')),
                (' interp', (), {'method': 'interp'},
                 ispec(ut, c, e, 'linear', f == 'cdf'))):
            k = '%s %s%s' % (key, f, how)
            o = L.meth(a, f, u, *args, **kw)
            R.accepts(k + ' accepted', L, o, W, f)
            r = live(o)
            R.must(k + ' shape', np.shape(L.rep(r)) == XS[x], W,
                   'shape %s' % (np.shape(L.rep(r)),))
            R.eq(k, L, L.term(r), want, W, f + how,
                 rtol=1e-6 if bins != 'float32' else 1e-4)
    R.eq(key + ' x', L, L.term(u), ut, W, 'x is altered')
    h = L.ip.seq(live(L.meth(a, 'histogram')))
    R.eq(key + ' counts', L, L.term(h[0]), c, W, 'counts are altered')
    R.eq(key + ' edges', L, L.term(h[1]), e, W, 'edges are altered')


def kinds(R, key, kind):
    L = R.lab()
    a, c, e = build(L, 'edges')
    u, ut = xval(L, 'array')
    for f in ('pdf', 'cdf'):
        for how, r in (('keyword', L.meth(a, f, u, method='interp',
                                          kind=kind)),
                       ('positional', L.meth(a, f, u, 'interp', 1., kind))):
            R.eq('%s %s %s' % (key, f, how), L, L.term(live(r)),
                 ispec(ut, c, e, kind, f == 'cdf'), W, f)


def nodes(R):
    """Values at edges and midpoints, and outside."""
    with R.context('nodes', W):
        L = R.lab()
        a, c, e = build(L, 'integer')
        b = np.array([-3, -1, 0, 2, 3.])
        frac = c * 1. / c.sum()

        def f(name, x):
            return live(L.meth(a, name, L.v(np.asarray(x, dtype=float)),
                               method='interp'))
        zero = tm.const(np.zeros(4))
        out = [-9., -3., 3., 8.]
        R.eq('nodes pdf outside', L, (X(L.term(f('pdf', out))) * 1.).t, zero,
             W, 'pdf at the ends and outside')
        R.eq('nodes pdf midpoints', L, L.term(f('pdf', (b[1:] + b[:-1]) / 2)),
             frac / np.diff(b), W, 'pdf at midpoints')
        R.eq('nodes cdf edges', L, L.term(f('cdf', b[1:])), frac.cumsum(), W,
             'cdf at edges')
        R.eq('nodes cdf outside', L, L.term(f('cdf', [-9., -3., 3., 8.])),
             tm.const(np.array([0., 0., 1., 1.])), W, 'cdf outside')


def defaults(R):
    with R.context('defaults', W):
        L = R.lab()
        a, c, e = build(L, 'edges')
        u, ut = xval(L, 'array')
        for f in ('pdf', 'cdf'):
            r = L.term(live(L.meth(a, f, u)))
            for kw in ({'method': 'gaussian_kde'}, {'kind': 'cubic'},
                       {'x': u, 'bandwidth': L.v(1.)}):
                o = L.meth(a, f, *(() if 'x' in kw else (u,)), **kw)
                R.eq('defaults %s %s' % (f, sorted(kw)), L, L.term(live(o)),
                     r, W, 'defaults of ' + f)


def invalid(R):
    with R.context('invalid', W):
        L = R.lab()
        a, c, e = build(L, 'edges')
        u, ut = xval(L, 'array')
        for f in ('pdf', 'cdf'):
            for m in ('other', '', 'Interp'):
                R.rejects('invalid %s %r' % (f, m), L, L.meth(
                    a, f, u, method=m), W, 'unknown method', {'ValueError'})
        a = live(L.call(L.public('montecarlo')))
        b = live(L.call(L.public('montecarlo'), L.arr('x', (4,)), bins=NONE))
        for f in ('pdf', 'cdf'):
            R.rejects('empty ' + f, L, L.meth(a, f, u), W,
                      'empty instance', {'ValueError'})
            R.rejects('no bins ' + f, L, L.meth(b, f, u), W,
                      'no bins', {'ValueError'})
