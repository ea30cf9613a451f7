"""Antithetic sources."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c08 import jump_rv, counting, tup
from . import c06, c07

META = {
    'title': 'Antithetic sources pair each path with its antithetic image',
    'statement':
    'The first half of the paths of an antithetic source is a realization of '
    'the underlying source with half the paths and the same parameters, and '
    'path i of the second half is the antithetic image of path i of the '
    'first half: opposite for Wiener increments, equal for Poisson and '
    'compound Poisson increments. This holds on every call, for every values '
    'shape and for scalar or array times, and the source exposes the full '
    'number of paths.',
    'over': ['inputs', 'configurations', 'histories'],
    'quant': 'all values shapes, even numbers of paths, times and parameters '
             'of the underlying source, repeated calls',
    'why': 'A test checks the pairing at one shape; a pairing broken for '
           'array times or higher ranks, or a first half drawn with another '
           'law, would pass it.',
    'files': ['infrastructure.py'],
    'mech': [('odd_wiener_source, even_poisson_source, even_cpoisson_source',
              'sdepy/infrastructure.py'),
             ('antithetics class factory', 'sdepy/infrastructure.py')],
    'technique': 'abstract interpretation; equality of value numbers of the '
                 'two halves, law of the first half',
    'note': 'Decided per rank and times shape for all numeric values; numpy '
            'is modelled.',
}
W = 'sdepy/infrastructure.py _antithetics'


def check(R):
    R.explanation = (
        'Antithetic sources are analysed abstractly; the value number of the '
        'second half of the paths must equal the transform of the first, and '
        'the first half must have the law of the underlying source.')
    R.rule = 'one obligation per (source, vshape, times shape) and half'
    R.floor = 20
    for cls, sign in (('odd_wiener_source', -1), ('even_poisson_source', 1),
                      ('even_cpoisson_source', 1)):
        for vshape in ((), (3,), (3, 2)):
            for k, tn in enumerate(c06.names()):
                key = '%s vshape=%s times=%s' % (cls, vshape, tn)
                with R.context(key, W):
                    L = R.lab()
                    _, t, dt, ts = list(c06.timesets(L))[k]
                    kw, lam = {}, None
                    if cls == 'even_poisson_source':
                        lam = L.num('lam', 'pos')
                        kw['lam'] = lam
                    if cls == 'even_cpoisson_source':
                        sh = vshape + (2,)
                        pat = tup((np.arange(int(np.prod(sh))) % 3).reshape(
                            sh).tolist())
                        kw['dn'] = counting(L, pat, sh, 2, vshape)
                        kw['y'] = jump_rv(L)(())
                    corr = None
                    if cls == 'odd_wiener_source' and vshape == (3,):
                        c = c06.spd(tm.leaf('A', (3, 3)))
                        kw['corr'] = L.arrt(c)

                        def corr(mid, c=c):
                            return c
                    src = L.ok(L.public(cls), paths=L.dim(4), vshape=tuple(
                        L.dim(n) for n in vshape), **kw)
                    for rep in range(2):
                        z = X(L.term(L.ok(src, t, dt)))
                    if np.shape(tm.REP.ev(z.t)) != ts + vshape + (4,):
                        R.bad(key, W, 'wrong shape')
                        continue
                    if L.rep(L.get(src, 'paths')) != 4:
                        R.bad(key, W, 'wrong number of paths')
                        continue
                    a, b = z[..., :2], z[..., 2:]
                    R.eq(key + ' pairing', L, b.t, sign * a, W,
                         'second half of the paths is not the image of the '
                         'first')
                    if cls == 'odd_wiener_source':
                        c06.law(R, key + ' first half', L, a.t, L.term(t),
                                L.term(dt), ts, vshape, 2, corr, W)
                    elif lam is not None:
                        c07.law(R, key + ' first half', L, a.t, L.term(t),
                                L.term(dt), ts, vshape + (2,),
                                lambda mid: lam.t, W, 'if')
