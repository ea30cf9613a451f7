"""Generators given by the user, recording what is drawn from them."""
import numpy as np
from .lab import *
from . import terms as tm
from . import extmodels


def stub(L, name, counts=(1, 0, 2, 1)):
    """A generator: draws are standard variates of its own, counts are given
    outcomes (the k-th variate after n draws is counts[(n + k) % len])."""

    def draw_(fn):
        def f(ip, args, kw):
            ip.event('use', gen=self, name=fn)
            return extmodels.rng_draw(ip.models, self, fn, args, kw)
        return Host(f, fn)

    def counting(fn):
        def f(ip, args, kw):
            names = ('lam', 'size') if fn == 'poisson' else ('n', 'p', 'size')
            a = dict(zip(names, args), **kw)
            shapes = [np.shape(tm.REP.ev(ip.models.term(a[k])))
                      for k in names[:-1] if k in a]
            size = a.get('size')
            size = None if size is None else ip.models.static(size)
            sh = np.broadcast_shapes(*shapes) if size is None else \
                tuple(int(i) for i in np.atleast_1d(size))
            n = int(np.prod(sh))
            c = np.array([counts[(ip.ndraw + i) % len(counts)]
                          for i in range(n)], 'int64').reshape(sh)
            if fn == 'binomial':
                c = np.minimum(c, np.asarray(
                    tm.REP.ev(ip.models.term(a['n']))))
            ip.ndraw += 1
            ip.event('use', gen=self, name=fn)
            ip.event('draw', gen=self, dist=fn, params=(), size=sh,
                     term=tm.const(c), name=fn)
            return ip.arr(tm.const(c))
        return Host(f, fn)
    attrs = {fn: draw_(fn) for fn in sorted(extmodels.DRAWS)
             if fn not in ('poisson', 'binomial')}
    attrs.update({fn: counting(fn) for fn in ('poisson', 'binomial')})
    attrs['callable'] = False
    self = Host(None, name, attrs)
    return self


def origin(L, gen):
    """Where a generator comes from: 'given', 'default', 'global' or the site
    of the library creating it."""
    if isinstance(gen, Host):
        return 'given'
    if isinstance(gen, Ref):
        r = L.ip.rec(gen)
        data = getattr(r, 'data', None)
        if gen.oid < L.base_oid:
            m = L.ip.rec(L.ip.modules['infrastructure'])
            if m.vars.get('default_rng') == gen:
                return 'default'
            return 'a generator made on import, %s' % (data,)
        if isinstance(data, str) and '@sdepy/' in data and \
           '@sdepy/client.py' not in data:
            return 'a generator made by the library, %s' % data
        return 'given'
    return 'global'
