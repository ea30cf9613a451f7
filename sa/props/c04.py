"""Independence of objects; no traces left."""
import numpy as np
from ..lab import *
from .. import terms as tm
from ..randomness import stub
from ..sweep import sweep, in_library
from .c33 import live
from .c20 import CLASSES, results
from .c01 import SOURCES, make
from .c02 import source

META = {
    'title': 'objects are independent and calls leave no trace',
    'statement':
    'Sources, processes, integrators, montecarlo instances and kfuncs are '
    'independent of one another, of the same class or not: making or using '
    'one never changes the results of another. No call alters modules, '
    'classes, functions or default values of sdepy, attributes of numpy, '
    'scipy or Python, the numpy error state (restored where changed for a '
    'computation), warning filters, or other global state. Arrays handed out '
    'by sources with memory, integrators and montecarlo instances may be '
    'altered by the caller with no effect on later results.',
    'over': ['inputs', 'histories', 'configurations'],
    'quant': 'all pairs of objects and interleavings of uses, all public '
             'callables',
    'why': 'State shared by mistake shows when two objects are alive at the '
           'same time and used in turn, which tests seldom do.',
    'files': ['infrastructure.py', 'integration.py', 'analytical.py',
              'kfun.py'],
    'mech': [('source and integrator attributes',
              'sdepy/integration.py'),
             ('true_source values', 'sdepy/infrastructure.py')],
    'technique': 'effect analysis of writes to state shared by objects over '
                 'the contexts of all properties; equality of value numbers '
                 'of an object used alone and next to another',
    'note': 'Interleavings are those of two objects, one used between making '
            'and using the other and between its uses.',
}
W = 'sdepy/infrastructure.py '
WI = 'sdepy/integration.py '


def check(R):
    R.explanation = (
        'Each source and process is used alone and in turn with another '
        'one with other parameters; results must agree. Results are altered '
        'and computed again. In the contexts of all properties, writes to '
        'objects existing after import, to classes, modules and global '
        'state are violations.')
    R.rule = ('one obligation per (pair of objects, use), per kind of '
              'result altered, and per property the contexts of which are '
              'analysed')
    R.floor = 100
    for name in SOURCES:
        with R.context(name, W + name.split()[0]):
            turn(R, name, W + name.split()[0], lambda L, g, n: (
                lambda: make(L, name, rng=g, **(other(L, name) if n else {})),
                lambda s: source(L, s, name)))
    for name in CLASSES:
        for vshape in ((), (2,)):
            key = '%s vshape=%s' % (name, vshape)
            with R.context(key, WI + name):
                turn(R, key, WI + name, lambda L, g, n: (
                    lambda: live(L.call(
                        L.public(name), rng=g, paths=L.dim(3 - n),
                        vshape=tuple(L.dim(k) for k in vshape),
                        steps=L.timeline('s', (.3, .9)[n:]),
                        **({'x0': L.num('xx', 'pos'),
                            'getinfo': L.v(False)} if n else {}))),
                    lambda p: results(L, live(L.call(
                        p, L.timeline('t', (.1, .7, 1.5)[n:]))))))
    outputs(R)
    everywhere(R)


def other(L, name):
    if 'cpoisson' in name and 'dn' in SOURCES[name]:
        return {'ptype': L.v(float)}
    if 'poisson' in name:
        return {'lam': L.num('lam', 'pos')}
    return {'dtype': L.v(float)}


def turn(R, key, where, uses):
    ref = None
    for mode in ('alone', 'in turn'):
        L = R.lab()
        ip = L.ip
        g, h = stub(L, 'g'), stub(L, 'h')
        mk_b, use_b = uses(L, g, 0)
        mk_a, use_a = uses(L, h, 1)
        out = []
        a = mk_a() if mode == 'in turn' else None
        ip.ndraw = 1000
        b = mk_b()
        if a:
            use_a(a)
        ip.ndraw = 2000
        out += use_b(b)
        if a:
            use_a(mk_a())
            use_a(a)
        ip.ndraw = 3000
        out += use_b(b)
        if ref is None:
            ref = out
            continue
        for i, (x, y) in enumerate(zip(out, ref)):
            R.eq('%s result %d' % (key, i), L, x, y, where,
                 'value changes if another object is used')


def outputs(R):
    """Altering results has no effect on later ones."""
    def again(key, where, L, get, wrap=lambda x: [x]):
        first = wrap(get())
        terms = [L.term(x) for x in first]
        for x in first:
            L.client('z *= 0\nz += 99', z=x)
        for i, (x, t) in enumerate(zip(wrap(get()), terms)):
            R.eq('%s %d' % (key, i), L, L.term(x), t, where,
                 'altering a result alters later ones')
    for name in ('true_wiener_source', 'true_poisson_source',
                 'true_cpoisson_source'):
        for how in ('time', 'earlier time', 'times', 'increment', 'start',
                    'component'):
            key = '%s altered result: %s' % (name, how)
            with R.context(key, W + name):
                L = R.lab()
                s = make(L, name, rng=stub(L, 'g'))
                t, u = L.time('t', .7), L.time('u', .3)
                live(L.call(s, t))
                if how == 'component':
                    s = live(L.item(s, Const(0)))
                args = {'time': (t,), 'earlier time': (u,),
                        'times': (L.timeline('tt', (.3, 1.4)),),
                        'increment': (u, L.gap('dt', .4)),
                        'start': (L.v(0.),), 'component': (u,)}[how]
                again(key, W + name, L, lambda: live(L.call(s, *args)))
    for bins in ('number', 'edges'):
        for name in ('mean', 'var', 'std', 'stderr', 'skew', 'kurtosis',
                     'histogram', 'density_histogram', 'outpaths', 'pdf',
                     'cdf'):
            for vshape in ((), (2,))[:1 if bins == 'edges' else 2]:
                key = 'montecarlo.%s altered result, bins=%s vshape=%s' % (
                    name, bins, vshape)
                with R.context(key, W + 'montecarlo.' + name):
                    mc(R, key, L_mc(R, bins, vshape), name, vshape, again)


def L_mc(R, bins, vshape):
    L = R.lab()
    b = L.dim(4) if bins == 'number' else \
        L.arrt(tm.const(np.array([-3., -1., 0., 1., 3.])))
    sample = L.arr('sample', vshape + (6,))
    return L, live(L.call(L.public('montecarlo'), sample, bins=b))


def mc(R, key, Lm, name, vshape, again):
    L, m = Lm
    where = W + 'montecarlo.' + name
    hist = name in ('histogram', 'density_histogram', 'outpaths', 'pdf',
                    'cdf')

    def get():
        a = live(L.item(m, Const(1))) if hist and vshape else m
        if name == 'outpaths':
            return L.get(a, name)
        args = (L.arrt(tm.const(np.array([-.5, .5]))),) if name in (
            'pdf', 'cdf') else ()
        return live(L.meth(a, name, *args))

    def wrap(x):
        x = list(x.items) if isinstance(x, Tup) else [x]
        return [y for y in x if isinstance(y, Ref)]
    again(key, where, L, get, wrap)
    R.good(key, where)


def trace(L, e):
    """State shared by objects that an effect alters, if any."""
    if e.kind == 'mutate':
        if e.info['root'].oid < L.base_oid:
            return 'an object made on import'
    elif e.kind in ('setattr', 'delattr'):
        obj, target = e.info['obj'], e.info.get('target')
        if target == 'module' or isinstance(obj, Ext):
            return 'attribute %s of a module or foreign object' % \
                e.info['name']
        if isinstance(obj, Ref) and obj.oid < L.base_oid:
            return 'attribute %s of a class, function or object made on ' \
                'import' % e.info['name']
        if target == 'class' and e.info['name'][:2] != '__' and \
                e.site.split(':')[-1] != 'decorator':
            r = L.ip.rec(obj)
            if isinstance(r, ClsObj) and r.module != 'client':
                return 'attribute %s of a class' % e.info['name']
    elif e.kind == 'global_write':
        return 'module variable %s' % e.info['name']
    elif e.kind == 'global_state' and e.info['name'] != 'errstate':
        return 'global state, %s' % e.info['name']
    return None


def effects(name, key, L, evs, report):
    n = 0
    for e in evs:
        if e.kind in ('mutate', 'setattr', 'delattr', 'global_write',
                      'global_state') and in_library(e):
            n += 1
            what = trace(L, e)
            if what:
                report(('bad', key, e.site, 'writes to ' + what))
    report(('n', n))
    if L.ip.altered():
        site = [e.site for e in evs if e.kind == 'global_state'][-1:]
        report(('bad', key, (site or ['sdepy'])[0],
                'leaves the numpy error state altered'))


def everywhere(R):
    ctx, fns, n = 0, set(), 0
    for name, found, nctx, fn in sweep(effects, R.seed):
        key = 'contexts of %s' % name
        ctx += nctx
        fns |= set(fn)
        n += sum(f[1] for f in found if f[0] == 'n')
        bad = [f for f in found if f[0] == 'bad']
        fail = [f for f in found if f[0] == 'failed']
        if bad:
            R.bad(key, bad[0][2], '%s, in the context %s' % (
                bad[0][3], bad[0][1]))
        elif fail:
            R.unknown(key, fail[0][3])
        else:
            R.good(key, '%d contexts' % nctx)
    R.extra['swept_contexts'] = ctx
    R.extra['swept_functions'] = len(fns)
    R.extra['swept_writes'] = n
