"""Data of the caller is not altered."""
import numpy as np
from ..lab import *
from .. import terms as tm
from ..randomness import stub
from ..sweep import sweep, in_library
from .c33 import live
from . import c21

META = {
    'title': 'data given by the caller is never altered',
    'statement':
    'No call into sdepy writes to anything the caller owns: arrays, lists, '
    'dictionaries and sets given as arguments or keyword values (timelines, '
    'steps, parameters, initial values, correlations, samples, bins, '
    'weights, points of evaluation, indices), arrays and dictionaries '
    'returned by functions, sources and distributions of the caller, these '
    'functions, classes and objects themselves, process instances operated '
    'on. The info dictionary given to an integrator with getinfo set, and '
    'out arrays, are the exceptions.',
    'over': ['inputs', 'histories', 'configurations'],
    'quant': 'all public callables, all kinds of arguments',
    'why': 'Tests pass literals or arrays not looked at again; altering an '
           'argument in place is visible only to the caller keeping it.',
    'files': ['infrastructure.py', 'integration.py', 'analytical.py',
              'kfun.py'],
    'mech': [('parameter setup', 'sdepy/infrastructure.py'),
             ('SDE argument evaluation', 'sdepy/integration.py'),
             ('montecarlo.update', 'sdepy/infrastructure.py')],
    'technique': 'effect analysis: ownership of the target of each write, in '
                 'abstract interpretation with aliasing of views, over the '
                 'contexts of all properties',
    'note': 'Contexts are those listed and those of the other properties; '
            'aliasing follows numpy views.',
}
W = 'sdepy/infrastructure.py '
WI = 'sdepy/integration.py '
EXTRA = {'jumpdiff_process': dict(lam=1.),
         'merton_jumpdiff_process': dict(lam=1., a=0., b=1.),
         'kou_jumpdiff_process': dict(lam=1., a=.5, b=.5, pa=.5)}
FORMS = ('arrays', 'integer arrays', 'kept arrays', 'lists', 'processes')
PROB = ('pa', 'rho', 'a', 'b')


def check(R):
    R.explanation = (
        'Writes are recorded in abstract interpretation of every process and '
        'source with arguments of all kinds, and in the contexts of all '
        'other properties; the target of none may be owned by the caller.')
    R.rule = ('one obligation per (process or source, kind of arguments), '
              'and per property the contexts of which are analysed')
    R.floor = 100
    for name in c21.PARAMS:
        for form in FORMS:
            for vshape in ((), (2,)):
                if form in ('lists', 'processes') and vshape:
                    continue
                key = '%s vshape=%s %s' % (name, vshape, form)
                with R.context(key, WI + name):
                    process(R, key, name, form, vshape)
    for name in ('wiener_source', 'poisson_source', 'cpoisson_source',
                 'true_wiener_source', 'true_poisson_source',
                 'true_cpoisson_source'):
        for form in FORMS:
            key = '%s %s' % (name, form)
            with R.context(key, W + name):
                source(R, key, name, form)
    everywhere(R)


def param(L, k, v, form, vshape, paths=3):
    dom = 'prob' if k in PROB else 'pos'
    shape = vshape + (1,) if vshape else (paths,)
    if k in ('x0', 'y0', 'z0') and form in ('kept arrays', 'processes'):
        form = 'arrays'
    if k in ('a', 'b', 'pa'):
        return L.num(k, dom)
    if form == 'arrays':
        return L.arr(k, shape, dom)
    if form == 'integer arrays':
        return L.arrt(tm.const(np.ones(paths, int))) if dom == 'pos' and \
            not vshape else L.arr(k, shape, dom)
    if form == 'kept arrays':
        a = L.arr(k, shape, dom)
        return Host(lambda ip, args, kw: a, k)
    if form == 'lists':
        return L.v([L.num('%s%d' % (k, i), dom) for i in range(paths)])
    return L.process(k, (0., 2.), (2,) + (vshape or ()) + (paths,), dom)


def owned(L, e):
    """What the caller owns that an effect alters, if any."""
    if e.kind == 'mutate':
        if e.info['origin'] == 'caller':
            return 'an object given by the caller'
    elif e.kind in ('setattr', 'delattr'):
        obj, target = e.info['obj'], e.info.get('target')
        if target == 'host':
            return 'an attribute of an object given by the caller'
        if isinstance(obj, Ref):
            r = L.ip.rec(obj)
            if isinstance(r, (FnObj, ClsObj)) and r.module == 'client':
                return 'an attribute of %s of the caller' % r.name
            if isinstance(r, Inst) and isinstance(r.cls, Ref):
                mro = [L.ip.rec(c) for c in L.ip.rec(r.cls).mro
                       if isinstance(c, Ref)]
                if mro and all(c.module == 'client' for c in mro):
                    return 'an attribute of an object of the caller'
    return None


def judge(R, key, L, where):
    for e in L.ip.events[L.ip.base_events:]:
        if in_library(e):
            what = owned(L, e)
            if what:
                return R.bad(key, e.site, 'writes to ' + what)
    return R.good(key, where)


def process(R, key, name, form, vshape):
    L = R.lab()
    ps = dict(c21.PARAMS[name], **EXTRA.get(name, {}))
    kw = {k: param(L, k, v, form, vshape) for k, v in ps.items()
          if not (name == 'hull_white_process' and k != 'x0')}
    if name == 'hull_white_process' and vshape:
        kw['x0'] = L.arr('x0', vshape + (1, 1), 'pos')
    if 'lam' in kw and form == 'lists':
        kw['lam'] = L.num('lam', 'pos')
    p = live(L.call(L.public(name), rng=stub(L, 'g'), paths=L.dim(3),
                    vshape=tuple(L.dim(n) for n in vshape),
                    steps=L.timeline('s', (1.1, .3, .9)), **kw))
    tt = L.timeline('t', (.1, .7, 1.5))
    live(L.call(p, tt))
    live(L.call(p, tt))
    judge(R, key, L, WI + name)


def source(R, key, name, form):
    L = R.lab()
    kw = {}
    true = name.startswith('true')
    if 'poisson' in name:
        kw['lam'] = param(L, 'lam', 1., form, ())
        if form == 'lists':
            kw['lam'] = L.num('lam', 'pos')
    if 'cpoisson' in name:
        kw['y'] = L.ok(L.public('norm_rv'), a=L.num('a'), b=L.num('b', 'pos'))
    if 'wiener' in name and form != 'processes':
        c = tm.const(np.array([[1., .5], [.5, 1.]]))
        a = L.arrt(c)
        kw['corr'] = {'kept arrays': Host(lambda ip, x, k: a, 'corr'),
                      'lists': L.v([[1., .5], [.5, 1.]])}.get(form, a)
        kw['vshape'] = L.dim(2)
    if true:
        kw['z0'] = L.arrt(tm.const(np.ones(3, int))) if 'n_source' in name \
            else L.arr('z0', (3,))
        kw['t0'] = L.time('t0', .2)
    s = live(L.call(L.public(name), rng=stub(L, 'g'), paths=L.dim(3), **kw))
    t = L.timeline('t', (.7, 1.2, .4))
    dt = L.ip.arr(tm.leaf('dt', (3,), 'f8', 'gap', (.4, -.3, .2)), 'caller')
    if true:
        live(L.call(s, t))
    live(L.call(s, t, dt))
    live(L.call(s, t, dt))
    judge(R, key, L, W + name)


def effects(name, key, L, evs, report):
    n = 0
    for e in evs:
        if e.kind in ('mutate', 'setattr', 'delattr') and in_library(e):
            n += 1
            what = owned(L, e)
            if what:
                report(('bad', key, e.site, 'writes to ' + what))
    report(('n', n))


def everywhere(R):
    ctx, fns, n = 0, set(), 0
    for name, found, nctx, fn in sweep(effects, R.seed):
        key = 'contexts of %s' % name
        ctx += nctx
        fns |= set(fn)
        n += sum(f[1] for f in found if f[0] == 'n')
        bad = [f for f in found if f[0] == 'bad']
        fail = [f for f in found if f[0] == 'failed']
        if bad:
            R.bad(key, bad[0][2], '%s, in the context %s' % (
                bad[0][3], bad[0][1]))
        elif fail:
            R.unknown(key, fail[0][3])
        else:
            R.good(key, '%d contexts' % nctx)
    R.extra['swept_contexts'] = ctx
    R.extra['swept_functions'] = len(fns)
    R.extra['swept_writes'] = n
