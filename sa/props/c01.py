"""Provenance of random numbers."""
from ..lab import *
from .. import terms as tm
from ..randomness import stub, origin
from ..sweep import sweep, in_library, NAMES
from .c33 import live
from .c20 import CLASSES

META = {
    'title': 'all random numbers come from the generator given',
    'statement':
    'Every random variate used by sdepy is drawn from the generator given as '
    'rng to the source or process needing it, which is passed on to the '
    'sources, counting sources and jump distributions made on its behalf; '
    'with no rng given, it is drawn from the generator '
    'sdepy.infrastructure.default_rng is bound to when the source or process '
    'is made, which is created unseeded on import and may be replaced. No '
    'other generator is used, created, seeded or altered: the global state '
    'of numpy.random is never touched. Sources and processes expose their '
    'generator as rng, which cannot be assigned. Sources refuse integers, '
    'lists and arrays given as rng with TypeError.',
    'over': ['inputs', 'configurations', 'histories'],
    'quant': 'all sources, processes and jump distributions, all ways of '
             'giving them generators',
    'why': 'A variate taken from another generator has the same law: results '
           'of tests do not change, reproducibility and independence of '
           'streams are lost.',
    'files': ['infrastructure.py', 'integration.py'],
    'mech': [('source.rng', 'sdepy/infrastructure.py'),
             ('SDE.source_dw, source_dn, source_dj',
              'sdepy/integration.py')],
    'technique': 'effect analysis: provenance of the generator of each draw, '
                 'in abstract interpretation of every source and process and '
                 'of the contexts of all other properties',
    'note': 'Draws are effects of the calls analysed: contexts are those '
            'listed and those of the other properties.',
}
W = 'sdepy/infrastructure.py '
P, V = 3, (2,)
SOURCES = {
    'wiener_source': {}, 'odd_wiener_source': {'paths': 4},
    'wiener_source rho=const': {'rho': .5},
    'wiener_source corr=function': {'corr': 'fn'},
    'poisson_source': {}, 'even_poisson_source': {'paths': 4},
    'cpoisson_source': {}, 'even_cpoisson_source': {'paths': 4},
    'cpoisson_source y=norm': {'y': 'norm_rv'},
    'cpoisson_source y=double_exp': {'y': 'double_exp_rv'},
    'cpoisson_source y=function': {'y': 'fn'},
    'cpoisson_source y=exp_map': {'y': 'map'},
    'cpoisson_source y=norm of time': {'y': 'norm_rv fn'},
    'cpoisson_source dn=class': {'dn': 'poisson_source'},
    'true_wiener_source': {}, 'true_wiener_source rho=const': {'rho': .5},
    'true_poisson_source': {}, 'true_cpoisson_source': {},
    'true_cpoisson_source y=norm': {'y': 'norm_rv'},
}


def default(L):
    return L.ip.rec(L.ip.modules['infrastructure']).vars[
        'default_rng']


def replace(L, g):
    e = L.ip.modules['infrastructure']
    r = L.ip.rec(e)
    L.ip.put(e, r.but(vars={**r.vars, 'default_rng': g}))


def used(L, n0=0):
    """Generators drawn from, with the sites of the draws."""
    out = []
    for e in L.ip.events[max(n0, L.ip.base_events):]:
        if e.kind == 'draw' and in_library(e):
            out.append((e.info['gen'], e.site))
        elif e.kind == 'jump_draw':
            out.append((e.info['state'], e.site))
    return out


def jump_args(L, kw):
    from .c08 import jump_rv
    kw = dict(kw)
    y = kw.get('y')
    if y == 'fn':
        at = jump_rv(L)
        kw['y'] = Host(lambda ip, a, k: at((ip.models.term(a[0]),)), 'y')
    elif y == 'map':
        kw['y'] = L.ok(L.public('rvmap'), Ext('numpy.exp'),
                       L.ok(L.public('norm_rv')))
    elif y == 'norm_rv fn':
        kw['y'] = L.ok(L.public('norm_rv'), a=L.uf('a', ()))
    elif y:
        kw['y'] = L.ok(L.public(y))
    if isinstance(kw.get('dn'), str):
        kw['dn'] = L.public(kw['dn'])
    if kw.get('corr') == 'fn':
        kw['corr'] = L.client('''
import numpy as np
def C(s):
    return np.array([[1., .5], [.5, 1.]])
''')['C']
    if 'rho' in kw:
        kw['rho'] = L.v(kw['rho'])
    return kw


def make(L, name, **more):
    kw = jump_args(L, SOURCES[name])
    n = kw.pop('paths', P)
    return live(L.call(L.public(name.split()[0]), paths=L.dim(n),
                       vshape=tuple(L.dim(k) for k in V), **kw, **more))


def use(L, s, name):
    t, dt = L.time('t', .7), L.gap('dt', .4)
    if name.startswith('true'):
        for k, r in (('c', 1.8), ('a', -.6), ('b', .9)):
            live(L.call(s, L.time(k, r)))
    live(L.call(s, t, dt))


def judge(R, key, L, want, where, least=1):
    got = used(L)
    bad = [(origin(L, g), site) for g, site in got if g != want]
    if bad:
        return R.bad(key, bad[0][1], 'draws come from %s, not from the '
                     'generator specified' % bad[0][0])
    made = [e for e in L.ip.events[L.ip.base_events:]
            if e.kind in ('rng_create', 'global_state') and in_library(e) and
            'errstate' not in str(e.info.get('name'))]
    if made:
        return R.bad(key, made[0].site, 'a generator is made, or global '
                     'state altered')
    if len(got) < least:
        return R.unknown(key, 'no draw recorded')
    return R.good(key, where)


def check(R):
    R.explanation = (
        'Each source and process is made with a given generator, with the '
        'default one and with a replaced default, and used; every draw must '
        'come from that generator. In the contexts of the other properties, '
        'no draw may come from elsewhere than a generator given or the '
        'default one.')
    R.rule = ('one obligation per (source or process, way of giving the '
              'generator), and per property the contexts of which are '
              'analysed')
    R.floor = 120
    for name in SOURCES:
        for mode in ('given', 'replaced', 'made before', 'default'):
            key = '%s rng %s' % (name, mode)
            with R.context(key, W + name.split()[0]):
                source(R, key, name, mode)
    for name in CLASSES:
        for mode in ('given', 'replaced', 'at once', 'stored'):
            key = '%s rng %s' % (name, mode)
            with R.context(key, 'sdepy/integration.py ' + name):
                process(R, key, name, mode)
    integrated(R)
    refused(R)
    default_(R)
    everywhere(R)


def source(R, key, name, mode):
    L = R.lab()
    g, h = stub(L, 'g'), stub(L, 'h')
    where = W + name.split()[0]
    want = g
    if mode == 'given':
        replace(L, h)
        s = make(L, name, rng=g)
    elif mode == 'replaced':
        replace(L, g)
        s = make(L, name)
        replace(L, h)
    elif mode == 'made before':
        replace(L, g)
        make(L, name)
        replace(L, h)
        s, want = make(L, name), h
    else:
        s, want = make(L, name), default(L)
    R.must(key + ' attribute', L.get(s, 'rng') == want, where,
           'rng is not the generator')
    o = L.call(Ext('builtins.setattr'), s, Const('rng'), h)
    R.rejects(key + ' assigned', L, o, where, 'assigning rng',
              ['AttributeError'])
    if mode != 'default' or name.startswith('wiener'):
        use(L, s, name)
        judge(R, key, L, want, where)


def process(R, key, name, mode):
    L = R.lab()
    g, h = stub(L, 'g'), stub(L, 'h')
    where = 'sdepy/integration.py ' + name
    C = L.public(name)
    tt = L.timeline('t', (.1, .7, 1.5))
    kw = {'paths': L.dim(P), 'vshape': L.dim(2)}
    if mode == 'given':
        replace(L, h)
        p = live(L.call(C, rng=g, **kw))
    elif mode == 'replaced':
        replace(L, g)
        p = live(L.call(C, **kw))
        replace(L, h)
    elif mode == 'at once':
        replace(L, h)
        live(L.call(L.ok(L.public('kfunc'), C), tt, rng=g, **kw))
        return judge(R, key, L, g, where)
    else:
        replace(L, h)
        p = live(L.call(L.ok(L.public('kfunc'), C), rng=h, **kw))
        p = live(L.call(p, rng=g))
    live(L.call(p, tt))
    live(L.call(p, tt))
    if mode == 'stored':
        return judge(R, key, L, g, where, 2)
    judge(R, key, L, g, where, 2)
    o = L.ip.attempt(lambda: L.get(p, 'rng'))
    R.must(key + ' attribute', o[0] and o[1] == g, where,
           'rng is not the generator')


def integrated(R):
    for mode in ('given', 'replaced'):
        key = 'integrated function rng %s' % mode
        with R.context(key, 'sdepy/integration.py integrate'):
            L = R.lab()
            g, h = stub(L, 'g'), stub(L, 'h')
            c = L.client('''
@integrate
def f(t, x, a=1., b=2.):
    return {'dt': a, 'dw': x, 'dn': 2*a, 'dj': a*x}
''')['f']
            replace(L, h if mode == 'given' else g)
            kw = {'rng': g} if mode == 'given' else {}
            p = live(L.call(c, paths=L.dim(P), vshape=L.dim(2), **kw))
            replace(L, h)
            live(L.call(p, L.timeline('t', (.1, .7, 1.5))))
            judge(R, key, L, g, 'sdepy/integration.py integrate', 4)


def refused(R):
    for name in ('wiener_source', 'poisson_source', 'cpoisson_source',
                 'odd_wiener_source', 'even_cpoisson_source',
                 'true_wiener_source', 'true_poisson_source',
                 'true_cpoisson_source', 'wiener_process',
                 'kou_jumpdiff_process'):
        for what in ('integer', 'numpy integer', 'list', 'array', 'zero'):
            key = '%s rng %s' % (name, what)
            with R.context(key, W + name):
                L = R.lab()
                x = {'integer': L.v(5), 'zero': L.v(0),
                     'numpy integer': L.num('n', 'int', 'i8'),
                     'list': L.v([1, 2]),
                     'array': L.arr('a', (3,), 'int', 'i8')}[what]
                R.rejects(key, L, L.call(L.public(name), paths=L.dim(2),
                                         rng=x), W + name,
                          'a seed given as rng', ['TypeError'])


def default_(R):
    key = 'default generator'
    with R.context(key, W + 'default_rng'):
        L = R.lab()
        g = default(L)
        made = [e for e in L.ip.events[:L.ip.base_events]
                if e.kind == 'rng_create']
        R.must(key, isinstance(g, Ref) and len(made) == 1 and
               not made[0].info['args'] and not any(
                   e.kind == 'global_state' and
                   'random' in str(e.info['name'])
                   for e in L.ip.events[:L.ip.base_events]),
               W + 'default_rng',
               'the default generator is not one unseeded default_rng()')


def effects(name, key, L, evs, report):
    report(('n', sum(e.kind in ('draw', 'jump_draw') for e in evs)))
    for e in evs:
        if not in_library(e):
            continue
        if e.kind == 'draw':
            o = origin(L, e.info['gen'])
            if o == 'global' and e.stack and e.stack[0].endswith('rvs'):
                continue        # rvs called by the user with no generator
            if o not in ('given', 'default'):
                report(('bad', key, e.site, 'draws come from ' + o))
        elif e.kind == 'rng_create':
            report(('bad', key, e.site, 'a generator is made'))
        elif e.kind == 'global_state' and \
                'errstate' not in str(e.info['name']) and \
                'random' in str(e.info['name']):
            report(('bad', key, e.site, 'the global generator is altered'))


def everywhere(R):
    ctx, fns, n = 0, {}, 0
    for name, found, nctx, fn in sweep(effects, R.seed):
        key = 'contexts of %s' % name
        ctx += nctx
        for k, c in fn.items():
            fns[k] = fns.get(k, 0) + c
        n += sum(f[1] for f in found if f[0] == 'n')
        bad = [f for f in found if f[0] == 'bad']
        fail = [f for f in found if f[0] == 'failed']
        if bad:
            R.bad(key, bad[0][2], '%s, in the context %s' % (
                bad[0][3], bad[0][1]))
        elif fail:
            R.unknown(key, fail[0][3])
        else:
            R.good(key, '%d contexts' % nctx)
    R.extra['swept_contexts'] = ctx
    R.extra['swept_functions'] = len(fns)
    R.extra['swept_draws'] = n
