"""Parameters of SDEs: dispatch and validation."""
import itertools
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import sde

META = {
    'title': 'SDE keywords reach the methods naming them; bad ones are rejected',
    'statement':
    'Each keyword given to an integrated SDE reaches exactly the methods '
    '(sde, init, more, source methods) having a parameter of that name, with '
    'its default where not given: init parameters are passed as constant '
    'arrays, sde parameters as arrays or, if time-dependent, evaluated at the '
    'current time, parameters of more and of sources untouched. A source '
    'given as an instance is used as is, one given as a class is '
    'instantiated with the paths, noise shape, dtype and rng of the process. '
    'Unexpected or missing keywords, incompatible defaults, unknown methods '
    'or sources, bad sde return values and classes lacking an integrator, or '
    'in the wrong order, are rejected.',
    'over': ['inputs', 'configurations'],
    'quant': 'all SDE classes and functions, signatures, defaults and '
             'parameter values',
    'why': 'Signatures are chosen by users: the tests exercise a few classes, '
           'while the dispatch must hold for any combination of methods, '
           'defaults and parameter kinds, including lists and arrays.',
    'files': ['integration.py', 'infrastructure.py'],
    'mech': [('SDE.__init__, _inspect_args_defaults, _consolidate_args',
              'sdepy/integration.py'),
             ('_variable_param_setup, _const_param_setup, _source_setup',
              'sdepy/infrastructure.py')],
    'technique': 'abstract interpretation of client classes with recording '
                 'methods; provenance of each argument',
    'note': 'Decided for all numeric values, on an enumerated family of '
            'signatures, parameter kinds and malformed definitions.',
}
W = 'sdepy/integration.py SDE'

CLS = '''
class my_SDE(SDE):
    sources = {'dt', 'dw', 'dz'}
    def init(self, t, out_x, x0=1., both=3., c=2.):
        INIT(t, x0, both, c)
        out_x[...] = x0
    def sde(self, t, x, a, b=4., both=3.):
        SDE_(t, a, b, both)
        return {'dt': a*0, 'dz': b}
    def more(self, m, n=5, c=2.):
        MORE(m, n, c)
    def source_dz(self, dz=None, k=7, n=5):
        SRC(dz, k, n)
        return Z
class P(my_SDE, integrator):
    pass
'''


def hooks(L):
    return dict({n: L.recorder(n) for n in ('INIT', 'SDE_', 'MORE', 'SRC')},
                Z=L.source('Z', 3, ()))


def check(R):
    R.explanation = (
        'SDE classes with recording methods are instantiated and integrated '
        'abstractly; the arguments received by each method are compared with '
        'those specified, and malformed definitions and calls must have '
        'raising exits only.')
    R.rule = ('one obligation per (definition, parameter kind, method) and '
              'per malformed definition or call')
    R.floor = 60
    for kind in KINDS:
        with R.context('dispatch, %s' % kind, W):
            dispatch(R, kind)
    with R.context('defaults', W):
        defaults(R)
    with R.context('None given', W):
        nothing(R)
    for nm, T in OTHER.items():
        with R.context('init parameters of ' + nm, W):
            init_kinds(R, nm, T)
    sources(R)
    accepted(R)
    rejected(R)


KINDS = ('number', 'list', 'array', 'callable', 'callable of arrays',
         'process', 'nested tuple')


def value(L, kind, name):
    """(keyword value, specified term at time s)."""
    if kind == 'number':
        a = L.num(name)
        return a, lambda s: X(a.t)
    if kind == 'list':
        a = L.num(name)
        return [a, a, a], lambda s: NPX.stack((X(a.t),) * 3)
    if kind == 'nested tuple':
        a = L.num(name)
        return ((a, a, a),), lambda s: NPX.stack((X(a.t),) * 3)[None]
    if kind == 'array':
        a = L.arr(name, (3,))
        t = X(L.term(a))
        return a, lambda s: t
    if kind == 'callable':
        return L.uf(name, (), False), lambda s: sde.ufx(name, (), s)
    if kind == 'callable of arrays':
        return L.uf(name, (3,)), lambda s: sde.ufx(name, (3,), s)
    p = L.process(name, (-1., 4.), (2, 3))
    return p, lambda s: X(L.term(L.ok(p, L.v(s.t))))


def last(L, name):
    es = sde.calls(L, name)
    return es


def dispatch(R, kind):
    L = R.lab()
    c = L.client(CLS, **hooks(L))
    a, at = value(L, kind, 'a')
    b, bt = value(L, kind, 'b')
    x0, m, k, both = L.num('x0'), L.v({}), L.v([1, 2]), L.num('both')
    P = L.ok(c['P'], paths=L.dim(3), x0=x0, a=a, b=b, m=m, k=k, both=both)
    key = 'dispatch, %s: ' % kind
    es = sde.calls(L, 'MORE')
    R.must(key + 'calls of more', len(es) == 1, W, '%d calls' % len(es))
    R.must(key + 'more', es[0].info['args'][0] == m and
           L.rep(es[0].info['args'][1]) == 5, W,
           'parameters of more are not passed as given')
    es = sde.calls(L, 'SRC')
    R.must(key + 'calls of source_dz', len(es) == 1, W,
           '%d calls' % len(es))
    r = es[0].info['args']
    R.must(key + 'source_dz', getattr(r[0], 'v', 0) is None and r[1] == k and
           L.rep(r[2]) == 5, W,
           'parameters of a source method are not passed as given')
    R.must(key + 'no early init', not sde.calls(L, 'INIT'), W,
           'init called by the constructor')
    n0 = len(sde.calls(L, 'SDE_'))
    tt = L.timeline('t', (.1, .9, 2.))
    line = sde.points(L, tt)
    L.ok(P, tt)
    es = sde.calls(L, 'INIT')
    R.must(key + 'calls of init', len(es) == 1, W, '%d calls' % len(es))
    for j, (nm, t) in enumerate((('t', line[0][0]), ('x0', X(x0.t)),
                                 ('both', X(both.t)), ('c', 2.))):
        R.eq(key + 'init ' + nm, L, L.term(es[0].info['args'][j]),
             t.t if isinstance(t, X) else tm.const(t), W, 'argument of init')
        if nm != 't':
            R.must(key + 'init %s as array' % nm, L.cls_of(
                es[0].info['args'][j]) in ('Arr', 'ndarray'), W,
                'init receives something else than an array')
    es = sde.calls(L, 'SDE_')[n0:]
    R.must(key + 'calls of sde', len(es) == 2, W, '%d calls' % len(es))
    for i, e in enumerate(es):
        s = line[i][0]
        for j, (nm, t) in enumerate((('t', s), ('a', at(s)), ('b', bt(s)),
                                     ('both', X(both.t)))):
            R.eq(key + 'sde %s, step %d' % (nm, i), L,
                 L.term(e.info['args'][j]), t, W, 'argument of sde')
            if nm != 't':
                R.must(key + 'sde %s as array, step %d' % (nm, i), L.cls_of(
                    e.info['args'][j]) in ('Arr', 'ndarray'), W,
                    'sde receives something else than an array')
    # args attribute
    d = {k_.v: v for k_, v in L.ip.rec(L.get(P, 'args')).items.values()}
    want = {'x0', 'both', 'c', 'a', 'b', 'm', 'n', 'dz', 'k', 'dw', 'corr',
            'rho'}
    R.must(key + 'args', set(d) == want, W, 'args has keys %s, not %s'
           % (sorted(d), sorted(want)))


def defaults(R):
    """Parameters not given take the default of the signature."""
    L = R.lab()
    c = L.client(CLS, **hooks(L))
    P = L.ok(c['P'], paths=L.dim(3), a=L.num('a'), m=L.num('m'))
    r = sde.calls(L, 'MORE')[0].info['args']
    R.must('default of more', [
        L.rep(z) for z in r[1:]] == [5, 2.], W, 'wrong default')
    r = sde.calls(L, 'SRC')[0].info['args']
    R.must('default of source_dz', L.rep(r[1]) == 7 and L.rep(r[2]) == 5, W,
           'wrong default')
    L.ok(P, L.timeline('t', (0., 1.)))
    r = sde.calls(L, 'INIT')[0].info['args']
    R.must('default of init', [float(L.rep(z)) for z in r[1:]] ==
           [1., 3., 2.], W, 'wrong default')
    r = sde.calls(L, 'SDE_')[-1].info['args']
    R.must('default of sde', [float(L.rep(z)) for z in r[2:]] == [4., 3.], W,
           'wrong default')


def nothing(R):
    """None is a value, other than that of the default."""
    L = R.lab()
    c = L.client(CLS, **hooks(L))
    none = L.v(None)
    P = L.ok(c['P'], paths=L.dim(3), a=L.num('a'), m=none, n=none, k=none,
             b=none, dz=none)
    for nm, i in (('MORE', 0), ('MORE', 1), ('SRC', 0), ('SRC', 1),
                  ('SRC', 2)):
        r = sde.calls(L, nm)[0].info['args']
        R.must('None given to %s %d' % (nm, i), L.rep(r[i]) is None, W,
               'a method does not receive the value given, None')
    d = {k_.v: v for k_, v in L.ip.rec(L.get(P, 'args')).items.values()}
    for nm in ('m', 'n', 'k', 'b', 'dz'):
        R.must('None given, args ' + nm, L.rep(d[nm]) is None, W,
               'args has not the value given, None')


OTHER = {
    'list': lambda L: [L.num('u'), L.num('v')],
    'number': lambda L: L.num('u'),
    'array': lambda L: L.arr('u', (2, 1)),
    'tuple': lambda L: (L.num('u'), L.num('v')),
}


def init_kinds(R, nm, T):
    L = R.lab()
    c = L.client(CLS, **hooks(L))
    x0 = T(L)
    P = L.ok(c['P'], paths=L.dim(3), vshape=L.dim(2), a=L.num('a'),
             m=L.num('m'), c=x0)
    L.ok(P, L.timeline('t', (0., 1.)))
    r = sde.calls(L, 'INIT')[0].info['args'][3]
    R.eq('init parameters of %s value' % nm, L, L.term(r),
         NPX.asarray(X(L.term(L.v(x0)))), W, 'argument of init')
    R.must('init parameters of %s kind' % nm, L.cls_of(r) in
           ('Arr', 'ndarray'), W, 'not an array')


# ------------------------------------------------------------------ sources

SRCDEF = '''
@integrate(q=0, sources={'dt', 'dw', 'dn', 'dj'})
def P(t, x):
    return {'dt': 1., 'dw': 1., 'dn': 1., 'dj': 1.}
class my_source:
    def __init__(self, **args):
        LOG(args)
        self.paths, self.vshape = args['paths'], args['vshape']
    def __call__(self, t, dt):
        return S(t, dt)
'''
ONE = '''
@integrate(q=0, sources={'dt', '%s'})
def P1(t, x):
    return {'dt': 1., '%s': 1.}
'''
HW = '''
P = hull_white_process
class my_source:
    def __init__(self, **args):
        LOG(args)
        self.paths, self.vshape = args['paths'], args['vshape']
    def __call__(self, t, dt):
        return S(t, dt)
'''
EXTRA = {'dw': {'corr': None, 'rho': None}, 'dn': {'lam': 1.},
         'dj': {'dn': None, 'ptype': int, 'lam': 1., 'y': None}}


def sources(R):
    for vshape in ((), (2,)):
        for z in ('dw', 'dn', 'dj'):
            key = 'source class %s, vshape=%s' % (z, vshape)
            with R.context(key, W):
                L = R.lab()
                log = []
                c = L.client(ONE % (z, z) + SRCDEF, LOG=logger(L, log),
                             S=L.uf('S', vshape + (3,)))
                rng, dt = L.public('dw') and L.v(L.uf('rng')), 'float32'
                kw = {z: c['my_source']}
                P = L.ok(c['P1'], paths=L.dim(3), vshape=tuple(
                    L.dim(n) for n in vshape), rng=rng, dtype=dt, **kw)
                R.must(key + ' instances', len(log) == 1, W,
                       '%d instances' % len(log))
                a = log[0]
                want = {'paths', 'vshape', 'dtype', 'rng'} | set(EXTRA[z])
                R.must(key + ' keywords', set(a) == want, W,
                       'instantiated with keywords %s, not %s'
                       % (sorted(a), sorted(want)))
                R.must(key + ' paths', L.rep(a['paths']) == 3, W, 'paths')
                R.must(key + ' vshape', tuple(L.rep(a['vshape'])) == vshape,
                       W, 'vshape')
                R.must(key + ' rng', a['rng'] == rng, W, 'rng not passed')
                dtype = a['dtype']
                if z != 'dn':
                    R.must(key + ' dtype', getattr(dtype, 'v', 0) == dt, W,
                           'dtype not passed')
                else:
                    R.must(key + ' dtype', 'int' in repr(dtype), W,
                           'dtype of counts is not ptype')
                src = L.ip.rec(L.get(P, 'sources'))
                got = [v for k, v in src.items.values() if k.v == z]
                R.must(key + ' used', len(got) == 1 and L.cls_of(got[0]) ==
                       'my_source', W, 'instance not used as a source')
    key = 'source class of a process with factors'
    with R.context(key, W):
        L = R.lab()
        log = []
        c = L.client(HW, LOG=logger(L, log), S=L.uf('S', (4, 5, 3)))
        L.ok(c['P'], paths=L.dim(3), vshape=L.dim(4), factors=L.dim(5),
             dw=c['my_source'])
        R.must(key, len(log) == 1 and tuple(L.rep(log[0]['vshape'])) ==
               (4, 5), W, 'not instantiated with the noise shape')
    for z in ('dw', 'dn', 'dj'):
        key = 'source instance ' + z
        with R.context(key, W):
            L = R.lab()
            c = L.client(SRCDEF, LOG=L.uf('LOG'), S=L.uf('S'))
            S = L.source('Q', 3, (2,))
            P = L.ok(c['P'], paths=L.dim(3), vshape=L.dim(2), **{z: S})
            src = L.ip.rec(L.get(P, 'sources'))
            got = [v for k, v in src.items.values() if k.v == z]
            R.must(key, len(got) == 1 and got[0] is S, W,
                   'instance not used as given')
    with R.context('default sources', W):
        L = R.lab()
        c = L.client(SRCDEF, LOG=L.uf('LOG'), S=L.uf('S'))
        P = L.ok(c['P'], paths=L.dim(3), vshape=L.dim(2), dtype='float32')
        src = {k.v: v for k, v in
               L.ip.rec(L.get(P, 'sources')).items.values()}
        for z, cls in (('dw', 'wiener_source'), ('dn', 'poisson_source'),
                       ('dj', 'cpoisson_source')):
            R.must('default source %s' % z, L.cls_of(src[z]) == cls, W,
                   'source of class %s' % L.cls_of(src[z]))
            R.must('default source %s paths' % z, L.rep(
                L.get(src[z], 'paths')) == 3 and tuple(L.rep(
                    L.get(src[z], 'vshape'))) == (2,), W,
                'paths or vshape not those of the process')
        R.must('default source set', set(src) == {'dt', 'dw', 'dn', 'dj'}, W,
               'sources %s' % sorted(src))
    # parameters of default sources
    with R.context('source parameters', W):
        L = R.lab()
        c = L.client(SRCDEF, LOG=L.uf('LOG'), S=L.uf('S'))
        lam, corr = L.num('lam', 'pos'), L.arrt(tm.const(np.eye(2)))
        y = L.v(L.uf('y'))
        P = L.ok(c['P'], paths=L.dim(3), vshape=L.dim(2), lam=lam, corr=corr,
                 y=y, ptype=L.public('float') if False else Const('int64'))
        src = {k.v: v for k, v in
               L.ip.rec(L.get(P, 'sources')).items.values()}
        R.eq('lam of dn', L, L.term(L.get(src['dn'], 'lam')), X(lam.t), W,
             'intensity')
        R.eq('lam of dj', L, L.term(L.get(src['dj'], 'lam')), X(lam.t), W,
             'intensity')
        R.eq('corr of dw', L, L.term(L.get(src['dw'], 'corr')),
             tm.const(np.eye(2)), W, 'correlation')
        R.must('y of dj', L.get(src['dj'], 'y') == y, W, 'jump distribution')


def logger(L, log):
    def fn(ip, args, kw):
        log.append({k.v: v for k, v in ip.rec(args[0]).items.values()})
        return NONE
    return Host(fn, 'LOG')


# --------------------------------------------------------- accepted, rejected

DEF = '''
class my_SDE(SDE):
    %s
class P(my_SDE, integrator):
    pass
'''
OK = {
    'equal defaults': '''
    def init(self, t, out_x, x0=1., a=2.): out_x[...] = x0
    def sde(self, t, x, a=2.): return {'dt': a}''',
    'shared list default': '''
    def init(self, t, out_x, x0=1., a=[1., 2.]): out_x[...] = x0
    def sde(self, t, x, a=[1., 2.]): return {'dt': 1.}''',
    'list default': '''
    def sde(self, t, x, a=[1., 2., 3.]): return {'dt': a}''',
    'dict default': '''
    def more(self, a={}): pass
    def sde(self, t, x): return {'dt': 1.}''',
    'array default': '''
    def sde(self, t, x, a=np.array((1., 2., 3.))): return {'dt': a}''',
    'callable default': '''
    def sde(self, t, x, a=lambda t: 2*t): return {'dt': a}''',
    'default only in one method': '''
    def init(self, t, out_x, x0=1., a=2.): out_x[...] = x0
    def sde(self, t, x, b=3.): return {'dt': b}''',
    'no sources returned': '''
    def sde(self, t, x): return {}''',
    'some sources returned': '''
    def sde(self, t, x): return {'dw': 1.}''',
    'mandatory init parameter given': '''
    def init(self, t, out_x, q): out_x[...] = q
    def sde(self, t, x): return {'dw': 1.}''',
}


def accepted(R):
    for name, body in OK.items():
        key = 'accepted: ' + name
        with R.context(key, W):
            L = R.lab()
            c = L.client(DEF % body.strip())
            kw = {'q': L.num('q')} if 'given' in name else {}
            P = L.ok(c['P'], paths=L.dim(3), **kw)
            L.ok(P, L.timeline('t', (0., 1.)))
            R.good(key, W)


BAD = {
    # name: (class body, keywords, when, exceptions)
    'unexpected keyword': ('def sde(self, t, x, a=1.): return {}',
                           {'b': 1.}, 'init', 'TypeError'),
    'keyword of another process': (
        'def sde(self, t, x, a=1.): return {}', {'sigma': 1.}, 'init',
        'TypeError'),
    'keyword of an unused source': (
        'sources = {"dt"}\n    def sde(self, t, x, a=1.): return {}',
        {'rho': .5}, 'init', 'TypeError'),
    'missing sde keyword': ('def sde(self, t, x, a): return {}', {}, 'init',
                            'TypeError'),
    'missing init keyword': (
        'def init(self, t, out_x, a): pass', {}, 'init', 'TypeError'),
    'missing more keyword': (
        'def more(self, a): pass', {}, 'init', 'TypeError'),
    'missing source keyword': (
        'sources = {"dz"}\n    def source_dz(self, a): pass', {}, 'init',
        'TypeError'),
    'incompatible defaults': (
        'def sde(self, t, x, a=1.): return {}\n'
        '    def init(self, t, out_x, a=2.): pass', {}, 'init', 'TypeError'),
    'incompatible defaults, given': (
        'def sde(self, t, x, a=1.): return {}\n'
        '    def init(self, t, out_x, a=2.): pass', {'a': 3.}, 'init',
        'TypeError'),
    'default and no default': (
        'def sde(self, t, x, a): return {}\n'
        '    def more(self, a=2.): pass', {'a': 3.}, 'init', 'TypeError'),
    'incompatible list defaults': (
        'def sde(self, t, x, a=[1., 2.]): return {}\n'
        '    def init(self, t, out_x, a=[1., 3.]): pass', {}, 'init',
        'TypeError'),
    'incompatible defaults of two sources': (
        'sources = {"dy", "dz"}\n    def source_dy(self, a=1): pass\n'
        '    def source_dz(self, a=2): pass', {}, 'init', 'TypeError'),
    'unknown source': (
        'sources = {"dt", "dz"}\n    def sde(self, t, x): return {}', {},
        'init', 'ValueError'),
    'unknown method': ('def sde(self, t, x): return {}',
                       {'method': 'heun'}, 'init', 'ValueError'),
    'values that are no dict': (
        'def sde(self, t, x): return [1., 2.]', {}, 'call', 'TypeError'),
    'a number': ('def sde(self, t, x): return 1.', {}, 'call', 'TypeError'),
    'a pair of dicts': ('def sde(self, t, x): return {"dt": 1}, {"dt": 2}',
                        {}, 'call', 'TypeError'),
    'None': ('def sde(self, t, x): pass', {}, 'call', 'TypeError'),
    'an undeclared source': (
        'def sde(self, t, x): return {"dt": 1., "dn": 1.}', {}, 'call',
        'KeyError'),
    'only an undeclared source': (
        'def sde(self, t, x): return {"dj": 1.}', {}, 'call', 'KeyError'),
}
NOINT = '''
class P(SDE):
    def sde(self, t, x): return {}
'''
MRO = '''
class P(integrator, SDE):
    def sde(self, t, x): return {}
'''
MRO2 = '''
class my_int(integrator): pass
class P(my_int, wiener_SDE): pass
'''


# four methods may name the same parameter: defaults must all agree
PLACES = {
    'init': 'def init(self, t, out_x%s): pass',
    'sde': 'def sde(self, t, x%s): return {}',
    'more': 'def more(self%s): pass',
    'source_dy': 'def source_dy(self%s): pass',
    'source_dz': 'def source_dz(self%s): pass',
}


def several(R):
    for n in (2, 3, 4, 5):
        for names in itertools.combinations(PLACES, n):
            for odd in (None,) + names:
                for given in (False, True):
                    agree(R, names, odd, given)


def agree(R, names, odd, given):
    key = 'default in %s: %s%s' % (
        ', '.join(names), 'different in ' + odd if odd else 'equal',
        ', value given' if given else '')
    with R.context(key, W):
        L = R.lab()
        body = ['sources = {%s}' % ', '.join(
            repr(n[7:]) for n in ('source_dy', 'source_dz') if n in names)
            if any(n.startswith('source') for n in names)
            else 'sources = {"dt"}']
        for n in PLACES:
            if n in names or n == 'sde':
                body.append(PLACES[n] % (
                    '' if n not in names else
                    ', a=%s' % (2. if n == odd else 1.)))
        c = L.client(DEF % '\n    '.join(body))
        out = L.call(c['P'], paths=L.dim(3), **(
            {'a': 3.} if given else {}))
        if odd:
            R.rejects(key, L, out, W, 'a parameter with two defaults',
                      ['TypeError'])
        else:
            R.accepts(key, L, out, W, 'a parameter with equal defaults',
                      explore=False)


def rejected(R):
    several(R)
    for name, (body, kw, when, exc) in BAD.items():
        key = 'rejected: ' + name
        with R.context(key, W):
            L = R.lab()
            c = L.client(DEF % body)
            if when == 'init':
                R.rejects(key, L, L.call(c['P'], paths=L.dim(3), **kw), W,
                          name, [exc])
            else:
                P = L.ok(c['P'], paths=L.dim(3), **kw)
                R.rejects(key, L, L.call(P, L.timeline('t', (0., 1.))), W,
                          'sde returning ' + name, [exc])
    for name, src in (('SDE without integrator', NOINT),
                      ('integrator before SDE', MRO),
                      ('subclassed integrator before SDE', MRO2)):
        key = 'rejected: ' + name
        with R.context(key, W):
            L = R.lab()
            c = L.client(src)
            R.rejects(key, L, L.call(c['P'], paths=L.dim(3)), W, name,
                      ['TypeError'])
