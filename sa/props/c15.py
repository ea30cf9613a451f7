"""Steps of path generation."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .. import sde

META = {
    'title': 'Path generation steps exactly through timeline and requested steps',
    'statement':
    'Starting from the initial point, path generation advances strictly in '
    'order through the union of the timeline and of the requested steps '
    '(None, a number of equally spaced points, or any sequence of times) '
    'that fall within it, each once, and stores at every timeline point the '
    'state reached at that very time; steps outside the timeline are ignored. '
    'An algorithm of any depth may take intermediate steps of its own; one '
    'that does not advance, or that goes beyond the requested point, is '
    'stopped with an exception. The step counts in info match the steps '
    'taken.',
    'over': ['inputs', 'configurations', 'histories'],
    'quant': 'all timelines, all forms and positions of requested steps, all '
             'depths and step choices of user-defined algorithms',
    'why': 'A test observes the final values for some timeline and steps; '
           'skipped, duplicated or misplaced steps change them within '
           'discretization error, and coincidences of steps with timeline '
           'points are rarely exercised.',
    'files': ['integration.py'],
    'mech': [('paths_generator.pace, paths_generator._generate_paths',
              'sdepy/integration.py'),
             ('paths_generator._store_if_reached', 'sdepy/integration.py')],
    'technique': 'abstract interpretation recording the sequence of steps '
                 'and states as value numbers',
    'note': 'Decided for every value of the times in each enumerated order '
            'type (relative positions of timeline and steps), timelines of 1 '
            'to 4 points, depths 2 and 3.',
}
W = 'sdepy/integration.py paths_generator'

GEN = '''
class G(paths_generator):
    depth = %d
    n = 0
    def begin(self):
        iv = self.itervars
        for k in range(self.depth - 1):
            iv['xw'][k][...] = I(iv['sw'][k])
    def next(self):
        iv = self.itervars
        sw, xw = iv['sw'], iv['xw']
        self.n += 1
        %s
        STEP(sw[-2], sw[-1])
        xw[-1][...] = %s
    def store(self, i, k):
        iv = self.itervars
        STORE(iv['tt'][i], iv['sw'][k])
        iv['xx'][i][...] = S(iv['sw'][k], iv['xw'][k])
'''
F2 = 'F(sw[0], sw[1], xw[0])'
F3 = 'F(sw[0], sw[1], sw[2], xw[0], xw[1])'

LINES = {'1 point': (.4,), '2 points': (0., 1.), '4 points': (-.5, .1, .7, 1.5)}
STEPS = {'none': None, 'inner': (-.2, .3, .5, 1.2),
         'inner and outer': (-2., -.5, .3, .9, 1.7),
         'unsorted, repeated, coinciding': (.9, .7, -.2, .9, .1),
         'all outside': (-3., 4.)}
INTS = (1, 2, 3, 5)
# times a rounding apart, on several scales
_up = np.nextafter
EXACT = {'adjacent points': ((0., .5, _up(.5, 1), 1.), None),
         'adjacent steps': ((-1., .5, 1.), (_up(.5, 0), _up(1., 0), -.5)),
         'adjacent large points': ((-1e9, 1e9, _up(1e9, 2e9)),
                                   (_up(1e9, 0), 0., 1.)),
         'tiny points': ((-1e-13, 0., 1e-300, 1e-13, 1.),
                         (-1e-300, 2e-13, 1e-9)),
         'steps just outside': ((0., .5, 1.), (_up(1., 2), -1e-300, 1 + 1e-10,
                                               -1e-10, 1e-300, _up(1., 0)))}


def gen(L, depth=2, tweak='pass'):
    ufs = dict(I=L.uf('I', ()), F=L.uf('F', ()), S=L.uf('S', ()),
               STEP=L.uf('STEP', (), 'raw'), STORE=L.uf('STORE', (), 'raw'))
    return L.client(GEN % (depth, tweak, F2 if depth == 2 else F3), **ufs)


def steps_of(L, line, spec, form='array'):
    if spec is None:
        return None, None
    if isinstance(spec, int):
        return L.dim(spec), sde.linsteps(line, spec)
    if form == 'array':
        a = L.timeline('s', spec)
        return a, sde.points(L, a)
    ts = [L.time('s%d' % k, r) for k, r in enumerate(spec)]
    return (ts if form == 'list' else tuple(ts)), \
        [(X(t.t), r) for t, r in zip(ts, spec)]


def check(R):
    R.explanation = (
        'A path generator with uninterpreted step, store and initial '
        'functions is analysed on symbolic timelines and steps, in every '
        'enumerated relative order; the recorded sequence of steps and '
        'stores and the stored value numbers must be those specified.')
    R.rule = ('one obligation per (timeline, steps, depth) and aspect: '
              'steps taken, stores made, stored values, counts, rejections')
    R.floor = 40
    for ln, reps in LINES.items():
        for sn, spec in list(STEPS.items()) + [('%d steps' % n, n)
                                               for n in INTS]:
            for depth in (2, 3):
                key = 'timeline of %s, steps %s, depth %d' % (ln, sn, depth)
                with R.context(key, W):
                    run(R, key, reps, spec, depth)
    for name in EXACT:
        for i0 in (0, -1):
            key = '%s, i0=%d' % (name, i0)
            with R.context(key, W):
                exact(R, key, i0, *EXACT[name])
    for form in FORMS:
        for i0 in (0, 1, -1):
            key = 'steps as %s, i0=%d' % (form, i0)
            with R.context(key, W):
                forms(R, key, i0, *FORMS[form])
    for form in ('list', 'tuple'):
        key = 'steps given as ' + form
        with R.context(key, W):
            run(R, key, LINES['4 points'], STEPS['inner and outer'], 2, form)
    intermediate(R)
    invalid(R)


def run(R, key, reps, spec, depth, form='array'):
    L = R.lab()
    c = gen(L, depth)
    tt = L.timeline('t', reps)
    line = sde.points(L, tt)
    arg, pts = steps_of(L, line, spec, form)
    g = sde.grid(line, pts)
    info = L.lent(L.v({}))
    G = L.ok(c['G'], paths=L.dim(3), steps=arg, info=info)
    out = L.call(G, tt)
    if len(g) < depth - 1:
        return R.rejects(key, L, out, W, 'a timeline too short for the depth')
    if not out.live:
        raise Rejected(out)
    tt_, xx = L.ip.seq(out.value)
    compare(R, key, L, g, line, depth, xx)
    n = max(0, len(g) - depth + 1)
    d = L.ip.rec(info).items
    got = {}
    for k, v in d.values():
        if getattr(k, 'v', None) in ('computed_steps', 'stored_steps'):
            got[k.v] = L.rep(v)
    stored = len([p for p in line if sde.index(g, p[1]) >= depth - 1])
    R.must(key + ' counts', got == {'computed_steps': n,
                                    'stored_steps': stored}, W,
           'info reports %s for %d steps and %d stored' % (got, n, stored))


# further ways to give steps, and the steps meant
FORMS = dict(
    {'numpy %s' % t.__name__: (t(5), (0., .5, 1., 1.5, 2.)) for t in (
        np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint64)},
    **{'array of %s' % np.dtype(t): (np.array((3, 1, 1, 0), t), (0., 1.))
       for t in ('i8', 'i4', 'u1', 'f4', 'f8', '>f8')},
    **{'range': ('range(-1, 4)', (0., 1., 2.)),
       'generator': ('(k/4 for k in range(4))', (0., .25, .5, .75)),
       'iterator': ('iter([.5, 1.5, 7])', (.5, 1.5)),
       'map': ('map(float, [1, 0])', (0., 1.)),
       'set': ('{.5, 1.5}', (.5, 1.5)), 'keys': ('{.5: 0}.keys()', (.5,)),
       'zero': ('0', ()), 'empty list': ('[]', ()),
       'empty tuple': ('()', ()), 'mixed list': ('[1, .5, True]', (.5, 1.)),
       'empty array': (np.zeros(0), ())})


def forms(R, key, i0, arg, steps):
    def given(L):
        if isinstance(arg, str):
            return L.client('s = ' + arg)['s']
        return L.v(arg)
    exact(R, key, i0, (0., .7, 2.), steps, given)


def exact(R, key, i0, reps, steps, given=None):
    L = R.lab()
    c = gen(L, 2)
    tt = L.v(np.array(reps))
    G = L.ok(c['G'], paths=L.dim(3), i0=i0,
             steps=None if steps is None else
             given(L) if given else L.v(np.array(steps)))
    tt_, xx = L.ip.seq(L.ok(G, tt))
    g = [(tm.const(t), t) for t in sorted(set(reps + (steps or ())))
         if reps[0] <= t <= reps[-1]]
    if i0 == -1:
        g = g[::-1]
    k = [t for _, t in g].index(reps[i0])
    back, g = g[k::-1], g[k:]
    want = [(a[0], b[0]) for w in (back, g) for a, b in zip(w, w[1:])]
    seq(R, key + ' steps', L, [e.info['terms'] for e in sde.calls(L, 'STEP')],
        want, 'steps taken')
    x = {g[0][1]: sde.ufx('I', (), g[0][0])}
    for w in (back, g):
        for a, b in zip(w, w[1:]):
            x[b[1]] = sde.ufx('F', (), a[0], b[0], x[a[1]])
    vals = [sde.ufx('S', (), tm.const(t), x[t]) for t in reps]
    R.eq(key + ' values', L, L.term(xx), NPX.broadcast_to(NPX.reshape(
        sde.stack(vals), (len(reps), 1)), (len(reps), 3)), W,
        'stored values')


def compare(R, key, L, g, line, depth, xx):
    want = [(g[j][0], g[j + 1][0]) for j in range(depth - 2, len(g) - 1)]
    got = [e.info['terms'] for e in sde.calls(L, 'STEP')]
    seq(R, key + ' steps', L, got, want, 'steps taken')
    want = [(t, t) for t, r in line]
    got = [e.info['terms'] for e in sde.calls(L, 'STORE')]
    seq(R, key + ' stores', L, got, want, 'points stored')
    x = [sde.ufx('I', (), g[j][0]) + 0 * NPX.zeros((3,))
         for j in range(min(depth - 1, len(g)))]
    for j in range(depth - 1, len(g)):
        if depth == 2:
            x.append(sde.ufx('F', (), g[j - 1][0], g[j][0], x[-1]))
        else:
            x.append(sde.ufx('F', (), g[j - 2][0], g[j - 1][0], g[j][0],
                             x[-2], x[-1]))
    vals = [sde.ufx('S', (), t, x[sde.index(g, r)]) for t, r in line]
    R.eq(key + ' values', L, L.term(xx), NPX.broadcast_to(
        sde.stack(vals), (len(line), 3)), W, 'stored values')


def seq(R, key, L, got, want, what):
    if len(got) != len(want):
        return R.bad(key, W, '%s: %d, specified %d' % (what, len(got),
                                                       len(want)))
    if not want:
        return R.good(key, W)
    flat = [t for g in got for t in g]
    R.eq(key, L, sde.stack([X(t) for t in flat]).t,
         sde.stack([t for w in want for t in w]), W, what)


def intermediate(R):
    """Algorithms taking a further step before the requested one."""
    for reverse in (False, True):
        key = 'intermediate steps' + (' backward' if reverse else '')
        with R.context(key, W):
            L = R.lab()
            c = gen(L, 2, 'sw[-1] = sw[-1] if self.n != 2 else '
                    '(sw[-2] + sw[-1])/2')
            tt = L.timeline('t', (0., .4, 1., 1.8))
            line = sde.points(L, tt)
            G = L.ok(c['G'], paths=L.dim(3), i0=-1 if reverse else 0)
            tt_, xx = L.ip.seq(L.ok(G, tt))
            p = [t for t, r in line]
            if reverse:
                p = p[::-1]
            m = (p[1] + p[2]) / 2
            walk = [p[0], p[1], m, p[2], p[3]]
            want = [(a, b) for a, b in zip(walk, walk[1:])]
            got = [e.info['terms'] for e in sde.calls(L, 'STEP')]
            seq(R, key + ' steps', L, got, want, 'steps taken')
            x = [sde.ufx('I', (), p[0])]
            for a, b in zip(walk, walk[1:]):
                x.append(sde.ufx('F', (), a, b, x[-1]))
            vals = [sde.ufx('S', (), a, b) for a, b in
                    zip(p, [x[0], x[1], x[3], x[4]])]
            if reverse:
                vals = vals[::-1]
            R.eq(key + ' values', L, L.term(xx), NPX.broadcast_to(NPX.reshape(
                sde.stack(vals), (4, 1)), (4, 3)), W, 'stored values')


def invalid(R):
    for i0 in (0, -1):
        for name, tweak in (
                ('beyond the requested point',
                 'sw[-1] = sw[-1] + (sw[-1] - sw[-2])'),
                ('not advancing', 'sw[-1] = sw[-2]'),
                ('going back', 'sw[-1] = sw[-2] - (sw[-1] - sw[-2])'),
                ('not a number', 'sw[-1] = float("nan")')):
            key = 'step %s, i0=%d' % (name, i0)
            with R.context(key, W):
                L = R.lab()
                c = gen(L, 2, tweak)
                tt = L.timeline('t', (0., .4, 1., 1.8))
                G = L.ok(c['G'], paths=L.dim(3), i0=i0)
                R.rejects(key, L, L.call(G, tt), W, 'a step ' + name)
    for depth in (0, 1):
        key = 'depth %d' % depth
        with R.context(key, W):
            L = R.lab()
            c = gen(L, depth)
            G = L.ok(c['G'], paths=L.dim(3))
            R.rejects(key, L, L.call(G, L.timeline('t', (0., .4))), W,
                      'an algorithm of ' + key)
