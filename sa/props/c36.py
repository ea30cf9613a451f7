"""Arithmetic of processes."""
import itertools
import numpy as np
from ..lab import *
from .. import terms as tm
from .c29 import alias
from .c33 import live

META = {
    'title': 'Ufuncs on processes keep times, values and paths apart',
    'statement':
    'An operator or numpy ufunc applied to a process, to processes sharing '
    'the same timeline, to a process and a constant one, or to a process and '
    'an array or scalar, in any order, returns a process whose values are '
    'those of the operation on the arrays of values and whose timeline is '
    'that of the non constant process, by reference. If two non constant '
    'processes have different timelines, or values shapes or paths that '
    'broadcasting would mix (different rank, or different sizes neither of '
    'which is 1), or if a process has no timeline, ValueError is raised. In '
    'place operations act on the process itself. No operand is otherwise '
    'altered.',
    'over': ['inputs'],
    'quant': 'all processes, operands, operators and operand orders',
    'why': 'Compatibility depends on the combination of timelines and '
           'shapes; tests sample a few pairs.',
    'files': ['infrastructure.py'],
    'mech': [('__array_prepare__, __array_wrap__, __array_finalize__, '
              '_is_compatible', 'sdepy/infrastructure.py class process')],
    'technique': 'abstract interpretation of client expressions under '
                 "numpy's array wrapping protocol; value numbers, aliases "
                 'and exits',
    'note': 'Decided on an enumerated family of operators and operand '
            'shapes, for all values; the wrapping protocol is the one of the '
            'numpy installed.',
}
W = 'sdepy/infrastructure.py process.__array_wrap__'
T3 = (.2, .7, 1.1)
OPS = {
    'add': ('{a} + {b}', lambda a, b: a + b),
    'sub': ('{a} - {b}', lambda a, b: a - b),
    'mul': ('{a}*{b}', lambda a, b: a * b),
    'div': ('{a}/{b}', lambda a, b: a / b),
    'pow': ('{a}**{b}', lambda a, b: a ** b),
    'np.subtract': ('np.subtract({a}, {b})', lambda a, b: a - b),
    'np.maximum': ('np.maximum({a}, {b})', lambda a, b: NPX.maximum(a, b)),
    'less': ('{a} < {b}', lambda a, b: a < b),
    'ge': ('{a} >= {b}', lambda a, b: a >= b),
}
UNARY = {
    'neg': ('-p', lambda a: -a), 'exp': ('np.exp(p)', lambda a: NPX.exp(a)),
    'sqrt': ('np.sqrt(p)', lambda a: NPX.sqrt(a)),
    'log': ('np.log(p)', lambda a: NPX.log(a)),
    'sin': ('np.sin(p)', lambda a: NPX.sin(a)),
}


def check(R):
    R.explanation = (
        'Expressions of user code on unknown processes and arrays are '
        'analysed under the array wrapping protocol; values, timelines and '
        'exits are compared with the specification.')
    R.rule = 'one obligation per (operator, operands, order) and attribute'
    R.floor = 300
    for op in OPS:
        for vshape in ((), (2,), (3, 2)):
            for other in ('same timeline', 'equal timeline', 'itself',
                          'constant', 'one path', 'unit values', 'scalar',
                          'float', 'array', 'numpy scalar', 'row'):
                if other == 'unit values' and vshape == ():
                    continue
                for rev in (False, True):
                    key = '%s %s%s vshape=%s' % (
                        op, other, ' first' if rev else '', vshape)
                    with R.context(key, W):
                        binary(R, key, op, vshape, other, rev)
    for name in UNARY:
        for vshape in ((), (2,)):
            for n in (1, 3):
                key = '%s vshape=%s times=%d' % (name, vshape, n)
                with R.context(key, W):
                    unary(R, key, name, vshape, n)
    for op in OPS:
        for n in (1, 2):
            with R.context('%s constant and %d times' % (op, n), W):
                short(R, '%s constant and %d times' % (op, n), op, n)
    for what in ('timelines', 'near timelines', 'times', 'rank', 'values', 'paths',
                 'no timeline', 'rank, equal sizes', 'rank, unit sizes'):
        for op in ('add', 'np.maximum', 'less', 'div'):
            for rev in (False, True):
                key = '%s different %s%s' % (op, what,
                                             ' reversed' if rev else '')
                with R.context(key, W):
                    incompatible(R, key, op, what, rev)
    for src in ('p += q', 'p *= 2.', 'p -= a', 'np.exp(p, out=p)',
                'np.add(p, q, out=p)'):
        with R.context('in place ' + src, W):
            inplace(R, 'in place ' + src, src)
    for src in ('np.clip({a}, {b}, {c})', '{a}.clip({b}, {c})',
                'np.clip({a}, {b}, {c}, out={o})'):
        for kinds in itertools.product(('process', 'constant', 'number',
                                        'array'), repeat=3):
            if kinds[0] not in ('process', 'constant') and (
                    src[0] == '{' or not set(kinds) & {
                        'process', 'constant'}):
                continue
            for vshape in ((), (2,)):
                key = '%s of %s vshape=%s' % (src, '/'.join(kinds), vshape)
                with R.context(key, W):
                    ternary(R, key, src, kinds, vshape)
    constants(R)
    subclass(R)


def ternary(R, key, src, kinds, vshape):
    """A function of three operands, as clip."""
    L = R.lab()
    t = L.timeline('t', T3)
    vs = [{'process': lambda: L.process(n, t, (3,) + vshape + (4,), 'pos'),
           'constant': lambda: L.process(n, (5.,), (1,) + vshape + (4,),
                                         'pos'),
           'number': lambda: L.num(n, 'pos'),
           'array': lambda: L.arr(n, (4,), 'pos')}[k]()
          for n, k in zip('abc', kinds)]
    ts = [X(L.term(v)) for v in vs]
    n = 3 if 'process' in kinds else 1
    o = L.lent(L.process('o', t if n == 3 else (5.,), (n,) + vshape + (4,)))
    r = L.client('import numpy as np\nr = ' + src.format(
        a='a', b='b', c='c', o='o'), o=o, **dict(zip('abc', vs)))['r']
    R.must(key + ' type', L.cls_of(r) == 'process', W,
           'result is a %s' % L.cls_of(r))
    R.eq(key, L, L.term(r), NPX.minimum(NPX.maximum(ts[0], ts[1]), ts[2]), W,
         'values')
    R.must(key + ' t', np.size(L.rep(L.get(r, 't'))) == n, W, 'timeline')
    if n == 3:
        R.eq(key + ' times', L, L.term(L.get(r, 't')), L.term(t), W,
             'timeline')
    for i, (v, z) in enumerate(zip(vs, ts)):
        R.eq('%s operand %d' % (key, i), L, L.term(v), z, W,
             'operand after the operation')


def binary(R, key, op, vshape, other, rev):
    L = R.lab()
    src, f = OPS[op]
    full = (3,) + vshape + (4,)
    t = L.timeline('t', T3)
    p = L.process('p', t, full, 'pos')
    isproc = True
    if other == 'same timeline':
        q = L.process('q', t, full, 'pos')
    elif other == 'equal timeline':
        q = live(L.call(L.public('process'),
                        live(L.meth(t, 'copy')), x=L.arr('q.x', full,
                                                         'pos')))
    elif other == 'itself':
        q = p
    elif other == 'constant':
        q = L.process('q', (5.,), (1,) + vshape + (4,), 'pos')
    elif other == 'one path':
        q = L.process('q', t, (3,) + vshape + (1,), 'pos')
    elif other == 'unit values':
        q = L.process('q', t, (3,) + (1,) * len(vshape) + (4,), 'pos')
    else:
        isproc = False
        q = {'scalar': lambda: L.num('q', 'pos'),
             'numpy scalar': lambda: L.num('q', 'pos'),
             'float': lambda: L.v(2.5),
             'array': lambda: L.arr('q', full, 'pos'),
             'row': lambda: L.arr('q', (4,), 'pos')}[other]()
    z, y = X(L.term(p)), X(L.term(q))
    a, b = ('q', 'p') if rev else ('p', 'q')
    r = L.client('r = ' + src.format(a=a, b=b), p=p, q=q)['r']
    R.must(key + ' type', L.cls_of(r) == 'process', W,
           'result is a %s' % L.cls_of(r))
    want = f(y, z) if rev else f(z, y)
    R.eq(key, L, L.term(r), want, W, 'values')
    rt = L.get(r, 't')
    R.eq(key + ' t', L, L.term(rt), L.term(t), W, 'timeline')
    R.must(key + ' t is shared', alias(L, rt, t) or isproc and
           alias(L, rt, L.get(q, 't')), W, 'timeline is copied')
    R.eq(key + ' operand', L, L.term(p), z, W, 'operand after the operation')
    R.eq(key + ' other operand', L, L.term(q), y, W,
         'operand after the operation')


def short(R, key, op, n):
    L = R.lab()
    t = L.timeline('t', T3[:n])
    p = L.process('p', t, (n, 2, 4), 'pos')
    q = L.process('q', (5.,), (1, 2, 4), 'pos')
    src, f = OPS[op]
    for a, b in (('p', 'q'), ('q', 'p')):
        r = L.client('r = ' + src.format(a=a, b=b), p=p, q=q)['r']
        z = [X(L.term({'p': p, 'q': q}[i])) for i in (a, b)]
        R.eq('%s %s first' % (key, a), L, L.term(r), f(*z), W, 'values')
        R.must('%s %s first t' % (key, a), alias(L, L.get(r, 't'), t) or
               n == 1, W, 'timeline is not that of the process')


def unary(R, key, name, vshape, n):
    L = R.lab()
    src, f = UNARY[name]
    t = L.timeline('t', T3[:n])
    p = L.process('p', t, (n,) + vshape + (4,), 'pos')
    z = X(L.term(p))
    r = L.client('r = ' + src, p=p)['r']
    R.must(key + ' type', L.cls_of(r) == 'process', W,
           'result is a %s' % L.cls_of(r))
    R.eq(key, L, L.term(r), f(z), W, 'values')
    R.must(key + ' t', alias(L, L.get(r, 't'), t), W,
           'timeline is not that of the process')


def incompatible(R, key, op, what, rev):
    L = R.lab()
    src = OPS[op][0]
    t = L.timeline('t', T3)
    p = L.process('p', t, (3, 2, 4), 'pos')
    if what == 'timelines':
        q = L.process('q', (.2, .7, 1.3), (3, 2, 4), 'pos')
    elif what == 'near timelines':
        # a rounding apart
        p, q = (L.process(n, L.v(np.array(w)), (3, 2, 4), 'pos')
                for n, w in (('p', (0., .7, 1.)),
                             ('q', (0., .7, np.nextafter(1., 2)))))
    elif what == 'times':
        q = L.process('q', (.2, .7), (2, 2, 4), 'pos')
    elif what == 'rank':
        q = L.process('q', t, (3, 4), 'pos')
    elif what == 'values':
        q = L.process('q', t, (3, 3, 4), 'pos')
    elif what == 'paths':
        q = L.process('q', t, (3, 2, 3), 'pos')
    elif what == 'rank, equal sizes':
        p = L.process('p', t, (3, 3, 3), 'pos')
        q = L.process('q', t, (3, 3), 'pos')
    elif what == 'rank, unit sizes':
        p = L.process('p', t, (3, 3, 4), 'pos')
        q = L.process('q', t, (3, 1), 'pos')
    else:
        q = L.client('q = p.reshape(6, 4)', p=L.process(
            'q', t, (3, 2, 4)))['q']
        p = L.process('r', (.3,), (1, 4))
    z = X(L.term(p))
    a, b = ('q', 'p') if rev else ('p', 'q')
    try:
        L.client('r = ' + src.format(a=a, b=b), p=p, q=q)
        R.bad(key, W, 'operation accepted')
    except Rejected as e:
        if L.ip.opaques[len(L._base[5]):]:
            R.unknown(key, L.ip.opaques[-1])
        else:
            R.must(key, set(e.out.excs) <= {'ValueError'}, W,
                   'raises %s' % e.out.excs)


def inplace(R, key, src):
    L = R.lab()
    t = L.timeline('t', T3)
    x = L.arr('x', (3, 2, 4), 'pos')
    p = live(L.call(L.public('process'), t, x=x))
    q = L.process('q', t, (3, 2, 4), 'pos')
    a = L.arr('a', (3, 2, 4), 'pos')
    z, y, w = (X(L.term(i)) for i in (p, q, a))
    want = {'p += q': z + y, 'p *= 2.': z * 2., 'p -= a': z - w,
            'np.exp(p, out=p)': NPX.exp(z),
            'np.add(p, q, out=p)': z + y}[src]
    r = L.client(src, p=p, q=q, a=a)['p']
    R.must(key + ' type', L.cls_of(r) == 'process', W,
           'result is a %s' % L.cls_of(r))
    R.eq(key, L, L.term(r), want, W, 'values')
    R.eq(key + ' data', L, L.term(x), want, W, 'data of the process')
    R.must(key + ' t', alias(L, L.get(r, 't'), t), W, 'timeline')


def constants(R):
    """Constant processes of different times are compatible."""
    for op in ('add', 'less'):
        with R.context('%s constants' % op, W):
            L = R.lab()
            p = L.process('p', (.2,), (1, 2, 4))
            q = L.process('q', (.9,), (1, 2, 4))
            src, f = OPS[op]
            r = L.client('r = ' + src.format(a='p', b='q'), p=p, q=q)['r']
            R.must('%s constants type' % op, L.cls_of(r) == 'process', W,
                   'result is a %s' % L.cls_of(r))
            R.eq('%s constants' % op, L, L.term(r),
                 f(X(L.term(p)), X(L.term(q))), W, 'values')
            R.must('%s constants t' % op,
                   L.rep(L.get(r, 't')).shape == (1,), W, 'timeline')


def subclass(R):
    with R.context('views and slices', W):
        L = R.lab()
        t = L.timeline('t', T3)
        p = L.process('p', t, (3, 2, 4))
        q = L.process('q', t, (3, 2, 4))
        z, y = X(L.term(p)), X(L.term(q))
        ns = L.client('''
a = p['t', 1:]*q['t', 1:]
b = p['v', 0] + q['v', 1]
c = p['p', 0]*q
d = p.x + q
e = p.x + q.x
f = p[0] - q[0]
''', p=p, q=q)
        for k, want, proc in (
                ('a', z[1:] * y[1:], True), ('b', z[:, 0] + y[:, 1], True),
                ('c', z[..., :1] * y, True), ('d', z + y, True),
                ('e', z + y, False), ('f', z[0] - y[0], False)):
            R.eq('views and slices ' + k, L, L.term(ns[k]), want, W,
                 'values')
            R.must('views and slices type ' + k,
                   (L.cls_of(ns[k]) == 'process') == proc, W,
                   'type of the result')
