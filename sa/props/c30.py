"""Process indexing."""
import numpy as np
from ..lab import *

META = {
    'title': 'Process indexing selects times, values or paths',
    'statement':
    "p[i] is numpy indexing of the values, returning an array. p['t', i], "
    "p['v', i, ...] and p['p', i] return processes: with p.t[i] and the "
    'values at those times, with the same timeline and values x[:, i, ..., :], '
    'or with the same timeline and paths x[..., i]. An integer time or path '
    'index, of any integer type and negative too, keeps its axis as a slice '
    'of one, and slices, lists, arrays and boolean masks are accepted, as are '
    'multi-indexes of values given as a tuple or in sequence. Index modes '
    'other than t, v and p raise IndexError, and writing through a slice of '
    'a process writes to the process.',
    'over': ['inputs'],
    'quant': 'all processes and index expressions',
    'why': 'Tests sample a few indexes of one process.',
    'files': ['infrastructure.py'],
    'mech': [('process.__getitem__', 'sdepy/infrastructure.py '
              'class process')],
    'technique': 'abstract interpretation of client indexing expressions; '
                 'value numbers, shapes and alias relations',
    'note': 'Decided on an enumerated family of index expressions and '
            'values shapes, for all values and timelines.',
}
W = 'sdepy/infrastructure.py process.__getitem__'

# index expressions along an axis of 4: (source, numpy index keeping axes)
AXIS = {
    'int': ('1', np.s_[1:2]), 'zero': ('0', np.s_[0:1]),
    'last': ('-1', np.s_[3:4]), 'negative': ('-2', np.s_[2:3]),
    'first from the end': ('-4', np.s_[0:1]), 'max': ('3', np.s_[3:4]),
    'numpy int': ('np.int64(2)', np.s_[2:3]),
    'numpy int32': ('np.int32(-1)', np.s_[3:4]),
    'numpy unsigned': ('np.uint8(1)', np.s_[1:2]),
    'slice': ('slice(1, 3)', np.s_[1:3]),
    'open slice': ('slice(2, None)', np.s_[2:]),
    'stride': ('slice(None, None, 2)', np.s_[::2]),
    'head': ('slice(None, -1)', np.s_[:-1]),
    'list': ('[2, 0]', np.s_[[2, 0]]),
    'repeated': ('[1, 1, 3, -1]', np.s_[[1, 1, 3, -1]]),
    'array': ('np.array([0, 3])', np.s_[[0, 3]]),
    'mask': ('np.array([True, False, True, True])', np.s_[[0, 2, 3]]),
}
VALS = {
    # vshape, source, numpy index of the values axes
    'int': ((3,), '1', (1,)), 'negative': ((3,), '-1', (-1,)),
    'slice': ((3,), 'slice(1, None)', (np.s_[1:],)),
    'list': ((3,), '[2, 0]', ([2, 0],)),
    'newaxis': ((), 'None', (None,)),
    'newaxis right': ((3,), 'slice(None), None', (np.s_[:], None)),
    'newaxis left': ((3,), 'None, slice(None)', (None, np.s_[:])),
    'pair': ((3, 2), '1, 0', (1, 0)),
    'tuple': ((3, 2), '(1, 0)', (1, 0)),
    'first': ((3, 2), '1', (1,)),
    'second': ((3, 2), 'slice(None), 1', (np.s_[:], 1)),
    'second tuple': ((3, 2), '(slice(None), 1)', (np.s_[:], 1)),
    'ellipsis': ((3, 2), 'Ellipsis, 1', (Ellipsis, 1)),
    'ellipsis tuple': ((3, 2), '(Ellipsis, 1)', (Ellipsis, 1)),
    'numpy int': ((3, 2), 'np.int64(1), np.int64(0)', (1, 0)),
    'ones': ((1, 1), '0, 0', (0, 0)),
}
PLAIN = {
    'int': ('0', 0), 'negative': ('-1', -1), 'slice': ('1:3', np.s_[1:3]),
    'pair': ('1, 2', (1, 2)), 'all': ('...', Ellipsis),
    'tail': ('..., 0', (Ellipsis, 0)), 'list': ('[0, 2]', [0, 2]),
    'triple': ('0, 1, 2', (0, 1, 2)), 'newaxis': ('None', None),
    'colon': (':, 1:, -1', (np.s_[:], np.s_[1:], -1)),
    'empty': ('()', ()),
}


def check(R):
    R.explanation = (
        'Indexing expressions of user code on an unknown process are '
        'analysed; values, timelines, classes and aliases of the results are '
        'compared with the specification.')
    R.rule = 'one obligation per (index mode, expression, values shape)'
    R.floor = 250
    for vshape in ((), (3,), (3, 2)):
        for name, (src, idx) in AXIS.items():
            for mode in 'tp':
                with R.context("p['%s', %s] vshape=%s" % (mode, name, vshape),
                               W):
                    axis(R, "p['%s', %s] vshape=%s" % (mode, name, vshape),
                         mode, src, idx, vshape)
        for mode in 'tpv':
            with R.context("p['%s'] vshape=%s" % (mode, vshape), W):
                whole(R, mode, vshape)
    for name, (vshape, src, idx) in VALS.items():
        with R.context("p['v', %s]" % name, W):
            values(R, "p['v', %s]" % name, src, idx, vshape)
    for name, (src, idx) in PLAIN.items():
        with R.context('p[%s]' % src, W):
            plain(R, 'p[%s]' % src, src, idx)
    for src in ("'x', 1", "'', 1", "'T', 0", "'time'", "'vp', 0"):
        with R.context('p[%s]' % src, W):
            L = R.lab()
            p = L.process('p', (.2, .7), (2, 3))
            try:
                L.client('y = p[%s]' % src, p=p)
                R.bad('p[%s]' % src, W, 'unknown index mode is accepted')
            except Rejected as e:
                R.must('p[%s]' % src, set(e.out.excs) == {'IndexError'}, W,
                       'raises %s' % e.out.excs)
    writes(R)
    subclass(R)


def setup(R, src, vshape, T=4):
    L = R.lab()
    reps = (.2, .7, 1.1, 2.)[:T]
    p = L.process('p', reps, (T,) + vshape + (4,))
    ns = L.client('y = p[%s]' % src, p=p)
    return L, p, ns['y'], X(L.term(p)), X(L.term(L.get(p, 't')))


def spec(z, idx, lead):
    i = (slice(None),) * lead if lead is not None else (Ellipsis,)
    idx = list(idx) if isinstance(idx, list) else idx
    if isinstance(idx, list):
        return X(mk('getitem', z.t, tuple(
            [Sl(None, None, None)] * lead if lead is not None
            else [Ellipsis]) + (NPX.array(idx).t,)))
    return z[i + (idx,)]


def axis(R, key, mode, src, idx, vshape):
    L, p, y, z, t = setup(R, "'%s', %s" % (mode, src), vshape)
    R.must(key + ' type', L.cls_of(y) == 'process', W,
           'result is a %s' % L.cls_of(y))
    want = spec(z, idx, 0 if mode == 't' else None)
    R.eq(key + ' values', L, L.term(y), want, W, 'values selected')
    R.eq(key + ' t', L, L.term(L.get(y, 't')),
         spec(t, idx, 0) if mode == 't' else t, W, 'timeline selected')


def whole(R, mode, vshape):
    key = "p['%s'] vshape=%s" % (mode, vshape)
    L, p, y, z, t = setup(R, "'%s'" % mode, vshape)
    R.must(key + ' type', L.cls_of(y) == 'process', W, 'not a process')
    R.eq(key, L, L.term(y), z, W, 'values selected')
    R.eq(key + ' t', L, L.term(L.get(y, 't')), t, W, 'timeline selected')


def values(R, key, src, idx, vshape):
    L, p, y, z, t = setup(R, "'v', " + src, vshape)
    R.must(key + ' type', L.cls_of(y) == 'process', W,
           'result is a %s' % L.cls_of(y))
    if any(isinstance(i, list) for i in idx):
        want = NPX.take(z, NPX.array(idx[0]), axis=1)
    else:
        want = z[(slice(None),) + idx + (slice(None),)]
    R.eq(key + ' values', L, L.term(y), want, W, 'values selected')
    R.eq(key + ' t', L, L.term(L.get(y, 't')), t, W, 'timeline')


def plain(R, key, src, idx):
    L, p, y, z, t = setup(R, src, (3,))
    R.must(key + ' type', L.cls_of(y) != 'process', W,
           'plain indexing returns a process')
    want = NPX.take(z, NPX.array(idx), axis=0) if isinstance(idx, list) \
        else z[idx]
    R.eq(key, L, L.term(y), want, W, 'value selected')


def writes(R):
    for src, tgt in (("p['t', 1:3]", (slice(1, 3),)),
                     ("p['p', 2]", (Ellipsis, slice(2, 3))),
                     ("p['t', -1]", (slice(3, 4),)),
                     ("p['v', 1]", (slice(None), 1)),
                     ("p['v', 1:]", (slice(None), slice(1, None))),
                     ("p[0]", (0,)), ("p[..., 1]", (Ellipsis, 1)),
                     ("p", (Ellipsis,))):
        key = 'writing to ' + src
        with R.context(key, W):
            L = R.lab()
            p = L.process('p', (.2, .7, 1.1, 2.), (4, 3, 4))
            v = L.num('v')
            z = X(L.term(p))
            L.client('y = %s\ny[...] = v' % src, p=p, v=v)
            want = X(mk('setitem', z.t, (), tuple(
                Sl(i.start, i.stop, i.step) if isinstance(i, slice) else i
                for i in tgt), v.t))
            R.eq(key, L, L.term(p), want, W, 'values after writing')


def subclass(R):
    """Subclasses of process are preserved."""
    with R.context('subclass', W):
        L = R.lab()
        ns = L.client('''
class my(process):
    pass
p = my(t, x=x)
a, b, c = p['t', 1], p['v', 0], p['p', 1:]
''', t=L.timeline('t', (.2, .7)), x=L.arr('x', (2, 3, 4)))
        for k in 'abc':
            R.must('subclass ' + k, L.cls_of(ns[k]) == 'my', W,
                   'class of the result is %s' % L.cls_of(ns[k]))
