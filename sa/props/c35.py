"""Copies and reshaping of processes."""
import numpy as np
from ..lab import *
from .. import terms as tm
from .c29 import alias
from .c33 import live

META = {
    'title': 'Copies share what they declare; shapeas adds or removes unit '
             'axes',
    'statement':
    'pcopy copies timeline and values, xcopy values only and tcopy timeline '
    'only, sharing the other; the copy equals the process, and writing to a '
    'copied part of either never affects the other. Arguments are passed to '
    'numpy.ndarray.copy. shapeas(vshape or process) returns a process on the '
    'same data and timeline whose values have as many axes as the target, '
    'adding or removing unit axes on the left, and raises ValueError if an '
    'axis to remove is not unit. Subclasses are kept, and the process itself '
    'is not altered.',
    'over': ['inputs'],
    'quant': 'all processes, values shapes and targets',
    'why': 'An alias between arrays shows only if one is later written to.',
    'files': ['infrastructure.py'],
    'mech': [('pcopy, xcopy, tcopy, shapeas',
              'sdepy/infrastructure.py class process')],
    'technique': 'abstract interpretation; alias relations and value numbers',
    'note': 'Decided per rank, for all values.',
}
W = 'sdepy/infrastructure.py process.'
COPY = {'pcopy': (True, True), 'xcopy': (False, True),
        'tcopy': (True, False)}


def check(R):
    R.explanation = (
        'Copies and reshaped views of unknown processes are analysed; arrays '
        'are shared or not as specified, and values follow writes '
        'accordingly.')
    R.rule = 'one obligation per (method, values shape) and relation'
    R.floor = 100
    for name in COPY:
        for vshape in ((), (2,), (3, 2)):
            for n in (1, 3):
                for arg in ('', "order='F'"):
                    key = '%s(%s) vshape=%s times=%d' % (name, arg, vshape,
                                                         n)
                    with R.context(key, W + name):
                        copies(R, key, name, vshape, n, arg)
    for a in ((), (1,), (3,), (1, 3), (2, 3), (1, 1, 3), (1, 2, 3), (1, 1)):
        for b in ((), (3,), (2, 3), (4, 2, 3), (1,), (5,)):
            for how in ('tuple', 'process', 'list', 'every other path',
                        'every other value', 'reversed'):
                key = 'shapeas %s to %s by %s' % (a, b, how)
                with R.context(key, W + 'shapeas'):
                    reshape(R, key, a, b, how)


PARTS = {
    'every other path': lambda a: (
        (2,) + a + (6,), (Ellipsis, slice(None, None, 2))),
    'every other value': lambda a: (
        (2,) + tuple(n*2 for n in a) + (3,),
        (slice(None),) + tuple(slice(0, None, 2) for n in a)),
    'reversed': lambda a: (
        (2,) + a + (3,), (slice(None),) + tuple(slice(None, None, -1)
                                                for n in a)),
}
SRC = '''
class my(process):
    pass
p = my(t, x=x)
q = p.%s(%s)
qt, qx = q.t, q.x
'''


def copies(R, key, name, vshape, n, arg):
    w = W + name
    tc, xc = COPY[name]

    def start(more=''):
        L = R.lab()
        x = L.arr('x', (n,) + vshape + (2,))
        t = L.timeline('t', (.2, .7, 1.1)[:n])
        ns = L.client(SRC % (name, arg) + more, t=t, x=x, v=L.num('v'))
        return L, ns, t, x
    L, ns, t, x = start()
    q = ns['q']
    R.must(key + ' type', L.cls_of(q) == 'my', w,
           'copy of type %s' % L.cls_of(q))
    R.eq(key + ' values', L, L.term(q), L.term(x), w, 'values of the copy')
    R.eq(key + ' t', L, L.term(ns['qt']), L.term(t), w,
         'timeline of the copy')
    R.must(key + ' timeline shared', alias(L, ns['qt'], t) != tc, w,
           'timeline is %sshared' % ('' if tc else 'not '))
    R.must(key + ' values shared', alias(L, ns['qx'], x) != xc, w,
           'values are %sshared' % ('' if xc else 'not '))
    for who, src in (('copy', 'q'), ('process', 'p')):
        L, ns, t, x = start('%s.x[...] = v\n%s.t[...] = v\n' % (src, src))
        tt = leaf('t', (n,), 'f8', 'ord', np.array((.2, .7, 1.1)[:n]))
        xx = leaf('x', (n,) + vshape + (2,), 'f8', 'real')
        v = NPX.broadcast_to(leaf('v', (), 'f8', 'real'),
                             (n,) + vshape + (2,))
        other = 'p' if src == 'q' else 'q'
        R.eq('%s after writing values of the %s' % (key, who), L,
             L.term(ns[other]), xx if xc else v, w, 'values of the other')
        R.eq('%s after writing timeline of the %s' % (key, who), L,
             L.term(L.get(ns[other], 't')),
             tt if tc else NPX.broadcast_to(
                 leaf('v', (), 'f8', 'real'), (n,)), w,
             'timeline of the other')


def reshape(R, key, a, b, how):
    w = W + 'shapeas'
    L = R.lab()
    sh = (2,) + a + (3,)
    if how in PARTS:
        # process on part of the data
        wide, idx = PARTS[how](a)
        x = L.item(L.arr('x', wide), idx).value
        p = live(L.call(L.public('process'), L.timeline('t', (.2, .7)), x=x))
    else:
        p = L.process('p', (.2, .7), sh)
    if how == 'process':
        target = L.process('o', (.1, .4, .8), (3,) + b + (2,))
    elif how == 'list':
        target = L.v([L.dim(i) for i in b])
    else:
        target = L.v(tuple(L.dim(i) for i in b))
    z, t = X(L.term(p)), X(L.term(L.get(p, 't')))
    k = len(a) - len(b)
    if k > 0 and set(a[:k]) != {1}:
        R.rejects(key, L, L.meth(p, 'shapeas', target), w,
                  'removing a non unit axis', {'ValueError'})
        return
    new = a[k:] if k > 0 else (1,) * -k + a
    q = live(L.meth(p, 'shapeas', target))
    R.must(key + ' type', L.cls_of(q) == 'process', w, 'not a process')
    R.eq(key, L, L.term(q), z.reshape((2,) + new + (3,)), w, 'values')
    R.eq(key + ' t', L, L.term(L.get(q, 't')), t, w, 'timeline')
    R.must(key + ' shared', alias(L, q, p), w, 'data is copied')
    R.must(key + ' vshape of the process', tuple(
        int(i) for i in L.rep(L.get(p, 'vshape'))) == a, w,
        'the process itself is reshaped')
