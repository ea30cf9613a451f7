"""Models of external calls: builtins, inspect, numpy, scipy, random."""
import ast
import itertools
import bisect as _bisect
import inspect
import numpy as np
from .values import *
from .terms import (T, mk, leaf, const, draw, AInt, LInt, Sl, Lst, Dct,
                    TermError, REP, resolve)
from . import terms as tm
from .models import (NP_VIEWS, DRAWS, GLOBAL_STATE, KINDS, CANON, _dim)

MUTATING_NP = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal',
               'put_along_axis'}
GEN = 'numpy.random.Generator'


def call_ext(m, path, args, kw):
    ip = m.ip
    path = CANON.get(path, path)
    f = TABLE.get(path)
    if f is not None:
        if path in OF_SEQ and args and isinstance(args[0], Phi):
            a = args[0]
            return ip.fork(a.c, lambda: call_ext(m, path, [a.a] + args[1:],
                                                 kw),
                           lambda: call_ext(m, path, [a.b] + args[1:], kw))
        return ip.prim(lambda: f(m, list(args), dict(kw)))
    if any(isinstance(a, Phi) for a in args) or \
       any(isinstance(a, Phi) for a in kw.values()):
        return split_phi(m, lambda a, k: call_ext(m, path, a, k), args, kw)
    top = path.split('.')[0]
    if path in GLOBAL_STATE:
        if path.startswith('warnings.') and \
           'catching' in ip.rec(ip.gstate).attrs:
            return NONE
        ip.event('global_state', name=path)
        return NONE
    if path.startswith('numpy.random.'):
        name = path.split('.')[-1]
        if name in DRAWS:
            return ip.prim(lambda: rng_draw(m, Ext('GLOBAL'), name, args, kw))
        if name == 'default_rng' or name in ('Generator', 'RandomState'):
            return new_gen(m, args, kw)
        return ip.opaque('numpy.random.' + name)
    if top == 'numpy':
        return ip.prim(lambda: np_call(m, path, args, kw))
    if path.startswith('scipy.stats.'):
        return ip.prim(lambda: stats_call(m, path, args, kw))
    if top in ('scipy', 'math', 'operator', 'bisect'):
        return ip.prim(lambda: pure(m, path, args, kw))
    exc = ip._pyexc(path)
    if exc is not None and not issubclass(exc, type(None)):
        return ExcV(path.split('.')[-1], tuple(args), ip.site())
    if path.startswith('builtins.'):
        p = path.split('.')
        if len(p) == 3 and args and p[1] in (
                'dict', 'list', 'set', 'frozenset', 'str', 'tuple'):
            f = ip.getattr(args[0], p[2], None)
            if f is not None:
                return ip.call(f, list(args[1:]), kw)
        try:
            return ip.prim(lambda: pure(m, path, args, kw))
        except TypeError:
            pass
    if top in ('time', 'os', 'datetime', 'random', 'secrets', 'uuid'):
        ip.event('ambient', name=path)
    ip.event('call_ext', name=path)
    return ip.opaque('call of ' + path)


OF_SEQ = {'builtins.' + x for x in (
    'sum', 'any', 'all', 'list', 'tuple', 'set', 'frozenset', 'sorted',
    'enumerate', 'reversed', 'zip', 'iter', 'len')}


def split_phi(m, fn, args, kw):
    ip = m.ip
    for i, a in enumerate(args):
        if isinstance(a, Phi):
            def sub(x):
                return split_phi(m, fn, args[:i] + [x] + args[i + 1:], kw)
            return ip.fork(a.c, lambda: sub(a.a), lambda: sub(a.b))
    for k, a in kw.items():
        if isinstance(a, Phi):
            def subk(x):
                return split_phi(m, fn, args, {**kw, k: x})
            return ip.fork(a.c, lambda: subk(a.a), lambda: subk(a.b))
    return fn(args, kw)


def pure(m, path, args, kw):
    ip = m.ip
    m.maybe_raise()
    for a in list(args) + list(kw.values()):
        if isinstance(a, Ref) and isinstance(ip.rec(a), (Inst, ClsObj, FnObj)):
            ip.event('call_ext', name=path)
            return ip.opaque('call of %s on an object' % path)
        if isinstance(a, (Host, BoundM)):
            ip.event('call_ext', name=path)
            return ip.opaque('call of %s on a callable' % path)
    out = kw.pop('out', None) if 'out' in kw else None
    t = mk('call', path, tuple(m.arg(a) for a in args), m.kwargs(kw))
    return m.finish(t, out)


# --------------------------------------------------------------------- numpy

def np_call(m, path, args, kw):
    ip = m.ip
    name = path[len('numpy.'):]
    try:
        obj = resolve(path)
    except Exception:
        ip.event('call_ext', name=path)
        return ip.opaque('call of ' + path)
    if isinstance(obj, type) and issubclass(obj, BaseException):
        return ExcV(name, tuple(args), ip.site())
    if isinstance(obj, np.ufunc):
        ins = args[:obj.nin]
        outs = args[obj.nin:]
        kw = dict(kw)
        out = kw.pop('out', outs[0] if outs else None)
        kwargs = dict(m.kwargs(kw))
        where = kwargs.pop('where', None)
        t = mk('call', path, tuple(m.arg(a) for a in ins),
               tuple(sorted(kwargs.items())))
        if where is not None:
            base = m.arg(out) if out is not None and out != NONE else \
                leaf('uninitialised', (), 'f8', 'opaque')
            t = mk('call', 'numpy.where', (where, t, base), ())
        return m.ufunc_call(obj.__name__, ins, t, out)
    if name.count('.') == 1 and name.endswith('.at'):
        tgt = args[0]
        op = {'add': '+', 'subtract': '-', 'multiply': '*'}.get(
            name.split('.')[0])
        t = mk('host', 'ufunc.at', _ufat, (
            name.split('.')[0], ip.read(tgt), m.index(args[1])) + tuple(
                m.arg(a) for a in args[2:]))
        ip.write(tgt, t)
        return NONE
    if name in MUTATING_NP:
        if name == 'copyto':
            tgt = args[0]
            v = m.term(args[1])
            to = np.asarray(ip.read(tgt).rep).dtype
            frm = np.asarray(v.rep).dtype
            if frm != to and frm.kind != 'O' and to.kind != 'O':
                how = m.arg(kw['casting']) if 'casting' in kw else 'same_kind'
                if not np.can_cast(frm, to, how):
                    ip.throw('TypeError', 'Cannot cast according to the rule')
                v = mk('cast', to, v)
            if 'where' in kw:
                v = mk('call', 'numpy.where', (m.arg(kw['where']), v,
                                               ip.read(tgt)), ())
            ip.write(tgt, v)
            return NONE
        t = mk('host', 'np.' + name, _npmut, (name,) + tuple(
            m.arg(a) for a in args))
        ip.write(args[0], t)
        return NONE
    if name in SPLITS and args and m.isarr(args[0]):
        r = np_split(m, name, args, kw)
        if r is not None:
            return r
    if name.startswith('atleast_') and len(args) > 1:
        return Tup(np_call(m, path, [a], {}) for a in args)
    if name == 'nan_to_num' and 'copy' in kw and m.isarr(args[0]) and \
       ip.truth(kw['copy']) is False:
        ip.write(args[0], mk('call', path, (ip.read(args[0]),), m.kwargs(
            {k: v for k, v in kw.items() if k != 'copy'})))
        return args[0]
    if name in NP_VIEWS and args and m.isarr(args[0]):
        if name == 'broadcast_to' and kw.get('subok') is not None:
            kw = {k: v for k, v in kw.items() if k != 'subok'}
        op = ('np.' + name, tuple(m.arg(a) for a in args[1:]), m.kwargs(kw))
        if isinstance(ip.rec(args[0]).cls, Ref) and name in (
                'reshape', 'swapaxes', 'transpose', 'squeeze'):
            return m.finalize(m.view(args[0], op, cls=ip.rec(args[0]).cls),
                              args[0])
        return m.view(args[0], op, ro=(name == 'broadcast_to'))
    if any(m.isoarr(a) for a in args):
        return oarr_np(m, name, args, kw)
    return pure(m, path, args, kw)


SPLITS = {'split': None, 'array_split': None, 'hsplit': 1, 'vsplit': 0,
          'dsplit': 2, 'unstack': None}


def np_split(m, name, args, kw):
    """Views of the parts of an array."""
    ip = m.ip
    try:
        shape = np.shape(ip.read(args[0]).rep)
        axis = kw.get('axis', args[2] if len(args) > 2 else None)
        axis = 0 if axis is None else m.static(axis)
        if name == 'unstack':
            bounds = None
        else:
            if SPLITS[name] is not None:
                axis = min(SPLITS[name], max(len(shape) - 1, 0))
            sec = m.static(args[1] if len(args) > 1
                           else kw['indices_or_sections'])
    except (ValueError, KeyError):
        return None
    if not -len(shape) <= axis < len(shape):
        ip.throw('ValueError', 'axis out of bounds')
    axis %= len(shape)
    n = int(shape[axis])

    def part(i):
        return ip.getitem(args[0], Tup(
            [SliceV(NONE, NONE, NONE)] * axis + [i]))
    if name == 'unstack':
        return Tup(part(Const(i)) for i in range(n))
    try:
        parts = np.array_split(np.arange(n), sec)
    except ValueError:
        ip.throw('ValueError', 'sections')
    if np.ndim(sec) == 0 and name != 'array_split' and n % int(sec):
        ip.throw('ValueError', 'array split does not result in an equal '
                 'division')
    if np.ndim(sec):
        cuts = [int(c) for c in sec]
        edges = list(zip([0] + cuts, cuts + [n]))
    else:
        sizes = np.cumsum([0] + [len(q) for q in parts])
        edges = list(zip(sizes[:-1], sizes[1:]))
    return ip.alloc(LObj([part(SliceV(Const(int(i)), Const(int(j)), NONE))
                          for i, j in edges]))


def _ufat(v, name, base, *a):
    b = np.array(base)
    getattr(np, name).at(b, *a)
    return b


def _npmut(v, name, base, *a):
    b = np.array(base)
    getattr(np, name)(b, *a)
    return b




def oarr_np(m, name, args, kw):
    ip = m.ip
    r = ip.rec(args[0]) if isinstance(args[0], Ref) else None
    if isinstance(r, OArr) and name in ('roll', 'flip', 'ravel', 'reshape',
                                        'copy', 'take'):
        try:
            a = [m.static(x) for x in args[1:]]
            k = {q: m.static(x) for q, x in kw.items()}
        except ValueError:
            return ip.opaque('np.%s of an object array' % name)
        idx = getattr(np, name)(r.index, *a, **k)
        items = ip.rec(r.store).items
        new = m.new_oarr(idx.shape)
        ip.put(ip.rec(new).store, LObj([items[int(i)] for i in idx.ravel()]))
        return new
    if name in ('empty_like', 'zeros_like', 'ones_like', 'full_like'):
        return m.new_oarr(r.shape)
    if name in ('shape', 'ndim', 'size'):
        return m.oarr_attr(args[0], r, name)
    return ip.opaque('np.%s of an object array' % name)


def is_object_dtype(m, d):
    try:
        return d is not None and np.dtype(m.arg(d)) == np.dtype(object)
    except Exception:
        return False


def shape_of(m, v):
    s = m.static(v)
    return (int(s),) if np.ndim(s) == 0 else tuple(int(n) for n in s)


def np_creator(name):
    def f(m, args, kw):
        ip = m.ip
        dt = kw.get('dtype')
        fillpos = 1 if name == 'full' else None
        pos = {'empty': 1, 'zeros': 1, 'ones': 1, 'full': 2}[name]
        if dt is None and len(args) > pos:
            dt = args[pos]
        shape = args[0] if args else kw['shape']
        if isinstance(shape, Phi) or isinstance(dt, Phi):
            return split_phi(m, lambda a, k: f(m, a, k), args, kw)
        if is_object_dtype(m, dt):
            try:
                sh = shape_of(m, shape)
            except ValueError:
                return ip.opaque('object array of unknown shape')
            fill = NONE
            if name == 'zeros':
                fill = Const(0)
            elif name == 'full':
                fill = args[1] if len(args) > 1 else kw['fill_value']
            return m.new_oarr(sh, fill)
        sh = m.arg(shape)
        d = m.arg(dt) if dt is not None else None
        if isinstance(d, T):
            return ip.opaque('array of unknown dtype')
        if name == 'empty':
            dd = np.dtype(float if d is None else d)
            fill = float('nan') if dd.kind in 'fc' else (
                True if dd.kind == 'b' else -77 if dd.kind == 'i' else 99)
            t = mk('call', 'numpy.full', (sh, fill, dd), ())
            return m.wrap(t)
        if name == 'full':
            fv = m.arg(args[1] if len(args) > 1 else kw['fill_value'])
            return m.wrap(mk('call', 'numpy.full', (sh, fv, d), ()))
        return m.wrap(mk('call', 'numpy.' + name, (sh,) if d is None
                         else (sh, d), ()))
    return f


def np_like(name):
    def f(m, args, kw):
        ip = m.ip
        if m.isoarr(args[0]):
            return m.new_oarr(ip.rec(args[0]).shape)
        t = m.term(args[0])
        if name == 'empty_like':
            d = kw.get('dtype')
            d = np.dtype(m.arg(d)) if d is not None else t.rep.dtype
            sh = m.arg(kw['shape']) if 'shape' in kw else tuple(t.rep.shape)
            return m.wrap(mk('call', 'numpy.full', (
                sh, float('nan') if d.kind in 'fc' else -77 if d.kind == 'i'
                else 99, d), ()))
        return m.wrap(mk('call', 'numpy.' + name, tuple(
            m.arg(a) for a in [Num(t)] + args[1:]), m.kwargs(kw)))
    return f


def np_clip(m, args, kw):
    kw = dict(kw)
    names = ('a', 'a_min', 'a_max', 'out')
    v = dict(zip(names, args))
    v.update((k, kw.pop(k)) for k in names if k in kw)
    if kw or 'a' not in v:
        return pure(m, 'numpy.clip', args, kw)
    lo, hi = (None if v.get(k, NONE) == NONE or isinstance(v[k], Const) and
              v[k].v is None else v[k] for k in ('a_min', 'a_max'))
    a, out = v['a'], v.get('out')
    if lo is None and hi is None:
        m.ip.throw('ValueError', 'one of max or min must be given')
    if lo is None or hi is None:
        name, b = ('minimum', hi) if lo is None else ('maximum', lo)
        return np_call(m, 'numpy.' + name, [a, b], {'out': out}
                       if out is not None else {})
    return m.ufunc_call('clip', [a, lo, hi], mk('call', 'numpy.clip', tuple(
        m.arg(x) for x in (a, lo, hi)), ()), out)


def np_ascontiguous(m, args, kw):
    ip = m.ip
    v = np_asarray(False)(m, args, kw)
    if isinstance(v, Ref) and isinstance(ip.rec(v), Arr):
        if not m.contiguous(v):
            return ip.arr(ip.read(v))
        if ip.read(v).rep.ndim == 0:
            return m.view(v, ('reshape', (1,), ()))
    return v


def np_asarray(copy, subok=False):
    def f(m, args, kw):
        ip = m.ip
        kw = dict(kw)
        x = args[0]
        dt = args[1] if len(args) > 1 else kw.pop('dtype', None)
        cp = copy
        if copy and 'copy' in kw:
            c = ip.truth(kw.pop('copy'))
            cp = c is not False
        ndmin = kw.pop('ndmin', None)
        kw.pop('order', None)
        so = kw.pop('subok', None)
        so = subok or (so is not None and ip.truth(so) is True)
        if isinstance(x, Phi) or isinstance(dt, Phi):
            return split_phi(m, lambda a, k: f(m, a, k), args,
                             {**kw, **({} if dt is None or len(args) > 1
                                       else {'dtype': dt})})
        if isinstance(x, Opaque):
            return x
        d = None
        if dt is not None and dt != NONE and not (
                isinstance(dt, Const) and dt.v is None):
            d = m.arg(dt)
            if isinstance(d, T):
                return ip.opaque('unknown dtype')
            d = np.dtype(d)
        if isinstance(x, Ref):
            r = ip.rec(x)
            if isinstance(r, OArr):
                if d is not None and d != np.dtype(object):
                    return m.wrap(mk('call', 'numpy.array', (
                        m.arg(x), d), ()))
                return call_ext(m, 'numpy.copy', [x], {}) if cp else x
            if isinstance(r, Arr):
                t = ip.read(x)
                if not cp and (d is None or d == t.rep.dtype) and \
                   ndmin is None:
                    if r.cls is None or so:
                        return x
                    return m.view(x, None)
                if d is not None and d != t.rep.dtype:
                    t = mk('cast', d, t)
                new = ip.arr(t)
                if ndmin is not None:
                    new = m.wrap(mk('call', 'numpy.array', (t,),
                                    (('ndmin', m.arg(ndmin)),)))
                if so and r.cls is not None:
                    ip.put(new, ip.rec(new).but(cls=r.cls))
                    m.finalize(new, x)
                return new
            if isinstance(r, (LObj, It)):
                s = m.seq(x)
                if s is not None and _has_objects(m, s) or \
                   is_object_dtype(m, dt):
                    return _oarr_from(m, s)
            if isinstance(r, Inst):
                g = ip.getattr(x, '__array__', None)
                if g is not None:
                    return ip.call(g, [], {})
                return m.new_oarr((), x)
            if isinstance(r, (FnObj, ClsObj, DObj, SObj)):
                return m.new_oarr((), x)
        if isinstance(x, (Host, BoundM, Ext)):
            return m.new_oarr((), x)
        if isinstance(x, Tup) and (_has_objects(m, x.items) or
                                   is_object_dtype(m, dt)):
            return _oarr_from(m, list(x.items))
        if isinstance(x, Const) and (x.v is None or d == np.dtype(object)):
            return m.new_oarr((), x)
        a = m.arg(x)
        t = mk('call', 'numpy.array', (a,) if d is None else (a, d),
               () if ndmin is None else (('ndmin', m.arg(ndmin)),))
        return m.wrap(t)
    return f


def _has_objects(m, items):
    for x in items:
        if isinstance(x, (Host, BoundM)) or (
                isinstance(x, Const) and x.v is None):
            return True
        if isinstance(x, Ref) and isinstance(
                m.ip.rec(x), (Inst, FnObj, ClsObj, DObj)):
            return True
        if isinstance(x, Tup) and _has_objects(m, x.items):
            return True
    return False


def _oarr_from(m, s):
    new = m.new_oarr((len(s),))
    m.ip.put(m.ip.rec(new).store, LObj(s))
    return new


def np_broadcast_arrays(m, args, kw):
    ip = m.ip
    if any(isinstance(a, Phi) for a in args):
        return split_phi(m, lambda a, k: np_broadcast_arrays(m, a, k),
                         args, kw)
    kw.pop('subok', None)
    arrs = [a if m.isarr(a) else np_asarray(False)(m, [a], {})
            for a in args]
    if any(not m.isarr(a) for a in arrs):
        return ip.opaque('broadcast of unknown') if any(
            isinstance(a, Opaque) for a in arrs) else \
            Tup([ip.opaque('broadcast of objects') for a in arrs])
    try:
        shape = np.broadcast_shapes(*[np.shape(ip.read(a).rep)
                                      for a in arrs])
    except ValueError:
        ip.throw('ValueError', 'shape mismatch')
    op = ('broadcast', (tuple(int(n) for n in shape),), ())
    return ip.alloc(LObj([
        m.view(a, op) if np.shape(ip.read(a).rep) != shape or
        ip.rec(a).cls is not None else m.view(a, None) for a in arrs]))


def np_broadcast(m, args, kw):
    ip = m.ip
    shapes = []
    for a in args:
        t = m.term(a)
        if t.opaque:
            return ip.opaque('broadcast')
        shapes.append(np.shape(t.rep))
    try:
        sh = np.broadcast_shapes(*shapes)
    except ValueError:
        ip.throw('ValueError', 'shape mismatch')
    return ip.alloc(Inst(Ext('numpy.broadcast'), {
        'shape': Tup([Const(_dim(n)) for n in sh]), 'nd': Const(len(sh)),
        'ndim': Const(len(sh)), 'size': Const(_dim(np.prod(sh, dtype=int)))}))


def np_ndindex(m, args, kw):
    ip = m.ip
    try:
        sh = [m.static(a) for a in args]
    except ValueError:
        return ip.opaque('ndindex of unknown shape')
    if len(sh) == 1 and isinstance(sh[0], tuple):
        sh = sh[0]
    return ip.alloc(It([Tup(Const(int(i)) for i in x)
                        for x in np.ndindex(*[int(n) for n in sh])]))


def np_ndenumerate(m, args, kw):
    ip = m.ip
    a = args[0]
    if isinstance(a, Phi):
        return split_phi(m, lambda a, k: np_ndenumerate(m, a, k), args, kw)
    if not m.isarr(a):
        try:
            a = m.wrap(mk('call', 'numpy.array', (m.arg(a),), ()))
        except ValueError:
            pass
    if not m.isarr(a):
        return ip.opaque('ndenumerate of objects')
    return ip.alloc(It([Tup([Tup([Const(int(i)) for i in x]), ip.getitem(
        a, Tup([Const(int(i)) for i in x]))])
        for x in np.ndindex(*np.shape(ip.read(a).rep))]))


def np_isscalar(m, args, kw):
    x = args[0]
    if isinstance(x, Opaque):
        return m.ip.opaque('isscalar')
    if isinstance(x, Phi):
        return split_phi(m, lambda a, k: np_isscalar(m, a, k), args, kw)
    return Const(isinstance(x, Num) or (isinstance(x, Const) and np.isscalar(
        x.v)))


def np_fromiter(m, args, kw):
    ip = m.ip
    s = m.seq(args[0])
    if s is None:
        try:
            v = m.static(args[0])
        except ValueError:
            return ip.opaque('fromiter')
        if np.ndim(v) == 0 and not hasattr(v, '__iter__'):
            return ip.throw('TypeError', 'object is not iterable')
        return ip.opaque('fromiter')
    dt = kw.get('dtype', args[1] if len(args) > 1 else None)
    return m.wrap(mk('call', 'numpy.array', (
        Lst(m.arg(x) for x in s), np.dtype(m.arg(dt))), ()))


def np_finfo(m, args, kw):
    try:
        return Const(np.finfo(m.static(args[0])))
    except ValueError:
        return m.ip.opaque('finfo')


def np_diff(m, args, kw):
    """np.diff slices its argument: a plain array for program subclasses."""
    return pure(m, 'numpy.diff', args, kw)


ERRS = ('divide', 'over', 'under', 'invalid')


def errs(ip):
    v = ip.rec(ip.gstate).attrs['errstate']
    while isinstance(v, Phi):
        d = ip.decide(v.c)
        v = v.a if d in (True, None) else v.b
    return v


def settled(fn):
    """Fork first if the settings were altered on some paths."""
    def run(m, *args):
        v = m.ip.rec(m.ip.gstate).attrs['errstate']
        while isinstance(v, Phi):
            d = m.ip.decide(v.c)
            if d is None:
                return m.ip.fork(v.c, lambda: run(m, *args),
                                 lambda: run(m, *args))
            v = v.a if d else v.b
        return fn(m, *args)
    return run


def err_settings(m, args, kw):
    """Settings of numpy error handling, after those given."""
    ip = m.ip
    now = dict(zip(ERRS, errs(ip).v))
    kw = {**dict(zip(('all',) + ERRS, args)), **kw}
    for k in ('all',) + ERRS:
        v = kw.get(k, NONE)
        if isinstance(v, Const) and v.v is None:
            continue
        v = v.v if isinstance(v, Const) else 'set@' + ip.site()
        for x in ERRS if k == 'all' else (k,):
            now[x] = v
    return Const(tuple(now[k] for k in ERRS))


@settled
def np_seterr(m, args, kw):
    old = np_geterr(m, [], {})
    if kw or args:
        m.set_global('errstate', err_settings(m, args, kw))
    return old


@settled
def np_geterr(m, args, kw):
    ip = m.ip
    return ip.alloc(DObj({
        ip.key(Const(k)): (Const(k), Const(v)) for k, v in
        zip(ERRS, errs(ip).v)}))


def np_errstate(m, args, kw):
    return m.ip.alloc(Inst(Ext('errstate'), {}, (list(args), dict(kw))))


def np_dtype(m, args, kw):
    try:
        return Const(np.dtype(m.arg(args[0])))
    except TypeError:
        return m.ip.opaque('dtype')


def np_vectorize(m, args, kw):
    f = args[0]

    def call(ip, a, k):
        ts = np_broadcast_arrays(m, a, {})
        arrs = ip.rec(ts).items
        shape = np.shape(ip.read(arrs[0]).rep)
        out = np_creator('empty')(m, [Tup(Const(n) for n in shape)], {})
        for i in np.ndindex(*shape):
            idx = Tup(Const(j) for j in i)
            ip.setitem(out, idx, ip.call(
                f, [ip.getitem(x, idx) for x in arrs], dict(k)))
        return out
    return Host(call, 'vectorized')


# -------------------------------------------------------------------- random

def new_gen(m, args, kw):
    ip = m.ip
    ip.event('rng_create', args=args)
    return ip.alloc(Inst(Ext(GEN), {}, 'gen%d@%s' % (len(ip.events),
                                                    ip.site())))


def _opt(args, kw, i, name, default):
    if name in kw:
        return kw[name]
    return args[i] if len(args) > i else default


def new_draw(m, gen, dist, params, size, name):
    ip = m.ip
    ip.ndraw += 1
    t = draw(ip.ndraw, dist, params, size)
    ip.event('draw', gen=gen, dist=dist, params=params, size=size, term=t,
             name=name)
    return t


def rng_draw(m, gen, name, args, kw):
    """A random draw; normalised to standard laws."""
    ip = m.ip
    if any(isinstance(a, Phi) for a in list(args) + list(kw.values())):
        return split_phi(m, lambda a, k: rng_draw(m, gen, name, a, k),
                         args, kw)
    if name == 'randn' or name == 'rand':
        size = tuple(m.arg(a) for a in args)
        args, kw = [], {'size': Const(None)}
        t = new_draw(m, gen, 'N' if name == 'randn' else 'U', (), size, name)
        return m.wrap(t)
    pos = {'normal': 2, 'standard_normal': 0, 'multivariate_normal': 2,
           'poisson': 1, 'binomial': 2, 'uniform': 2, 'random': 0,
           'random_sample': 0, 'exponential': 1,
           'standard_exponential': 0}.get(name)
    size = m.arg(_opt(args, kw, pos, 'size', NONE)) if pos is not None \
        else None

    def p(i, n, default):
        return m.arg(_opt(args, kw, i, n, Const(default)))

    def sh(size, *ps):
        if size is not None:
            return size
        return tuple(int(n) for n in np.broadcast_shapes(
            *[np.shape(REP.ev(q)) for q in ps]))

    def affine(dist, loc, scale):
        t = new_draw(m, gen, dist, (), sh(size, loc, scale), name)
        if not (isinstance(scale, (int, float)) and scale == 1):
            t = mk('bin', '*', scale, t)
        if not (isinstance(loc, (int, float)) and loc == 0):
            t = mk('bin', '+', loc, t)
        return m.wrap(t)
    try:
        if name == 'normal':
            return affine('N', p(0, 'loc', 0.), p(1, 'scale', 1.))
        if name == 'standard_normal':
            return affine('N', 0., 1.)
        if name == 'uniform':
            lo, hi = p(0, 'low', 0.), p(1, 'high', 1.)
            return affine('U', lo, mk('bin', '-', hi, lo) if isinstance(
                lo, T) or isinstance(hi, T) else hi - lo)
        if name in ('random', 'random_sample'):
            return affine('U', 0., 1.)
        if name == 'exponential':
            return affine('E', 0., p(0, 'scale', 1.))
        if name == 'standard_exponential':
            return affine('E', 0., 1.)
        if name == 'poisson':
            lam = p(0, 'lam', 1.)
            return m.wrap(new_draw(m, gen, 'poisson', (lam,),
                                   sh(size, lam), name))
        if name == 'binomial':
            n, q = p(0, 'n', 1), p(1, 'p', .5)
            return m.wrap(new_draw(m, gen, 'binomial', (n, q),
                                   sh(size, n, q), name))
        if name == 'multivariate_normal':
            mean, cov = p(0, 'mean', 0.), p(1, 'cov', 1.)
            M = int(np.shape(REP.ev(mean))[0])
            c = REP.ev(cov)
            if np.shape(c) != (M, M):
                ip.throw('ValueError', 'mean and cov must have same length')
            s = size if size is not None else ()
            s = (s,) if not isinstance(s, (tuple, Lst)) else tuple(s)
            z = new_draw(m, gen, 'N', (cov,), s + (M,), name)
            return m.wrap(mk('host', 'mvn', _mvn, (mean, cov, z)))
    except TermError as e:
        return ip.opaque(str(e))
    except Exception as e:
        if type(e).__name__ in ('Dead', 'NeedFork', 'AnalysisError'):
            raise
        ip.event('numpy_error', exc=type(e).__name__, msg=str(e)[:90])
        ip.throw(type(e).__name__, Const(str(e)))
    t = new_draw(m, gen, name, tuple(m.arg(a) for a in args), size or (),
                 name)
    if name == 'shuffle' and args and m.isarr(args[0]):
        ip.write(args[0], leaf('shuffled', (), 'f8', 'opaque'))
        return NONE
    return ip.opaque('draw of ' + name)


def _mvn(v, mean, cov, z):
    w, u = np.linalg.eigh(np.asarray(cov, dtype=float))
    s = u * np.sqrt(np.maximum(w, 0))
    return mean + z @ s.T


# --------------------------------------------------------------- scipy.stats

STATS = {'norm': ('N', ()), 'uniform': ('U', ()), 'expon': ('E', ())}


def stats_call(m, path, args, kw):
    ip = m.ip
    parts = path.split('.')[2:]
    if len(parts) == 1:
        try:
            obj = resolve(path)
        except Exception:
            return ip.opaque(path)
        if hasattr(obj, 'rvs'):
            return ip.alloc(Inst(Ext('scipy.stats.rv_frozen'), {}, (
                parts[0], tuple(args), tuple(sorted(kw.items())))))
        return pure(m, path, args, kw)
    if parts[1] == 'rvs':
        kw = dict(kw)
        size = kw.pop('size', None)
        rs = kw.pop('random_state', None)
        fr = ip.alloc(Inst(Ext('scipy.stats.rv_frozen'), {}, (
            parts[0], tuple(args), tuple(sorted(kw.items())))))
        return frozen_rvs(m, fr, size, rs)
    return pure(m, path, args, kw)


def loc_scale(m, data):
    name, args, kw = data
    kw = dict(kw)
    args = list(args)
    loc = kw.get('loc', args[0] if args else Const(0))
    scale = kw.get('scale', args[1] if len(args) > 1 else Const(1))
    return m.arg(loc), m.arg(scale)


def frozen_rvs(m, obj, size, rs):
    ip = m.ip
    data = ip.rec(obj).data
    gen = rs if rs is not None and rs != NONE and not (
        isinstance(rs, Const) and rs.v is None) else Ext('GLOBAL')
    name = data[0]
    sz = m.arg(size) if size is not None else 1
    if name not in STATS:
        t = new_draw(m, gen, name, tuple(m.arg(a) for a in data[1]) + tuple(
            m.arg(x) for _, x in data[2]), sz, name + '.rvs')
        return m.wrap(t)
    loc, scale = loc_scale(m, data)
    t = new_draw(m, gen, STATS[name][0], (), sz, name + '.rvs')
    t = mk('bin', '+', loc, mk('bin', '*', scale, t))
    return m.wrap(t)


def frozen_attr(m, obj, r, name):
    ip = m.ip

    def f(ip, a, k):
        dist = r.data[0]
        if name == 'rvs':
            size = _opt(a, k, 0, 'size', Const(1))
            rs = _opt(a, k, 1, 'random_state', NONE)
            return frozen_rvs(m, obj, size, rs)
        if name == 'expect':
            fn = a[0] if a else k.get('func')
            u = leaf('expect:u~%d' % id(obj), (), 'f8', 'real')
            body = m.term(ip.call(fn, [Num(u)], {}))
            return m.wrap(mk('uf', 'expect:' + dist, (), (
                body,) + tuple(loc_scale(m, r.data)), 0))
        path = 'scipy.stats.%s.%s' % (dist, name)
        args = [x for x in a] + list(r.data[1])
        return pure(m, path, args, {**k, **dict(r.data[2])})
    if name in ('rvs', 'mean', 'var', 'std', 'pdf', 'cdf', 'ppf', 'expect',
                'median', 'stats', 'sf', 'logpdf', 'interval', 'support'):
        return Host(f, 'rv.' + name)
    return None


def inst_attr(m, obj, r, name):
    ip = m.ip
    if not isinstance(r.cls, Ext):
        return None
    p = r.cls.path
    if p == 'errstate':
        if name == '__call__':
            return Host(lambda ip, a, k: with_errstate(m, obj, a[0]),
                        'errstate decorator')
        if name == '__enter__':
            return Host(lambda ip, a, k: enter_errstate(m, obj))
        if name == '__exit__':
            return Host(lambda ip, a, k: exit_errstate(m, obj))
        return None
    if p in (GEN, 'numpy.random.RandomState'):
        if name in DRAWS:
            return Host(lambda ip, a, k: rng_draw(m, obj, name, a, k),
                        'rng.' + name)
        if name in ('integers', 'bit_generator', 'spawn'):
            return ip.opaque('generator ' + name)
        return None
    if p == 'scipy.stats.rv_frozen':
        return frozen_attr(m, obj, r, name)
    if p == 'inspect.Parameter' and name in KINDS:
        return Const(name)
    if p == 'inspect.Parameter' and name == 'empty':
        return Ext('inspect._empty')
    return None


@settled
def enter_errstate(m, obj):
    ip = m.ip
    r = ip.rec(obj)
    old = errs(ip)
    args, kw = r.data[:2]
    m.set_global('errstate', err_settings(m, args, kw))
    ip.put(obj, r.but(data=(args, kw, old)))
    return NONE


def exit_errstate(m, obj):
    m.set_global('errstate', m.ip.rec(obj).data[2])
    return NONE


DECORATED = ast.parse("""
def inner(*args, **kwds):
    with again():
        return func(*args, **kwds)
""").body


def with_errstate(m, obj, f):
    """Function decorated with np.errstate."""
    ip = m.ip
    data = ip.rec(obj).data[:2]
    env = ip.alloc(Env({'func': f, 'again': Host(
        lambda ip, a, k: np_errstate(m, *data))}, None, 'contextlib',
        'module'))
    from .interp import Frame
    ip.frames.append(Frame(env, '<module>', None, None, 'contextlib',
                           'contextlib.py'))
    try:
        ip.block(DECORATED)
    finally:
        ip.frames.pop()
    w = ip.rec(env).vars['inner']
    return ip.call(wraps(m, [f], {}), [w], {})


# ----------------------------------------------------------------- builtins

def type_of(m, v):
    """Class of a value: program class Ref or Ext path or None."""
    ip = m.ip
    if isinstance(v, Const):
        x = v.v
        if type(x) in (AInt, LInt):
            return Ext('builtins.int')
        t = type(x)
        if t.__module__ == 'builtins':
            return Ext('builtins.' + t.__name__) if t is not type(None) \
                else Ext('builtins.NoneType')
        return Ext('numpy.dtype') if isinstance(x, np.dtype) else \
            Ext('%s.%s' % (t.__module__, t.__name__))
    if isinstance(v, Num):
        try:
            t = type(v.t.rep)
        except Exception:
            return None
        return Ext(('builtins.' if t.__module__ == 'builtins' else 'numpy.') +
                   t.__name__)
    if isinstance(v, Tup):
        return Ext('builtins.tuple')
    if isinstance(v, SliceV):
        return Ext('builtins.slice')
    if isinstance(v, ExcV):
        return v.cls if isinstance(v.cls, Ref) else Ext(
            'builtins.' + v.cls if '.' not in v.cls else v.cls)
    if isinstance(v, (BoundM,)):
        return Ext('types.MethodType')
    if isinstance(v, Host):
        return v.attrs.get('__class__') or Ext('types.FunctionType')
    if isinstance(v, PropV):
        return Ext('builtins.property')
    if isinstance(v, StaticM):
        return Ext('builtins.staticmethod')
    if isinstance(v, Ext):
        try:
            o = resolve(v.path)
            if isinstance(o, type):
                return Ext('builtins.type')
        except Exception:
            pass
        return Ext('types.ModuleType')
    if isinstance(v, Ref):
        r = ip.rec(v)
        if isinstance(r, Arr):
            return r.cls or Ext('numpy.ndarray')
        if isinstance(r, OArr):
            return Ext('numpy.ndarray')
        if isinstance(r, Inst):
            return r.cls
        if isinstance(r, ClsObj):
            return r.meta or Ext('builtins.type')
        for k, name in (
                (DView, 'builtins.dict_keys'), (LObj, 'builtins.list'),
                (FDict, 'collections.defaultdict'), (DObj, 'builtins.dict'),
                (SObj, 'builtins.set'), (FnObj, 'types.FunctionType'),
                (It, 'builtins.generator'), (GenObj, 'types.GeneratorType'),
                (Env, 'types.ModuleType')):
            if isinstance(r, k):
                return Ext(name)
    return None


def subclass_of(m, c, cls):
    """Is class c a subclass of cls (True/False/None)?"""
    ip = m.ip
    if isinstance(cls, Tup):
        rs = [subclass_of(m, c, x) for x in cls.items]
        if any(r is True for r in rs):
            return True
        return None if any(r is None for r in rs) else False
    if isinstance(cls, Opaque) or c is None or isinstance(c, Opaque):
        return None
    if isinstance(c, Ref):
        mro = ip.rec(c).mro
        if isinstance(cls, Ref):
            return cls in mro
        if cls.path == 'builtins.object':
            return True
        return any(subclass_of(m, x, cls) for x in mro if isinstance(x, Ext))
    if isinstance(cls, Ref):
        return False
    if c == cls or cls.path == 'builtins.object':
        return True
    if cls.path in ('collections.abc.Callable', 'typing.Callable') and \
       c.path.startswith('types.'):
        return c.path.endswith('FunctionType')
    try:
        a, b = resolve(c.path), resolve(cls.path)
        return issubclass(a, b)
    except Exception:
        pass
    if cls.path in ('numbers.Number', 'numbers.Real', 'numbers.Integral'):
        import numbers
        try:
            return issubclass(resolve(c.path),
                              getattr(numbers, cls.path.split('.')[1]))
        except Exception:
            return False
    return False


def b_isinstance(m, args, kw):
    v = args[0]
    ip = m.ip
    if isinstance(v, Phi):
        return split_phi(m, lambda a, k: b_isinstance(m, a, k), args, kw)
    r = subclass_of(m, type_of(m, v), args[1])
    return ip.opaque('isinstance') if r is None else Const(r)


def b_issubclass(m, args, kw):
    r = subclass_of(m, args[0], args[1])
    return m.ip.opaque('issubclass') if r is None else Const(r)


def b_type(m, args, kw):
    ip = m.ip
    if len(args) == 3:
        d = {k: v for k, v in m.as_dict(args[2])}
        return ip.make_class(args[0].v, m.seq(args[1]), d, None,
                             ip.frames[-1].module)
    if isinstance(args[0], Phi):
        return split_phi(m, lambda a, k: b_type(m, a, k), args, kw)
    t = type_of(m, args[0])
    return t if t is not None else ip.opaque('type()')


def is_callable(m, v):
    ip = m.ip
    if isinstance(v, (Host, BoundM, Ext)):
        if isinstance(v, Ext):
            try:
                return callable(resolve(v.path))
            except Exception:
                return True
        return v.attrs.get('callable', True) if isinstance(v, Host) else True
    if isinstance(v, Ref):
        r = ip.rec(v)
        if isinstance(r, (FnObj, ClsObj)):
            return True
        if isinstance(r, (Inst, Arr)):
            if isinstance(r.cls, Ref):
                return ip.class_lookup(r.cls, '__call__') is not None
            return isinstance(r, Inst) and '__call__' in r.attrs
        return False
    if isinstance(v, Opaque):
        return None
    return False


def b_callable(m, args, kw):
    if isinstance(args[0], Phi):
        return split_phi(m, lambda a, k: b_callable(m, a, k), args, kw)
    r = is_callable(m, args[0])
    return m.ip.opaque('callable') if r is None else Const(r)


def b_hasattr(m, args, kw):
    ip = m.ip
    o = args[0]
    if isinstance(o, Phi):
        return split_phi(m, lambda a, k: b_hasattr(m, a, k), args, kw)
    if isinstance(o, Opaque):
        return ip.opaque('hasattr')
    ip.sinks.append([])
    try:
        v = ip.getattr(o, args[1].v, UNDEF)
    finally:
        ip.sinks.pop()
    if isinstance(v, Phi) and ip._has_undef(v):
        def rec(v):
            if v is UNDEF:
                return FALSE
            if isinstance(v, Phi):
                return ip.fork(v.c, lambda: rec(v.a), lambda: rec(v.b))
            return TRUE
        return rec(v)
    return Const(v is not UNDEF)


def b_getattr(m, args, kw):
    ip = m.ip
    if not isinstance(args[1], Const):
        return ip.opaque('getattr')
    if len(args) > 2:
        v = ip.getattr(args[0], args[1].v, UNDEF)
        return _undef_default(ip, v, args[2])
    return ip.getattr(args[0], args[1].v)


def _undef_default(ip, v, d):
    if v is UNDEF:
        return d
    if isinstance(v, Phi):
        return Phi(v.c, _undef_default(ip, v.a, d),
                   _undef_default(ip, v.b, d))
    return v


def b_setattr(m, args, kw):
    m.ip.setattr(args[0], args[1].v, args[2])
    return NONE


def b_delattr(m, args, kw):
    m.ip.delattr(args[0], args[1].v)
    return NONE


def b_super(m, args, kw):
    ip = m.ip
    if args:
        return SuperV(args[0], args[1])
    for f in reversed(ip.frames):
        if f.cls is not None:
            return SuperV(f.cls, f.self)
        if f.name != '<lambda>' and not f.name.startswith('<class'):
            # nested function: class cell of the enclosing method
            continue
    ip.throw('RuntimeError', 'super(): no arguments')


def b_len(m, args, kw):
    ip = m.ip
    v = args[0]
    if isinstance(v, Phi):
        return split_phi(m, lambda a, k: b_len(m, a, k), args, kw)
    if isinstance(v, Tup):
        return Const(len(v.items))
    if isinstance(v, Const) and isinstance(v.v, str):
        return Const(len(v.v))
    if isinstance(v, Ref):
        r = ip.rec(v)
        if isinstance(r, (LObj, DObj, SObj)):
            return Const(len(r.items))
        if isinstance(r, Arr):
            t = ip.read(v)
            if np.ndim(t.rep) == 0:
                ip.throw('TypeError', 'len() of unsized object')
            return Const(_dim(len(t.rep)))
        if isinstance(r, OArr):
            return Const(_dim(r.shape[0]))
        if isinstance(r, Inst):
            f = ip.getattr(v, '__len__', None)
            if f is not None:
                return ip.call(f, [], {})
    if isinstance(v, Opaque):
        return ip.opaque('len')
    ip.throw('TypeError', 'object has no len()')


def b_range(m, args, kw):
    ip = m.ip
    vals = [m.as_int(a) for a in args]
    if any(v is None for v in vals):
        for a in args:
            if isinstance(a, Const) and not isinstance(a.v, int):
                ip.throw('TypeError', 'range')
            t = None if isinstance(a, Const) else m.term(a)
            if t is not None and not t.opaque and \
               np.asarray(t.rep).dtype.kind not in 'iub':
                ip.throw('TypeError', 'range')
        return SymRange(args)
    ai = any(isinstance(v, AInt) for v in vals)
    return ip.alloc(LObj([Const(AInt(i) if ai and i > 1 else i)
                          for i in range(*[int(v) for v in vals])]))


def _it(m, items):
    return m.ip.alloc(It(items))


def b_zip(m, args, kw):
    ss = [m.seq(a) for a in args]
    if any(s is None for s in ss):
        return m.ip.opaque('zip')
    return _it(m, [Tup(x) for x in zip(*ss)])


def b_enumerate(m, args, kw):
    s = m.seq(args[0])
    if s is None:
        return m.ip.opaque('enumerate')
    start = m.as_int(_opt(args, kw, 1, 'start', Const(0)))
    return _it(m, [Tup((Const(i + start), x)) for i, x in enumerate(s)])


def b_reversed(m, args, kw):
    s = m.seq(args[0])
    return m.ip.opaque('reversed') if s is None else _it(m, s[::-1])


def b_iter(m, args, kw):
    v = args[0]
    if isinstance(v, Ref) and isinstance(m.ip.rec(v), It):
        return v
    s = m.seq(v)
    return m.ip.opaque('iter') if s is None else _it(m, s)


def b_next(m, args, kw):
    ip = m.ip
    v = args[0]
    if isinstance(v, Ref) and isinstance(ip.rec(v), GenObj):
        ip.opaque('generator advanced by next')
        ip.put(v, It(ip.gen_items(v)))
    if isinstance(v, Ref) and isinstance(ip.rec(v), It):
        r = ip.rec(v)
        if r.pos < len(r.items):
            ip.put(v, r.but(pos=r.pos + 1))
            return r.items[r.pos]
        if len(args) > 1:
            return args[1]
        ip.throw('StopIteration')
    return ip.opaque('next')


def b_list(m, args, kw):
    if not args:
        return m.ip.alloc(LObj([]))
    s = m.seq(args[0])
    return m.ip.opaque('list') if s is None else m.ip.alloc(LObj(s))


def b_tuple(m, args, kw):
    if not args:
        return Tup(())
    if isinstance(args[0], Phi):
        return split_phi(m, lambda a, k: b_tuple(m, a, k), args, kw)
    s = m.seq(args[0])
    return m.ip.opaque('tuple') if s is None else Tup(s)


def b_set(m, args, kw):
    if not args:
        return m.ip.alloc(SObj({}))
    s = m.seq_quiet(args[0])
    if s is None:
        return m.ip.opaque('set')
    return m.ip.alloc(SObj({m.ip.key(x): x for x in s}))


def b_dict(m, args, kw):
    ref = m.ip.alloc(DObj({}))
    if args:
        m.dict_update(ref, args[0])
    for k, v in kw.items():
        m.ip.setitem(ref, Const(k), v)
    return ref


def b_defaultdict(m, args, kw):
    ref = b_dict(m, args[1:], kw)
    if args and args[0] != NONE:
        ip = m.ip
        ip.put(ref, FDict(ip.rec(ref).items, args[0]))
    return ref


def b_fromkeys(m, args, kw):
    ref = m.ip.alloc(DObj({}))
    s = m.seq(args[0])
    if s is None:
        return m.ip.opaque('dict.fromkeys')
    for k in s:
        m.ip.setitem(ref, k, args[1] if len(args) > 1 else NONE)
    return ref


def b_sorted(m, args, kw):
    s = m.seq_quiet(args[0])
    if s is None:
        return m.ip.opaque('sorted')
    r = m.sort_items(s, kw)
    if r is None:
        return m.ip.opaque('sorted')
    return m.ip.alloc(LObj(r))


def b_sum(m, args, kw):
    ip = m.ip
    if m.isarr(args[0]) and np.ndim(ip.read(args[0]).rep) == 1:
        return m.wrap(mk('meth', 'sum', ip.read(args[0]), (), ()))
    s = m.seq(args[0])
    if s is None:
        return ip.opaque('sum')
    acc = _opt(args, kw, 1, 'start', Const(0))
    for x in s:
        acc = ip.binop('+', acc, x)
    return acc


def _anyall(is_all):
    def f(m, args, kw):
        ip = m.ip
        if m.isarr(args[0]):
            return m.wrap(mk('meth', 'all' if is_all else 'any',
                             ip.read(args[0]), (), ()))
        s = m.seq(args[0])
        if s is None:
            return ip.opaque('any/all')
        ts = []
        for x in s:
            c = ip.truth(x)
            if isinstance(c, T):
                d = ip.decide(c)
                c = c if d is None else d
            if isinstance(c, Phi):
                return ip.opaque('any/all')
            if isinstance(c, bool):
                if c != is_all:
                    return Const(not is_all)
            else:
                ts.append(c)
        if not ts:
            return Const(is_all)
        if is_all:
            return Num(mk('and', *ts))
        return Num(mk('un', 'not', mk('and', *[mk('un', 'not', t)
                                               for t in ts])))
    return f


def _minmax(is_min):
    def f(m, args, kw):
        ip = m.ip
        s = args if len(args) > 1 else m.seq(args[0])
        if s is None:
            return ip.opaque('min/max')
        if not s:
            if 'default' in kw:
                return kw['default']
            ip.throw('ValueError', 'empty sequence')
        if 'key' in kw:
            r = m.sort_items(s, {'key': kw['key']})
            return ip.opaque('min/max') if r is None else (
                r[0] if is_min else r[-1])
        acc = s[0]
        for x in s[1:]:
            acc = ip.branch(ip.compare('<' if is_min else '>', x, acc),
                            lambda: x, lambda: acc)
        return acc
    return f


def _numcast(name):
    def f(m, args, kw):
        ip = m.ip
        if not args:
            return Const({'int': 0, 'float': 0., 'bool': False,
                          'complex': 0j}[name])
        v = args[0]
        if isinstance(v, Phi):
            return split_phi(m, lambda a, k: f(m, a, k), args, kw)
        if name == 'complex' and len(args) == 2:
            return ip.binop('+', v, ip.binop('*', Const(1j), args[1]))
        if name == 'bool':
            c = ip.truth(v)
            return Const(c) if isinstance(c, bool) else Num(c) \
                if isinstance(c, T) else ip.opaque('bool')
        if isinstance(v, Const):
            if v.v is None:
                ip.throw('TypeError')
            if isinstance(v.v, (AInt, LInt)) and name == 'int':
                return v
            try:
                return Const({'int': int, 'float': float,
                              'complex': complex}[name](v.v))
            except (ValueError, TypeError) as e:
                ip.throw(type(e).__name__)
        if is_number(v) or m.isarr(v):
            return m.wrap(mk('call', 'builtins.' + name, (m.arg(v),), ()))
        if isinstance(v, Opaque):
            return v
        ip.throw('TypeError')
    return f


def b_abs(m, args, kw):
    v = args[0]
    if isinstance(v, Phi):
        return split_phi(m, lambda a, k: b_abs(m, a, k), args, kw)
    if m.isarr(v):
        return call_ext(m, 'numpy.absolute', args, kw)
    if isinstance(v, Const):
        return Const(abs(v.v))
    return pure(m, 'builtins.abs', args, kw)


def b_pow(m, args, kw):
    return m.ip.binop('**', args[0], args[1])


def b_divmod(m, args, kw):
    return Tup((m.ip.binop('//', args[0], args[1]),
                m.ip.binop('%', args[0], args[1])))


def b_str(m, args, kw):
    return Const(m.text(args[0]) if args else '')


def b_vars(m, args, kw):
    ip = m.ip
    v = args[0]
    if isinstance(v, Ext):
        return ip.alloc(DObj({}))
    return ip.getattr(v, '__dict__')


def b_globals(m, args, kw):
    ip = m.ip
    return ip.alloc(Space(ip.modules[ip.frames[-1].module]))


def b_map(m, args, kw):
    ip = m.ip
    ss = [m.seq(a) for a in args[1:]]
    if any(s is None for s in ss):
        return ip.opaque('map')
    return _it(m, [ip.call(args[0], list(x), {}) for x in zip(*ss)])


def b_filter(m, args, kw):
    ip = m.ip
    s = m.seq(args[1])
    if s is None:
        return ip.opaque('filter')
    out = ip.alloc(LObj([]))
    for x in s:
        c = x if args[0] == NONE or isinstance(args[0], Const) else \
            ip.call(args[0], [x], {})
        ip.branch(c, lambda: ip._append(out, x), lambda: None)
    return out


def b_id(m, args, kw):
    m.ip.event('ambient', name='id')
    return Num(leaf('id~%d' % m.ip.hash_salt, (), 'i8', 'int'))


def b_hash(m, args, kw):
    m.ip.event('ambient', name='hash')
    return Num(leaf('hash~%d' % m.ip.hash_salt, (), 'i8', 'int'))


def b_property(m, args, kw):
    return PropV(args[0] if args else kw.get('fget'),
                 args[1] if len(args) > 1 else kw.get('fset'))


def b_object_new(m, args, kw):
    return m.ip.alloc(Inst(args[0]))


def b_ndarray_new(m, args, kw):
    return m.new_ndarray(args[0], args[1:], kw)


def b_slice(m, args, kw):
    a = args + [NONE] * (3 - len(args)) if len(args) != 1 else \
        [NONE, args[0], NONE]
    return SliceV(*a[:3])


def b_noop(m, args, kw):
    return NONE


def b_dir(m, args, kw):
    return m.ip.opaque('dir')


def b_round(m, args, kw):
    return pure(m, 'builtins.round', args, kw)


def w_warn(m, args, kw):
    m.ip.event('warn', args=args)
    return NONE


def w_catch(m, args, kw):
    return m.ip.alloc(Inst(Ext('warnings.catch_warnings')))


# ------------------------------------------------------------------- inspect

def params_of(m, f, depth=0):
    """[(name, kind, default)] of a callable."""
    ip = m.ip
    if isinstance(f, BoundM):
        ps = params_of(m, f.func, depth)
        return None if ps is None else ps[1:]
    if isinstance(f, (StaticM, ClassM)):
        return params_of(m, f.func)
    if isinstance(f, Host):
        return f.attrs.get('params')
    if isinstance(f, Ref):
        r = ip.rec(f)
        if isinstance(r, FnObj):
            w = r.attrs.get('__wrapped__')
            if w is not None and w is not UNDEF and depth < 20:
                return params_of(m, w, depth + 1)
            a = r.node.args
            out = []
            pos = a.posonlyargs + a.args
            for i, x in enumerate(pos):
                j = i - (len(pos) - len(r.defaults))
                out.append((x.arg, 'POSITIONAL_ONLY' if x in a.posonlyargs
                            else 'POSITIONAL_OR_KEYWORD',
                            r.defaults[j] if j >= 0 else None))
            if a.vararg:
                out.append((a.vararg.arg, 'VAR_POSITIONAL', None))
            for x in a.kwonlyargs:
                out.append((x.arg, 'KEYWORD_ONLY', r.kwdefaults.get(x.arg)))
            if a.kwarg:
                out.append((a.kwarg.arg, 'VAR_KEYWORD', None))
            return out
        if isinstance(r, ClsObj):
            w = r.attrs.get('__wrapped__')
            if w is not None and w is not UNDEF and depth < 20:
                return params_of(m, w, depth + 1)
            if r.meta is not None and isinstance(r.meta, Ref):
                c = ip.class_lookup(r.meta, '__call__')
                if c is not None:
                    ps = params_of(m, c, depth + 1)
                    return None if ps is None else ps[1:]
            for nm in ('__new__', '__init__'):
                c = ip.class_lookup(f, nm)
                if c is not None and not isinstance(c, Ext):
                    ps = params_of(m, c, depth + 1)
                    return None if ps is None else ps[1:]
            return []
        if isinstance(r, (Inst, Arr)):
            c = ip.getattr(f, '__call__', None)
            if c is not None:
                return params_of(m, c, depth + 1)
    return None


def i_signature(m, args, kw):
    ip = m.ip
    ps = params_of(m, args[0])
    if ps is None:
        if isinstance(args[0], Ext) and 'object.__init__' in args[0].path:
            ps = [('self', 'POSITIONAL_ONLY', None),
                  ('args', 'VAR_POSITIONAL', None),
                  ('kwargs', 'VAR_KEYWORD', None)]
        else:
            ps = ext_params(args[0])
            if ps is None:
                return ip.opaque('signature')
    d = {}
    for name, kind, default in ps:
        p = ip.alloc(Inst(Ext('inspect.Parameter'), {
            'name': Const(name), 'kind': Const(kind),
            'default': default if default is not None
            else Ext('inspect._empty')}))
        d[ip.key(Const(name))] = (Const(name), p)
    return ip.alloc(Inst(Ext('inspect.Signature'), {
        'parameters': ip.alloc(DObj(d))}))


def ext_params(v):
    """Parameters of a library function."""
    if not isinstance(v, Ext):
        return None
    try:
        sig = inspect.signature(resolve(v.path))
    except Exception:
        return None
    return [(p.name, p.kind.name,
             None if p.default is p.empty else
             Const(p.default) if isinstance(p.default, (
                 int, float, str, type(None))) else Ext('opaque default'))
            for p in sig.parameters.values()]


def i_isclass(m, args, kw):
    v = args[0]
    ip = m.ip
    if isinstance(v, Phi):
        return split_phi(m, lambda a, k: i_isclass(m, a, k), args, kw)
    if isinstance(v, Ref):
        return Const(isinstance(ip.rec(v), ClsObj))
    if isinstance(v, Ext):
        try:
            return Const(isinstance(resolve(v.path), type))
        except Exception:
            return FALSE
    if isinstance(v, Host):
        return Const('class' in v.types)
    return Const(False)


def i_isfunction(m, args, kw):
    v = args[0]
    return Const(isinstance(v, Host) or (
        isinstance(v, Ref) and isinstance(m.ip.rec(v), FnObj)))


# ------------------------------------------------------------ misc. modules

def bisect_(right):
    def f(m, args, kw):
        ip = m.ip
        s = m.seq(args[0])
        x = args[1]
        if s is None:
            return ip.opaque('bisect')
        lo, hi = 0, len(s)
        if len(args) > 2:
            lo = m.as_int(args[2])
        if len(args) > 3:
            hi = m.as_int(args[3])
        while lo < hi:
            mid = (lo + hi) // 2
            r = ip.truth(ip.compare('<', x, s[mid]) if right
                         else ip.compare('<', s[mid], x))
            if isinstance(r, T):
                d = ip.decide(r)
                if d is None:
                    return ip.opaque('bisect on unordered values')
                r = d
            if right:
                if r:
                    hi = mid
                else:
                    lo = mid + 1
            else:
                if r:
                    lo = mid + 1
                else:
                    hi = mid
        return Const(lo)
    return f


def insort_(right):
    def f(m, args, kw):
        i = bisect_(right)(m, args, kw)
        if isinstance(i, Opaque):
            return i
        return m.list_insert(args[0], [i, args[1]], {})
    return f


def interp1d(m, args, kw):
    """scipy.interpolate.interp1d: a callable of the evaluation points."""
    ip = m.ip
    if any(isinstance(a, Phi) for a in list(args) + list(kw.values())):
        return split_phi(m, lambda a, k: interp1d(m, a, k), args, kw)
    names = ['x', 'y', 'kind', 'axis', 'copy', 'bounds_error', 'fill_value',
             'assume_sorted']
    d = dict(zip(names, args))
    d.update(kw)
    xv, yv = d.pop('x'), d.pop('y')
    x, y = m.term(xv), m.term(yv)
    copy = d.pop('copy', None)
    kws = m.kwargs(d)
    ip.event('interp1d', x=x, y=y, kw=dict(kws))
    m.maybe_raise()
    kind = dict(kws).get('kind', 'linear')
    # the given arrays are referred to, if not copied
    shared = copy is not None and ip.truth(copy) is False and \
        kind in ('linear', 'nearest', 'previous', 'next', 'zero') and \
        getattr(y.rep, 'dtype', np.dtype(int)).kind in 'fc'

    def call(ip, a, k):
        s = m.term(a[0])
        if shared:
            return m.wrap(mk('host', 'interp1d', _interp1d, (
                x, m.term(yv), s, Dct(kws))))
        return m.wrap(mk('host', 'interp1d', _interp1d, (x, y, s, Dct(kws))))
    return Host(call, 'interp1d')


def _interp1d(v, x, y, s, kw):
    import scipy.interpolate
    k = {a: b for a, b in kw.items()}
    return scipy.interpolate.interp1d(x, y, **k)(s)


def np_histogram(m, args, kw):
    """numpy.histogram: counts and bin edges, the given ones if an array."""
    ip = m.ip
    names = ['a', 'bins', 'range', 'density', 'weights']
    d = dict(zip(names, args))
    d.update(kw)
    if any(isinstance(z, Phi) for z in d.values()):
        return split_phi(m, lambda a, k: np_histogram(m, a, k), [], d)
    a = m.term(d['a'])
    bins = d.get('bins', Const(10))
    rng = m.arg(d['range']) if 'range' in d else None
    if d.get('density', NONE) not in (NONE, FALSE) or \
       d.get('weights', NONE) != NONE:
        return ip.opaque('histogram options')
    m.maybe_raise()
    isarr = isinstance(bins, Ref)
    b = m.term(bins) if isarr else m.arg(bins)
    t = mk('host', 'histogram', _histogram, (a, b, rng))
    try:
        t.rep
    except TermError as e:
        return ip.opaque(str(e))
    except Exception as e:
        if t.opaque:
            return ip.opaque('histogram of unmodelled value')
        ip.throw(type(e).__name__, Const(str(e)))
    ip.event('histogram', a=a, bins=b)
    counts = ip.arr(mk('host', 'histogram_counts', _first, (t,)))
    if isarr and isinstance(ip.rec(bins), Arr):
        return Tup((counts, bins))
    return Tup((counts, ip.arr(mk('host', 'histogram_bins', _second, (t,)))))


def _histogram(v, a, b, rng):
    if isinstance(b, Lst):
        b = list(b)
    if isinstance(b, str):
        z = np.sort(np.asarray(a, float).ravel())
        if rng is not None:
            z = z[(z >= rng[0]) & (z <= rng[1])]
        gap = np.diff(np.percentile(z, [25, 75]))[0] if z.size > 1 else 0
        width = z[-1] - z[0] if rng is None else rng[1] - rng[0] \
            if z.size else 0
        if not width < 1e4 * max(gap, 1e-300) and gap:
            raise MemoryError('bins by rule ' + b)
    return np.histogram(a, bins=b, range=rng)


def _first(v, t):
    return t[0]


def _second(v, t):
    return t[1]


def quad(m, args, kw):
    """Integral of a function: an uninterpreted linear functional."""
    ip = m.ip
    ip.nfresh += 1
    u = leaf('quad:u', (), 'f8', 'real')
    f = args[0] if args else kw['func']
    more = _opt(args, kw, 3, 'args', NONE)
    more = [] if more == NONE else m.seq(more) if isinstance(
        more, Tup) else [more]
    if len(args) > 9 or {'weight', 'complex_func'} & set(kw) or \
       m.arg(_opt(args, kw, 4, 'full_output', Const(0))):
        return ip.opaque('quad with options')
    body = m.term(ip.call(f, [Num(u)] + more, {}))
    a = m.arg(_opt(args, kw, 1, 'a', NONE))
    b = m.arg(_opt(args, kw, 2, 'b', NONE))
    t = mk('quad', body, a, b)
    return Tup((Num(t), Num(leaf('quad:err', (), 'f8', 'real'))))


def partial(m, args, kw):
    ip = m.ip
    f, a0, k0 = args[0], args[1:], kw
    return Host(lambda ip, a, k: ip.call(f, a0 + a, {**k0, **k}), 'partial')


def wraps(m, args, kw):
    ip = m.ip
    wrapped = args[0]

    def deco(ip, a, k):
        for n in ('__module__', '__name__', '__qualname__', '__doc__'):
            v = ip.getattr(wrapped, n, None)
            if v is not None:
                ip.setattr(a[0], n, v)
        ip.setattr(a[0], '__wrapped__', wrapped)
        return a[0]
    return Host(deco, 'wraps')


def reduce_(m, args, kw):
    ip = m.ip
    s = m.seq(args[1])
    if s is None:
        return ip.opaque('reduce')
    if len(args) > 2:
        acc = args[2]
    else:
        acc, s = s[0], s[1:]
    for x in s:
        acc = ip.call(args[0], [acc, x], {})
    return acc


def product_(m, args, kw):
    ss = [m.seq(a) for a in args]
    if any(s is None for s in ss):
        return m.ip.opaque('product')
    n = m.as_int(kw['repeat']) if 'repeat' in kw else 1
    return _it(m, [Tup(x) for x in itertools.product(*(ss * n))])


def chain_(m, args, kw):
    ss = [m.seq(a) for a in args]
    if any(s is None for s in ss):
        return m.ip.opaque('chain')
    return _it(m, sum(ss, []))


def chain_it(m, args, kw):
    return chain_(m, m.seq(args[0]), {})


def accumulate_(m, args, kw):
    ip = m.ip
    s = m.seq(args[0])
    out, acc = [], None
    for x in s:
        acc = x if acc is None else ip.binop('+', acc, x)
        out.append(acc)
    return _it(m, out)


def operator_bin(op):
    return lambda m, a, k: m.ip.binop(op, a[0], a[1])


def copy_(m, args, kw):
    ip = m.ip
    v = args[0]
    if isinstance(v, Ref):
        r = ip.rec(v)
        if isinstance(r, Arr):
            return m.arr_method(v, 'copy', [], {})
        return ip.alloc(r.but())
    return v


def deepcopy_(m, args, kw):
    ip = m.ip
    memo = {}

    def rec(v):
        if isinstance(v, Ref):
            if v.oid in memo:
                return memo[v.oid]
            r = ip.rec(v)
            if isinstance(r, (FnObj, ClsObj, Env)):
                return v
            if isinstance(r, Arr):
                memo[v.oid] = new = m.arr_method(v, 'copy', [], {})
                return new
            new = ip.alloc(r.but())
            memo[v.oid] = new
            if isinstance(r, LObj):
                ip.put(new, r.but(items=[rec(x) for x in r.items]))
            elif isinstance(r, DObj):
                ip.put(new, r.but(items={k: (a, rec(b)) for k, (a, b)
                                         in r.items.items()}))
            elif isinstance(r, Inst):
                ip.put(new, r.but(attrs={k: rec(x) for k, x
                                         in r.attrs.items()}))
            elif isinstance(r, OArr):
                s = ip.alloc(LObj([rec(x) for x in m.oitems(r)]))
                ip.put(new, OArr(r.shape, s, np.arange(
                    r.index.size).reshape(r.shape)))
            return new
        if isinstance(v, Tup):
            return Tup(rec(x) for x in v.items)
        return v
    return rec(args[0])


def b_print(m, args, kw):
    m.ip.event('print')
    return NONE


TABLE = {
    'builtins.isinstance': b_isinstance, 'builtins.issubclass': b_issubclass,
    'builtins.type': b_type, 'builtins.callable': b_callable,
    'builtins.hasattr': b_hasattr, 'builtins.getattr': b_getattr,
    'builtins.setattr': b_setattr, 'builtins.delattr': b_delattr,
    'builtins.super': b_super, 'builtins.len': b_len,
    'builtins.range': b_range, 'builtins.zip': b_zip,
    'builtins.enumerate': b_enumerate, 'builtins.reversed': b_reversed,
    'builtins.iter': b_iter, 'builtins.next': b_next,
    'builtins.list': b_list, 'builtins.tuple': b_tuple,
    'builtins.set': b_set, 'builtins.frozenset': b_set,
    'builtins.dict.fromkeys': b_fromkeys, 'builtins.dict': b_dict,
    'collections.OrderedDict': b_dict,
    'collections.defaultdict': b_defaultdict, 'builtins.sorted': b_sorted,
    'builtins.sum': b_sum, 'builtins.any': _anyall(False),
    'builtins.all': _anyall(True), 'builtins.min': _minmax(True),
    'builtins.max': _minmax(False), 'builtins.int': _numcast('int'),
    'builtins.float': _numcast('float'), 'builtins.bool': _numcast('bool'),
    'builtins.complex': _numcast('complex'), 'builtins.abs': b_abs,
    'builtins.pow': b_pow, 'builtins.divmod': b_divmod,
    'builtins.str': b_str, 'builtins.repr': b_str, 'builtins.format': b_str,
    'builtins.globals': b_globals, 'builtins.vars': b_vars, 'builtins.map': b_map,
    'builtins.filter': b_filter, 'builtins.id': b_id,
    'builtins.hash': b_hash, 'builtins.property': b_property,
    'builtins.staticmethod': lambda m, a, k: StaticM(a[0]),
    'builtins.classmethod': lambda m, a, k: ClassM(a[0]),
    'builtins.object': lambda m, a, k: m.ip.alloc(Inst(
        Ext('builtins.object'))),
    'builtins.object.__new__': b_object_new,
    'builtins.object.__init__': b_noop,
    'numpy.ndarray.__new__': b_ndarray_new,
    'builtins.slice': b_slice, 'builtins.print': b_print,
    'builtins.dir': b_dir, 'builtins.round': b_round,
    'warnings.warn': w_warn, 'warnings.catch_warnings': w_catch,
    'inspect.signature': i_signature, 'inspect.isclass': i_isclass,
    'inspect.isfunction': i_isfunction,
    'bisect.bisect_right': bisect_(True), 'bisect.bisect': bisect_(True),
    'bisect.bisect_left': bisect_(False),
    'bisect.insort': insort_(True), 'bisect.insort_right': insort_(True),
    'bisect.insort_left': insort_(False),
    'contextlib.contextmanager': lambda m, a, k: a[0],
    'functools.partial': partial, 'functools.wraps': wraps,
    'functools.reduce': reduce_, 'itertools.product': product_,
    'itertools.chain': chain_, 'itertools.chain.from_iterable': chain_it,
    'itertools.accumulate': accumulate_,
    'copy.copy': copy_, 'copy.deepcopy': deepcopy_,
    'operator.add': operator_bin('+'), 'operator.mul': operator_bin('*'),
    'operator.sub': operator_bin('-'), 'operator.truediv': operator_bin('/'),
    'numpy.empty': np_creator('empty'), 'numpy.zeros': np_creator('zeros'),
    'numpy.ones': np_creator('ones'), 'numpy.full': np_creator('full'),
    'numpy.empty_like': np_like('empty_like'),
    'numpy.zeros_like': np_like('zeros_like'),
    'numpy.ones_like': np_like('ones_like'),
    'numpy.full_like': np_like('full_like'),
    'numpy.asarray': np_asarray(False), 'numpy.array': np_asarray(True),
    'numpy.asanyarray': np_asarray(False, True),
    'numpy.ascontiguousarray': np_ascontiguous,
    'numpy.clip': np_clip,
    'numpy.core.umath.clip': np_clip,
    'numpy.asfarray': np_asarray(False),
    'numpy.broadcast_arrays': np_broadcast_arrays,
    'numpy.ndindex': np_ndindex,
    'numpy.broadcast': np_broadcast, 'numpy.ndenumerate': np_ndenumerate, 'numpy.isscalar': np_isscalar,
    'numpy.fromiter': np_fromiter, 'numpy.finfo': np_finfo,
    'numpy.diff': np_diff, 'numpy.seterr': np_seterr,
    'numpy.geterr': np_geterr, 'numpy.errstate': np_errstate,
    'numpy.dtype': np_dtype, 'numpy.vectorize': np_vectorize,
    'numpy.histogram': np_histogram,
    'scipy.interpolate.interp1d': interp1d, 'scipy.integrate.quad': quad,
}
