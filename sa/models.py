"""Models of the builtins, numpy and scipy used by the analysed package."""
import numpy as np
from .values import *
from .terms import (T, mk, leaf, const, draw, AInt, LInt, Sl, Lst, Dct,
                    TermError, Valuation, REP, resolve, show)
from . import terms as tm

NP_VIEWS = {'broadcast_to', 'moveaxis', 'swapaxes', 'transpose', 'reshape',
            'squeeze', 'expand_dims', 'rollaxis', 'ravel', 'flip', 'fliplr',
            'flipud', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'diagonal',
            'real', 'imag', 'matrix_transpose', 'rot90'}
METH_VIEWS = {'reshape', 'swapaxes', 'transpose', 'squeeze', 'ravel',
              'diagonal'}
METH_MUTATE = {'fill', 'sort', 'partition', 'put', 'resize', 'itemset',
               'setflags', 'setfield'}
ARR_ATTRS = {'real', 'imag', 'T'}
EXT_CONST = {'numpy.nan', 'numpy.inf', 'numpy.pi', 'numpy.e', 'numpy.NaN',
             'numpy.newaxis', 'math.pi', 'math.inf', 'math.nan', 'math.e',
             'numpy.euler_gamma', 'numpy.PINF', 'numpy.NINF'}
CANON = {'inspect.Signature.empty': 'inspect._empty',
         'inspect.Parameter.empty': 'inspect._empty',
         'numpy.abs': 'numpy.absolute', 'numpy.max': 'numpy.amax',
         'numpy.min': 'numpy.amin', 'numpy.conj': 'numpy.conjugate'}
KINDS = ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD', 'VAR_POSITIONAL',
         'KEYWORD_ONLY', 'VAR_KEYWORD')
DRAWS = {'normal', 'standard_normal', 'multivariate_normal', 'poisson',
         'binomial', 'uniform', 'random', 'random_sample', 'rand', 'randn',
         'exponential', 'standard_exponential', 'integers', 'randint',
         'choice', 'permutation', 'shuffle', 'gamma', 'beta', 'chisquare',
         'lognormal', 'laplace', 'standard_gamma', 'standard_t', 'geometric',
         'multinomial', 'bytes', 'logistic', 'gumbel', 'weibull', 'triangular',
         'negative_binomial', 'noncentral_chisquare', 'hypergeometric'}
GLOBAL_STATE = {'warnings.filterwarnings', 'warnings.simplefilter',
                'warnings.resetwarnings', 'numpy.random.seed',
                'numpy.set_printoptions', 'numpy.random.set_state',
                'numpy.seterrcall', 'numpy.setbufsize',
                'sys.setrecursionlimit', 'sys.settrace', 'sys.setprofile',
                'gc.disable', 'gc.enable', 'gc.set_threshold', 'os.chdir',
                'os.putenv', 'locale.setlocale', 'random.seed',
                'decimal.setcontext', 'signal.signal', 'scipy.special.seterr'}


class Models:

    def __init__(self, ip):
        self.ip = ip
        self.gen_default = None

    # ------------------------------------------------------------ conversion

    def arg(self, v):
        """Value -> term argument (static structure with terms)."""
        ip = self.ip
        if isinstance(v, Const):
            return v.v
        if isinstance(v, Num):
            return v.t
        if isinstance(v, Tup):
            return tuple(self.arg(x) for x in v.items)
        if isinstance(v, SliceV):
            return Sl(self.arg(v.a), self.arg(v.b), self.arg(v.c))
        if isinstance(v, Ext):
            try:
                return resolve(v.path)
            except Exception:
                return leaf('ext:' + v.path, (), 'f8', 'opaque')
        if isinstance(v, Phi):
            d = ip.decide(v.c)
            if d is not None:
                return self.arg(v.a if d else v.b)
            return mk('ite', v.c, self.term(v.a), self.term(v.b))
        if isinstance(v, Ref):
            r = ip.rec(v)
            if isinstance(r, Arr):
                return ip.read(v)
            if isinstance(r, LObj):
                return Lst(self.arg(x) for x in r.items)
            if isinstance(r, It):
                return Lst(self.arg(x) for x in r.items[r.pos:])
            if isinstance(r, DObj):
                return Dct((k.v if isinstance(k, Const) else repr(k),
                            self.arg(x)) for k, x in r.items.values())
            if isinstance(r, OArr):
                flat = [self.arg(r_) for r_ in self.oitems(r)]
                return Lst(flat) if r.shape else (flat[0])
        if isinstance(v, Opaque):
            return leaf('opaque:' + v.why, (), 'f8', 'opaque')
        return leaf('obj:' + repr(v), (), 'f8', 'opaque')

    def term(self, v):
        a = self.arg(v)
        if isinstance(a, T):
            return a
        if isinstance(a, (tuple, list)):
            return mk('call', 'numpy.asarray', (a,), ())
        return const(a)

    def static(self, v):
        """Python object of a fully known value; raises ValueError."""
        ip = self.ip
        a = v if not isinstance(v, V) else self.arg(v)

        def ok(x):
            if isinstance(x, T):
                if not x.leaves or ip.decide(mk('truth', x)) is not None \
                   and all(tm.is_ordered(f) for f in x.leaves):
                    return
                raise ValueError()
            if isinstance(x, tuple):
                for y in x:
                    ok(y)
        ok(a)
        return REP.ev(a)

    def as_int(self, v):
        """int of a known integer value, or None"""
        if isinstance(v, Const) and isinstance(v.v, (int, np.integer)):
            return v.v
        if isinstance(v, Num) and not v.t.leaves:
            x = v.t.rep
            if isinstance(x, (int, np.integer)):
                return int(x)
        if isinstance(v, Num) and all(tm.is_ordered(f) for f in v.t.leaves):
            x = v.t.rep
            if isinstance(x, (int, np.integer)):
                self.ip.facts.append((mk('bin', '==', v.t, int(x)), True))
                return int(x)
        if isinstance(v, Ref) and isinstance(self.ip.rec(v), Arr):
            t = self.ip.read(v)
            if all(tm.is_ordered(f) for f in t.leaves) and \
               np.ndim(t.rep) == 0 and np.asarray(t.rep).dtype.kind in 'iu':
                return int(t.rep)
        return None

    def wrap(self, t, hint=None):
        """Term -> value; definite evaluation errors become exceptions."""
        ip = self.ip
        if not isinstance(t, T):
            return Const(t)
        if t.op == 'leaf' and t.args[3] == 'opaque':
            return Num(t)
        try:
            r = t.rep
        except TermError as e:
            return ip.opaque('unmodelled operation (%s)' % e)
        except Exception as e:
            if t.opaque:
                return ip.opaque('operation on unmodelled value')
            ip.event('numpy_error', exc=type(e).__name__, msg=str(e)[:90])
            ip.throw(type(e).__name__, Const(str(e)))
        return self.by_rep(t, r)

    def by_rep(self, t, r):
        ip = self.ip
        if isinstance(r, np.ndarray):
            if r.dtype == object:
                if not t.leaves:
                    return self.oarr_of(r)
                if t.opaque:
                    return ip.opaque('object array')
                return ip.arr(t)
            return ip.arr(t)
        if r is None:
            return NONE
        if isinstance(r, (bool, np.bool_)):
            d = ip.decide(mk('truth', t))
            if d is not None:
                return Const(d)
            return Num(t)
        if isinstance(r, (np.generic, int, float, complex)):
            if not t.leaves and not isinstance(r, np.generic):
                return Const(r)
            return Num(t)
        if isinstance(r, tuple):
            return Tup(self.by_rep(mk('getitem', t, i), x)
                       for i, x in enumerate(r))
        if isinstance(r, list):
            return ip.alloc(LObj([self.by_rep(mk('getitem', t, i), x)
                                  for i, x in enumerate(r)]))
        if isinstance(r, (str, np.dtype)) or not t.leaves:
            return Const(r)
        return ip.opaque('value of type ' + type(r).__name__)

    def oarr_of(self, r):
        items = []
        for x in r.ravel():
            items.append(Const(x) if not isinstance(x, np.ndarray)
                         else self.ip.arr(const(Lst(x.tolist()))))
        store = self.ip.alloc(LObj(items))
        return self.ip.alloc(OArr(r.shape, store,
                                  np.arange(r.size).reshape(r.shape)))

    def new_oarr(self, shape, fill=NONE):
        shape = tuple(int(n) for n in shape)
        n = int(np.prod(shape, dtype=int))
        store = self.ip.alloc(LObj([fill] * n))
        return self.ip.alloc(OArr(shape, store, np.arange(n).reshape(shape)))

    def oitems(self, r):
        s = self.ip.rec(r.store).items
        return [s[i] for i in r.index.ravel()]

    def isarr(self, v):
        return isinstance(v, Ref) and isinstance(self.ip.rec(v), Arr)

    def isoarr(self, v):
        return isinstance(v, Ref) and isinstance(self.ip.rec(v), OArr)

    def format(self, text, how, a, k):
        """Formatted string, exact if the arguments are known."""
        def py(v):
            try:
                return self.static(v)
            except Exception:
                return _Text(self.text(v))
        try:
            return how(text, [py(x) for x in a],
                       {n: py(x) for n, x in k.items()})
        except Exception:
            return text

    def text(self, v):
        if isinstance(v, Const):
            return str(v.v) if not isinstance(v.v, (AInt,)) else str(int(v.v))
        if isinstance(v, Ref):
            r = self.ip.heap[v.oid]
            if isinstance(r, (ClsObj, FnObj)):
                return '<%s>' % r.name
        return '<%s>' % type(v).__name__

    # ----------------------------------------------------------- sequences

    def seq(self, v):
        ip = self.ip
        if isinstance(v, Phi):
            d = ip.decide(v.c)
            if d is not None:
                return self.seq(v.a if d else v.b)
            sa, sb = self.seq(v.a), self.seq(v.b)
            if sa is not None and sb is not None and len(sa) == len(sb):
                return [ip.mergev(v.c, x, y) for x, y in zip(sa, sb)]
            return None
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Const):
            if isinstance(v.v, str):
                return [Const(c) for c in v.v]
            if v.v is None or isinstance(v.v, (int, float)):
                ip.throw('TypeError', 'not iterable')
            if isinstance(v.v, (tuple, list)):
                return [x if isinstance(x, V) else Const(x) for x in v.v]
            return None
        if isinstance(v, Num):
            ip.throw('TypeError', 'not iterable')
        if isinstance(v, Ref):
            r = ip.rec(v)
            if isinstance(r, LObj):
                return list(r.items)
            if isinstance(r, DObj):
                return [k for k, _ in r.items.values()]
            if isinstance(r, SObj):
                items = list(r.items.values())
                if len(items) > 1:
                    ip.event('unordered_iteration', n=len(items))
                return items[::ip.set_order]
            if isinstance(r, GenObj):
                return ip.gen_items(v)
            if isinstance(r, It):
                items = r.items[r.pos:]
                ip.put(v, r.but(pos=len(r.items)))
                return items
            if isinstance(r, Arr):
                t = ip.read(v)
                try:
                    n = len(t.rep)
                except TypeError:
                    ip.throw('TypeError', 'iteration over a 0-d array')
                return [ip.getitem(v, Const(i)) for i in range(n)]
            if isinstance(r, OArr):
                return [ip.getitem(v, Const(i)) for i in range(r.shape[0])]
            if isinstance(r, Inst):
                f = ip.getattr(v, '__iter__', None)
                if f is not None:
                    return self.seq(ip.call(f, [], {}))
                return None
            ip.throw('TypeError', 'not iterable')
        if isinstance(v, Host) and 'items' in v.attrs:
            return list(v.attrs['items'])
        return None

    def as_dict(self, v):
        """[(str key, value)] of a mapping, or None."""
        ip = self.ip
        if isinstance(v, Phi):
            d = ip.decide(v.c)
            if d is not None:
                return self.as_dict(v.a if d else v.b)
            a, b = self.as_dict(v.a), self.as_dict(v.b)
            if a is None or b is None or \
               [k for k, _ in a] != [k for k, _ in b]:
                return None
            return [(k, ip.mergev(v.c, x, y))
                    for (k, x), (_, y) in zip(a, b)]
        if isinstance(v, Ref):
            r = ip.prim(lambda: ip.rec(v))
            if isinstance(r, DObj):
                return [(k.v if isinstance(k, Const) else k, x)
                        for k, x in r.items.values()]
        return None

    def dict_update(self, ref, v):
        ip = self.ip
        if isinstance(v, Phi):
            ip.fork(v.c, lambda: self.dict_update(ref, v.a),
                    lambda: self.dict_update(ref, v.b))
            return
        if isinstance(v, Ref) and isinstance(ip.rec(v), DObj):
            new = dict(ip.rec(ref).items)
            new.update(ip.rec(v).items)
            self.touch(ref)
            ip.put(ref, ip.rec(ref).but(items=new))
            return
        items = self.seq(v)
        if items is None:
            ip.opaque('dict update')
            return
        for x in items:
            k, z = self.seq(x)
            ip.setitem(ref, k, z)

    def touch(self, ref):
        """Record the mutation of a container."""
        r = self.ip.rec(ref)
        if isinstance(r, Space):
            return
        self.ip.event('mutate', root=ref, ref=ref, origin=r.origin)

    # ---------------------------------------------------------- attributes

    def ext_attr(self, e, name):
        if e.path == 'inspect.Parameter' and name in KINDS:
            return Const(name)
        path = e.path + '.' + name
        path = CANON.get(path, path)
        if path in self.ip.std:
            return self.ip.std[path]
        if path in EXT_CONST:
            return Const(resolve(path))
        if path == 'numpy.index_exp':
            return Ext(path)
        try:
            obj = resolve(path)
        except TermError:
            return Ext(path)
        except AttributeError:
            self.ip.throw('AttributeError', name)
        if isinstance(obj, (float, str)) and not isinstance(obj, type):
            return Const(obj)
        if isinstance(obj, int) and not isinstance(obj, type):
            return Const(obj)
        return Ext(path)

    def ext_class_attr(self, path, name):
        """Attribute of an external base class (raw)."""
        if path == 'numpy.ndarray':
            if name in ('__new__',):
                return None
            return None
        if path == 'builtins.type':
            if name == '__call__':
                def call(ip, a, k):
                    return ip.instantiate(a[0], a[1:], k)
                return Host(call, 'type.__call__', types=('method',))
        return None

    def value_attr(self, v, name):
        ip = self.ip
        if isinstance(v, Ext):
            if v.path in ('builtins.object', 'numpy.ndarray',
                          'builtins.type') or v.path in CLASSLIKE:
                if name == '__name__':
                    return Const(v.path.split('.')[-1])
                if name == '__dict__':
                    return ip.alloc(DObj({}))
            try:
                return self.ext_attr(v, name)
            except AttributeError:
                return None
        if isinstance(v, Opaque):
            return Opaque(v.why + '.' + name)
        if isinstance(v, Const):
            if isinstance(v.v, str):
                return Host(lambda ip, a, k: self.str_method(
                    v, name, a, k), 'str.' + name) \
                    if hasattr('', name) else None
            if v.v is None or v.v is Ellipsis:
                return None
            if isinstance(v.v, (int, float, complex)) and \
               not isinstance(v.v, np.generic):
                if name in ('real', 'imag', 'numerator'):
                    return Const(getattr(v.v, name))
                c = v.v
                if isinstance(c, bool) and not hasattr(c, name):
                    c = np.bool_(c)     # decided truth of numpy values
                if not hasattr(c, name):
                    return None
                return Host(lambda ip, a, k: self.wrap(
                    mk('meth', name, const(c),
                       tuple(self.arg(x) for x in a), ())))
            if hasattr(v.v, name):
                x = getattr(v.v, name)
                if callable(x) and not isinstance(x, type):
                    return Host(lambda ip, a, k: Const(
                        x(*[self.static(z) for z in a])))
                if isinstance(x, type):
                    return Ext('numpy.' + x.__name__)
                return Const(x)
            return None
        if isinstance(v, Num):
            return self.num_attr(v, name)
        if isinstance(v, Tup):
            if name in ('index', 'count'):
                def f(ip, a, k):
                    ks = [ip.key(x) for x in v.items]
                    kk = ip.key(a[0])
                    if name == 'count':
                        return Const(ks.count(kk))
                    if kk not in ks:
                        ip.throw('ValueError')
                    return Const(ks.index(kk))
                return Host(f)
            return None
        if isinstance(v, Host):
            if name in v.attrs:
                return v.attrs[name]
            if name == '__name__':
                return Const(v.name)
            if name == '__call__':
                return v
            return None
        if isinstance(v, BoundM):
            if name == '__self__':
                return v.self
            if name == '__func__':
                return v.func
            if name == '__call__':
                return v
            return ip.getattr(v.func, name, None)
        if isinstance(v, ExcV):
            if name == 'args':
                return Tup([x if isinstance(x, V) else Const(x)
                            for x in v.args])
            return None
        if isinstance(v, PropV):
            if name in ('setter', 'getter'):
                return Host(lambda ip, a, k: PropV(v.fget, a[0])
                            if name == 'setter' else PropV(a[0], v.fset))
            if name == 'fget':
                return v.fget
            if name == '__doc__':
                return NONE
            return None
        if isinstance(v, SliceV):
            if name == 'indices':
                def indices(ip, a, k):
                    try:
                        s = slice(*(self.static(x) for x in (v.a, v.b, v.c)))
                        return Tup(Const(x) for x in s.indices(
                            self.static(a[0])))
                    except ValueError:
                        return ip.opaque('slice.indices')
                return Host(indices, 'slice.indices')
            return {'start': v.a, 'stop': v.b, 'step': v.c}.get(name)
        if isinstance(v, (StaticM, ClassM)) and name == '__func__':
            return v.func
        return None

    def num_attr(self, v, name):
        ip = self.ip
        if v.t.opaque and v.t.op == 'leaf':
            return Opaque('attribute of ' + v.t.args[0])
        try:
            r = v.t.rep
        except Exception:
            return Opaque('attribute of unmodelled number')
        if name == 'shape':
            return Tup(()) if isinstance(r, np.generic) else None
        if name == 'ndim':
            return Const(0) if isinstance(r, np.generic) else None
        if name == 'size':
            return Const(1) if isinstance(r, np.generic) else None
        if name == 'dtype':
            return Const(r.dtype) if isinstance(r, np.generic) else None
        if not hasattr(r, name):
            return None
        if name in ('real', 'imag'):
            return self.wrap(mk('attr', name, v.t))
        if name in ('T',):
            return v
        return Host(lambda ip, a, k: self.wrap(mk(
            'meth', name, v.t, tuple(self.arg(x) for x in a),
            self.kwargs(k))), 'scalar.' + name)

    def kwargs(self, kw):
        return tuple(sorted((k, self.arg(x)) for k, x in kw.items()))

    def str_method(self, v, name, a, k):
        ip = self.ip
        if name == 'format':
            return Const(self.format(v.v, lambda f, a, k: f.format(*a, **k),
                                     a, k))
        if name == 'join':
            items = self.seq(a[0])
            return Const(v.v.join(self.text(x) for x in items or []))
        try:
            r = getattr(v.v, name)(*[self.static(x) for x in a])
        except ValueError:
            return ip.opaque('str.' + name)
        if isinstance(r, list):
            return ip.alloc(LObj([Const(x) for x in r]))
        if isinstance(r, tuple):
            return Tup(Const(x) for x in r)
        return Const(r)

    def obj_attr(self, obj, r, name):
        ip = self.ip
        if isinstance(r, Arr):
            if name in r.attrs:
                return r.attrs[name]
            return self.arr_attr(obj, name)
        if isinstance(r, OArr):
            return self.oarr_attr(obj, r, name)
        if isinstance(r, Inst):
            if name in r.attrs:
                return r.attrs[name]
            return self.inst_attr(obj, r, name)
        if isinstance(r, DView):
            if name != 'isdisjoint':
                return None
            new = ip.alloc(SObj(self.setof(obj)))
            return Host(lambda ip, a, k: self.set_isdisjoint(new, a, k), name)
        if isinstance(r, LObj):
            f = getattr(self, 'list_' + name, None)
        elif isinstance(r, DObj):
            f = getattr(self, 'dict_' + name, None)
            if name == 'update':
                def f(ref, a, k):
                    if a:
                        self.dict_update(ref, a[0])
                    for kk, z in k.items():
                        ip.setitem(ref, Const(kk), z)
                    return NONE
        elif isinstance(r, SObj):
            f = getattr(self, 'set_' + name, None)
        else:
            return None
        if f is None:
            if hasattr([] if isinstance(r, LObj) else {}
                       if isinstance(r, DObj) else set(), name):
                return self.ip.opaque('method ' + name)
            return None
        return Host(lambda ip, a, k: f(obj, a, k), name)

    # lists
    def list_append(self, ref, a, k):
        self.touch(ref)
        r = self.ip.rec(ref)
        self.ip.put(ref, r.but(items=r.items + [a[0]]))
        return NONE

    def list_extend(self, ref, a, k):
        s = self.seq(a[0])
        if s is None:
            self.ip.opaque('extend')
            return NONE
        self.touch(ref)
        r = self.ip.rec(ref)
        self.ip.put(ref, r.but(items=r.items + s))
        return NONE

    def list_insert(self, ref, a, k):
        self.touch(ref)
        r = self.ip.rec(ref)
        i = self.as_int(a[0])
        if i is None:
            self.ip.opaque('insert at unknown position')
            return NONE
        items = list(r.items)
        items.insert(i, a[1])
        self.ip.put(ref, r.but(items=items))
        return NONE

    def list_pop(self, ref, a, k):
        self.touch(ref)
        r = self.ip.rec(ref)
        i = self.as_int(a[0]) if a else -1
        items = list(r.items)
        try:
            x = items.pop(i)
        except IndexError:
            self.ip.throw('IndexError')
        self.ip.put(ref, r.but(items=items))
        return x

    def list_remove(self, ref, a, k):
        self.touch(ref)
        r = self.ip.rec(ref)
        ks = [self.ip.key(x) for x in r.items]
        kk = self.ip.key(a[0])
        if kk not in ks:
            self.ip.throw('ValueError')
        items = list(r.items)
        del items[ks.index(kk)]
        self.ip.put(ref, r.but(items=items))
        return NONE

    def list_index(self, ref, a, k):
        return self.ip.call(self.value_attr(Tup(self.ip.rec(ref).items),
                                            'index'), a, k)

    def list_count(self, ref, a, k):
        return self.ip.call(self.value_attr(Tup(self.ip.rec(ref).items),
                                            'count'), a, k)

    def list_copy(self, ref, a, k):
        return self.ip.alloc(LObj(self.ip.rec(ref).items))

    def list_clear(self, ref, a, k):
        self.touch(ref)
        self.ip.put(ref, self.ip.rec(ref).but(items=[]))
        return NONE

    def list_reverse(self, ref, a, k):
        self.touch(ref)
        r = self.ip.rec(ref)
        self.ip.put(ref, r.but(items=r.items[::-1]))
        return NONE

    def list_sort(self, ref, a, k):
        self.touch(ref)
        r = self.ip.rec(ref)
        s = self.sort_items(r.items, k)
        if s is None:
            self.ip.opaque('sort')
            return NONE
        self.ip.put(ref, r.but(items=s))
        return NONE

    def sort_items(self, items, k):
        ip = self.ip
        keyf = k.get('key')
        keys = [ip.call(keyf, [x], {}) if keyf not in (None, NONE) else x
                for x in items]
        try:
            ks = [self.static(x) for x in keys]
            order = sorted(range(len(ks)), key=lambda i: ks[i])
        except (ValueError, TypeError):
            return None
        if 'reverse' in k and ip.truth(k['reverse']) is True:
            order = order[::-1]
        return [items[i] for i in order]

    # dicts
    def dict_get(self, ref, a, k):
        r = self.ip.rec(ref)
        kk = self.ip.key(a[0])
        if kk in r.items:
            return r.items[kk][1]
        return a[1] if len(a) > 1 else k.get('default', NONE)

    def dict_items(self, ref, a, k):
        return self.ip.alloc(DView([Tup(p) for p in
                                    self.ip.rec(ref).items.values()]))

    def dict_keys(self, ref, a, k):
        return self.ip.alloc(DView([p[0] for p in
                                    self.ip.rec(ref).items.values()]))

    def dict_values(self, ref, a, k):
        return self.ip.alloc(LObj([p[1] for p in
                                   self.ip.rec(ref).items.values()]))

    def dict_copy(self, ref, a, k):
        return self.ip.alloc(DObj(self.ip.rec(ref).items))

    def dict_pop(self, ref, a, k):
        r = self.ip.rec(ref)
        kk = self.ip.key(a[0])
        if kk not in r.items:
            if len(a) > 1:
                return a[1]
            self.ip.throw('KeyError')
        self.touch(ref)
        items = dict(r.items)
        v = items.pop(kk)[1]
        self.ip.put(ref, r.but(items=items))
        return v

    def dict_setdefault(self, ref, a, k):
        r = self.ip.rec(ref)
        kk = self.ip.key(a[0])
        if kk in r.items:
            return r.items[kk][1]
        v = a[1] if len(a) > 1 else NONE
        self.ip.setitem(ref, a[0], v)
        return v

    def dict_clear(self, ref, a, k):
        self.touch(ref)
        self.ip.put(ref, self.ip.rec(ref).but(items={}))
        return NONE

    def dict_popitem(self, ref, a, k):
        r = self.ip.rec(ref)
        if not r.items:
            self.ip.throw('KeyError')
        self.touch(ref)
        items = dict(r.items)
        p = items.popitem()[1]
        self.ip.put(ref, r.but(items=items))
        return Tup(p)

    def dict_move_to_end(self, ref, a, k):
        self.touch(ref)
        r = self.ip.rec(ref)
        kk = self.ip.key(a[0])
        if kk not in r.items:
            self.ip.throw('KeyError')
        items = dict(r.items)
        p = {kk: items.pop(kk)}
        last = a[1] if len(a) > 1 else k.get('last', TRUE)
        items = {**items, **p} if self.ip.truth(last) is True else \
            {**p, **items}
        self.ip.put(ref, r.but(items=items))
        return NONE

    # sets
    def setof(self, v):
        s = self.seq_quiet(v)
        return None if s is None else {self.ip.key(x): x for x in s}

    def seq_quiet(self, v):
        if isinstance(v, Ref) and isinstance(self.ip.rec(v), SObj):
            return list(self.ip.rec(v).items.values())
        return self.seq(v)

    def set_add(self, ref, a, k):
        self.touch(ref)
        r = self.ip.rec(ref)
        self.ip.put(ref, r.but(items={**r.items, self.ip.key(a[0]): a[0]}))
        return NONE

    def set_discard(self, ref, a, k):
        self.touch(ref)
        r = self.ip.rec(ref)
        items = dict(r.items)
        items.pop(self.ip.key(a[0]), None)
        self.ip.put(ref, r.but(items=items))
        return NONE

    set_remove = set_discard

    def set_update(self, ref, a, k):
        self.touch(ref)
        items = dict(self.ip.rec(ref).items)
        for x in a:
            items.update(self.setof(x))
        self.ip.put(ref, self.ip.rec(ref).but(items=items))
        return NONE

    def set_copy(self, ref, a, k):
        return self.ip.alloc(SObj(self.ip.rec(ref).items))

    def set_union(self, ref, a, k):
        items = dict(self.ip.rec(ref).items)
        for x in a:
            items.update(self.setof(x))
        return self.ip.alloc(SObj(items))

    def set_difference(self, ref, a, k):
        items = dict(self.ip.rec(ref).items)
        for x in a:
            for kk in self.setof(x):
                items.pop(kk, None)
        return self.ip.alloc(SObj(items))

    def set_intersection(self, ref, a, k):
        items = dict(self.ip.rec(ref).items)
        for x in a:
            s = self.setof(x)
            items = {kk: z for kk, z in items.items() if kk in s}
        return self.ip.alloc(SObj(items))

    def set_symmetric_difference(self, ref, a, k):
        s, o = self.ip.rec(ref).items, self.setof(a[0])
        items = {kk: z for kk, z in s.items() if kk not in o}
        items.update({kk: z for kk, z in o.items() if kk not in s})
        return self.ip.alloc(SObj(items))

    def set_issubset(self, ref, a, k):
        o = self.setof(a[0])
        return Const(all(x in o for x in self.ip.rec(ref).items))

    def set_issuperset(self, ref, a, k):
        s = self.ip.rec(ref).items
        return Const(all(x in s for x in self.setof(a[0])))

    def set_isdisjoint(self, ref, a, k):
        s = self.ip.rec(ref).items
        return Const(not any(x in s for x in self.setof(a[0])))

    # object arrays
    def oarr_attr(self, obj, r, name):
        ip = self.ip
        if name == 'shape':
            return Tup(Const(_dim(n)) for n in r.shape)
        if name == 'ndim':
            return Const(len(r.shape))
        if name == 'size':
            return Const(_dim(r.index.size))
        if name == 'dtype':
            return Const(np.dtype(object))
        if name in ('copy', 'flatten'):
            def f(ip, a, k):
                idx = r.index if name == 'copy' else r.index.ravel()
                new = self.new_oarr(idx.shape)
                ip.put(ip.rec(new).store, LObj(self.oitems(r)))
                return new
            return Host(f)
        if name in ('ravel', 'reshape', 'swapaxes', 'transpose', 'squeeze'):
            def f(ip, a, k):
                idx = getattr(r.index, name)(*[self.static(x) for x in a])
                return ip.alloc(OArr(idx.shape, r.store, idx))
            return Host(f)
        if name in ('tolist',):
            return Host(lambda ip, a, k: ip.alloc(LObj(self.oitems(r))))
        if name == 'fill':
            def f(ip, a, k):
                self.setitem(obj, Const(Ellipsis), a[0])
                return NONE
            return Host(f)
        return ip.opaque('object array attribute ' + name)

    # ------------------------------------------------------------- arrays

    def arr_attr(self, obj, name):
        ip = self.ip
        t = ip.read(obj)
        try:
            rep = t.rep
        except Exception:
            return ip.opaque('attribute of unmodelled array')
        if name == 'shape':
            return Tup(Const(_dim(n)) for n in rep.shape)
        if name == 'ndim':
            return Const(rep.ndim)
        if name == 'size':
            return Const(_dim(rep.size))
        if name == 'dtype':
            return Const(rep.dtype)
        if name == '__class__':
            return ip.rec(obj).cls or Ext('numpy.ndarray')
        if name in ARR_ATTRS:
            if name in ('real', 'imag') and rep.dtype.kind == 'c' or \
               name in ('T', 'real'):
                return self.view(obj, (name, (), ()))
            return self.wrap(mk('attr', name, t))
        if name == 'base':
            r = ip.rec(obj)
            return r.base or NONE
        if name in ('flat', 'data', 'flags', 'strides', '__dict__'):
            return ip.opaque('array attribute ' + name)
        if name in ('__array_finalize__',):
            return NONE
        if not hasattr(np.ndarray, name):
            return None
        return Host(lambda ip, a, k: self.arr_method(obj, name, a, k),
                    'ndarray.' + name)

    def view(self, obj, op, cls=None, ro=False):
        """New array object viewing obj through a view operation."""
        ip = self.ip
        r = ip.rec(obj)
        base = ip.root(obj)
        chain = (r.chain if r.base is not None else ()) + (
            (op,) if op else ())
        t = mk('view', ip.rec(base).term, chain) if chain else \
            ip.rec(base).term
        try:
            rep = t.rep
        except TermError as e:
            return ip.opaque(str(e))
        except Exception as e:
            if t.opaque:
                return ip.opaque('view of unmodelled value')
            ip.event('numpy_error', exc=type(e).__name__, msg=str(e)[:90])
            ip.throw(type(e).__name__, Const(str(e)))
        if not isinstance(rep, np.ndarray):
            return Num(t)
        rr = ip.rec(base)
        if op and op[0] in ('reshape', 'ravel', 'np.reshape', 'np.ravel') \
           and len(chain) > 1 and rep.size:
            d = self.layout(base, chain[:-1])
            if not np.shares_memory(tm.apply_view(d, chain[-1:], REP.ev), d):
                return ip.alloc(Arr(t, cls))
        return ip.alloc(Arr(None, cls, {}, base, chain, rr.origin,
                            ro or r.ro))

    def layout(self, base, chain):
        """An array laid out in memory as a view of an owner."""
        d = self.ip.rec(base).term.rep
        return tm.apply_view(np.empty(np.shape(d), np.asarray(d).dtype),
                             chain, REP.ev)

    def contiguous(self, obj):
        r = self.ip.rec(obj)
        return r.base is None or \
            self.layout(r.base, r.chain).flags.c_contiguous

    def finalize(self, new, src):
        """__array_finalize__ of a program class."""
        ip = self.ip
        r = ip.rec(new)
        if isinstance(r.cls, Ref):
            f = ip.class_lookup(r.cls, '__array_finalize__')
            if isinstance(f, Ref):
                ip.call(f, [new, src], {})
        return new

    def arr_method(self, obj, name, a, k):
        ip = self.ip
        t = ip.read(obj)
        r = ip.rec(obj)
        self.maybe_raise()
        if name == 'view':
            if not a and not k:
                return self.finalize(self.view(obj, None, cls=r.cls), obj)
            c = a[0] if a else list(k.values())[0]
            if isinstance(c, Ref) and isinstance(ip.rec(c), ClsObj):
                return self.finalize(self.view(obj, None, cls=c), obj)
            if isinstance(c, Ext) and c.path == 'numpy.ndarray':
                return self.view(obj, None)
            return ip.arr(mk('meth', 'view', t, tuple(
                self.arg(x) for x in a), self.kwargs(k)))
        if name == 'copy':
            new = ip.arr(t)
            if isinstance(r.cls, Ref):
                ip.put(new, ip.rec(new).but(cls=r.cls))
                self.finalize(new, obj)
            return new
        if name == 'astype':
            dt = a[0] if a else k['dtype']
            copy = k.get('copy', a[4] if len(a) > 4 else TRUE)
            d = self.arg(dt)
            d = np.dtype(float) if d is None else np.dtype(d)
            if d == t.rep.dtype and ip.truth(copy) is False:
                return obj
            if d == t.rep.dtype:
                return ip.arr(t)
            return ip.arr(mk('cast', d, t))
        if name in METH_VIEWS:
            op = (name, tuple(self.arg(x) for x in a), self.kwargs(k))
            v = self.view(obj, op, cls=r.cls)
            return self.finalize(v, obj) if isinstance(r.cls, Ref) else v
        if name in METH_MUTATE:
            if name == 'fill':
                ip.write(obj, self.term(a[0]))
                return NONE
            if name == 'sort':
                ip.write(obj, mk('call', 'numpy.sort', (t,) + tuple(
                    self.arg(x) for x in a), self.kwargs(k)))
                return NONE
            ip.write(obj, mk('leaf', 'mutated by ' + name, (), 'f8',
                             'opaque', None))
            return NONE
        if name == 'clip':
            return self.ip.call(Ext('numpy.clip'), [obj] + list(a), {
                {'min': 'a_min', 'max': 'a_max'}.get(n, n): x
                for n, x in k.items()})
        if name == 'item' or name == 'tolist':
            return self.wrap(mk('meth', name, t, tuple(
                self.arg(x) for x in a), self.kwargs(k)))
        if name == '__getitem__':
            return self.getitem_arr(obj, a[0])
        if name == '__setitem__':
            self.setitem(obj, a[0], a[1])
            return NONE
        out = k.pop('out', None) if 'out' in k else None
        if name in ('__array_wrap__', '__array_prepare__'):
            return a[0]
        if name.startswith('__'):
            op = {'__add__': '+', '__sub__': '-', '__mul__': '*',
                  '__truediv__': '/', '__pow__': '**', '__neg__': 'u-',
                  '__matmul__': '@', '__lt__': '<', '__le__': '<=',
                  '__gt__': '>', '__ge__': '>=', '__eq__': '==',
                  '__ne__': '!='}.get(name)
            if op and len(a) == 1:
                return self.binop_arr(op, obj, a[0]) \
                    if op in '+-*/**@' else self.compare(op, obj, a[0])
            if op == 'u-':
                return self.unop('-', obj)
            return ip.opaque('ndarray.' + name)
        term = mk('meth', name, t, tuple(self.arg(x) for x in a),
                  self.kwargs(k))
        return self.finish(term, out)

    def finish(self, term, out):
        """Result of a numpy operation with an optional output array."""
        ip = self.ip
        if out is None or out == NONE or (
                isinstance(out, Const) and out.v is None):
            return self.wrap(term)
        if isinstance(out, Tup):
            out = out.items[0]
        if isinstance(out, Phi):
            return ip.fork(out.c, lambda: self.finish(term, out.a),
                           lambda: self.finish(term, out.b))
        if not term.opaque:
            try:
                x, y = term.rep, ip.read(out).rep
                ok = np.can_cast(np.asarray(x).dtype, y.dtype, 'same_kind')
            except TermError:
                ok = True
            except Exception as e:
                ip.throw(type(e).__name__, Const(str(e)))
            if not ok:
                ip.throw('TypeError', 'cannot cast ufunc output')
            if np.broadcast_shapes(np.shape(x), y.shape) != y.shape:
                ip.throw('ValueError', 'non-broadcastable output')
        ip.write(out, term)
        return out

    def subclass_input(self, inputs):
        """First input with the highest array priority among instances of
        program subclasses defining the array wrapping protocol."""
        ip = self.ip
        best = None
        for v in inputs:
            if isinstance(v, Ref):
                r = ip.rec(v)
                if isinstance(r, Arr) and isinstance(r.cls, Ref) and (
                        ip.class_lookup(r.cls, '__array_wrap__') or
                        ip.class_lookup(r.cls, '__array_prepare__')):
                    pr = ip.class_lookup(r.cls, '__array_priority__')
                    p = pr.v if isinstance(pr, Const) else 0.
                    if best is None or p > best[0]:
                        best = (p, v)
        return None if best is None else best[1]

    def ufunc_call(self, name, inputs, term, out=None):
        """Apply a ufunc, with the wrapping protocol of array subclasses."""
        ip = self.ip
        self.maybe_raise()
        if isinstance(out, Tup):
            out = out.items[0]
        outv = None if out is None or out == NONE or (
            isinstance(out, Const) and out.v is None) else out
        for i, v in enumerate(inputs):
            if isinstance(v, Ref):
                r = ip.rec(v)
                if isinstance(r, Arr) and isinstance(r.cls, Ref):
                    f = ip.class_lookup(r.cls, '__array_ufunc__')
                    if isinstance(f, Ref):
                        return ip.call(f, [v, Ext('numpy.' + name),
                                           Const('__call__')] +
                                       list(inputs), {} if outv is None
                                       else {'out': Tup((outv,))})
                    if isinstance(f, Const) and f.v is None:
                        ip.throw('TypeError', 'ufunc not supported')
        sub = self.subclass_input([outv] if outv is not None else inputs)
        if sub is None:
            return self.finish(term, outv)
        ctx = Tup([Ext('numpy.' + name), Tup(list(inputs) + (
            [outv] if outv is not None else [])), Const(0)])
        try:
            rep = term.rep
        except TermError as e:
            return ip.opaque(str(e))
        except Exception as e:
            if term.opaque:
                return ip.opaque('ufunc of unmodelled value')
            rep = None
            # shape mismatch is detected before wrapping
            ip.event('numpy_error', exc=type(e).__name__, msg=str(e)[:90])
            ip.throw(type(e).__name__, Const(str(e)))
        cls = ip.rec(sub).cls
        res = outv if outv is not None else ip.arr(
            term if isinstance(rep, np.ndarray)
            else mk('call', 'numpy.asarray', (term,), ()))
        prep = ip.class_lookup(cls, '__array_prepare__')
        if isinstance(prep, Ref):
            pres = ip.call(prep, [sub, res, ctx], {})
            if isinstance(pres, Ref):
                res = pres
        if outv is not None:
            self.finish(term, outv)
            res = outv
        wrapf = ip.class_lookup(cls, '__array_wrap__')
        if isinstance(wrapf, Ref):
            res = ip.call(wrapf, [sub, res, ctx], {})
        return res

    # --------------------------------------------------------- operators

    def unop(self, op, v):
        ip = self.ip
        if isinstance(v, Const):
            x = v.v
            if op == '-' and isinstance(x, (int, float, complex)):
                return Const(type(x)(-x) if type(x) in (AInt, LInt) else -x)
            if op == '+' and isinstance(x, (int, float, complex)):
                return v
            if op == '~' and isinstance(x, int):
                return Const(~x)
            ip.throw('TypeError', 'bad operand')
        if isinstance(v, Num):
            return self.wrap(mk('un', op, v.t))
        if isinstance(v, Ref):
            r = ip.rec(v)
            if isinstance(r, Arr):
                nm = {'-': 'negative', '+': 'positive', '~': 'invert'}[op]
                return self.ufunc_call(nm, [v], mk('un', op, ip.read(v)))
            if isinstance(r, Inst):
                f = ip.getattr(v, {'-': '__neg__', '+': '__pos__',
                                   '~': '__invert__'}[op], None)
                if f is not None:
                    return ip.call(f, [], {})
        if isinstance(v, Opaque):
            return v
        ip.throw('TypeError', 'bad operand')

    UFN = {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'true_divide',
           '//': 'floor_divide', '%': 'remainder', '**': 'power',
           '@': 'matmul', '<': 'less', '<=': 'less_equal', '>': 'greater',
           '>=': 'greater_equal', '==': 'equal', '!=': 'not_equal',
           '&': 'bitwise_and', '|': 'bitwise_or', '^': 'bitwise_xor',
           '<<': 'left_shift', '>>': 'right_shift'}

    def binop(self, op, a, b):
        ip = self.ip
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return a if isinstance(a, Opaque) else b
        if isinstance(a, Const) and isinstance(b, Const):
            return self.const_binop(op, a.v, b.v)
        for v, w, pre in ((a, b, '__%s__'), (b, a, '__r%s__')):
            if isinstance(v, Ref) and isinstance(ip.rec(v), Inst):
                nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv',
                      '**': 'pow', '@': 'matmul', '//': 'floordiv',
                      '%': 'mod'}.get(op)
                f = ip.getattr(v, pre % nm, None) if nm else None
                if f is not None:
                    return ip.call(f, [w], {})
                if isinstance(ip.rec(v).cls, Ref):
                    ip.throw('TypeError', 'unsupported operand')
                return ip.opaque('operator on ' + repr(ip.rec(v).cls))
        if self.isarr(a) or self.isarr(b):
            return self.binop_arr(op, a, b)
        if is_number(a) and is_number(b):
            t = mk('bin', op, ip.num(a), ip.num(b))
            return self.wrap(t)
        for x, y in ((a, b), (b, a)):
            # sequences are converted by numpy scalars, but not repeated
            if op != '*' and isinstance(x, Num) and x.t.op != 'leaf' and (
                    isinstance(y, Tup) or isinstance(y, Ref) and
                    isinstance(ip.rec(y), LObj)):
                try:
                    gen = isinstance(x.t.rep, np.generic)
                except Exception:
                    gen = False
                if gen:
                    c = ip.arr(self.term(y))
                    return self.binop_arr(op, x, c) if x is a else \
                        self.binop_arr(op, c, x)
        if isinstance(a, Tup) and isinstance(b, Tup) and op == '+':
            return Tup(a.items + b.items)
        for x, y in ((a, b), (b, a)):
            if op == '*' and isinstance(x, Tup):
                n = self.as_int(y)
                if n is not None:
                    return Tup(x.items * int(n))
                return ip.opaque('tuple repetition')
        if isinstance(a, Const) and isinstance(a.v, str):
            if op == '%':
                vs = list(b.items) if isinstance(b, Tup) else [b]
                return Const(self.format(
                    a.v, lambda f, a, k: f % tuple(a), vs, {}))
            return ip.opaque('string operator') if is_number(b) else \
                ip.throw('TypeError')
        ra = ip.rec(a) if isinstance(a, Ref) else None
        rb = ip.rec(b) if isinstance(b, Ref) else None
        if isinstance(ra, LObj) and isinstance(rb, LObj) and op == '+':
            return ip.alloc(LObj(ra.items + rb.items))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(ip.rec(x), LObj) and \
               op == '*' and self.as_int(y) is not None:
                return ip.alloc(LObj(ip.rec(x).items * int(self.as_int(y))))
        if op in ('|', '&', '-', '^') and (
                isinstance(ra, DView) or isinstance(rb, DView)):
            a, b = (self.ip.alloc(SObj(self.setof(x))) for x in (a, b))
            ra, rb = ip.rec(a), ip.rec(b)
        if isinstance(ra, SObj) and isinstance(rb, SObj):
            f = {'|': self.set_union, '&': self.set_intersection,
                 '-': self.set_difference,
                 '^': self.set_symmetric_difference}.get(op)
            if f:
                return f(a, [b], {})
        if isinstance(ra, DObj) and isinstance(rb, DObj) and op == '|':
            return ip.alloc(DObj({**ra.items, **rb.items}))
        if isinstance(ra, OArr) or isinstance(rb, OArr):
            return ip.opaque('operator on object arrays')
        ip.throw('TypeError', 'unsupported operand')

    def const_binop(self, op, x, y):
        ip = self.ip
        if isinstance(x, AInt) and isinstance(y, LInt) and op == '%':
            return Num(leaf('mod:%d%%%d@%s' % (x, y, ip.site()), (), 'i8',
                            'int0'))
        try:
            r = tm.BIN[op](x, y)
        except Exception as e:
            if isinstance(x, str):
                return Const(x)
            ip.throw(type(e).__name__)
        if type(r) is int:
            if isinstance(x, AInt) or isinstance(y, AInt):
                r = AInt(r)
            elif (isinstance(x, LInt) or isinstance(y, LInt)) and \
                    abs(r) > 2:
                r = LInt(r)
        return Const(r)

    def binop_arr(self, op, a, b):
        return self.ufunc_call(self.UFN[op], [a, b], mk(
            'bin', op, self.term(a), self.term(b)))

    def inplace(self, op, a, b):
        ip = self.ip
        if isinstance(a, Ref):
            r = ip.rec(a)
            if isinstance(r, Arr):
                t = mk('bin', op, ip.read(a), self.term(b))
                self.maybe_raise()
                self.finish(t, a)
                return a
            if isinstance(r, LObj) and op == '+':
                self.list_extend(a, [b], {})
                return a
            if isinstance(r, SObj):
                new = self.binop(op, a, b)
                self.touch(a)
                ip.put(a, ip.rec(new))
                return a
            if isinstance(r, DObj) and op == '|':
                self.dict_update(a, b)
                return a
        return ip.binop(op, a, b)

    def compare(self, op, a, b):
        ip = self.ip
        if op in ('is', 'is not'):
            r = self.identical(a, b)
            if r is None:
                return ip.opaque('identity test')
            return Const(r if op == 'is' else not r)
        if op in ('in', 'not in'):
            return self.contains(b, a, op == 'not in')
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return a if isinstance(a, Opaque) else b
        if isinstance(a, Const) and isinstance(b, Const):
            x, y = a.v, b.v
            if _lit(x, y) or _lit(y, x):
                return Num(leaf('dim:%s%s%s@%s' % (int(x), op, y, ip.site()),
                                (), 'bool', 'bool'))
            try:
                return Const(bool(tm.BIN[op](x, y)))
            except TypeError:
                ip.throw('TypeError', 'unorderable')
        if self.isarr(a) or self.isarr(b):
            other = b if self.isarr(a) else a
            if op in ('==', '!=') and isinstance(other, Const) and \
               isinstance(other.v, (str, type(None))):
                return self.wrap(mk('bin', op, self.term(a), self.term(b)))
            return self.ufunc_call(self.UFN[op], [a, b], mk(
                'bin', op, self.term(a), self.term(b)))
        if is_number(a) and is_number(b):
            return self.wrap(mk('bin', op, ip.num(a), ip.num(b)))
        if op in ('==', '!='):
            r = self.equal(a, b)
            if isinstance(r, bool):
                return Const(r if op == '==' else not r)
            if isinstance(r, T):
                return Num(r if op == '==' else mk('un', 'not', r))
            return ip.opaque('comparison')
        ra = ip.rec(a) if isinstance(a, Ref) else None
        if isinstance(ra, DView):
            ra = SObj(self.setof(a))
        if isinstance(ra, SObj):
            s = self.setof(b)
            f = {'<=': lambda: all(x in s for x in ra.items),
                 '<': lambda: all(x in s for x in ra.items) and
                 len(s) > len(ra.items),
                 '>=': lambda: all(x in ra.items for x in s),
                 '>': lambda: all(x in ra.items for x in s) and
                 len(s) < len(ra.items)}[op]
            return Const(f())
        if isinstance(a, Tup) and isinstance(b, Tup) or isinstance(
                ra, LObj) and isinstance(b, Ref) and isinstance(
                ip.rec(b), LObj):
            try:
                return Const(bool(tm.BIN[op](self.static(a),
                                             self.static(b))))
            except (ValueError, TypeError):
                return ip.opaque('tuple ordering')
        ip.throw('TypeError', 'unorderable')

    def identical(self, a, b):
        if isinstance(a, Const) and isinstance(b, Const):
            if a.v is None or b.v is None or isinstance(a.v, bool) or \
               isinstance(b.v, bool) or a.v is Ellipsis:
                return a.v is b.v
            return type(a.v) is type(b.v) and a.v == b.v
        if isinstance(a, (Ref, Ext)) or isinstance(b, (Ref, Ext)):
            return a == b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return None
        if type(a) is not type(b):
            return False
        if isinstance(a, Num):
            return a.t is b.t
        if isinstance(a, Tup):
            return a is b
        return a is b

    def equal(self, a, b):
        """bool, condition term, or None."""
        ip = self.ip
        if isinstance(a, Phi) or isinstance(b, Phi):
            p = a if isinstance(a, Phi) else b
            d = ip.decide(p.c)
            if d is None:
                return None
            x = p.a if d else p.b
            return self.equal(x, b) if p is a else self.equal(a, x)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return None
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return bool(a.v == b.v)
            except Exception:
                return False
        if is_number(a) and is_number(b):
            t = mk('bin', '==', ip.num(a), ip.num(b))
            d = ip.decide(t)
            return t if d is None else d
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and isinstance(x.v, np.dtype):
                try:
                    return bool(x.v == self.arg(y))
                except Exception:
                    return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = ip.rec(a), ip.rec(b)
            if isinstance(ra, DView) or isinstance(rb, DView):
                return isinstance(ra, (DView, SObj)) and isinstance(
                    rb, (DView, SObj)) and \
                    set(self.setof(a)) == set(self.setof(b))
        seqs = []
        for x in (a, b):
            if isinstance(x, Tup):
                seqs.append(('t', x.items))
            elif isinstance(x, Ref) and isinstance(ip.rec(x), LObj):
                seqs.append(('l', ip.rec(x).items))
            else:
                seqs.append(None)
        if seqs[0] and seqs[1]:
            (ka, ia), (kb, ib) = seqs
            if ka != kb or len(ia) != len(ib):
                return False
            rs = [self.equal(x, y) for x, y in zip(ia, ib)]
            if any(r is False for r in rs):
                return False
            if any(r is None for r in rs):
                return None
            ts = [r for r in rs if isinstance(r, T)]
            return True if not ts else mk('and', *ts)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            ra, rb = ip.rec(a), ip.rec(b)
            if isinstance(ra, SObj) and isinstance(rb, SObj):
                return set(ra.items) == set(rb.items)
            if isinstance(ra, DObj) and isinstance(rb, DObj):
                if set(ra.items) != set(rb.items):
                    return False
                rs = [self.equal(ra.items[k][1], rb.items[k][1])
                      for k in ra.items]
                if any(r is False for r in rs):
                    return False
                if all(r is True for r in rs):
                    return True
                return None
            for x in (a, b):
                r = ip.rec(x)
                if isinstance(r, Inst) and isinstance(r.cls, Ref):
                    f = ip.getattr(x, '__eq__', None)
                    if f is not None:
                        v = ip.call(f, [b if x is a else a], {})
                        v = ip.truth(v)
                        return v if isinstance(v, (bool, T)) else None
            return False
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        if isinstance(a, ExcV) or isinstance(b, ExcV):
            return a is b
        return a is b

    def contains(self, c, x, neg):
        ip = self.ip
        if isinstance(c, Opaque) or isinstance(x, Opaque):
            return ip.opaque('membership')
        if isinstance(c, Const) and isinstance(c.v, str):
            return Const((x.v in c.v) != neg)
        if isinstance(c, Ref) and isinstance(ip.rec(c), (DObj, SObj)):
            k = ip.key(x)
            return Const((k in ip.rec(c).items) != neg)
        if isinstance(c, Ref) and isinstance(ip.rec(c), Inst):
            f = ip.getattr(c, '__contains__', None)
            if f is not None:
                r = ip.call(f, [x], {})
                return ip.not_(r) if neg else r
        items = self.seq(c)
        if items is None:
            return ip.opaque('membership')
        ts = []
        for y in items:
            r = self.equal(x, y)
            if r is True:
                return Const(not neg)
            if r is None:
                return ip.opaque('membership')
            if isinstance(r, T):
                ts.append(r)
        if not ts:
            return Const(neg)
        t = mk('and', *[mk('un', 'not', r) for r in ts])
        return Num(t if neg else mk('un', 'not', t))

    # --------------------------------------------------------- subscripts

    def index(self, v):
        """Index value -> term argument."""
        a = self.arg(v)
        return a

    def getitem(self, obj, idx):
        ip = self.ip
        if isinstance(obj, Opaque):
            return obj
        if isinstance(obj, Ext):
            if obj.path in ('numpy.index_exp', 'numpy.s_'):
                if isinstance(idx, Tup) or obj.path == 'numpy.s_':
                    return idx
                return Tup((idx,))
            if obj.path == 'numpy.r_':
                try:
                    return self.wrap(mk('call', 'numpy.concatenate', (Lst(
                        mk('call', 'numpy.atleast_1d', (self.term(x),), ())
                        for x in (idx.items if isinstance(idx, Tup)
                                  else [idx])),), ()))
                except ValueError:
                    pass
            return ip.opaque('subscript of ' + obj.path)
        if isinstance(obj, Tup):
            return self.getitem_seq(list(obj.items), idx, Tup)
        if isinstance(obj, Const) and isinstance(obj.v, str):
            try:
                return Const(obj.v[self.static(idx)])
            except IndexError:
                ip.throw('IndexError')
        if isinstance(obj, Num):
            return self.wrap(mk('getitem', obj.t, self.index(idx)))
        if isinstance(obj, Ref):
            r = ip.rec(obj)
            if isinstance(r, LObj):
                return self.getitem_seq(
                    r.items, idx, lambda x: ip.alloc(LObj(x)))
            if isinstance(r, DObj):
                if isinstance(idx, Opaque):
                    return idx
                k = ip.key(idx)
                if k not in r.items:
                    if isinstance(r, FDict):
                        v = ip.call(r.factory, [], {})
                        ip.setitem(obj, idx, v)
                        return v
                    ip.throw('KeyError', idx)
                return r.items[k][1]
            if isinstance(r, (Inst, Arr)) and isinstance(r.cls, Ref):
                f = ip.class_lookup(r.cls, '__getitem__')
                if f is not None:
                    return ip.call(f, [obj, idx], {})
            if isinstance(r, Arr):
                return self.getitem_arr(obj, idx)
            if isinstance(r, OArr):
                return self.getitem_oarr(obj, r, idx)
            if isinstance(r, Inst):
                return ip.opaque('subscript of instance')
        if isinstance(obj, Host) and 'getitem' in obj.attrs:
            return ip.call(obj.attrs['getitem'], [idx], {})
        ip.throw('TypeError', 'not subscriptable')

    def getitem_seq(self, items, idx, build):
        ip = self.ip
        if isinstance(idx, SliceV):
            try:
                s = self.static(idx)
            except ValueError:
                return ip.opaque('slice of sequence')
            return build(items[s])
        i = self.as_int(idx)
        if i is None:
            if isinstance(idx, (Num,)):
                # value-dependent choice among known items
                return ip.opaque('item at value-dependent position')
            if isinstance(idx, Opaque):
                return idx
            ip.throw('TypeError', 'indices must be integers')
        try:
            return items[i]
        except IndexError:
            ip.throw('IndexError')

    @staticmethod
    def basic(a):
        if isinstance(a, Sl) or a is None or a is Ellipsis:
            return True
        if isinstance(a, bool):
            return False
        if isinstance(a, int):
            return True
        if isinstance(a, Lst):
            return False
        if isinstance(a, tuple):
            return all(Models.basic(x) for x in a)
        if isinstance(a, T):
            try:
                r = a.rep
            except Exception:
                return False
            return isinstance(r, (int, np.integer)) and \
                not isinstance(r, bool)
        return False

    def getitem_arr(self, obj, idx):
        ip = self.ip
        i = self.index(idx)
        t = ip.read(obj)
        if self.basic(i):
            try:
                sc = not isinstance(mk('getitem', t, i).rep, np.ndarray)
            except Exception:
                sc = True
            if sc:
                return self.wrap(mk('getitem', t, i))
            return self.view(obj, ('getitem', (i,), ()),
                             cls=ip.rec(obj).cls)
        return self.wrap(mk('getitem', t, i))

    def getitem_oarr(self, obj, r, idx):
        ip = self.ip
        try:
            i = self.static(idx)
        except ValueError:
            return ip.opaque('object array at value-dependent position')
        try:
            x = r.index[i]
        except IndexError:
            ip.throw('IndexError')
        if isinstance(x, np.ndarray):
            return ip.alloc(OArr(x.shape, r.store, x, r.origin))
        return ip.rec(r.store).items[int(x)]

    def holds_objects(self, obj):
        return isinstance(obj, Ref) and isinstance(
            self.ip.heap[obj.oid], (LObj, DObj, OArr, Inst, MObj))

    def setitem(self, obj, idx, v):
        ip = self.ip
        if isinstance(obj, Opaque):
            return
        if not isinstance(obj, Ref):
            ip.throw('TypeError', 'does not support item assignment')
        r = ip.rec(obj)
        if isinstance(r, DObj):
            self.touch(obj)
            if isinstance(idx, Opaque):
                return
            k = ip.key(idx)
            old = r.items.get(k)
            ip.put(obj, r.but(items={**r.items, k: (
                old[0] if old else idx, v)}))
            return
        if isinstance(r, LObj):
            self.touch(obj)
            items = list(r.items)
            if isinstance(idx, SliceV):
                try:
                    items[self.static(idx)] = self.seq(v)
                except ValueError:
                    ip.opaque('slice assignment')
                    return
            else:
                i = self.as_int(idx)
                if i is None:
                    ip.opaque('assignment at value-dependent position')
                    ip.put(obj, r.but(items=[Phi(ip.fresh_leaf(
                        'pos', (), 'bool'), v, x) for x in items]))
                    return
                try:
                    items[i] = v
                except IndexError:
                    ip.throw('IndexError')
            ip.put(obj, r.but(items=items))
            return
        if isinstance(r, OArr):
            self.setitem_oarr(obj, r, idx, v)
            return
        if isinstance(r, Arr):
            if isinstance(r.cls, Ref):
                f = ip.class_lookup(r.cls, '__setitem__')
                if f is not None:
                    ip.call(f, [obj, idx, v], {})
                    return
            self.maybe_raise()
            i = self.index(idx)
            t = self.term(v)
            if (isinstance(i, T) or not i == Ellipsis or i is Ellipsis) and \
               i is Ellipsis:
                ip.write(obj, t)
                return
            if self.basic(i):
                # through the corresponding view
                root = ip.root(obj)
                chain = (r.chain if r.base is not None else ()) + (
                    ('getitem', (i,), ()),)
                ip.write(obj, t, index=i)
                return
            ip.write(obj, t, index=i)
            return
        if isinstance(r, Inst):
            f = ip.getattr(obj, '__setitem__', None)
            if f is not None:
                ip.call(f, [idx, v], {})
                return
        ip.throw('TypeError', 'does not support item assignment')

    def setitem_oarr(self, obj, r, idx, v):
        ip = self.ip
        ip.event('mutate', root=r.store, ref=obj, origin=r.origin)
        try:
            i = self.static(idx)
            x = r.index[i]
        except ValueError:
            ip.opaque('object array assignment at unknown position')
            return
        except IndexError:
            ip.throw('IndexError')
        s = ip.rec(r.store)
        items = list(s.items)
        if not isinstance(x, np.ndarray):
            items[int(x)] = v
        else:
            if self.isoarr(v):
                rv = ip.rec(v)
                src = np.broadcast_to(rv.index, x.shape)
                vi = list(ip.rec(rv.store).items)
                for d, q in zip(x.ravel(), src.ravel()):
                    items[int(d)] = vi[int(q)]
            elif self.isarr(v):
                t = ip.read(v)
                b = mk('view', t, (('broadcast', (tuple(
                    int(n) for n in x.shape),), ()),))
                for pos in np.ndindex(*x.shape):
                    items[int(x[pos])] = self.wrap(mk('getitem', b, pos))
            else:
                sq = self.seq(v) if isinstance(v, Tup) or (
                    isinstance(v, Ref) and isinstance(ip.rec(v), LObj)) \
                    else None
                if sq is not None and x.ndim == 1 and len(sq) == len(x):
                    for d, z in zip(x, sq):
                        items[int(d)] = z
                else:
                    for d in x.ravel():
                        items[int(d)] = v
        ip.put(r.store, s.but(items=items))

    def delitem(self, obj, idx):
        ip = self.ip
        r = ip.rec(obj)
        self.touch(obj)
        if isinstance(r, DObj):
            items = dict(r.items)
            k = ip.key(idx)
            if k not in items:
                ip.throw('KeyError')
            del items[k]
            ip.put(obj, r.but(items=items))
        elif isinstance(r, LObj):
            items = list(r.items)
            try:
                del items[self.static(idx)]
            except IndexError:
                ip.throw('IndexError')
            except ValueError:
                ip.opaque('del at unknown position')
                return
            ip.put(obj, r.but(items=items))

    def set_shape(self, obj, name, v):
        ip = self.ip
        r = ip.rec(obj)
        if name != 'shape':
            ip.opaque('set ' + name)
            return
        base = ip.root(obj)
        if base == obj:
            ip.put(obj, r.but(term=mk('call', 'numpy.reshape',
                                      (r.term, self.arg(v)), ())))
        else:
            ip.put(obj, r.but(chain=r.chain + ((
                'reshape', (self.arg(v),), ()),)))

    # ---------------------------------------------------------- exceptions

    def maybe_raise(self):
        ip = self.ip
        if ip.raise_mode and ip.altered():
            ip.may_throw(ip.fresh_leaf('raises@' + ip.site(), (), 'bool',
                                       'bool'), 'FloatingPointError')

    # ---------------------------------------------------- context managers

    def enter(self, cm):
        ip = self.ip
        if isinstance(cm, Ref):
            r = ip.rec(cm)
            if isinstance(r, Inst) and isinstance(r.cls, Ext):
                if r.cls.path == 'warnings.catch_warnings':
                    old = dict(ip.rec(ip.gstate).attrs)
                    self.ip.put(ip.gstate, ip.rec(ip.gstate).but(attrs={
                        **old, 'catching': True}))
                    return ip.alloc(LObj([])), lambda: ip.put(
                        ip.gstate, ip.rec(ip.gstate).but(attrs={
                            k: v for k, v in {
                                **ip.rec(ip.gstate).attrs,
                                'catching': old.get('catching')}.items()
                            if v is not None}))
            en = ip.getattr(cm, '__enter__', None)
            ex = ip.getattr(cm, '__exit__', None)
            if en is not None and ex is not None:
                v = ip.call(en, [], {})
                return v, lambda: ip.call(ex, [NONE, NONE, NONE], {})
        return ip.opaque('context manager'), lambda: None

    def set_global(self, name, v):
        ip = self.ip
        r = ip.rec(ip.gstate)
        ip.event('global_state', name=name, value=v)
        ip.put(ip.gstate, r.but(attrs={**r.attrs, name: v}))

    def inst_attr(self, obj, r, name):
        from . import extmodels
        return extmodels.inst_attr(self, obj, r, name)

    def call_ext(self, path, args, kw):
        from . import extmodels
        return extmodels.call_ext(self, path, args, kw)

    def new_ndarray(self, cls, args, kw):
        ip = self.ip
        shape = self.arg(args[0] if args else kw['shape'])
        new = ip.arr(mk('call', 'numpy.full', (shape, float('nan')), ()))
        ip.put(new, ip.rec(new).but(cls=cls))
        return self.finalize(new, NONE)


def _dim(n):
    n = int(n)
    return AInt(n) if n > 1 else n


def _lit(x, y):
    """Generic dimension compared with a literal: not determined."""
    if not isinstance(x, AInt):
        return False
    return isinstance(y, LInt) or (isinstance(y, float) and abs(y) > 2)


CLASSLIKE = {'builtins.int', 'builtins.float', 'builtins.dict',
             'builtins.list', 'builtins.tuple', 'builtins.str',
             'builtins.set', 'builtins.bool', 'numpy.int64',
             'numpy.float64'}


class _Text(str):
    """Text of a value not known, in a formatted string."""

    def __format__(self, spec):
        return str(self)
