"""Analysis contexts: building abstract arguments, running entry points,
reading results."""
import ast
import textwrap
import numpy as np
from .interp import Interp, AnalysisError, Dead, NeedFork, Event, Frame
from .values import *
from . import terms as tm
from .terms import T, mk, leaf, const, AInt, LInt, Sl, Lst, Dct


class Out:
    """Outcome of a call: value (None if no normal exit) and raise exits."""
    def __init__(self, live, value, raised):
        self.live, self.value, self.raised = live, value, raised

    @property
    def excs(self):
        return [exc_name(e) for _, _, e in self.raised]

    def __repr__(self):
        return 'Out(%s, %r, %r)' % (self.live, self.value, self.excs)


def exc_name(e):
    c = e.cls
    if isinstance(c, str):
        return c.split('.')[-1]
    if isinstance(c, Ext):
        return c.path.split('.')[-1]
    return str(c)


class Lab:

    def __init__(self, **kw):
        self.ip = Interp(**kw).load_all()
        ip = self.ip
        self._base = (dict(ip.heap), ip.noid, list(ip.facts), ip.ndraw,
                      ip.nfresh, list(ip.opaques))
        self.base_oid = ip.noid
        self.contexts = 0
        self.n_events = 0

    def reset(self):
        """Back to the state after import."""
        ip = self.ip
        heap, noid, facts, nd, nf, ops = self._base
        self.n_events += len(ip.events) - ip.base_events
        ip.heap = dict(heap)
        ip.noid, ip.facts, ip.ndraw = noid, list(facts), nd
        ip.nfresh, ip.opaques = nf, list(ops)
        ip.events = ip.events[:ip.base_events]
        ip.pc, ip.sinks, ip.frames = (), [[]], []
        ip.hooks = {}
        ip.raise_mode = False
        self.contexts += 1
        return self

    # --------------------------------------------------------- constructors

    def v(self, x):
        """Python object -> abstract value."""
        if isinstance(x, V):
            return x
        if isinstance(x, T):
            return Num(x)
        if isinstance(x, tuple) and not isinstance(x, (Lst, Sl, Dct)):
            return Tup([self.v(y) for y in x])
        if isinstance(x, list):
            return self.ip.alloc(LObj([self.v(y) for y in x], 'caller'))
        if isinstance(x, dict):
            return self.ip.alloc(DObj(
                {self.ip.key(Const(k)): (Const(k), self.v(y))
                 for k, y in x.items()}, 'caller'))
        if isinstance(x, slice):
            return SliceV(self.v(x.start), self.v(x.stop), self.v(x.step))
        if isinstance(x, np.ndarray):
            return self.arrt(const(x))
        if callable(x) and not isinstance(x, type):
            return x if isinstance(x, V) else Host(x, 'host', user=True)
        return Const(x)

    def lent(self, v):
        """An object handed over to be written to."""
        self.ip.put(v, self.ip.rec(v).but(origin='lent'))
        return v

    def dim(self, n):
        return Const(AInt(n))

    def arr(self, name, shape=(), dom='real', dtype='f8', origin='caller'):
        """A caller's array."""
        if shape == ():
            name = '0d:' + name
        return self.ip.arr(leaf(name, shape, dtype, dom), origin)

    def arrt(self, term, origin='caller'):
        return self.ip.arr(term, origin)

    def num(self, name, dom='real', dtype='f8', shape=()):
        return Num(leaf(name, shape, dtype, dom))

    def time(self, name, rep, dtype='f8'):
        return Num(leaf(name, (), dtype, 'ord', rep))

    def gap(self, name, rep, dtype='f8'):
        return Num(leaf(name, (), dtype, 'gap', rep))

    def timeline(self, name, rep, dtype='f8', origin='caller'):
        return self.ip.arr(leaf(name, np.shape(rep), dtype, 'ord', rep),
                           origin)

    def uf(self, name, shape=(), arr=True, salt=0, pos=None, log=None,
           extra=()):
        """Unknown pure callable of the caller: an uninterpreted function of
        its arguments, returning an array (or a scalar)."""
        def fn(ip, args, kw):
            ts = tuple(ip.models.term(a) for a in args) + tuple(
                ip.models.term(a) for _, a in sorted(kw.items()))
            ip.event('user_call', name=name, args=list(args), kw=dict(kw),
                     terms=ts)
            if log is not None:
                log.append(ts)
            t = mk('uf', name, tuple(shape), ts + tuple(extra), salt)
            if arr == 'raw':
                return ip.models.wrap(t)
            if arr:
                return ip.arr(mk('call', 'numpy.asarray', (t,), ()), 'caller')
            return ip.models.wrap(t)
        return Host(fn, name, user=True)

    def fn(self, name, body, wrap='array', origin='caller'):
        """Caller's pure callable given by a term function of its
        arguments."""
        def f(ip, args, kw):
            ts = tuple(ip.models.term(a) for a in args)
            ip.event('user_call', name=name, args=list(args), kw=dict(kw),
                     terms=ts)
            t = body(*ts)
            t = t.t if isinstance(t, X) else t
            if wrap == 'array':
                return ip.arr(mk('call', 'numpy.asarray', (t,), ()), origin)
            return ip.models.wrap(t)
        return Host(f, name, user=True)

    def recorder(self, name):
        """Callable that records its arguments."""
        def fn(ip, args, kw):
            ip.event('user_call', name=name, args=list(args), kw=dict(kw),
                     terms=())
            return NONE
        return Host(fn, name, user=True)

    def uft(self, name, shape, *args, salt=0):
        return mk('uf', name, tuple(shape), tuple(args), salt)

    def client(self, src, **bind):
        """Analyse the source of a user of sdepy, in a module of its own;
        returns its namespace."""
        ip = self.ip
        tree = ast.parse(textwrap.dedent(src))
        vars_ = {'__name__': Const('client')}
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id not in bind:
                try:
                    vars_[n.id] = ip.public(n.id)
                except AnalysisError:
                    pass
        vars_.update((k, self.v(x)) for k, x in bind.items())
        env = ip.alloc(Env(vars_, None, 'client', 'module'))
        ip.modules['client'] = env
        ip.frames.append(Frame(env, '<module>', None, None, 'client',
                               '<client>'))
        try:
            live, _ = ip.attempt(lambda: ip.block(tree.body))
        finally:
            ip.frames.pop()
            ip.modules.pop('client')
        if not live:
            raise Rejected(Out(False, None, list(ip.sinks[0])))
        return ip.heap[env.oid].vars

    def process(self, name, t, shape, dom='real', dtype='f8'):
        """A process with given timeline (value or tuple of reps)."""
        P = self.ip.public('process')
        if isinstance(t, (tuple, list)):
            t = self.timeline(name + '.t', tuple(t))
        o = self.call(P, t, x=self.arr(name + '.x', shape, dom, dtype))
        if not o.live:
            raise AnalysisError('process() does not accept timeline and body')
        return o.value

    def source(self, name, paths, vshape, body=None):
        """Compliant user-defined source: (t, dt) -> uf array."""
        ip = self.ip
        shape = tuple(vshape) + (int(paths),)

        def fn(ip, args, kw):
            ts = tuple(ip.models.term(a) for a in args)
            ip.event('user_call', name=name, args=list(args), kw=dict(kw),
                     terms=ts)
            if body is not None:
                return body(ip, args, kw)
            t = mk('uf', name, shape, ts, 0)
            return ip.arr(t, 'caller')
        return Host(fn, name, {'paths': Const(AInt(paths)),
                               'vshape': Tup([Const(AInt(n))
                                              for n in vshape])}, user=True)

    # --------------------------------------------------------------- running

    def public(self, name, module=None):
        return self.ip.public(name, module)

    def call(self, f, *args, **kw):
        ip = self.ip
        args = [self.v(a) for a in args]
        kw = {k: self.v(a) for k, a in kw.items()}
        return self.run(lambda: ip.call(f, args, kw))

    def run(self, fn):
        ip = self.ip
        n0 = len(ip.sinks[0])
        live, val = ip.attempt(fn)
        raised = ip.sinks[0][n0:]
        return Out(live, val, raised)

    def ok(self, f, *args, **kw):
        """Call that must have a normal exit."""
        o = self.call(f, *args, **kw)
        if not o.live:
            raise Rejected(o)
        return o.value

    def get(self, obj, name):
        return self.run(lambda: self.ip.getattr(obj, name)).value

    def meth(self, obj, name, *args, **kw):
        ip = self.ip
        args = [self.v(a) for a in args]
        kw = {k: self.v(a) for k, a in kw.items()}
        return self.run(lambda: ip.call(ip.getattr(obj, name), args, kw))

    def item(self, obj, idx):
        return self.run(lambda: self.ip.getitem(obj, self.v(idx)))

    def term(self, v):
        """Value number of a result."""
        if v is None:
            raise AnalysisError('no value')
        return self.ip.prim(lambda: self.ip.models.term(v))

    def rep(self, v):
        return tm.REP.ev(self.term(v))

    def cls_of(self, v):
        if isinstance(v, Phi):
            a, b = self.cls_of(v.a), self.cls_of(v.b)
            return a if a == b else a + '|' + b
        if not isinstance(v, (Ref, Phi)):
            return type(v).__name__
        r = self.ip.prim(lambda: self.ip.rec(v))
        if isinstance(r, (Arr, Inst)) and isinstance(r.cls, Ref):
            return self.ip.rec(r.cls).name
        return type(r).__name__

    def events(self, *kinds):
        return [e for e in self.ip.events[self.ip.base_events:]
                if not kinds or e.kind in kinds]

    def equal(self, a, b, **kw):
        if isinstance(a, V):
            a = self.term(a)
        if isinstance(b, V):
            b = self.term(b)
        return tm.equal(a, b, self.ip.facts, **kw)


class Rejected(Exception):
    """A call that the specification accepts has no normal exit."""
    def __init__(self, out):
        self.out = out
        Exception.__init__(self, ', '.join('%s at %s: %s' % (
            exc_name(e), e.site, ' '.join(str(getattr(a, 'v', a))
                                         for a in e.args)[:120])
            for _, _, e in out.raised))


# short-hands for specification terms

def bin_(op, a, b):
    return mk('bin', op, a, b)


def c_(path, *a, **kw):
    return mk('call', path, tuple(a), tuple(sorted(kw.items())))


class X:
    """Operator sugar to write specification terms."""
    __slots__ = ('t',)
    __array_priority__ = 1e9
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t.t if isinstance(t, X) else t

    def _b(op, r=False):
        def f(self, o):
            o = o.t if isinstance(o, X) else o
            return X(mk('bin', op, o, self.t) if r else
                     mk('bin', op, self.t, o))
        return f
    __add__, __radd__ = _b('+'), _b('+', True)
    __sub__, __rsub__ = _b('-'), _b('-', True)
    __mul__, __rmul__ = _b('*'), _b('*', True)
    __truediv__, __rtruediv__ = _b('/'), _b('/', True)
    __pow__, __rpow__ = _b('**'), _b('**', True)
    __matmul__ = _b('@')
    __lt__, __le__, __gt__, __ge__ = _b('<'), _b('<='), _b('>'), _b('>=')
    __and__, __or__ = _b('&'), _b('|')
    del _b

    def __neg__(self):
        return X(mk('un', '-', self.t))

    def __getitem__(self, i):
        def cv(z):
            if isinstance(z, slice):
                return Sl(z.start, z.stop, z.step)
            if isinstance(z, tuple):
                return tuple(cv(y) for y in z)
            return z.t if isinstance(z, X) else z
        return X(mk('getitem', self.t, cv(i)))

    def __getattr__(self, name):
        def f(*a, **kw):
            return X(mk('meth', name, self.t, tuple(_u(z) for z in a),
                        tuple(sorted((k, _u(z)) for k, z in kw.items()))))
        return f


def _u(z):
    if isinstance(z, X):
        return z.t
    if isinstance(z, tuple):
        return tuple(_u(y) for y in z)
    if isinstance(z, list):
        return Lst(_u(y) for y in z)
    return z


class _NP:
    """np.* in specification terms: NPX.sqrt(x) -> X"""
    def __init__(self, path='numpy'):
        self._p = path

    def __getattr__(self, name):
        return _NP(self._p + '.' + name)

    def __call__(self, *a, **kw):
        return X(mk('call', self._p, tuple(_u(z) for z in a),
                    tuple(sorted((k, _u(z)) for k, z in kw.items()))))


NPX = _NP('numpy')
SPX = _NP('scipy')
