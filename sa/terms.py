"""Value-graph terms (gated value numbers) and their equality test.

A term is a node of a hash-consed expression DAG: operators are operators of
the array algebra (arithmetic, indexing, reshaping, reductions, ...), leaves
are the named unknowns of an analysis context (a parameter, a time, a random
draw), and joins of the control flow are ``ite`` gates.  Two terms are compared
first structurally (same node), then by random interpretation (Gulwani and
Necula, POPL 2003): both are evaluated, in the array algebra, on random
assignments to the leaves.  Only terms are ever evaluated - no code of the
analysed program is.
"""
import functools
import operator
import numpy as np
import scipy
import scipy.stats
import scipy.special
import scipy.interpolate
import scipy.integrate

import warnings
warnings.simplefilter('ignore')
np.seterr(all='ignore')     # in the thread that evaluates


class AInt(int):
    """Integer standing for a generic dimension (its value is representative)."""
    __slots__ = ()


class LInt(int):
    """Integer literal of the source other than -2..2."""
    __slots__ = ()


class Sl(tuple):
    """Hashable slice."""
    def __new__(cls, a, b, c):
        return tuple.__new__(cls, (a, b, c))


class Lst(tuple):
    """Hashable list."""


class Dct(tuple):
    """Hashable dict (tuple of (key, value))"""


class TermError(Exception):
    pass


_table = {}
_counter = [0]


def _key(a):
    if isinstance(a, T):
        return ('T', a.id)
    if isinstance(a, tuple):
        return (type(a).__name__,) + tuple(_key(b) for b in a)
    if isinstance(a, np.dtype) or isinstance(a, type):
        return ('ty', str(a))
    if isinstance(a, bool):
        return ('b', a)
    if isinstance(a, int):
        return ('i', int(a))
    if isinstance(a, np.ndarray):
        # repr rounds, and omits elements
        return ('arr', a.shape, a.dtype.str, repr(a.tolist())
                if a.dtype.hasobject else a.tobytes())
    return (type(a).__name__, repr(a))


class T:
    __slots__ = ('op', 'args', 'id', 'leaves', '_rep')

    def __repr__(self):
        return show(self)

    @property
    def rep(self):
        return REP.ev(self)

    @property
    def opaque(self):
        return any(f.args[3] == 'opaque' for f in self.leaves
                   if f.op == 'leaf')


def _collect(a, acc):
    if isinstance(a, T):
        acc |= a.leaves
    elif isinstance(a, tuple):
        for b in a:
            _collect(b, acc)


def mk(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.args = op, args
        _counter[0] += 1
        t.id = _counter[0]
        if op in ('leaf', 'draw'):
            acc = {t}
            if op == 'draw':
                _collect(args, acc)
        else:
            acc = {t} if op == 'uf' else set()
            _collect(args, acc)
        t.leaves = frozenset(acc)
        _table[k] = t
    return t


def leaf(name, shape=(), dtype='f8', dom='real', rep=None):
    """A named unknown.  dom: real, pos, prob, int, bool, ord (ordered time,
    with a representative), gap (ordered duration), opaque."""
    if rep is not None:
        rep = tuple(np.asarray(rep, dtype=float).ravel().tolist())
    return mk('leaf', name, tuple(int(n) for n in shape), dtype, dom, rep)


def const(x):
    return mk('const', x)


def draw(n, dist, params, size):
    """n-th draw, from law dist; a leaf with parameters (args[0..3])."""
    return mk('draw', n, dist, size, 'draw', tuple(params))


def is_ordered(t):
    return t.op == 'leaf' and t.args[3] in ('ord', 'gap')


# ------------------------------------------------------------------ printing

def show(t, depth=6):
    if isinstance(t, Sl):
        return ':'.join('' if a is None else show(a, depth - 1) for a in t)
    if isinstance(t, tuple):
        return '(' + ', '.join(show(a, depth - 1) for a in t) + ')'
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, (AInt, LInt)) else str(int(t))
    if t.op == 'leaf':
        return str(t.args[0])
    if t.op == 'draw':
        return '{}#{}'.format(t.args[1], t.args[0])
    if depth <= 0:
        return '...'
    if t.op == 'bin':
        return '({} {} {})'.format(show(t.args[1], depth - 1), t.args[0],
                                   show(t.args[2], depth - 1))
    if t.op == 'call':
        return '{}({})'.format(t.args[0].split('.')[-1], ', '.join(
            [show(a, depth - 1) for a in t.args[1]] +
            ['{}={}'.format(k, show(v, depth - 1)) for k, v in t.args[2]]))
    if t.op == 'getitem':
        return '{}[{}]'.format(show(t.args[0], depth - 1),
                               show(t.args[1], depth - 1))
    if t.op == 'ite':
        return '({} if {} else {})'.format(
            show(t.args[1], depth - 1), show(t.args[0], depth - 1),
            show(t.args[2], depth - 1))
    return '{}({})'.format(t.op, ', '.join(show(a, depth - 1) for a in t.args))


# ---------------------------------------------------------------- evaluation

BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
       '**': operator.pow, '@': operator.matmul,
       '<': operator.lt, '<=': operator.le, '>': operator.gt,
       '>=': operator.ge, '==': operator.eq, '!=': operator.ne,
       '&': operator.and_, '|': operator.or_, '^': operator.xor,
       '<<': operator.lshift, '>>': operator.rshift}
UN = {'-': operator.neg, '+': operator.pos, '~': operator.invert,
      'not': operator.not_}


def resolve(path):
    """Object at an external dotted path (numpy..., scipy..., builtins...)."""
    parts = path.split('.')
    if parts[0] == 'numpy':
        obj = np
    elif parts[0] == 'scipy':
        obj = scipy
    elif parts[0] == 'builtins':
        import builtins
        obj = builtins
    elif parts[0] in ('math', 'operator', 'itertools', 'functools', 'bisect',
                      'collections', 'inspect', 'warnings', 'sys', 'copy'):
        obj = __import__(parts[0])
    else:
        raise TermError(path)
    for p in parts[1:]:
        obj = getattr(obj, p)
    return obj


def apply_view(x, chain, ev):
    """Apply a chain of view operations to an array."""
    for v in chain:
        name, a, kw = v
        a = ev(a)
        kw = dict((k, ev(z)) for k, z in kw)
        if name == 'getitem':
            x = x[a[0]]
        elif name == 'broadcast':
            x = np.broadcast_to(x, *a)
        elif name.startswith('np.'):
            x = getattr(np, name[3:])(x, *a, **kw)
        elif name in ('real', 'imag', 'T'):
            x = getattr(x, name)
        else:
            x = getattr(x, name)(*a, **kw)
    return x


def pin_key(name, args):
    return (name,) + tuple(np.asarray(a, dtype=float).tobytes() for a in args)


def _uf(ev, name, shape, args, salt):
    """Uninterpreted elementwise function: a smooth generic function of its
    arguments, broadcasting with an optional own shape."""
    if ev.pins:
        args = ev.pins.get(pin_key(name, args), args)
    rng = np.random.default_rng(abs(hash_str(name)) % (2**32) + salt)
    acc = rng.uniform(0.2, 1.2, size=shape)
    for a in args:
        w = rng.uniform(0.5, 1.5)
        acc = acc + w * np.asarray(a, dtype=float)
    return 1.3 + 0.5 * np.sin(acc)


def hash_str(s):
    h = 5381
    for c in str(s):
        h = (h * 33 + ord(c)) & 0x7fffffff
    return h


@functools.lru_cache(maxsize=100000)
def _jitter(seed, z):
    return np.random.default_rng(
        [seed, hash_str('ord'), hash_str('%.9g' % z)]).uniform(-1, 1)


class Valuation:
    """Assignment of values to leaves; seed 0 is the representative one."""

    def __init__(self, seed, scale=None, forced=None, pool=(), fixed=None,
                 pins=None):
        self.seed = seed
        self.scale = scale
        self.forced = forced or {}
        self.pool = pool
        self.fixed = fixed or {}
        self.pins = pins
        self.cache = {}

    def ev(self, a):
        if isinstance(a, T):
            try:
                return self.cache[a.id]
            except KeyError:
                pass
            r = self._ev(a)
            self.cache[a.id] = r
            return r
        if isinstance(a, Sl):
            return slice(*(self.idx(x) for x in a))
        if isinstance(a, Lst):
            return [self.ev(x) for x in a]
        if isinstance(a, Dct):
            return {k: self.ev(v) for k, v in a}
        if isinstance(a, tuple):
            return tuple(self.ev(x) for x in a)
        if type(a) in (AInt, LInt):
            return int(a)
        return a

    def idx(self, a):
        a = self.ev(a)
        return a if a is None or isinstance(a, int) else int(a)

    def _ev(self, t):
        op, args = t.op, t.args
        if t.id in self.forced:
            return self.forced[t.id]
        ev = self.ev
        if op == 'leaf':
            return self.leafval(t)
        if op == 'draw':
            return self.drawval(t)
        if op == 'const':
            return ev(args[0])
        if op == 'bin':
            a, b = ev(args[1]), ev(args[2])
            return BIN[args[0]](a, b)
        if op == 'un':
            return UN[args[0]](ev(args[1]))
        if op == 'call':
            f = resolve(args[0])
            a = ev(args[1])
            kw = {k: ev(v) for k, v in args[2]}
            return f(*a, **kw)
        if op == 'meth':
            x = ev(args[1])
            kw = {k: ev(v) for k, v in args[3]}
            if not isinstance(x, (np.ndarray, np.generic, str, tuple,
                                  list, int, float, complex)):
                raise TermError('method of ' + type(x).__name__)
            return getattr(x, args[0])(*ev(args[2]), **kw)
        if op == 'attr':
            return getattr(ev(args[1]), args[0])
        if op == 'getitem':
            x = ev(args[0])
            if not isinstance(x, (np.ndarray, tuple, list, str)):
                x = np.asarray(x)
            return x[ev(args[1])]
        if op == 'view':
            return apply_view(ev(args[0]), args[1], ev)
        if op == 'setview':
            base, chain, val = args
            b = np.array(ev(base))
            v = apply_view(b, chain, ev)
            if not isinstance(v, np.ndarray):
                raise TermError('scalar view assigned')
            v[...] = ev(val)
            return b
        if op == 'setitem':
            base, chain, index, val = args
            b = np.array(ev(base))
            v = apply_view(b, chain, ev)
            v[ev(index)] = ev(val)
            return b
        if op == 'ite':
            c = ev(args[0])
            return ev(args[1]) if c else ev(args[2])
        if op == 'and':
            return all(bool(ev(x)) for x in args)
        if op == 'uf':
            name, shape, a, salt = args
            return _uf(self, name, shape, ev(a), salt)
        if op == 'truth':
            return bool(ev(args[0]))
        if op == 'cast':
            return np.asarray(ev(args[1])).astype(args[0])
        if op == 'quad':
            return self.quad(*args)
        if op == 'host':
            return args[1](self, *[ev(x) for x in args[2]])
        raise TermError('unknown op ' + op)

    def quad(self, body, a, b):
        """Integral over a named variable: a generic linear functional of
        the values of the integrand."""
        a, b = self.ev(a), self.ev(b)
        rng = np.random.default_rng([hash_str('%r' % float(z))
                                     for z in (a, b)])
        s = 0.
        for u in rng.uniform(-2., 2., size=6):
            v = Valuation(self.seed, self.scale, self.forced, self.pool,
                          dict(self.fixed, **{'quad:u': np.float64(u)}),
                          self.pins)
            x = v.ev(body)
            if np.ndim(x):
                raise TypeError('integrand is an array')
            s = s + rng.uniform(.5, 1.5) * float(x)
        return np.float64(s)

    def _rng(self, *what):
        return np.random.default_rng(
            [self.seed & 0x7fffffff] + [hash_str(w) for w in what])

    def leafval(self, t):
        name, shape, dtype, dom, rep = t.args
        if name in self.fixed:
            return self.fixed[name]
        rng = self._rng('leaf', name)
        if dom in ('ord', 'gap'):
            r = np.array(rep, dtype=float).reshape(shape)
            if self.seed == 0:
                x = r
            else:
                g = np.random.default_rng([self.seed & 0x7fffffff, 77])
                a, b = g.uniform(-0.4, 0.4), g.uniform(0.6, 1.8)
                if dom == 'gap' or np.dtype(dtype).kind in 'iub':
                    a = 0.
                if dom == 'ord':    # equal representatives stay equal
                    j = np.array([_jitter(self.seed & 0x7fffffff, z)
                                  for z in r.ravel()]).reshape(shape)
                else:
                    j = rng.uniform(-1, 1, size=shape)
                x = a + b * (r + 0.02 * j)
            x = np.asarray(r if np.dtype(dtype).kind in 'iub' else x)
            x = x.astype(dtype)
        elif dom == 'bool':
            x = rng.uniform(size=shape) < 0.5
        elif dom == 'int':
            x = rng.integers(1, 6, size=shape).astype(dtype)
        elif dom == 'prob':
            x = rng.uniform(0.15, 0.85, size=shape)
        elif dom == 'pos':
            x = rng.uniform(0.3, 2.2, size=shape)
        elif dom == 'small':        # in (-0.85, 0.85)
            x = rng.uniform(0.1, 0.8, size=shape) * \
                np.where(rng.uniform(size=shape) < 0.5, -1, 1)
        else:
            x = rng.uniform(0.3, 2.2, size=shape) * \
                np.where(rng.uniform(size=shape) < 0.5, -1, 1)
            if np.dtype(dtype).kind == 'c':
                x = x + 1j * rng.uniform(0.3, 2.2, size=shape)
        if dom in ('real', 'pos') and self.scale is not None:
            x = x * self.scale
        if dom in ('real', 'pos', 'prob', 'small') and len(self.pool):
            pick = rng.integers(0, len(self.pool) + 2, size=shape)
            p = np.append(np.asarray(self.pool, dtype=float), [0, 0])[pick]
            if dom == 'pos':
                p = np.abs(p)
            bad = (pick >= len(self.pool))
            if dom == 'pos':
                bad = bad | (p <= 0)
            if dom == 'prob':
                bad = bad | (p <= 0) | (p >= 1)
            if dom == 'small':
                bad = bad | (np.abs(p) >= 1)
            x = np.where(bad, x, p)
        x = np.asarray(x)
        if dom not in ('bool',) and x.dtype != np.dtype(dtype) \
           and dtype != 'py':
            if np.dtype(dtype).kind in 'iu' and dom not in ('ord', 'gap'):
                x = np.abs(rng.integers(1, 6, size=shape)) \
                    if np.dtype(dtype).kind == 'u' else \
                    rng.integers(-5, 6, size=shape)
            x = np.asarray(x).astype(dtype)
        return x if shape != () or name.startswith('0d:') else x[()]

    def drawval(self, t):
        n, dist, size, _, params = t.args
        key = 'draw%s' % n
        if key in self.fixed:
            return self.fixed[key]
        size = self.ev(size)
        if size is None:
            size = ()
        rng = self._rng('draw', n)
        if dist == 'poisson':
            lam = np.asarray(self.ev(params[0]))
            shape = np.broadcast_shapes(lam.shape, _tup(size))
            return (rng.integers(0, 4, size=shape) * (lam != 0))[()]
        if dist == 'binomial':
            nn = np.asarray(self.ev(params[0]))
            shape = np.broadcast_shapes(nn.shape, _tup(size))
            u = rng.uniform(size=shape)
            return np.floor(u * (np.maximum(nn, 0) + 1)).astype(int)[()]
        shape = _tup(size)
        if dist == 'N':
            return rng.normal(size=shape)
        if dist == 'U':
            return rng.uniform(size=shape)
        if dist == 'E':
            return rng.exponential(size=shape)
        x = rng.uniform(0.4, 1.9, size=shape)
        return x


def _tup(size):
    if size is None:
        return ()
    return (int(size),) if np.ndim(size) == 0 else tuple(
        int(n) for n in size)


REP = Valuation(0)
_valuations = {}


def reset():
    _table.clear()
    _valuations.clear()
    REP.cache.clear()


# ------------------------------------------------------------------ equality

def subterms(t):
    seen, stack = {}, [t]
    while stack:
        a = stack.pop()
        if isinstance(a, T):
            if a.id in seen:
                continue
            seen[a.id] = a
            stack.extend(a.args)
        elif isinstance(a, tuple):
            stack.extend(a)
    return seen


def gates(t):
    """Conditions of the gates (and elementwise selections) of a term."""
    out = {}
    for s in subterms(t).values():
        if s.op == 'ite':
            for c in conjuncts(s.args[0]):
                out[c.id] = c
    return out


def conjuncts(c):
    if c.op == 'and':
        for a in c.args:
            yield from conjuncts(a)
    elif c.op == 'un' and c.args[0] == 'not' and isinstance(c.args[1], T):
        yield from conjuncts(c.args[1])
    elif c.op == 'truth' and isinstance(c.args[0], T):
        yield from conjuncts(c.args[0])
    else:
        yield c


def constants(t):
    out = set()
    for s in subterms(t).values():
        for a in s.args:
            if isinstance(a, (int, float)) and not isinstance(a, bool):
                out.add(float(a))
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, (int, float)) and \
                       not isinstance(b, bool):
                        out.add(float(b))
        if s.op == 'const' and isinstance(s.args[0], (int, float)):
            out.add(float(s.args[0]))
    return out


def _num(x):
    if isinstance(x, (tuple, list)):
        return [_num(y) for y in x]
    return np.asarray(x)


def close(a, b, rtol=1e-7):
    """Compare evaluated values; returns (equal, magnitude of difference)."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False, np.inf
        rs = [close(x, y, rtol) for x, y in zip(a, b)]
        return all(r[0] for r in rs), max([r[1] for r in rs], default=0.)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False, np.inf
    if a.dtype == object or b.dtype == object or \
       a.dtype.kind in 'SUV' or b.dtype.kind in 'SUV':
        try:
            ok = bool(np.all(a == b))
        except Exception:
            ok = False
        return ok, 0. if ok else np.inf
    if a.size == 0:
        return True, 0.
    with np.errstate(all='ignore'):
        a = a.astype(complex)
        b = b.astype(complex)
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            return False, np.inf
        a = np.where(na, 0, a)
        b = np.where(nb, 0, b)
        ia, ib = np.isinf(a), np.isinf(b)
        if (ia != ib).any() or (a[ia] != b[ia]).any():
            return False, np.inf
        a = np.where(ia, 0, a)
        b = np.where(ib, 0, b)
        m = max(np.abs(a).max(), np.abs(b).max(), 1e-300)
        d = np.abs(a - b)
        el = d / np.maximum(np.maximum(np.abs(a), np.abs(b)), 1e-9 * m)
        worst = float(el.max())
        return bool((el <= rtol).all()), worst


class Eq:
    """Outcome of a comparison: verdict in {'EQ', 'DIFF', 'UNKNOWN'}"""
    def __init__(self, verdict, why='', witness=None):
        self.verdict, self.why, self.witness = verdict, why, witness

    def __repr__(self):
        return '{}({})'.format(self.verdict, self.why)


def facts_hold(v, facts):
    for c, truth in facts:
        try:
            if bool(v.ev(c)) != truth:
                return False
        except Exception:
            return False
    return True


def valuations(n, seed, facts, **kw):
    """n valuations satisfying the facts of the context."""
    try:
        key = (n, seed, tuple((c.id, t) for c, t in facts),
               tuple(sorted((k, tuple(z) if isinstance(z, list) else z)
                            for k, z in kw.items())))
        if key in _valuations:
            return _valuations[key]
    except (AttributeError, TypeError):
        key = None
    out, k = [], 0
    base = (seed * 1000003 + 17) & 0x3fffffff
    while len(out) < n and k < 40 * n:
        k += 1
        v = Valuation(base + k, **kw)
        if facts_hold(v, facts):
            out.append(v)
    if key is not None:     # shared: terms are evaluated once
        _valuations[key] = out
    return out


def equal(a, b, facts=(), n=4, seed=1, rtol=1e-7, explore=True):
    """Are terms a and b equal under the facts of the context?"""
    if a is b:
        return Eq('EQ', 'same value number')
    for t in (a, b):
        if isinstance(t, T) and t.opaque:
            bad = [f.args[0] for f in t.leaves
                   if f.op == 'leaf' and f.args[3] == 'opaque']
            return Eq('UNKNOWN', 'depends on unmodelled value ' + str(bad[0]))
    vals = valuations(n, seed, facts)
    if not vals:
        return Eq('UNKNOWN', 'no valuation satisfies the context facts')
    ndiff, wit, err = 0, None, None
    for v in vals:
        try:
            x = v.ev(a)
        except TermError as e:
            return Eq('UNKNOWN', 'term not evaluable: %s' % e)
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, e)
            continue
        try:
            y = v.ev(b)
        except Exception as e:
            return Eq('UNKNOWN', 'specification not evaluable: %s: %s'
                      % (type(e).__name__, e))
        ok, worst = close(x, y, rtol)
        if not ok and worst > 1e-5:
            ndiff += 1
            wit = (x, y)
    if ndiff:
        return Eq('DIFF', 'value numbers differ', wit)
    if err is not None:
        return Eq('UNKNOWN', 'term not evaluable: ' + err)
    # gates present on one side only
    if explore and isinstance(a, T) and isinstance(b, T):
        r = _explore_gates(a, b, facts, seed)
        if r is not None:
            return r
    return Eq('EQ', 'equal under random interpretation (%d points)'
              % len(vals))


def pinned(g, seed, facts):
    """Valuations giving an unknown function one value at all the arguments
    where a condition evaluates it (and generic values elsewhere)."""
    ufs = {}
    for s in subterms(g).values():
        if s.op == 'uf' and s.args[2]:
            ufs.setdefault((s.args[0], s.args[1]), []).append(s)
    ufs = [us for us in ufs.values() if len(us) > 1]
    if not ufs:
        return
    for v in valuations(2, seed + 300, facts):
        try:
            pins = {}
            for us in ufs:
                first = v.ev(us[0].args[2])
                for u in us[1:]:
                    pins[pin_key(u.args[0], v.ev(u.args[2]))] = first
        except Exception:
            continue
        w = Valuation(v.seed, pins=pins)
        if facts_hold(w, facts):
            yield w


def _explore_gates(a, b, facts, seed):
    ga, gb = gates(a), gates(b)
    new = [g for k, g in ga.items() if k not in gb]
    undecided = 0
    for g in new[:24]:
        cs = sorted(constants(g))[:12]
        pool = []
        for c in cs:
            pool += [c, c + 1e-3 * (abs(c) + 1e-9), c - 1e-3 * (abs(c) + 1e-9)]
        # integer-like comparisons: dimension conditions are free booleans
        hits = {True: [], False: []}
        tries = [dict(scale=None), dict(pool=pool), dict(pool=pool, scale=0)]
        tries += [dict(scale=10.**k) for k in
                  (-14, -12, -10, -8, -6, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 8)]
        tries += [dict(scale=c) for c in cs if c]
        for i, kw in enumerate(tries):
            kw = {k: z for k, z in kw.items() if z is not None}
            for v in valuations(2, seed + 100 + i, facts, **kw):
                try:
                    c = bool(v.ev(g))
                except Exception:
                    continue
                hits[c].append((v, kw))
        for v in pinned(g, seed, facts):
            try:
                hits[bool(v.ev(g))].append((v, {}))
            except Exception:
                pass
        if not hits[True] or not hits[False]:
            undecided += 1
            continue
        # the side that agrees with b in ordinary valuations
        for side in (True, False):
            for v, kw in hits[side][:6]:
                try:
                    x, y = v.ev(a), v.ev(b)
                    ok, worst = close(x, y, 1e-6)
                    if ok or worst < 1e-4:
                        continue
                    f = Valuation(v.seed, scale=v.scale, pool=v.pool,
                                  forced={g.id: not side}, pins=v.pins)
                    z = f.ev(a)
                    ok2, _ = close(z, y, 1e-6)
                except Exception:
                    continue
                if ok2:
                    return Eq('DIFF', 'when %s is %s' % (show(g), side),
                              (x, y))
    return None
