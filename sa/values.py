"""Abstract values and heap records of the abstract interpreter."""
from .terms import T, mk, AInt, LInt


class V:
    __slots__ = ()


class Const(V):
    """A known Python constant."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Const(%r)' % (self.v,)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Num(V):
    """An immutable number (Python or numpy scalar), by value number."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Num(%r)' % (self.t,)


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class SliceV(V):
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Ref(V):
    """Reference to a heap record."""
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Ref(%d)' % self.oid

    def __eq__(self, other):
        return isinstance(other, Ref) and other.oid == self.oid

    def __hash__(self):
        return hash(('ref', self.oid))


class Ext(V):
    """External (library) object, by dotted path."""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Ext(%s)' % self.path

    def __eq__(self, other):
        return isinstance(other, Ext) and other.path == self.path

    def __hash__(self):
        return hash(('ext', self.path))


class Phi(V):
    """Merge of two values of different kinds."""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Phi(%r, %r, %r)' % (self.c, self.a, self.b)


class Undef(V):
    __slots__ = ()


UNDEF = Undef()


class Host(V):
    """Callable supplied by the analysis (user callable, builtin method)."""
    __slots__ = ('fn', 'name', 'attrs', 'types', 'user')

    def __init__(self, fn, name='host', attrs=None, types=(), user=False):
        self.user = user
        self.fn, self.name, self.attrs = fn, name, attrs or {}
        self.types = types

    def __repr__(self):
        return 'Host(%s)' % self.name


class BoundM(V):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return 'BoundM(%r, %r)' % (self.func, self.self)


class StaticM(V):
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class ClassM(V):
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class PropV(V):
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class SuperV(V):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Opaque(V):
    """Unmodelled value."""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Opaque(%s)' % self.why


class SymRange(V):
    """range() over value-dependent bounds."""
    __slots__ = ('args',)

    def __init__(self, args):
        self.args = args


class ExcV(V):
    """Exception instance: class name (or program class Ref) and arguments"""
    __slots__ = ('cls', 'args', 'site')

    def __init__(self, cls, args=(), site=None):
        self.cls, self.args, self.site = cls, args, site

    def __repr__(self):
        return 'Exc(%s)' % (self.cls,)


# -------------------------------------------------------------- heap records

class Rec:
    __slots__ = ()

    def but(self, **kw):
        new = object.__new__(type(self))
        for s in self.__slots__:
            setattr(new, s, kw[s] if s in kw else getattr(self, s))
        return new


class Env(Rec):
    __slots__ = ('vars', 'parent', 'module', 'kind')

    def __init__(self, vars, parent, module, kind='fn'):
        self.vars, self.parent = vars, parent
        self.module, self.kind = module, kind


class LObj(Rec):
    __slots__ = ('items', 'origin')

    def __init__(self, items, origin='fresh'):
        self.items, self.origin = list(items), origin


class DView(LObj):
    """keys or items of a dict"""
    __slots__ = ('items', 'origin')


class DObj(Rec):
    """dict: key -> (key value, value)"""
    __slots__ = ('items', 'origin')

    def __init__(self, items, origin='fresh'):
        self.items, self.origin = dict(items), origin


class FDict(DObj):
    """defaultdict"""
    __slots__ = ('items', 'origin', 'factory')

    def __init__(self, items, factory):
        self.items, self.origin = dict(items), 'fresh'
        self.factory = factory


class Space(DObj):
    """The attributes of an object (__dict__), or names of a module, as a
    dict: read from, and written to, its owner."""
    __slots__ = ('items', 'origin', 'owner')

    def __init__(self, owner):
        self.items, self.origin, self.owner = {}, 'space', owner


class SObj(Rec):
    """set; iteration order is unspecified"""
    __slots__ = ('items', 'origin')

    def __init__(self, items, origin='fresh'):
        self.items, self.origin = dict(items), origin


class FnObj(Rec):
    __slots__ = ('node', 'env', 'name', 'defaults', 'kwdefaults', 'cls',
                 'attrs', 'module')

    def __init__(self, node, env, name, defaults, kwdefaults, module):
        self.node, self.env, self.name = node, env, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls, self.attrs, self.module = None, {}, module


class ClsObj(Rec):
    __slots__ = ('name', 'bases', 'attrs', 'mro', 'meta', 'module', 'node')

    def __init__(self, name, bases, attrs, mro, meta, module, node):
        self.name, self.bases, self.attrs = name, bases, attrs
        self.mro, self.meta, self.module = mro, meta, module
        self.node = node


class Inst(Rec):
    __slots__ = ('cls', 'attrs', 'data', 'origin')

    def __init__(self, cls, attrs=None, data=None, origin='fresh'):
        self.cls, self.attrs, self.data = cls, attrs or {}, data
        self.origin = origin


class Arr(Rec):
    """numpy array: term for an owner, (base, chain) for a view"""
    __slots__ = ('term', 'cls', 'attrs', 'base', 'chain', 'origin', 'ro')

    def __init__(self, term, cls=None, attrs=None, base=None, chain=(),
                 origin='fresh', ro=False):
        self.term, self.cls, self.attrs = term, cls, attrs or {}
        self.base, self.chain, self.origin = base, chain, origin
        self.ro = ro


class OArr(Rec):
    """object array: items of the store, by flat index; views share it"""
    __slots__ = ('shape', 'store', 'index', 'origin')

    def __init__(self, shape, store, index, origin='fresh'):
        self.shape, self.store, self.index = shape, store, index
        self.origin = origin


class It(Rec):
    """iterator over a known sequence"""
    __slots__ = ('items', 'pos')

    def __init__(self, items, pos=0):
        self.items, self.pos = items, pos


class GenObj(Rec):
    """Generator: the frame and body to run; store: the items, once run."""
    __slots__ = ('frame', 'body', 'done', 'store')

    def __init__(self, frame, body):
        self.frame, self.body = frame, body
        self.done, self.store = False, None


class MObj(Rec):
    """merge of two records of different structure"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def is_number(v):
    return isinstance(v, Num) or (
        isinstance(v, Const) and isinstance(v.v, (int, float, complex, bool)))


__all__ = [n for n in dir() if not n.startswith('_')]
