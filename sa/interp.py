"""Abstract interpreter of the Python sources of sdepy.

Context-sensitive (callees are analysed in the context of their call),
flow-sensitive, with joins: both arms of an undetermined branch are analysed
from copies of the abstract state, which are then merged into gated values
(``ite`` terms), so no execution paths are enumerated and no constraint is
solved.  Numeric data are value numbers (terms); structure (shapes, argument
kinds, orderings of times) is given by the analysis context.
"""
import ast
import functools
import os
from .values import *
from .terms import (T, mk, leaf, const, AInt, LInt, Sl, Lst, Dct, TermError,
                    Valuation, REP, resolve, constants, is_ordered, show)
from . import terms as tm
import numpy as np

REPO = os.environ.get('SDEPY_REPO', '/repo')
MAXDEPTH = 90
MAXLOOP = 400


class Dead(Exception):
    """No live state on this control path."""


class NeedFork(Exception):
    def __init__(self, oid, rec):
        self.oid, self.rec = oid, rec


class AnalysisError(Exception):
    """The analysis cannot proceed (anchor missing, unsupported construct)."""


class Event:
    __slots__ = ('kind', 'info', 'pc', 'site', 'stack', 'n')

    def __init__(self, kind, info, pc, site, stack, n):
        self.kind, self.info, self.pc = kind, info, pc
        self.site, self.stack, self.n = site, stack, n

    def __repr__(self):
        return '<%s %r at %s>' % (self.kind, self.info, self.site)


class Frame:
    __slots__ = ('env', 'name', 'cls', 'self', 'module', 'returns', 'loops',
                 'line', 'declared', 'file', 'onyield')

    def __init__(self, env, name, cls, self_, module, file):
        self.env, self.name, self.cls, self.self = env, name, cls, self_
        self.module, self.returns, self.loops = module, [], []
        self.line, self.declared, self.file = 0, {}, file
        self.onyield = None


BUILTINS = set(dir(__builtins__ if not isinstance(__builtins__, dict)
                   else __import__('builtins')))
import builtins as _bi  # noqa
BUILTINS = set(dir(_bi))


def _bool(t):
    if isinstance(t, T) and t.op == 'const' and \
       isinstance(t.args[0], (bool, np.bool_)):
        return bool(t.args[0])
    return t if isinstance(t, bool) else None


class Interp:

    def __init__(self, repo=None, set_order=1, hash_salt=0):
        self.repo = repo or REPO
        self.pkg = os.path.join(self.repo, 'sdepy')
        self.heap = {}
        self.noid = 0
        self.pc = ()
        self.events = []
        self.frames = []
        self.sinks = [[]]
        self.facts = []         # ordered conditions decided by the context
        self.modules = {}
        self.asts = {}
        self.ndraw = 0
        self.nfresh = 0
        self.set_order = set_order
        self.hash_salt = hash_salt
        # external calls may also raise, while settings are altered
        self.raise_mode = False
        self.track = False          # record what calls return
        self.analysed = {}          # functions analysed: site -> count
        self.nbranch = 0
        self.njoin = 0
        self.opaques = []
        self.hooks = {}
        from . import models
        self.models = models.Models(self)
        self.errs0 = Const(tuple('as found: ' + k for k in (
            'divide', 'over', 'under', 'invalid')))
        self.gstate = self.alloc(Inst(Ext('global'), {
            'errstate': self.errs0}))

    # ------------------------------------------------------------ utilities

    def alloc(self, rec):
        self.noid += 1
        self.heap[self.noid] = rec
        return Ref(self.noid)

    def rec(self, v):
        """Record of a reference (forks first if it is a merged record)."""
        r = self.heap[v.oid if isinstance(v, Ref) else v]
        if isinstance(r, MObj):
            oid = v.oid if isinstance(v, Ref) else v
            d = self.decide(r.c)
            if d is None:
                raise NeedFork(oid, r)
            self.heap[oid] = r.a if d else r.b
            return self.rec(v)
        if isinstance(r, Space):
            return r.but(items={
                self.key(Const(k)): (Const(k), x)
                for k, x in self.names_of(r.owner).items() if x is not UNDEF})
        return r

    def names_of(self, owner):
        r = self.rec(owner)
        return r.vars if isinstance(r, Env) else r.attrs

    def prim(self, fn):
        """Run a primitive, splitting merged records as needed."""
        try:
            return fn()
        except NeedFork as e:
            return self.split(e, lambda: self.prim(fn))

    def split(self, e, fn):
        """Continue with fn on both sides of a merged record."""
        def arm(rec):
            def run():
                self.heap[e.oid] = rec
                return fn()
            return run
        return self.fork(e.rec.c, arm(e.rec.a), arm(e.rec.b))

    def spread(self, vals, k):
        """Continue with k(items), given [(starred, value)]."""
        try:
            out = []
            for i, (star, v) in enumerate(vals):
                if not star:
                    out.append(v)
                    continue
                items = self.seq(v)
                if items is None:
                    if isinstance(v, Phi):
                        def arm(x):
                            return lambda: self.spread(
                                vals[:i] + [(True, x)] + vals[i + 1:], k)
                        return self.fork(v.c, arm(v.a), arm(v.b))
                    raise AnalysisError('star of unknown at ' + self.site())
                out += items
        except NeedFork as e:
            return self.split(e, lambda: self.spread(vals, k))
        return k(out)

    def put(self, ref, rec):
        if isinstance(rec, Space):
            old = self.names_of(rec.owner)
            new = {k.v: x for k, x in rec.items.values()}
            r = self.rec(rec.owner)
            for k in list(new) + [k for k in old if k not in new]:
                if old.get(k) is not new.get(k):
                    self.event(
                        'setattr', obj=rec.owner, name=k, value=new.get(k),
                        target='module' if isinstance(r, Env) else 'inst')
            self.heap[rec.owner.oid] = r.but(vars=new) if isinstance(
                r, Env) else r.but(attrs=new)
            return
        self.heap[ref.oid] = rec

    def site(self):
        if not self.frames:
            return '<context>'
        f = self.frames[-1]
        return '%s:%d:%s' % (f.file, f.line, f.name)

    def stack(self):
        return tuple(f.name for f in self.frames)

    def event(self, kind, **info):
        e = Event(kind, info, self.pc, self.site(), self.stack(),
                  len(self.events))
        self.events.append(e)
        return e

    def opaque(self, why):
        o = Opaque('%s at %s' % (why, self.site()))
        self.opaques.append(o.why)
        return o

    def fresh_leaf(self, base, shape=(), dtype='f8', dom='opaque'):
        self.nfresh += 1
        return leaf('%s~%d' % (base, self.nfresh), shape, dtype, dom)

    # ------------------------------------------------------ decisions, joins

    def decide(self, c):
        """Truth of a condition, if determined by the context or by the path;
        None otherwise."""
        if isinstance(c, bool):
            return c
        if not isinstance(c, T):
            return bool(c)
        c, pol = self.norm(c)
        if not pol:
            d = self.decide(c)
            return None if d is None else not d
        if not isinstance(c, T):
            return bool(c)
        if c.op == 'const':
            return bool(c.args[0])
        if c.op == 'and':
            ds = [self.decide(a) for a in c.args]
            if any(d is False for d in ds):
                return False
            if all(d is True for d in ds):
                return True
        for t, truth in self.pc:
            if t is c:
                return truth
        if c.op == 'ite':
            d = self.decide(c.args[0])
            if d is not None:
                return self.decide(c.args[1] if d else c.args[2])
        if not c.leaves:
            try:
                return bool(c.rep)
            except Exception:
                return None
        if all(is_ordered(f) for f in c.leaves) and not _literal_cmp(c):
            try:
                d = bool(c.rep)
            except Exception:
                return None
            if (c, d) not in self.facts:
                self.facts.append((c, d))
            return d
        try:
            r = tm.REP.ev(c)
            if isinstance(r, np.ndarray) and r.size == 0:
                return bool(r)
        except Exception:
            pass
        return None

    @staticmethod
    def norm(c):
        """Strip negations: returns (atom, polarity)."""
        pol = True
        while isinstance(c, T):
            if c.op == 'truth':
                c = c.args[0]
            elif c.op == 'un' and c.args[0] == 'not':
                pol = not pol
                c = c.args[1]
            elif c.op == 'ite' and _bool(c.args[1]) is not None and \
                    _bool(c.args[2]) is (not _bool(c.args[1])):
                if not _bool(c.args[1]):
                    pol = not pol
                c = c.args[0]
            else:
                break
        return c, pol

    def attempt(self, fn):
        try:
            return True, fn()
        except Dead:
            return False, None

    def fork(self, c, fa, fb):
        """Analyse both arms of a branch and merge."""
        d = self.decide(c)
        if d is not None:
            return fa() if d else fb()
        c, pol = self.norm(c)
        if not pol:
            fa, fb = fb, fa
        self.nbranch += 1
        h0, pc0 = self.heap, self.pc
        states = []
        for truth, fn in ((True, fa), (False, fb)):
            self.heap, self.pc = dict(h0), pc0 + ((c, truth),)
            live, val = self.attempt(fn)
            if live:
                states.append((self.pc, self.heap, val))
        return self.join(pc0, states)

    def join(self, pc0, states):
        """Merge live states (pc, heap, value); continue from the result."""
        if not states:
            raise Dead()
        if len(states) == 1:
            self.pc, self.heap, val = states[0]
            return val
        self.njoin += 1
        n0 = len(pc0)
        pc, heap, val = states[-1]
        for pci, hi, vi in reversed(states[:-1]):
            c = self.relcond(pci[n0:], pc[n0:])
            heap = self.merge_heaps(c, hi, heap)
            val = self.mergev(c, vi, val)
            common = tuple(x for x in pci[n0:] if x in pc[n0:])
            pc = pc0 + common
        self.pc, self.heap = pc, heap
        return val

    def relcond(self, suffix, other):
        """Condition under which the state with this path suffix holds."""
        other = set(other)
        atoms = []
        for c, truth in suffix:
            if (c, truth) in other:
                continue
            atoms.append(c if truth else mk('un', 'not', c))
        if len(atoms) == 1:
            return atoms[0]
        if not atoms:
            return const(True)
        return mk('and', *atoms)

    def merge_heaps(self, c, h1, h2):
        out = dict(h2)
        for k, r1 in h1.items():
            r2 = h2.get(k)
            if r2 is None:
                out[k] = r1
            elif r1 is not r2:
                out[k] = self.merge_rec(c, r1, r2)
        return out

    def merge_rec(self, c, a, b):
        if type(a) is type(b):
            if isinstance(a, Env):
                return a.but(vars=self.merge_dict(c, a.vars, b.vars))
            if isinstance(a, Inst) and a.cls == b.cls:
                d = a.data
                if a.data is not b.data and a.data != b.data:
                    d = None
                return a.but(attrs=self.merge_dict(c, a.attrs, b.attrs),
                             data=d)
            if isinstance(a, (FnObj, ClsObj)):
                return a.but(attrs=self.merge_dict(c, a.attrs, b.attrs))
            if isinstance(a, LObj) and len(a.items) == len(b.items):
                return a.but(items=[self.mergev(c, x, y) for x, y in
                                    zip(a.items, b.items)])
            if isinstance(a, OArr) and a.shape == b.shape:
                return a
            if isinstance(a, DObj) and list(a.items) == list(b.items):
                return a.but(items={k: (a.items[k][0], self.mergev(
                    c, a.items[k][1], b.items[k][1])) for k in a.items})
            if isinstance(a, Arr) and a.base == b.base and \
               a.cls == b.cls:
                if a.base is None:
                    t = a.term if a.term is b.term else \
                        mk('ite', c, a.term, b.term)
                    return a.but(term=t, attrs=self.merge_dict(
                        c, a.attrs, b.attrs))
                if a.chain == b.chain:
                    return a.but(attrs=self.merge_dict(c, a.attrs, b.attrs))
        return MObj(c, a, b)

    def merge_dict(self, c, a, b):
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k, UNDEF), b.get(k, UNDEF)
            out[k] = x if x is y else self.mergev(c, x, y)
        return out

    def mergev(self, c, a, b):
        if a is b or a is None or b is None:
            return a if a is not None else b
        if isinstance(a, Const) and isinstance(b, Const) and \
           type(a.v) is type(b.v) and a.v == b.v:
            return a
        if isinstance(a, (Ref, Ext)) and a == b:
            return a
        if is_number(a) and is_number(b):
            ta, tb = self.num(a), self.num(b)
            if ta is tb:
                return a
            return Num(mk('ite', c, ta, tb))
        if isinstance(a, Tup) and isinstance(b, Tup) and \
           len(a.items) == len(b.items):
            return Tup(self.mergev(c, x, y)
                       for x, y in zip(a.items, b.items))
        return Phi(c, a, b)

    # ------------------------------------------------------------ exceptions

    def throw(self, cls, *args):
        """Definite exception."""
        e = cls if isinstance(cls, ExcV) else ExcV(cls, args, self.site())
        self.sinks[-1].append((self.pc, self.heap, e))
        raise Dead()

    def may_throw(self, cond, cls, *args):
        """Exception under a condition."""
        d = self.decide(cond)
        if d is True:
            self.throw(cls, *args)
        if d is False:
            return
        c, pol = self.norm(cond)
        e = ExcV(cls, args, self.site())
        self.sinks[-1].append((self.pc + ((c, pol),), dict(self.heap), e))
        self.pc = self.pc + ((c, not pol),)

    def exc_matches(self, exc, handler):
        """Does an exception match a handler type?"""
        if handler is None:
            return True
        if isinstance(handler, Tup):
            return any(self.exc_matches(exc, h) for h in handler.items)
        if isinstance(handler, Ref):
            if isinstance(exc.cls, Ref):
                return handler in self.rec(exc.cls).mro
            return False
        if isinstance(handler, Ext):
            h = self._pyexc(handler.path)
            if isinstance(exc.cls, Ref):
                return any(isinstance(m, Ext) and h is not None and
                           self._pyexc(m.path) is not None and
                           issubclass(self._pyexc(m.path), h)
                           for m in self.rec(exc.cls).mro)
            e = self._pyexc(exc.cls)
            if e is None or h is None:
                return handler.path in ('builtins.Exception',
                                        'builtins.BaseException')
            return issubclass(e, h)
        return False

    @staticmethod
    def _pyexc(name):
        name = name.path if isinstance(name, Ext) else name
        for p in (name, 'builtins.' + name, 'numpy.' + name,
                  'numpy.linalg.' + name):
            try:
                o = resolve(p)
                if isinstance(o, type) and issubclass(o, BaseException):
                    return o
            except Exception:
                pass
        return None

    # --------------------------------------------------------------- modules

    def load(self, name):
        """Analyse a module of the package; returns its Env reference."""
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.pkg, *name.split('.')) + '.py'
        if not os.path.exists(path):
            path = os.path.join(self.pkg, *name.split('.'), '__init__.py')
        if not os.path.exists(path):
            raise AnalysisError('module sdepy.%s not found' % name)
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        self.asts[name] = tree
        env = self.alloc(Env({'__name__': Const('sdepy.' + name)}, None,
                             name, 'module'))
        self.modules[name] = env
        fr = Frame(env, '<module>', None, None, name,
                   'sdepy/%s.py' % name.replace('.', '/'))
        self.frames.append(fr)
        try:
            self.block(tree.body)
        except Dead:
            e = self.sinks[0][-1][-1] if self.sinks[0] else None
            e = e and (e, e.site, e.args)
            raise AnalysisError('import of sdepy.%s fails: %s' % (name, e))
        finally:
            self.frames.pop()
        return env

    def load_std(self):
        """Text of standard library functions."""
        with open(os.path.join(os.path.dirname(__file__), 'std.txt')) as f:
            tree = ast.parse(f.read())
        env = self.alloc(Env({'__name__': Const('std')}, None, 'std',
                             'module'))
        self.modules['std'] = env
        self.frames.append(Frame(env, '<module>', None, None, 'std',
                                 '<std>'))
        try:
            self.block(tree.body)
        finally:
            self.frames.pop()
        for k, v in self.heap[env.oid].vars.items():
            if '__' in k[1:-2]:
                self.std[k.replace('__', '.')] = v

    def load_all(self):
        self.std = {}
        self.load_std()
        for m in ('_config', 'infrastructure', 'integration', 'analytical',
                  'kfun', 'shortcuts'):
            self.load(m)
        self.watermark = self.noid
        self.base_events = len(self.events)
        return self

    def public(self, name, module=None):
        """Public object of the package."""
        mods = [module] if module else ['shortcuts', 'kfun', 'analytical',
                                        'integration', 'infrastructure']
        for m in mods:
            v = self.heap[self.load(m).oid].vars.get(name)
            if v is not None and v is not UNDEF:
                return v
        raise AnalysisError('public name sdepy.%s not found' % name)

    def import_module(self, modname, level, frame):
        """Module value for an import statement."""
        if level:
            base = frame.module.split('.')[:-1]
            base = base[:len(base) - (level - 1)] if level > 1 else base
            name = '.'.join(base + ([modname] if modname else []))
            return ('pkg', name)
        top = modname.split('.')[0]
        if top == 'sdepy':
            return ('pkg', '.'.join(modname.split('.')[1:]))
        return ('ext', modname)

    # ------------------------------------------------------------ statements

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.frames[-1].line = s.lineno
        getattr(self, 's_' + type(s).__name__, self.s_unsupported)(s)

    def s_unsupported(self, s):
        raise AnalysisError('statement %s not supported at %s' % (
            type(s).__name__, self.site()))

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        op = _OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            self.assign(t, self.inplace(op, cur, self.ev(s.value)))
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value)
            cur = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr,
                         self.inplace(op, cur, self.ev(s.value)))
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value)
            idx = self.ev(t.slice)
            cur = self.getitem(obj, idx)
            self.setitem(obj, idx, self.inplace(op, cur, self.ev(s.value)))
        else:
            self.s_unsupported(s)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack_to(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value)
            self.setitem(obj, self.ev(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise AnalysisError('assignment target at ' + self.site())

    def unpack_to(self, elts, v):
        if isinstance(v, Phi):
            self.fork(v.c, lambda: self.unpack_to(elts, v.a),
                      lambda: self.unpack_to(elts, v.b))
            return
        if isinstance(v, Opaque):
            for e in elts:
                self.assign(e, v)
            return
        items = self.seq(v)
        if items is None:
            for e in elts:
                self.assign(e, self.opaque('unpacking'))
            return
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            n = len(items) - (len(elts) - 1)
            if n < 0:
                self.throw('ValueError')
            items = items[:i] + [self.alloc(LObj(items[i:i + n]))] + \
                items[i + n:]
        if len(items) != len(elts):
            self.throw('ValueError', 'unpack')
        for e, x in zip(elts, items):
            self.assign(e, x)

    def store(self, name, v):
        f = self.frames[-1]
        d = f.declared.get(name)
        if d == 'global':
            env = self.modules[f.module]
            self.event('global_write', name=name, module=f.module)
        elif d == 'nonlocal':
            env = self.find_env(name, self.heap[f.env.oid].parent)
            if env is None:
                raise AnalysisError('nonlocal ' + name)
        else:
            env = f.env
        r = self.heap[env.oid]
        self.heap[env.oid] = r.but(vars={**r.vars, name: v})

    def find_env(self, name, env):
        while env is not None:
            r = self.heap[env.oid]
            if name in r.vars and r.kind != 'class':
                return env
            env = r.parent
        return None

    def lookup(self, name):
        f = self.frames[-1]
        env = f.env
        first = True
        if f.declared.get(name) == 'global':
            env = self.modules[f.module]
        while env is not None:
            r = self.heap[env.oid]
            if isinstance(r, MObj):
                raise AnalysisError('merged environment')
            if name in r.vars and (first or r.kind != 'class'):
                v = r.vars[name]
                return self.defined(v, name)
            first = False
            env = r.parent
        if name == '__class__' and f.cls is not None:
            return f.cls
        if name in BUILTINS:
            return _CONSTS.get(name) or Ext('builtins.' + name)
        self.throw('NameError', name)

    def defined(self, v, name):
        """Resolve values undefined on some branch."""
        if v is UNDEF:
            self.throw('UnboundLocalError', name)
        if isinstance(v, Phi):
            d = self.decide(v.c)
            if d is not None:
                return self.defined(v.a if d else v.b, name)
            if self._has_undef(v):
                return self.fork(v.c, lambda: self.defined(v.a, name),
                                 lambda: self.defined(v.b, name))
        return v

    def _has_undef(self, v):
        return v is UNDEF or (isinstance(v, Phi) and (
            self._has_undef(v.a) or self._has_undef(v.b)))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env = self.frames[-1].env
                r = self.heap[env.oid]
                vs = dict(r.vars)
                vs.pop(t.id, None)
                self.heap[env.oid] = r.but(vars=vs)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value), t.attr)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self.ev(t.value), self.ev(t.slice))
            else:
                self.s_unsupported(s)

    def s_Global(self, s):
        for n in s.names:
            self.frames[-1].declared[n] = 'global'

    def s_Nonlocal(self, s):
        for n in s.names:
            self.frames[-1].declared[n] = 'nonlocal'

    def s_Import(self, s):
        for a in s.names:
            kind, name = self.import_module(a.name, 0, self.frames[-1])
            if kind == 'pkg':
                v = self.load(name) if name else Ext('sdepy')
                self.store(a.asname or 'sdepy', v)
            elif a.asname:
                self.store(a.asname, Ext(name))
            else:
                self.store(name.split('.')[0], Ext(name.split('.')[0]))

    def s_ImportFrom(self, s):
        kind, name = self.import_module(s.module or '', s.level,
                                        self.frames[-1])
        for a in s.names:
            if kind == 'ext':
                self.store(a.asname or a.name,
                           self.models.ext_attr(Ext(name), a.name))
                continue
            if name == '':
                self.store(a.asname or a.name, self.load(a.name))
                continue
            env = self.load(name)
            vs = self.heap[env.oid].vars
            if a.name == '*':
                for k, v in vs.items():
                    if not k.startswith('_'):
                        self.store(k, v)
            elif a.name in vs:
                self.store(a.asname or a.name, vs[a.name])
            else:
                self.store(a.asname or a.name,
                           self.load(name + '.' + a.name))

    def s_FunctionDef(self, s):
        fn = self.make_fn(s, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            fn = self.call(dv, [fn], {})
        self.store(s.name, fn)

    s_AsyncFunctionDef = s_unsupported

    def make_fn(self, node, name):
        f = self.frames[-1]
        a = node.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {k.arg: self.ev(d) for k, d in zip(a.kwonlyargs,
                                                 a.kw_defaults)
               if d is not None}
        rec = FnObj(node, f.env, name, defaults, kwd, f.module)
        doc = ast.get_docstring(node, clean=False) \
            if not isinstance(node, ast.Lambda) else None
        rec.attrs = {'__doc__': Const(doc), '__name__': Const(name),
                     '__qualname__': Const(name),
                     '__module__': Const('sdepy.' + f.module)}
        return self.alloc(rec)

    def s_ClassDef(self, s):
        f = self.frames[-1]
        bases = [self.ev(b) for b in s.bases]
        kw = {k.arg: self.ev(k.value) for k in s.keywords}
        cenv = self.alloc(Env({}, f.env, f.module, 'class'))
        fr = Frame(cenv, '<class %s>' % s.name, None, None, f.module, f.file)
        self.frames.append(fr)
        try:
            self.block(s.body)
        finally:
            self.frames.pop()
        attrs = dict(self.heap[cenv.oid].vars)
        doc = ast.get_docstring(s, clean=False)
        attrs.setdefault('__doc__', Const(doc))
        attrs.setdefault('__module__', Const('sdepy.' + f.module))
        attrs.setdefault('__qualname__', Const(s.name))
        meta = kw.get('metaclass')
        cls = self.make_class(s.name, bases, attrs, meta, f.module, s)
        for d in reversed(s.decorator_list):
            cls = self.call(self.ev(d), [cls], {})
        self.store(s.name, cls)

    def make_class(self, name, bases, attrs, meta, module, node=None):
        bases = bases or [Ext('builtins.object')]
        cls = self.alloc(None)
        lins = []
        for b in bases:
            if isinstance(b, Ref) and isinstance(self.rec(b), ClsObj):
                lins.append(list(self.rec(b).mro))
                meta = meta or self.rec(b).meta
            elif isinstance(b, Ext):
                lins.append([b] + ([] if b.path == 'builtins.object'
                                   else [Ext('builtins.object')]))
            elif isinstance(b, Phi):
                raise AnalysisError('undetermined base class of ' + name)
            else:
                raise AnalysisError('unsupported base of class ' + name)
        mro = [cls] + self.c3(lins + [list(bases)], name)
        self.put(cls, ClsObj(name, bases, attrs, mro, meta, module, node))
        for k, v in attrs.items():
            for g in (v, getattr(v, 'func', None), getattr(v, 'fget', None),
                      getattr(v, 'fset', None)):
                if isinstance(g, Ref) and isinstance(self.heap[g.oid], FnObj) \
                   and self.heap[g.oid].cls is None:
                    self.put(g, self.heap[g.oid].but(cls=cls))
        return cls

    def c3(self, seqs, name):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                self.throw('TypeError', 'mro ' + name)
            out.append(c)
            seqs = [[x for x in s if x != c] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def s_Return(self, s):
        v = NONE if s.value is None else self.ev(s.value)
        self.frames[-1].returns.append((self.pc, self.heap, v))
        raise Dead()

    def s_Break(self, s):
        self.frames[-1].loops[-1][0].append((self.pc, self.heap, None))
        raise Dead()

    def s_Continue(self, s):
        self.frames[-1].loops[-1][1].append((self.pc, self.heap, None))
        raise Dead()

    def s_If(self, s):
        self.branch(self.ev(s.test), lambda: self.block(s.body),
                    lambda: self.block(s.orelse))

    def branch(self, v, fa, fb):
        """Branch on the truth of a value."""
        c = self.truth(v)
        if isinstance(c, Phi):
            return self.fork(c.c, lambda: self.branch(c.a, fa, fb),
                             lambda: self.branch(c.b, fa, fb))
        if isinstance(c, bool):
            return fa() if c else fb()
        return self.fork(c, fa, fb)

    def truth(self, v):
        """bool, condition term, or Phi."""
        if isinstance(v, Phi):
            d = self.decide(v.c)
            if d is not None:
                return self.truth(v.a if d else v.b)
            return v
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Num):
            return mk('truth', v.t)
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, Ref):
            r = self.rec(v)
            if isinstance(r, (LObj, DObj, SObj)):
                return len(r.items) > 0
            if isinstance(r, Arr):
                t = self.read(v)
                try:
                    n = np.size(t.rep)
                except Exception:
                    n = 1
                if n > 1:
                    self.throw('ValueError', 'truth value of an array')
                return mk('truth', t)
            if isinstance(r, Inst):
                for m in ('__bool__', '__len__'):
                    f = self.getattr(v, m, None)
                    if f is not None:
                        return self.truth(self.call(f, [], {}))
            return True
        if isinstance(v, Opaque):
            return leaf('opaque:' + v.why, (), 'bool', 'opaque')
        return True

    def loop_body(self, body, after=None):
        """One iteration; returns False if no state continues."""
        f = self.frames[-1]
        pc0 = self.pc
        brk, cont = f.loops[-1]
        del cont[:]
        live, _ = self.attempt(lambda: self.block(body))
        states = ([(self.pc, self.heap, None)] if live else []) + list(cont)
        del cont[:]
        if not states:
            return False
        self.join(self._common(pc0, states), states)
        return True

    @staticmethod
    def _common(pc0, states):
        """Longest common prefix of the path conditions."""
        n = len(pc0)
        for s in states:
            k = 0
            while k < n and k < len(s[0]) and s[0][k] == pc0[k]:
                k += 1
            n = k
        return pc0[:n]

    def s_For(self, s):
        it = self.ev(s.iter)
        self.for_value(it, s)

    def for_value(self, it, s):
        if isinstance(it, Phi):
            self.fork(it.c, lambda: self.for_value(it.a, s),
                      lambda: self.for_value(it.b, s))
            return
        gen = isinstance(it, Ref) and isinstance(self.heap[it.oid], GenObj)
        try:
            items = None if gen else self.seq(it)
        except NeedFork as e:
            self.split(e, lambda: self.for_value(it, s))
            return
        f = self.frames[-1]
        brk, cont = [], []
        f.loops.append((brk, cont))
        pc0 = self.pc
        try:
            alive = True
            if gen:
                def consume(x):
                    self.assign(s.target, x)
                    if not self.loop_body(s.body):
                        raise Dead()
                alive, _ = self.attempt(lambda: self.run_gen(it, consume))
            elif items is None:
                alive = self.generic_loop(s, it)
            else:
                for x in items:
                    self.assign(s.target, x)
                    if not self.loop_body(s.body):
                        alive = False
                        break
        finally:
            f.loops.pop()
        states = []
        if alive:
            live = True
            if s.orelse:
                live, _ = self.attempt(lambda: self.block(s.orelse))
            if live:
                states.append((self.pc, self.heap, None))
        states += brk
        if not states:
            raise Dead()
        self.join(self._common(pc0, states), states)

    def generic_loop(self, s, it):
        """Loop with a value-dependent trip count: one generic iteration,
        merged with no iteration; values written become gated by an opaque
        condition, so that no claim is made on them."""
        self.event('generic_loop')
        c = self.fresh_leaf('loop@' + self.site(), (), 'bool', 'opaque')

        def body():
            if it is not None:
                self.assign(s.target, self.generic_item(it))
            if not self.loop_body(s.body):
                raise Dead()
        live, _ = self.attempt(lambda: self.fork(c, body, lambda: None))
        return live

    def generic_item(self, it):
        if isinstance(it, SymRange):
            return Num(leaf('%s~it%d' % (self.site(), len(self.events)), (),
                            'i8', 'int'))
        return self.opaque('loop item')

    def s_While(self, s):
        f = self.frames[-1]
        brk, cont = [], []
        f.loops.append((brk, cont))
        pc0 = self.pc
        n = 0
        alive = True
        try:
            while True:
                n += 1
                self.frames[-1].line = s.lineno
                c = self.truth(self.ev(s.test))
                if isinstance(c, T):
                    d = self.decide(c)
                    c = c if d is None else d
                if c is False:
                    break
                if c is True and n <= MAXLOOP:
                    if not self.loop_body(s.body):
                        alive = False
                        break
                    continue
                if n > MAXLOOP:
                    self.event('loop_bound')
                    self.opaque('loop bound')
                    break
                alive = self.generic_loop(s, None)
                break
        finally:
            f.loops.pop()
        states = []
        if alive:
            live = True
            if s.orelse:
                live, _ = self.attempt(lambda: self.block(s.orelse))
            if live:
                states.append((self.pc, self.heap, None))
        states += brk
        if not states:
            raise Dead()
        self.join(self._common(pc0, states), states)

    def s_Match(self, s):
        self.store('.match', self.ev(s.subject))
        chain = []
        for case in reversed(s.cases):
            test, names = self.pattern(case.pattern)
            if case.guard is not None:
                for n in reversed(names):
                    test = ast.BoolOp(op=ast.And(), values=[
                        test, ast.Compare(
                            left=ast.NamedExpr(
                                target=ast.Name(id=n, ctx=ast.Store()),
                                value=ast.Name(id='.match', ctx=ast.Load())),
                            ops=[ast.Is()], comparators=[ast.Name(
                                id='.match', ctx=ast.Load())])])
                test = ast.BoolOp(op=ast.And(), values=[test, case.guard])
            bind = [ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())],
                               value=ast.Name(id='.match', ctx=ast.Load()))
                    for n in names]
            chain = [ast.If(test=test, body=bind + case.body, orelse=chain)]
        for n in chain:
            ast.copy_location(n, s)
            for m in ast.walk(n):
                if 'lineno' in m._attributes and not hasattr(m, 'lineno'):
                    ast.copy_location(m, s)
        self.block(chain)

    def pattern(self, p):
        """(test, names bound to the subject) of a pattern."""
        subject = ast.Name(id='.match', ctx=ast.Load())
        if isinstance(p, ast.MatchValue):
            return ast.Compare(left=subject, ops=[ast.Eq()],
                               comparators=[p.value]), []
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(left=subject, ops=[ast.Is()], comparators=[
                ast.Constant(value=p.value)]), []
        if isinstance(p, ast.MatchOr):
            ts = [self.pattern(q) for q in p.patterns]
            return ast.BoolOp(op=ast.Or(), values=[t for t, _ in ts]), []
        if isinstance(p, ast.MatchAs):
            t, names = (ast.Constant(value=True), []) if p.pattern is None \
                else self.pattern(p.pattern)
            return t, names + ([p.name] if p.name else [])
        if isinstance(p, ast.MatchClass) and not p.patterns and \
           not p.kwd_patterns:
            return ast.Call(func=ast.Name(id='isinstance', ctx=ast.Load()),
                            args=[subject, p.cls], keywords=[]), []
        raise AnalysisError('match pattern at ' + self.site())

    def s_With(self, s):
        exits = []
        for n, item in enumerate(s.items):
            cm = self.ev(item.context_expr)
            if isinstance(cm, Ref) and isinstance(self.heap[cm.oid], GenObj):
                # contextlib.contextmanager
                rest = ast.With(items=s.items[n + 1:], body=s.body)
                ast.copy_location(rest, s)

                def inside(v, item=item):
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, v)
                    self.s_With(rest) if rest.items else self.block(s.body)
                if exits or any(isinstance(x, (
                        ast.Return, ast.Break, ast.Continue))
                        for y in s.body for x in ast.walk(y)):
                    raise AnalysisError('exit from context manager at ' +
                                        self.site())
                self.run_gen(cm, inside, isolate=False)
                return
            v, ex = self.models.enter(cm)
            exits.append(ex)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)

        def fin():
            for ex in reversed(exits):
                ex()
        self.try_finally(lambda: self.block(s.body), fin)

    def try_finally(self, body, fin):
        f = self.frames[-1]
        pc0 = self.pc
        self.sinks.append([])
        marks = [f.returns] + [x for l in f.loops for x in l]
        lens = [len(m) for m in marks]
        live, val = self.attempt(body)
        sink = self.sinks.pop()
        normal = (self.pc, self.heap, val) if live else None
        # abrupt outcomes: run the final block on each of them
        for m, n in zip(marks, lens):
            new = m[n:]
            del m[n:]
            for pc, heap, v in new:
                self.pc, self.heap = pc, heap
                ok, _ = self.attempt(fin)
                if ok:
                    m.append((self.pc, self.heap, v))
        for pc, heap, e in sink:
            self.pc, self.heap = pc, heap
            ok, _ = self.attempt(fin)
            if ok:
                self.sinks[-1].append((self.pc, self.heap, e))
        if normal is None:
            raise Dead()
        self.pc, self.heap, val = normal
        fin()
        return val

    def s_Try(self, s):
        if s.finalbody:
            inner = ast.Try(body=s.body, handlers=s.handlers,
                            orelse=s.orelse, finalbody=[])
            ast.copy_location(inner, s)
            if s.handlers:
                self.try_finally(lambda: self.s_Try(inner),
                                 lambda: self.block(s.finalbody))
            else:
                self.try_finally(
                    lambda: (self.block(s.body), self.block(s.orelse)),
                    lambda: self.block(s.finalbody))
            return
        pc0 = self.pc
        self.sinks.append([])
        live, _ = self.attempt(lambda: self.block(s.body))
        sink = self.sinks.pop()
        states = []
        if live:
            ok = True
            if s.orelse:
                ok, _ = self.attempt(lambda: self.block(s.orelse))
            if ok:
                states.append((self.pc, self.heap, None))
        for pc, heap, e in sink:
            for h in s.handlers:
                self.pc, self.heap = pc, heap
                ht = None if h.type is None else self.ev(h.type)
                if self.exc_matches(e, ht):
                    self.event('handled', exc=e, bare=h.type is None,
                               handler=ht, line=h.lineno)

                    def run():
                        if h.name:
                            self.store(h.name, e)
                        self.frames[-1].line = h.lineno
                        self._handling = getattr(self, '_handling', [])
                        self._handling.append(e)
                        try:
                            self.block(h.body)
                        finally:
                            self._handling.pop()
                    ok, _ = self.attempt(run)
                    if ok:
                        states.append((self.pc, self.heap, None))
                    break
            else:
                self.sinks[-1].append((pc, heap, e))
        if not states:
            raise Dead()
        self.join(self._common(pc0, states), states)

    s_TryStar = s_unsupported

    def s_Raise(self, s):
        if s.exc is None:
            hs = getattr(self, '_handling', [])
            self.throw(hs[-1] if hs else ExcV('RuntimeError'))
        v = self.ev(s.exc)
        self.raise_value(v)

    def raise_value(self, v):
        if isinstance(v, Phi):
            return self.fork(v.c, lambda: self.raise_value(v.a),
                             lambda: self.raise_value(v.b))
        if isinstance(v, (Ext, Ref)) and not (
                isinstance(v, Ref) and isinstance(self.rec(v), Inst)):
            v = self.call(v, [], {})
        if isinstance(v, ExcV):
            self.throw(v if v.site else ExcV(v.cls, v.args, self.site()))
        if isinstance(v, Ref):
            self.throw(ExcV(self.rec(v).cls, (), self.site()))
        self.throw(ExcV('Exception', (), self.site()))

    def s_Assert(self, s):
        def fail():
            self.throw('AssertionError')
        self.branch(self.ev(s.test), lambda: None, fail)

    # ----------------------------------------------------------- expressions

    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError('expression %s not supported at %s' % (
                type(e).__name__, self.site()))
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if type(v) is int and abs(v) > 2:
            v = LInt(v)
        return Const(v)

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.store(e.target.id, v)
        return v

    def elts(self, es):
        return [(True, self.ev(x.value)) if isinstance(x, ast.Starred)
                else (False, self.ev(x)) for x in es]

    def e_Tuple(self, e):
        return self.spread(self.elts(e.elts), Tup)

    def e_List(self, e):
        return self.spread(self.elts(e.elts),
                           lambda items: self.alloc(LObj(items)))

    def e_Set(self, e):
        return self.spread(self.elts(e.elts), lambda items: self.alloc(
            SObj({self.key(x): x for x in items})))

    def e_Dict(self, e):
        ref = self.alloc(DObj({}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.dict_update(ref, self.ev(v))
            else:
                kv = self.ev(k)
                self.setitem(ref, kv, self.ev(v))
        return ref

    def e_JoinedStr(self, e):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(str(x.value))
            else:
                v = self.ev(x.value)
                out.append(self.models.text(v))
        return Const(''.join(out))

    def e_Lambda(self, e):
        return self.make_fn(e, '<lambda>')

    def e_IfExp(self, e):
        return self.branch(self.ev(e.test), lambda: self.ev(e.body),
                           lambda: self.ev(e.orelse))

    def e_BoolOp(self, e):
        return self.boolop(isinstance(e.op, ast.And), e.values)

    def boolop(self, is_and, values):
        v = self.ev(values[0])
        if len(values) == 1:
            return v

        def rest():
            return self.boolop(is_and, values[1:])

        def keep():
            return v
        c = self.truth(v)
        if isinstance(c, T):
            d = self.decide(c)
            if d is None:
                # boolean results are kept as conditions
                r = None

                def mkv(x):
                    return FALSE if is_and else TRUE
                if is_and:
                    return self.fork(c, rest, lambda: mkv(v))
                return self.fork(c, lambda: mkv(v), rest)
            c = d
        return self.branch(Const(c) if isinstance(c, bool) else c,
                           rest if is_and else keep,
                           keep if is_and else rest)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return self.not_(v)
        op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)]
        return self.unop(op, v)

    def not_(self, v):
        c = self.truth(v)
        if isinstance(c, Phi):
            return self.fork(c.c, lambda: self.not_(c.a),
                             lambda: self.not_(c.b))
        if isinstance(c, bool):
            return Const(not c)
        d = self.decide(c)
        if d is not None:
            return Const(not d)
        return Num(mk('un', 'not', c))

    def unop(self, op, v):
        if isinstance(v, Phi):
            return self.fork(v.c, lambda: self.unop(op, v.a),
                             lambda: self.unop(op, v.b))
        return self.prim(lambda: self.models.unop(op, v))

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(_OPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(a, Phi):
            return self.fork(a.c, lambda: self.binop(op, a.a, b),
                             lambda: self.binop(op, a.b, b))
        if isinstance(b, Phi):
            return self.fork(b.c, lambda: self.binop(op, a, b.a),
                             lambda: self.binop(op, a, b.b))
        return self.prim(lambda: self.models.binop(op, a, b))

    def inplace(self, op, a, b):
        if isinstance(a, Phi):
            return self.fork(a.c, lambda: self.inplace(op, a.a, b),
                             lambda: self.inplace(op, a.b, b))
        if isinstance(b, Phi):
            return self.fork(b.c, lambda: self.inplace(op, a, b.a),
                             lambda: self.inplace(op, a, b.b))
        return self.prim(lambda: self.models.inplace(op, a, b))

    def e_Compare(self, e):
        left = self.ev(e.left)
        return self.compare_chain(left, e.ops, e.comparators)

    def compare_chain(self, left, ops, comps):
        right = self.ev(comps[0])
        r = self.compare(ops[0], left, right)
        if len(ops) == 1:
            return r
        return self.branch(
            r, lambda: self.compare_chain(right, ops[1:], comps[1:]),
            lambda: r if isinstance(r, Const) else FALSE)

    def compare(self, op, a, b):
        if isinstance(a, Phi):
            return self.fork(a.c, lambda: self.compare(op, a.a, b),
                             lambda: self.compare(op, a.b, b))
        if isinstance(b, Phi):
            return self.fork(b.c, lambda: self.compare(op, a, b.a),
                             lambda: self.compare(op, a, b.b))
        return self.prim(lambda: self.models.compare(
            _CMPS[type(op)] if not isinstance(op, str) else op, a, b))

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def e_Subscript(self, e):
        obj = self.ev(e.value)
        return self.getitem(obj, self.ev(e.slice))

    def e_Slice(self, e):
        return SliceV(*(NONE if x is None else self.ev(x)
                        for x in (e.lower, e.upper, e.step)))

    def e_Starred(self, e):
        raise AnalysisError('starred expression')

    def e_Call(self, e):
        f = self.ev(e.func)
        line = self.frames[-1].line
        args = self.elts(e.args)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                d = self.models.as_dict(v)
                if d is None:
                    raise AnalysisError('** of unknown at ' + self.site())
                for kk, vv in d:
                    if kk in kw:
                        self.throw('TypeError', 'multiple values for ' + kk)
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    self.throw('TypeError', 'multiple values for ' + k.arg)
                kw[k.arg] = self.ev(k.value)
        self.frames[-1].line = e.lineno
        r = self.spread(args, lambda items: self.call(f, items, kw))
        self.frames[-1].line = line
        return r

    def comp(self, gens, leafn):
        """Evaluate comprehension generators; calls leafn per item."""
        def rec(i):
            if i == len(gens):
                leafn()
                return
            g = gens[i]
            it = self.ev(g.iter)

            def loop(it):
                if isinstance(it, Phi):
                    self.fork(it.c, lambda: loop(it.a), lambda: loop(it.b))
                    return
                try:
                    items = self.seq(it)
                except NeedFork as e:
                    self.split(e, lambda: loop(it))
                    return
                if items is None:
                    self.unknown_iter = True
                    items = [self.generic_item(it)]
                for x in items:
                    self.assign(g.target, x)

                    def conds(cs):
                        if not cs:
                            rec(i + 1)
                        else:
                            self.branch(self.ev(cs[0]),
                                        lambda: conds(cs[1:]),
                                        lambda: None)
                    conds(list(g.ifs))
            loop(it)
        f = self.frames[-1]
        env = self.alloc(Env({}, f.env, f.module, 'comp'))
        f2 = Frame(env, f.name, f.cls, f.self, f.module, f.file)
        f2.line = f.line
        f2.returns, f2.loops = f.returns, f.loops
        self.frames.append(f2)
        try:
            rec(0)
        finally:
            self.frames.pop()

    def collect(self, e, gens):
        out = self.alloc(LObj([]))

        def add():
            v = self.ev(e)
            self.prim(lambda: self._append(out, v))
        self.comp(gens, add)
        return out

    def _append(self, ref, v):
        r = self.rec(ref)
        self.put(ref, r.but(items=r.items + [v]))

    def e_ListComp(self, e):
        return self.collect(e.elt, e.generators)

    def e_GeneratorExp(self, e):
        # evaluated eagerly: the generators of sdepy have no side effects
        out = self.collect(e.elt, e.generators)
        return self.prim(lambda: self.alloc(It(list(self.rec(out).items))))

    def e_SetComp(self, e):
        out = self.collect(e.elt, e.generators)
        return self.prim(lambda: self.alloc(SObj(
            {self.key(x): x for x in self.rec(out).items})))

    def e_DictComp(self, e):
        out = self.alloc(DObj({}))

        def add():
            k = self.ev(e.key)
            self.setitem(out, k, self.ev(e.value))
        self.comp(e.generators, add)
        return out

    # ------------------------------------------------------------- sequences

    def key(self, v):
        """Hash key of a value."""
        if isinstance(v, Const):
            x = v.v
            if isinstance(x, bool) or not isinstance(x, (int, float)):
                return (type(x).__name__, x)
            return ('num', float(x))
        if isinstance(v, Tup):
            return ('tup',) + tuple(self.key(x) for x in v.items)
        if isinstance(v, Ref):
            r = self.rec(v)
            if isinstance(r, (LObj, DObj, SObj, Arr, OArr)):
                self.throw('TypeError', 'unhashable type')
            return ('ref', v.oid)
        if isinstance(v, Ext):
            return ('ext', v.path)
        if isinstance(v, Num):
            return ('num', v.t.id)
        if isinstance(v, (BoundM,)):
            return ('bm', self.key(v.func), self.key(v.self))
        return ('id', id(v))

    def seq(self, v):
        """List of the items of an iterable, or None if not known."""
        return self.models.seq(v)

    # ----------------------------------------------------------------- calls

    def call(self, f, args, kw):
        if isinstance(f, Phi):
            return self.fork(f.c, lambda: self.call(f.a, args, kw),
                             lambda: self.call(f.b, args, kw))
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self] + args, kw)
        if isinstance(f, Host):
            if f.user:
                self.calling(f)
            return self.prim(lambda: f.fn(self, args, kw))
        if isinstance(f, Ext):
            return self.models.call_ext(f.path, args, kw)
        if isinstance(f, Opaque):
            self.event('call_opaque', f=f)
            return Opaque('call of ' + f.why)
        if isinstance(f, StaticM) or isinstance(f, ClassM):
            return self.call(f.func, args, kw)
        if isinstance(f, Ref):
            r = self.prim(lambda: self.rec(f))
            if isinstance(r, FnObj):
                if r.module == 'client':
                    self.calling(f)
                return self.call_fn(f, args, kw)
            if isinstance(r, ClsObj):
                if r.meta is not None and isinstance(r.meta, Ref):
                    m = self.class_lookup(r.meta, '__call__')
                    if m is not None:
                        return self.call(m, [f] + args, kw)
                return self.instantiate(f, args, kw)
            m = self.getattr(f, '__call__', None)
            if m is not None:
                return self.call(m, args, kw)
        self.throw('TypeError', 'not callable')

    def calling(self, f):
        """A function of the caller is called."""
        if self.altered():
            self.event('call_altered', f=f)

    def altered(self, heap=None):
        """Is the error handling of numpy not as found?"""
        def alt(v):
            if isinstance(v, Phi):
                return alt(v.a) or alt(v.b)
            return v.v != self.errs0.v
        return alt((heap or self.heap)[self.gstate.oid].attrs['errstate'])

    def instantiate(self, cls, args, kw):
        new = self.class_lookup(cls, '__new__')
        if new is not None and not isinstance(new, Ext):
            if isinstance(new, StaticM):
                new = new.func
            obj = self.call(new, [cls] + args, kw)
        else:
            r = self.rec(cls)
            exts = [m.path for m in r.mro if isinstance(m, Ext)]
            if any(self._pyexc(p) for p in exts):
                return ExcV(cls, tuple(args), self.site())
            if 'numpy.ndarray' in exts:
                obj = self.models.new_ndarray(cls, args, kw)
            elif any(p in ('builtins.dict', 'builtins.list',
                           'builtins.tuple') for p in exts):
                return self.opaque('instance of subclass of builtin')
            else:
                obj = self.alloc(Inst(cls))
        if isinstance(obj, Ref) and isinstance(self.rec(obj), (Inst, Arr)) \
           and self.rec(obj).cls is not None and \
           isinstance(self.rec(obj).cls, Ref) and \
           cls in self.rec(self.rec(obj).cls).mro:
            init = self.class_lookup(self.rec(obj).cls, '__init__')
            if isinstance(init, (Ref, Host)):
                self.call(init, [obj] + args, kw)
            elif (args or kw) and new is None:
                self.throw('TypeError', 'takes no arguments')
        return obj

    def bind(self, rec, args, kw, fname):
        """Bind call arguments to parameters; returns dict name -> value."""
        a = rec.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        for i, n in enumerate(pos):
            if i < len(args):
                env[n] = args[i]
                if n in kw:
                    self.throw('TypeError', 'multiple values for ' + n)
            elif n in kw:
                env[n] = kw.pop(n)
            else:
                j = i - (len(pos) - len(rec.defaults))
                if j >= 0:
                    env[n] = rec.defaults[j]
                else:
                    self.throw('TypeError', 'missing argument ' + n)
        extra = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = Tup(extra)
        elif extra:
            self.throw('TypeError', 'too many arguments')
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif x.arg in rec.kwdefaults:
                env[x.arg] = rec.kwdefaults[x.arg]
            else:
                self.throw('TypeError', 'missing argument ' + x.arg)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(DObj(
                {self.key(Const(k)): (Const(k), v) for k, v in kw.items()}))
        elif kw:
            self.throw('TypeError', 'unexpected keyword ' +
                       ', '.join(kw))
        return env

    def call_fn(self, f, args, kw):
        rec = self.rec(f)
        hook = self.hooks.get(rec.name)
        if hook is not None:
            r = hook(self, f, args, kw)
            if r is not None:
                return r
        if len(self.frames) > MAXDEPTH:
            raise AnalysisError('call depth at ' + self.site())
        if self.track and rec.module != 'client' and (
                not self.frames or self.frames[-1].module == 'client'):
            return self.call_tracked(f, rec, args, kw)
        return self.call_fn_(f, rec, args, kw)

    def call_tracked(self, f, rec, args, kw):
        """Call by the caller: what arrays does the result consist of, and
        who else holds them?"""
        v = self.call_fn_(f, rec, args, kw)
        out = owned(self, [v], objects=False)
        held = owned(self, [f] + list(args) + list(kw.values())) \
            if out else set()
        name = rec.name
        if isinstance(rec.cls, Ref):
            name = self.rec(rec.cls).name + '.' + name
        self.event('returned', fn=name, roots=out, held=out & held,
                   line='sdepy/%s.py:%d:%s' % (
                       rec.module.replace('.', '/'), rec.node.lineno, name))
        return v

    def call_fn_(self, f, rec, args, kw):
        vars = self.bind(rec, args, kw, rec.name)
        env = self.alloc(Env(vars, rec.env, rec.module))
        file = 'sdepy/%s.py' % rec.module.replace('.', '/')
        a = rec.node.args
        first = (a.posonlyargs + a.args)
        self_ = vars[first[0].arg] if first else None
        name = rec.name
        if isinstance(rec.cls, Ref):
            name = self.rec(rec.cls).name + '.' + name
        fr = Frame(env, name, rec.cls, self_, rec.module, file)
        fr.line = rec.node.lineno
        k = '%s:%d:%s' % (file, rec.node.lineno, name)
        self.analysed[k] = self.analysed.get(k, 0) + 1
        self.event('enter', fn=name, f=f, args=vars)
        if isinstance(rec.node, ast.Lambda):
            self.frames.append(fr)
            try:
                return self.ev(rec.node.body)
            finally:
                self.frames.pop()
        if _is_generator(rec.node):
            return self.alloc(GenObj(fr, rec.node.body))
        # class cell: closures of nested functions see the defining class
        pc0 = self.pc
        self.frames.append(fr)
        nsinks = len(self.sinks)
        try:
            live, _ = self.attempt(lambda: self.block(rec.node.body))
        finally:
            self.frames.pop()
            del self.sinks[nsinks:]
        states = list(fr.returns)
        if live:
            states.append((self.pc, self.heap, NONE))
        if not states:
            raise Dead()
        return self.join(self._common(pc0, states), states)

    def run_gen(self, ref, onyield, isolate=True):
        """Run a generator, with onyield(value) as its consumer."""
        r = self.rec(ref)
        if r.done:
            return
        self.put(ref, r.but(done=True))
        fr = r.frame
        depth, nsinks, pc0 = len(self.frames), len(self.sinks), self.pc

        def consume(v):
            frames, sinks = self.frames[depth:], self.sinks[nsinks:]
            del self.frames[depth:]
            if isolate:
                del self.sinks[nsinks:]
            try:
                onyield(v)
            finally:
                self.frames[depth:] = frames
                if isolate:
                    self.sinks[nsinks:] = sinks
        fr.onyield = consume
        self.frames.append(fr)
        try:
            live, _ = self.attempt(lambda: self.block(r.body))
        finally:
            self.frames.pop()
            del self.sinks[nsinks:]
        states = list(fr.returns)
        del fr.returns[:]
        if live:
            states.append((self.pc, self.heap, NONE))
        if not states:
            raise Dead()
        self.join(self._common(pc0, states), states)

    def gen_items(self, ref):
        """All items of a generator."""
        r = self.rec(ref)
        if r.done and r.store is None:
            return []
        if r.store is None:
            out = self.alloc(LObj([]))
            n = [0]

            def add(v):
                n[0] += 1
                if n[0] > 3000:
                    raise AnalysisError('endless generator')
                self._append(out, v)
            self.run_gen(ref, add)
            self.put(ref, self.rec(ref).but(store=out))
        items = self.rec(self.rec(ref).store).items
        self.put(ref, self.rec(ref).but(store=None))
        return list(items)

    def e_Yield(self, e):
        f = self.frames[-1].onyield
        f(NONE if e.value is None else self.ev(e.value))
        return NONE

    def e_YieldFrom(self, e):
        f = self.frames[-1].onyield
        it = self.ev(e.value)
        if isinstance(it, Ref) and isinstance(self.heap[it.oid], GenObj):
            self.run_gen(it, f)
            return NONE
        items = self.seq(it)
        if items is None:
            raise AnalysisError('yield from unknown at ' + self.site())
        for x in items:
            f(x)
        return NONE

    # ------------------------------------------------------------ attributes

    def class_lookup(self, cls, name, after=None):
        """Attribute in the mro of a program class (raw)."""
        r = self.rec(cls)
        mro = r.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for m in mro:
            if isinstance(m, Ref):
                v = self.rec(m).attrs.get(name)
                if v is not None and v is not UNDEF:
                    return v
            elif m.path not in ('builtins.object',):
                v = self.models.ext_class_attr(m.path, name)
                if v is not None:
                    return v
        return None

    def getattr(self, obj, name, default=False):
        """default False: raise AttributeError if missing."""
        if isinstance(obj, Phi):
            return self.fork(obj.c,
                             lambda: self.getattr(obj.a, name, default),
                             lambda: self.getattr(obj.b, name, default))
        v = self.prim(lambda: self.getattr1(obj, name))
        if v is None:
            if default is not False:
                return default
            self.throw('AttributeError', name)
        return self.undef_attr(v, name, default)

    def undef_attr(self, v, name, default):
        if v is UNDEF:
            if default is not False:
                return default
            self.throw('AttributeError', name)
        if isinstance(v, Phi) and self._has_undef(v):
            return self.fork(v.c,
                             lambda: self.undef_attr(v.a, name, default),
                             lambda: self.undef_attr(v.b, name, default))
        return v

    def getattr1(self, obj, name):
        """Attribute value or None."""
        if isinstance(obj, Ref):
            r = self.rec(obj)
            if isinstance(r, (Inst, Arr)) and isinstance(r.cls, Ref):
                raw = self.class_lookup(r.cls, name)
                if isinstance(raw, PropV):
                    return self.call(raw.fget, [obj], {})
                if name in r.attrs and r.attrs[name] is not UNDEF:
                    v = r.attrs[name]
                    if self._has_undef(v) and raw is not None:
                        b = self.bind_attr(raw, obj, r.cls)
                        return self._fill_undef(v, b)
                    return v
                if raw is not None:
                    return self.bind_attr(raw, obj, r.cls)
                if name == '__class__':
                    return r.cls
                if name == '__dict__':
                    return self.alloc(Space(obj))
                if isinstance(r, Arr):
                    return self.models.arr_attr(obj, name)
                if name in ('__init__', '__call__') and name == '__init__':
                    return Host(lambda ip, a, k: NONE, 'object.__init__')
                return None
            if isinstance(r, ClsObj):
                return self.class_attr(obj, r, name)
            if isinstance(r, FnObj):
                if name in r.attrs:
                    return r.attrs[name]
                if name == '__call__':
                    return obj
                return None
            if isinstance(r, Env):
                return r.vars.get(name)
            return self.models.obj_attr(obj, r, name)
        if isinstance(obj, SuperV):
            return self.super_attr(obj, name)
        return self.models.value_attr(obj, name)

    def _fill_undef(self, v, b):
        if v is UNDEF:
            return b
        if isinstance(v, Phi):
            return Phi(v.c, self._fill_undef(v.a, b),
                       self._fill_undef(v.b, b))
        return v

    def bind_attr(self, raw, obj, cls):
        if isinstance(raw, Ref) and isinstance(self.heap[raw.oid], FnObj):
            return BoundM(raw, obj)
        if isinstance(raw, StaticM):
            return raw.func
        if isinstance(raw, ClassM):
            return BoundM(raw.func, cls)
        if isinstance(raw, Host) and 'method' in raw.types:
            return BoundM(raw, obj)
        if isinstance(raw, PropV):
            return self.call(raw.fget, [obj], {})
        return raw

    def class_attr(self, obj, r, name):
        if name == '__name__':
            return r.attrs.get('__name__') or Const(r.name)
        if name == '__mro__':
            return Tup(r.mro)
        if name == '__bases__':
            return Tup(r.bases)
        if name == '__class__':
            return r.meta or Ext('builtins.type')
        if name == '__dict__':
            return self.alloc(DObj({self.key(Const(k)): (Const(k), v)
                                    for k, v in r.attrs.items()}))
        raw = self.class_lookup(obj, name)
        if raw is None:
            if r.meta is not None and isinstance(r.meta, Ref):
                raw = self.class_lookup(r.meta, name)
                if raw is not None:
                    return self.bind_attr(raw, obj, r.meta)
            if name == '__new__':
                return Ext('builtins.object.__new__')
            if name in ('__init__', '__call__') and name == '__init__':
                return Ext('builtins.object.__init__')
            return None
        if isinstance(raw, StaticM):
            return raw.func
        if isinstance(raw, ClassM):
            return BoundM(raw.func, obj)
        return raw

    def super_attr(self, sup, name):
        obj = sup.obj
        r = self.rec(obj) if isinstance(obj, Ref) else None
        if isinstance(r, ClsObj):
            raw = self.class_lookup(obj, name, after=sup.cls)
            if raw is None and name == '__new__':
                return Ext('builtins.object.__new__')
            if isinstance(raw, StaticM):
                return raw.func
            if isinstance(raw, ClassM):
                return BoundM(raw.func, obj)
            return raw
        raw = self.class_lookup(r.cls, name, after=sup.cls)
        if raw is None:
            if name == '__init__':
                def init(ip, a, k):
                    if a or k:
                        ip.throw('TypeError', 'object.__init__')
                    return NONE
                return Host(init, 'object.__init__')
            if name == '__new__':
                return Ext('builtins.object.__new__')
            if name == '__setattr__':
                return Host(lambda ip, a, k: ip.raw_setattr(obj, a[0].v,
                                                            a[1]))
            if name == '__getattribute__':
                return Host(lambda ip, a, k: ip.getattr(obj, a[0].v))
            if isinstance(r, Arr):
                return self.models.arr_attr(obj, name)
            return None
        return self.bind_attr(raw, obj, r.cls)

    def setattr(self, obj, name, v):
        if isinstance(obj, Phi):
            self.fork(obj.c, lambda: self.setattr(obj.a, name, v),
                      lambda: self.setattr(obj.b, name, v))
            return
        self.prim(lambda: self.setattr1(obj, name, v))

    def setattr1(self, obj, name, v):
        if isinstance(obj, Ref):
            r = self.rec(obj)
            if isinstance(r, (Inst, Arr)):
                if isinstance(r.cls, Ref):
                    raw = self.class_lookup(r.cls, name)
                    if isinstance(raw, PropV):
                        if raw.fset is None:
                            self.throw('AttributeError', 'readonly ' + name)
                        self.call(raw.fset, [obj, v], {})
                        return
                    sa = self.class_lookup(r.cls, '__setattr__')
                    if isinstance(sa, Ref):
                        self.call(sa, [obj, Const(name), v], {})
                        return
                elif isinstance(r, Arr):
                    if name in ('shape', 'dtype', 'strides'):
                        self.models.set_shape(obj, name, v)
                        return
                    self.throw('AttributeError', name)
                self.raw_setattr(obj, name, v)
                return
            if isinstance(r, (ClsObj, FnObj)):
                self.event('setattr', obj=obj, name=name, value=v,
                           target='class' if isinstance(r, ClsObj)
                           else 'function')
                self.put(obj, r.but(attrs={**r.attrs, name: v}))
                return
            if isinstance(r, Env):
                self.event('setattr', obj=obj, name=name, value=v,
                           target='module')
                self.put(obj, r.but(vars={**r.vars, name: v}))
                return
            self.throw('AttributeError', name)
        if isinstance(obj, Host):
            self.event('setattr', obj=obj, name=name, value=v, target='host')
            obj.attrs[name] = v
            return
        if isinstance(obj, Ext):
            self.event('setattr', obj=obj, name=name, value=v, target='ext')
            return
        if isinstance(obj, Opaque):
            return
        self.throw('AttributeError', name)

    def raw_setattr(self, obj, name, v):
        r = self.rec(obj)
        if isinstance(r, Inst) and isinstance(r.cls, Ext):
            self.event('setattr', obj=obj, name=name, value=v, target='ext')
        else:
            self.event('setattr', obj=obj, name=name, value=v, target='inst')
        self.put(obj, r.but(attrs={**r.attrs, name: v}))
        return NONE

    def delattr(self, obj, name):
        if isinstance(obj, Phi):
            self.fork(obj.c, lambda: self.delattr(obj.a, name),
                      lambda: self.delattr(obj.b, name))
            return

        def f():
            r = self.rec(obj)
            if name not in r.attrs:
                self.throw('AttributeError', name)
            a = dict(r.attrs)
            del a[name]
            self.event('delattr', obj=obj, name=name)
            self.put(obj, r.but(attrs=a))
        self.prim(f)

    # ------------------------------------------------------------ subscripts

    def getitem(self, obj, idx):
        if isinstance(obj, Phi):
            return self.fork(obj.c, lambda: self.getitem(obj.a, idx),
                             lambda: self.getitem(obj.b, idx))
        if isinstance(idx, Phi):
            return self.fork(idx.c, lambda: self.getitem(obj, idx.a),
                             lambda: self.getitem(obj, idx.b))
        return self.prim(lambda: self.models.getitem(obj, idx))

    def setitem(self, obj, idx, v):
        if isinstance(obj, Phi):
            self.fork(obj.c, lambda: self.setitem(obj.a, idx, v),
                      lambda: self.setitem(obj.b, idx, v))
            return
        if isinstance(idx, Phi):
            self.fork(idx.c, lambda: self.setitem(obj, idx.a, v),
                      lambda: self.setitem(obj, idx.b, v))
            return
        if isinstance(v, Phi) and not self.models.holds_objects(obj):
            self.fork(v.c, lambda: self.setitem(obj, idx, v.a),
                      lambda: self.setitem(obj, idx, v.b))
            return
        self.prim(lambda: self.models.setitem(obj, idx, v))

    # ---------------------------------------------------------------- arrays

    def arr(self, term, origin='fresh'):
        return self.alloc(Arr(term, origin=origin))

    def read(self, ref):
        """Term of an array."""
        r = self.rec(ref)
        if r.base is None:
            return r.term
        root = self.rec(r.base)
        return mk('view', root.term, r.chain) if r.chain else root.term

    def root(self, ref):
        r = self.rec(ref)
        return ref if r.base is None else r.base

    def num(self, v):
        """Term of a number."""
        if isinstance(v, Num):
            return v.t
        if isinstance(v, Const):
            x = v.v
            if type(x) in (AInt, LInt):
                x = int(x)
            return const(x)
        raise AnalysisError('not a number: %r' % (v,))

    def write(self, ref, value_term, index=None, site=None):
        """In-place write: array[index] = value (index None: all)."""
        r = self.rec(ref)
        root = self.root(ref)
        rr = self.rec(root)
        if r.ro or rr.ro:
            self.throw('ValueError', 'assignment destination is read-only')
        base = rr.term
        chain = r.chain if r.base is not None else ()
        if index is None:
            new = mk('setview', base, chain, value_term)
            if not chain:
                try:
                    a, b = REP.ev(base), REP.ev(value_term)
                    if np.shape(a) == np.shape(b) and \
                       np.asarray(a).dtype == np.asarray(b).dtype and \
                       np.ndim(a) > 0:
                        new = value_term
                except Exception:
                    pass
        else:
            new = mk('setitem', base, chain, index, value_term)
        if not new.opaque:
            try:
                REP.ev(new)
            except TermError:
                pass
            except Exception as e:
                self.throw(type(e).__name__, str(e))
        self.event('mutate', root=root, ref=ref, origin=rr.origin)
        self.put(root, rr.but(term=new))


def owned(ip, values, objects=True):
    """Arrays, lists and dicts values consist of, or objects refer to."""
    out, seen, todo = set(), set(), list(values)
    while todo:
        v = todo.pop()
        if isinstance(v, Phi):
            todo += [v.a, v.b]
        elif isinstance(v, Tup):
            todo += list(v.items)
        elif isinstance(v, BoundM):
            todo += [v.func, v.self] if objects else []
        elif isinstance(v, Host):
            todo += list(v.attrs.values()) if objects else []
        elif isinstance(v, Ref):
            if v.oid in seen:
                continue
            seen.add(v.oid)
            r = ip.heap[v.oid]
            if isinstance(r, MObj):
                for x in (r.a, r.b):
                    if isinstance(x, (LObj, DObj)):
                        out.add(v.oid)
                    todo += inside(x, objects)
            elif isinstance(r, Arr):
                if not (r.ro and not objects):
                    out.add((r.base or v).oid)
                    if r.base is not None:
                        todo.append(r.base)
                todo += inside(r, objects)
            elif isinstance(r, OArr):
                todo.append(r.store)
            else:
                if isinstance(r, (LObj, DObj)) and \
                   not isinstance(r, Space):
                    out.add(v.oid)
                todo += inside(r, objects)
    return out


def inside(r, objects):
    """Values a record refers to."""
    if isinstance(r, LObj):
        return list(r.items)
    if isinstance(r, DObj):
        return [x for _, x in r.items.values()]
    if isinstance(r, Arr):
        return [x for k, x in r.attrs.items() if objects or k != 't']
    if not objects:
        return []
    if isinstance(r, Inst):
        d = r.data if isinstance(r.data, (list, tuple)) else \
            r.data.values() if isinstance(r.data, dict) else [r.data]
        return [x for x in list(r.attrs.values()) + list(d)
                if isinstance(x, V)]
    if isinstance(r, Env):
        return [] if r.kind == 'module' else \
            list(r.vars.values()) + ([r.parent] if isinstance(
                r.parent, Ref) else [])
    if isinstance(r, FnObj):
        return list(r.attrs.values()) + (
            [r.env] if isinstance(r.env, Ref) else [])
    return []


@functools.lru_cache(maxsize=None)
def _is_generator(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _literal_cmp(c):
    """Comparison against a nonzero literal constant: not settled by the
    ordering context."""
    if c.op == 'bin' and c.args[0] in ('<', '<=', '>', '>=', '==', '!='):
        for a in c.args[1:]:
            if isinstance(a, T) and a.op == 'const':
                a = a.args[0]
            if isinstance(a, (int, float)) and not isinstance(a, bool) \
               and a != 0:
                return True
    return False


_CONSTS = {'None': NONE, 'True': TRUE, 'False': FALSE,
           'Ellipsis': Const(Ellipsis), 'NotImplemented':
           Ext('builtins.NotImplemented')}
_OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
        ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.MatMult: '@',
        ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<',
        ast.RShift: '>>'}
_CMPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
         ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not',
         ast.In: 'in', ast.NotIn: 'not in'}
