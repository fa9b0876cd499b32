"""Symbolic execution of real Python functions against executable spec functions.

The engine executes the *AST of the real source* (parsed from the file of the
really imported module on every run) on symbolic arguments, enumerating all
feasible paths with z3.  Loops over collections of unknown length are handled
by relational induction: the loop of the code and the loop of the spec are run
in lockstep on one arbitrary iteration from arbitrary coupled states; the
couplings (which state piece equals which) are inferred Houdini-style and are
inductive invariants.  No bound on lengths, depths or values is involved.
"""
import ast
import builtins
import collections
import inspect
import re
import sys
import time
import types

import z3


# --------------------------------------------------------------------------
# control flow
class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, cls, val=None):
        self.cls = cls
        self.val = val


class _Any:
    def __repr__(self):
        return 'ANY'


ANY = _Any()


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()

# --------------------------------------------------------------------------
V = z3.DeclareSort('V')
I, R, S, B = z3.IntSort(), z3.RealSort(), z3.StringSort(), z3.BoolSort()
NONE, BOOL, INT, REAL, STR, LIST, DICT, OBJ, TUP = range(9)
tag = z3.Function('tag', V, I)
clsid = z3.Function('cls', V, I)
v_b = z3.Function('v_b', V, B)
v_i = z3.Function('v_i', V, I)
v_n = z3.Function('v_n', V, R)
v_s = z3.Function('v_s', V, S)
llen = z3.Function('llen', V, I)
lelem = z3.Function('lelem', V, I, V)
dlen = z3.Function('dlen', V, I)
dkey = z3.Function('dkey', V, I, S)
skey = z3.Function('skey', V, I, S)
has = z3.Function('has', V, S, B)
get = z3.Function('get', V, S, V)
inset = z3.Function('inset', V, V, B)
is_od = z3.Function('is_od', V, B)
mk_b = z3.Function('mk_b', B, V)
mk_i = z3.Function('mk_i', I, V)
mk_n = z3.Function('mk_n', R, V)
mk_s = z3.Function('mk_s', S, V)
int_str = z3.Function('int_str', I, S)
v_str = z3.Function('v_str', V, S)
v_repr = z3.Function('v_repr', V, S)
V_NONE = z3.Const('V_NONE', V)

_UF = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _UF:
        # z3 would cut the name at a NUL and take two functions for one
        _UF[key] = z3.Function(
            name.encode('unicode_escape').decode('ascii'), *sorts)
    return _UF[key]


class Sym:
    """Symbolic value: z3 term and type."""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t = t
        self.ty = ty

    def __repr__(self):
        return '<{}:{}>'.format(self.t, self.ty)


class Ref:
    """Reference to a heap object."""
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Ref({})'.format(self.oid)

    def __eq__(self, other):
        return isinstance(other, Ref) and self.oid == other.oid

    def __hash__(self):
        return hash(self.oid)


class Seg:
    """Opaque run of elements (list), writes (dict) or members (set)."""
    __slots__ = ('v', 'ty', 'producer')

    def __init__(self, v, ty, producer=None):
        self.v = v
        self.ty = ty
        self.producer = producer

    def __repr__(self):
        return 'Seg({})'.format(self.v)


class ListC:
    """Contents of a list (or generator) object: a rope."""
    __slots__ = ('items',)
    kind = 'list'

    def __init__(self, items):
        self.items = tuple(items)  # values or Seg


class DictC:
    """Contents of a dict: log of writes (key, value) or Seg."""
    __slots__ = ('items', 'cls')
    kind = 'dict'

    def __init__(self, items, cls=dict):
        self.items = tuple(items)
        self.cls = cls


class SetC:
    __slots__ = ('items',)
    kind = 'set'

    def __init__(self, items):
        self.items = tuple(items)


class InstC:
    __slots__ = ('cls', 'attrs')
    kind = 'inst'

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs  # dict, treated as immutable


class DictView:
    """items()/keys()/values() of a dict; sorted or not."""
    __slots__ = ('d', 'what', 'sort')

    def __init__(self, d, what, sort=False):
        self.d = d
        self.what = what
        self.sort = sort


class EnumView:
    __slots__ = ('src', 'start')

    def __init__(self, src, start=0):
        self.src = src
        self.start = start


class FuncVal:
    """An interpreted function."""

    def __init__(self, node, globs, frame, name, defaults, kwdefaults, qual=None,
                 requires=(), ensures=()):
        self.node = node
        self.globs = globs
        self.frame = frame
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.requires = requires
        self.ensures = ensures


class BoundVal:
    def __init__(self, obj, name, func=None):
        self.obj = obj
        self.name = name
        self.func = func


class SuperVal:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Frame:
    __slots__ = ('fid', 'globs', 'parent', 'locs', 'cls', 'self_')

    def __init__(self, fid, globs, parent=None):
        self.fid = fid
        self.globs = globs
        self.parent = parent
        self.locs = None
        self.cls = None
        self.self_ = None


def is_sym(v):
    return isinstance(v, (Sym, Ref, Seg, DictView, EnumView, FuncVal, BoundVal,
                          SuperVal, _Any, _Undef))


def concrete(v):
    """True if the value is plain Python through and through."""
    if is_sym(v):
        return False
    if isinstance(v, tuple):
        return all(concrete(x) for x in v)
    return True


SUBCLASSES = {}  # class -> list of known leaf classes (for symbolic objects)
CLS_ID = {}
ATTR_FACT = {}  # (class, attribute) -> fact about its value
ATTR_TY = {}  # attribute name -> type of the attribute for symbolic objects
CLASS_ATTRS = {}  # class -> set of attribute names (leaf classes)


def cls_number(c):
    if c not in CLS_ID:
        CLS_ID[c] = len(CLS_ID) + 1
    return CLS_ID[c]


# --------------------------------------------------------------------------
class LoopRec:
    def __init__(self):
        self.paired = False


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.discharged = 0
        self.lemmas = 0
        self.unknown = 0


STATS = Stats()


class Ctx:
    """State of one symbolic run."""

    def __init__(self, registry=None, deadline=None):
        self.registry = registry if registry is not None else {}
        self.store = {}
        self.counter = 0
        self.prefix = ''
        self.pc = []
        self.pcset = set()
        self.solver = None
        self.solver_n = 0
        self.choices = []
        self.pos = 0
        self.pending = None
        self.decided = ()
        self.trackers = []
        self.loops = []
        self.side = 'impl'
        self.schema_of = {}
        self.elem_hook = {}
        self.ghosts = {}
        self.seen_keys = {}
        self.cache = {}
        self.analysis_cache = {}
        self.set_order = {}
        self.spec_keys = set()
        self.deadline = deadline
        self.inline = set()
        self.depth = 0
        self.failures = []
        self.const_objs = {}
        self.timeout_ms = 3000
        self.in_pairing = 0

    # -- fresh names and facts
    def fresh(self, hint, sort):
        self.counter += 1
        return z3.Const('{}{}!{}'.format(self.prefix, hint, self.counter), sort)

    def fact(self, f):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        k = f.get_id()
        if k in self.pcset:
            return
        self.pcset.add(k)
        self.pc.append(f)

    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', self.timeout_ms)
            self.solver_n = 0
        while self.solver_n < len(self.pc):
            self.solver.add(self.pc[self.solver_n])
            self.solver_n += 1
        return self.solver

    def check(self, f, timeout=None):
        """Return 'sat'/'unsat'/'unknown' of pc and f."""
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time limit')
        t0 = time.time()
        STATS.queries += 1
        s = self._solver()
        if timeout:
            s.set('timeout', timeout)
        s.push()
        s.add(f)
        r = s.check()
        s.pop()
        if timeout:
            s.set('timeout', self.timeout_ms)
        STATS.solver_s += time.time() - t0
        return str(r)

    def snapshot(self):
        return (dict(self.store), self.counter, list(self.pc), set(self.pcset),
                list(self.loops), dict(self.schema_of),
                {k: set(v) for k, v in self.seen_keys.items()}, self.side,
                self.prefix)

    def restore(self, snap):
        (st, self.counter, pc, pcset, loops, so, sk, self.side,
         self.prefix) = snap
        self.store = dict(st)
        self.pc = list(pc)
        self.pcset = set(pcset)
        self.loops = list(loops)
        self.schema_of = dict(so)
        self.seen_keys = {k: set(v) for k, v in sk.items()}
        self.solver = None

    def explore(self, fn, max_paths=4000, label=''):
        """Run fn on every feasible path from the current state."""
        snap = self.snapshot()
        saved = (self.choices, self.pos, self.pending, self.decided)
        self.depth += 1
        n = 0
        try:
            stack = [[]]
            while stack:
                pre = stack.pop()
                self.restore(snap)
                self.choices, self.pos, self.pending = pre, 0, stack
                self.decided = saved[3] + (('x', label),)
                n += 1
                STATS.paths += 1
                if n > max_paths:
                    raise Unsupported('too many paths')
                try:
                    fn()
                except Infeasible:
                    continue
        finally:
            self.depth -= 1
            self.choices, self.pos, self.pending, self.decided = saved
            self.restore(snap)
        return n

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, z3.BoolRef):
            c = z3.simplify(cond)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
            if cond.get_id() in self.pcset:
                return True
            nc = z3.Not(cond)
            if nc.get_id() in self.pcset:
                return False
        else:
            raise Unsupported('decide on {!r}'.format(cond))
        if self.pos < len(self.choices):
            ch = self.choices[self.pos]
            self.pos += 1
        else:
            t = self.check(cond)
            if t == 'unsat':
                ch = (False, False)
            else:
                f = self.check(nc)
                if f == 'unsat':
                    ch = (True, False)
                else:
                    ch = (True, True)
                    self.pending.append(self.choices + [(False, True)])
            self.choices = self.choices + [ch]
            self.pos += 1
        self.decided = self.decided + (ch[0],)
        self.fact(cond if ch[0] else nc)
        return ch[0]

    def must(self, cond, timeout=10000):
        """Is cond implied by the path condition?"""
        if isinstance(cond, bool):
            if cond:
                return True
            # only on an infeasible path could it be implied
            return self.check(z3.BoolVal(True), timeout) == 'unsat'
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if cond.get_id() in self.pcset:
            return True
        r = self.check(z3.Not(cond), timeout)
        if r == 'unknown':
            STATS.unknown += 1
            # second opinion from a fresh solver with another seed
            s = z3.Solver()
            s.set('timeout', timeout)
            s.set('random_seed', 7)
            for f in self.pc:
                s.add(f)
            s.add(z3.Not(cond))
            r = str(s.check())
        return r == 'unsat'

    # -- store
    def write(self, key, content):
        self.store[key] = content
        for t in self.trackers:
            t.add(key)

    def alloc(self, content):
        self.counter += 1
        oid = '{}o{}'.format(self.prefix, self.counter)
        self.store[oid] = content
        return Ref(oid)

    def new_list(self, items=()):
        return self.alloc(ListC(items))

    # -- schemas of conforming JSON values (trusted model of jsonschema)
    def note_key(self, d, key):
        s = self.seen_keys.setdefault(d.get_id(), set())
        if key not in s:
            s.add(key)
            tot = z3.Sum([z3.If(has(d, z3.StringVal(k)), 1, 0)
                          for k in sorted(s)])
            self.fact(dlen(d) >= tot)


# --------------------------------------------------------------------------
# conversions
def sv(x):
    """z3 string value of a Python string (with escapes for non-ASCII)."""
    out = []
    for ch in x:
        o = ord(ch)
        if ch == '\\' or o < 32 or o > 126:
            out.append('\\u{%x}' % o)
        else:
            out.append(ch)
    return z3.StringVal(''.join(out))


class Interp:
    """The interpreter (engine proper); models of builtins live in models.py."""

    def __init__(self, ctx):
        self.c = ctx
        import pv.models as M
        self.M = M

    # ---------------------------------------------------------------- encode
    def to_v(self, x):
        c = self.c
        if isinstance(x, Sym):
            if x.t.sort() == V:
                return x.t
            if x.ty == 'str':
                t = mk_s(x.t)
                c.fact(z3.And(tag(t) == STR, v_s(t) == x.t))
                return t
            if x.ty == 'int':
                t = mk_i(x.t)
                c.fact(z3.And(tag(t) == INT, v_i(t) == x.t,
                              v_n(t) == z3.ToReal(x.t)))
                return t
            if x.ty == 'bool':
                t = mk_b(x.t)
                c.fact(z3.And(tag(t) == BOOL, v_b(t) == x.t))
                return t
            if x.ty == 'real':
                t = mk_n(x.t)
                c.fact(z3.And(tag(t) == REAL, v_n(t) == x.t))
                return t
            raise Unsupported('to_v {}'.format(x))
        if x is None:
            c.fact(tag(V_NONE) == NONE)
            return V_NONE
        if isinstance(x, bool):
            return self.to_v(Sym(z3.BoolVal(x), 'bool'))
        if isinstance(x, int):
            return self.to_v(Sym(z3.IntVal(x), 'int'))
        if isinstance(x, float):
            return self.to_v(Sym(z3.RealVal(repr(x)), 'real'))
        if isinstance(x, str):
            return self.to_v(Sym(sv(x), 'str'))
        if isinstance(x, tuple):
            vs = [self.to_v(e) for e in x]
            t = uf('mk_tup%d' % len(vs), *([V] * (len(vs) + 1)))(*vs)
            c.fact(tag(t) == TUP)
            for i, e in enumerate(vs):
                c.fact(lelem(t, z3.IntVal(i)) == e)
            return t
        if x is ANY:
            return c.fresh('any', V)
        if isinstance(x, Ref):
            o = c.store[x.oid]
            if isinstance(o, ListC):
                t = z3.Const('nil', V)
                n = z3.IntVal(0)
                for it in o.items:
                    if isinstance(it, Seg):
                        t = uf('l_seg', V, V, V)(t, it.v)
                        n = None if n is None else n + llen(it.v)
                    else:
                        e = self.to_v(it)
                        t0 = t
                        t = uf('l_app', V, V, V)(t, e)
                        n = n + 1
                c.fact(tag(t) == LIST)
                c.fact(llen(t) == n)
                if not any(isinstance(it, Seg) for it in o.items):
                    for i, it in enumerate(o.items):
                        c.fact(lelem(t, z3.IntVal(i)) == self.to_v(it))
                return t
            if isinstance(o, DictC):
                t = z3.Const('nild_' + o.cls.__name__, V)
                for it in o.items:
                    if isinstance(it, Seg):
                        t = uf('d_seg', V, V, V)(t, it.v)
                    else:
                        t = uf('d_put', V, V, V, V)(t, self.to_v(it[0]),
                                                    self.to_v(it[1]))
                c.fact(tag(t) == DICT)
                return t
            if isinstance(o, SetC):
                t = z3.Const('nilset', V)
                const = {i for i in o.items if concrete(i)}
                for it in sorted(const, key=repr) + [
                        i for i in o.items if not concrete(i)]:
                    if isinstance(it, Seg):
                        t = uf('s_seg', V, V, V)(t, it.v)
                    else:
                        t = uf('s_add', V, V, V)(t, self.to_v(it))
                return t
            if isinstance(o, InstC):
                if '__ident__' in o.attrs:
                    return o.attrs['__ident__']
                names = sorted(o.attrs)
                skip = self.M.IGNORED_ATTRS.get(o.cls.__name__, ())
                names = [n for n in names if n not in skip]
                args = [self.to_v(o.attrs[n]) for n in names]
                t = uf('mk_' + o.cls.__name__,
                       *([V] * (len(args) + 1)))(*args)
                c.fact(z3.And(tag(t) == OBJ, clsid(t) == cls_number(o.cls)))
                for n, a in zip(names, args):
                    c.fact(uf('attr_' + n, V, V)(t) == a)
                    if n not in ATTR_TY:
                        ATTR_TY[n] = self.type_of(o.attrs[n])
                return t
        if isinstance(x, Seg):
            return x.v
        # any other concrete Python object: constant by identity
        k = id(x)
        if k not in c.const_objs:
            c.const_objs[k] = (x, z3.Const('py_{}_{}'.format(
                type(x).__name__, len(c.const_objs)), V))
        t = c.const_objs[k][1]
        try:
            c.fact(z3.And(tag(t) == OBJ, clsid(t) == cls_number(type(x))))
        except TypeError:
            pass
        return t

    def type_of(self, x):
        if isinstance(x, Sym):
            return x.ty
        if isinstance(x, bool):
            return 'bool'
        if isinstance(x, int):
            return 'int'
        if isinstance(x, float):
            return 'real'
        if isinstance(x, str):
            return 'str'
        if x is None:
            return 'none'
        if isinstance(x, tuple):
            return ('tuple',) + tuple(self.type_of(e) for e in x)
        if isinstance(x, Ref):
            o = self.c.store[x.oid]
            if isinstance(o, InstC):
                return ('obj', o.cls)
            if isinstance(o, ListC):
                tys = [it.ty if isinstance(it, Seg) else self.type_of(it)
                       for it in o.items]
                return ('list', self.join_types(tys))
        if x is ANY:
            return 'any'
        return ('obj', type(x))

    def join_types(self, tys):
        tys = [t for t in tys if t is not None and t != 'any']
        if not tys:
            return None
        r = tys[0]
        for t in tys[1:]:
            r = self.join2(r, t)
        return r

    def join2(self, a, b):
        if a == b:
            return a
        if a == 'none':
            return b if isinstance(b, tuple) and b[0] == 'opt' else ('opt', b)
        if b == 'none':
            return self.join2(b, a)
        if isinstance(a, tuple) and a[0] == 'opt':
            return ('opt', self.join2(a[1], b))
        if isinstance(b, tuple) and b[0] == 'opt':
            return ('opt', self.join2(a, b[1]))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == b[0] == 'obj':
                return ('obj', None)
            if a[0] == b[0] == 'tuple' and len(a) == len(b):
                return ('tuple',) + tuple(
                    self.join2(x, y) for x, y in zip(a[1:], b[1:]))
            if a[0] == b[0] == 'list':
                return ('list', self.join_types([a[1], b[1]]))
        return 'json'

    def from_v(self, t, ty, facts=True):
        c = self.c
        if ty == 'str':
            c.fact(tag(t) == STR)
            return Sym(v_s(t), 'str')
        if ty == 'int':
            c.fact(tag(t) == INT)
            c.fact(v_n(t) == z3.ToReal(v_i(t)))
            return Sym(v_i(t), 'int')
        if ty == 'bool':
            c.fact(tag(t) == BOOL)
            return Sym(v_b(t), 'bool')
        if ty == 'real':
            c.fact(tag(t) == REAL)
            return Sym(v_n(t), 'real')
        if ty == 'none':
            return None
        if ty is None or ty == 'any' or ty == 'json':
            return Sym(t, 'json')
        if ty[0] == 'tuple':
            c.fact(tag(t) == TUP)
            return tuple(self.from_v(lelem(t, z3.IntVal(i)), e)
                         for i, e in enumerate(ty[1:]))
        if ty[0] == 'list':
            c.fact(tag(t) == LIST)
            c.fact(llen(t) >= 0)
            return Sym(t, ty)
        if ty[0] == 'dict':
            c.fact(tag(t) == DICT)
            c.fact(dlen(t) >= 0)
            return Sym(t, ty)
        if ty[0] == 'set':
            return Sym(t, ty)
        if ty[0] == 'opt':
            return Sym(t, ty)
        if ty[0] == 'obj':
            c.fact(tag(t) == OBJ)
            subs = SUBCLASSES.get(ty[1])
            if subs:
                c.fact(z3.Or([clsid(t) == cls_number(s) for s in subs]))
            elif ty[1] is not None:
                c.fact(clsid(t) == cls_number(ty[1]))
            return Sym(t, ty)
        raise Unsupported('from_v {}'.format(ty))

    # ------------------------------------------------------------- unwrapping
    def norm(self, x):
        """Resolve an ('opt', t) symbol to None or a t by deciding."""
        if isinstance(x, Sym) and isinstance(x.ty, tuple) and x.ty[0] == 'opt':
            if self.c.decide(tag(x.t) == NONE):
                return None
            return self.from_v(x.t, x.ty[1])
        return x

    # ------------------------------------------------------------- truthiness
    def truth(self, x):
        c = self.c
        x = self.norm(x)
        if isinstance(x, Sym):
            if x.ty == 'bool':
                return x.t
            if x.ty == 'str':
                return x.t != z3.StringVal('')
            if x.ty == 'int':
                return x.t != 0
            if x.ty == 'real':
                return x.t != 0
            if isinstance(x.ty, tuple):
                if x.ty[0] == 'list':
                    return llen(x.t) > 0
                if x.ty[0] == 'dict':
                    return dlen(x.t) > 0
                if x.ty[0] == 'obj':
                    return True
            if x.ty == 'json':
                c.fact(z3.And(llen(x.t) >= 0, dlen(x.t) >= 0))
                return z3.Or(
                    z3.And(tag(x.t) == BOOL, v_b(x.t)),
                    z3.And(z3.Or(tag(x.t) == INT, tag(x.t) == REAL),
                           v_n(x.t) != 0),
                    z3.And(tag(x.t) == STR, v_s(x.t) != z3.StringVal('')),
                    z3.And(tag(x.t) == LIST, llen(x.t) > 0),
                    z3.And(tag(x.t) == DICT, dlen(x.t) > 0),
                    tag(x.t) == OBJ, tag(x.t) == TUP)
            raise Unsupported('truth of {}'.format(x))
        if isinstance(x, Ref):
            o = c.store[x.oid]
            if isinstance(o, InstC):
                return True
            conds = []
            for it in o.items:
                if not isinstance(it, Seg):
                    return True
                if isinstance(o, ListC):
                    c.fact(llen(it.v) >= 0)
                    conds.append(llen(it.v) > 0)
                else:
                    conds.append(uf('nonempty', V, B)(it.v))
            return z3.Or(conds) if conds else False
        if x is ANY or x is UNDEF:
            raise Unsupported('truth of {!r}'.format(x))
        if is_sym(x):
            return True
        return bool(x)

    def cond(self, x):
        return self.c.decide(self.truth(x))

    # --------------------------------------------------------------- equality
    def py_eq(self, a, b):
        """The Python == of two values, as bool or z3 Bool."""
        c = self.c
        a = self.norm(a)
        b = self.norm(b)
        if concrete(a) and concrete(b):
            return bool(a == b)
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, Sym):
            if isinstance(b, Sym):
                if a.ty == b.ty and a.ty in ('str', 'int', 'bool', 'real'):
                    return a.t == b.t
                if a.ty in ('int', 'real') and b.ty in ('int', 'real'):
                    return self.as_num(a) == self.as_num(b)
                if a.ty == 'json' and b.ty in ('str', 'int', 'real', 'bool'):
                    return self._json_eq_scalar(a, b)
                if b.ty == 'json' and a.ty in ('str', 'int', 'real', 'bool'):
                    return self._json_eq_scalar(b, a)
                if a.t.sort() == V and b.t.sort() == V:
                    num = lambda t: z3.Or(tag(t) == INT, tag(t) == REAL)
                    if a.ty == 'json' and b.ty == 'json':
                        return z3.Or(
                            z3.And(num(a.t), num(b.t), v_n(a.t) == v_n(b.t)),
                            z3.And(z3.Not(z3.And(num(a.t), num(b.t))),
                                   self._v_eq(a.t, b.t)))
                    return self._v_eq(a.t, b.t)
                return False
            if b is None:
                return tag(a.t) == NONE if a.ty == 'json' else False
            if isinstance(b, bool):
                if a.ty == 'bool':
                    return a.t == b
                if a.ty == 'json':
                    return self._json_eq_scalar(a, Sym(z3.BoolVal(b), 'bool'))
                if a.ty in ('int', 'real'):
                    return a.t == int(b)
                return False
            if isinstance(b, str):
                if a.ty == 'str':
                    return a.t == sv(b)
                if a.ty == 'json':
                    return z3.And(tag(a.t) == STR, v_s(a.t) == sv(b))
                return False
            if isinstance(b, (int, float)):
                if a.ty in ('int', 'real'):
                    return self.as_num(a) == self.as_num(b)
                if a.ty == 'json':
                    return z3.And(z3.Or(tag(a.t) == INT, tag(a.t) == REAL),
                                  v_n(a.t) == self.as_real(b))
                if a.ty == 'bool':
                    return z3.If(a.t, 1, 0) == self.as_num(b)
                return False
            if a.t.sort() == V:
                return self._v_eq(a.t, self.to_v(b))
            return False
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.and_([self.py_eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Ref) or isinstance(b, Ref):
            oa = c.store[a.oid] if isinstance(a, Ref) else a
            ob = c.store[b.oid] if isinstance(b, Ref) else b
            if isinstance(oa, ListC) and isinstance(ob, list):
                ob = ListC(ob)
            if isinstance(ob, ListC) and isinstance(oa, list):
                oa = ListC(oa)
            if isinstance(oa, InstC) or isinstance(ob, InstC):
                if isinstance(oa, InstC) and isinstance(ob, InstC):
                    return False  # distinct identities, no __eq__
                return False
            if isinstance(oa, ListC) and isinstance(ob, ListC):
                return self.rope_eq(oa.items, ob.items)
        raise Unsupported('== of {!r} and {!r}'.format(a, b))

    def _v_eq(self, a, b):
        return a == b

    def _json_eq_scalar(self, a, b):
        if b.ty == 'str':
            return z3.And(tag(a.t) == STR, v_s(a.t) == b.t)
        if b.ty == 'bool':
            return z3.And(tag(a.t) == BOOL, v_b(a.t) == b.t)
        return z3.And(z3.Or(tag(a.t) == INT, tag(a.t) == REAL),
                      v_n(a.t) == self.as_real(b))

    def as_num(self, x):
        if isinstance(x, Sym):
            if x.ty == 'bool':
                return z3.If(x.t, 1, 0)
            if x.ty in ('int', 'real'):
                return x.t
        if isinstance(x, bool):
            return z3.IntVal(int(x))
        if isinstance(x, int):
            return z3.IntVal(x)
        if isinstance(x, float):
            return z3.RealVal(repr(x))
        raise Unsupported('number {!r}'.format(x))

    def as_real(self, x):
        n = self.as_num(x)
        return z3.ToReal(n) if n.sort() == I else n

    def and_(self, cs):
        out = []
        for x in cs:
            if x is False:
                return False
            if x is True:
                continue
            out.append(x)
        if not out:
            return True
        return z3.And(out) if len(out) > 1 else out[0]

    def or_(self, cs):
        out = []
        for x in cs:
            if x is True:
                return True
            if x is False:
                continue
            out.append(x)
        if not out:
            return False
        return z3.Or(out) if len(out) > 1 else out[0]

    def not_(self, x):
        if isinstance(x, bool):
            return not x
        return z3.Not(x)

    def rope_eq(self, xs, ys, eq=None):
        eq = eq or self.same
        if len(xs) != len(ys):
            # drop empty segments? keep it simple: unequal shapes
            if any(isinstance(i, Seg) for i in xs + ys):
                return self.rope_eq_fallback(xs, ys)
            return False
        out = []
        for a, b in zip(xs, ys):
            if isinstance(a, Seg) and isinstance(b, Seg):
                out.append(a.v == b.v)
            elif isinstance(a, Seg) or isinstance(b, Seg):
                return self.rope_eq_fallback(xs, ys)
            else:
                out.append(eq(a, b))
        return self.and_(out)

    def rope_eq_fallback(self, xs, ys):
        a = [x for x in xs if not (isinstance(x, Seg) and
                                   self.c.must(llen(x.v) == 0))]
        b = [y for y in ys if not (isinstance(y, Seg) and
                                   self.c.must(llen(y.v) == 0))]
        if len(a) < len(xs) or len(b) < len(ys):
            return self.rope_eq(tuple(a), tuple(b))
        return False

    # result equality: strict on types, structural on heap objects
    def same(self, a, b, seen=None):
        c = self.c
        if b is ANY or a is ANY:
            return True
        if seen is None:
            seen = {}
        if isinstance(a, Sym) and isinstance(a.ty, tuple) and a.ty[0] == 'opt' \
                or isinstance(b, Sym) and isinstance(b.ty, tuple) and \
                b.ty[0] == 'opt':
            return self.to_v(a) == self.to_v(b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid:
                return True
            k = (a.oid, b.oid)
            if k in seen:
                return True
            seen[k] = True
            oa, ob = c.store[a.oid], c.store[b.oid]
            if type(oa) is not type(ob):
                return False
            f = lambda x, y: self.same(x, y, seen)
            if isinstance(oa, ListC):
                return self.rope_eq(oa.items, ob.items, f)
            if isinstance(oa, DictC):
                oi, bi = self.norm_writes(oa.items), self.norm_writes(ob.items)
                return self.rope_eq(oi, bi, f)
            if isinstance(oa, SetC):
                r = self.rope_eq(oa.items, ob.items, f)
                if r is True or (r is not False and self.c.must(r)):
                    return True
                x = c.fresh('member', V)
                return self.set_mem_v(oa, x) == self.set_mem_v(ob, x)
            if isinstance(oa, InstC):
                if '__ident__' in oa.attrs and '__ident__' in ob.attrs:
                    return oa.attrs['__ident__'] == ob.attrs['__ident__']
                if oa.cls is not ob.cls:
                    return False
                ign = self.M.IGNORED_ATTRS.get(oa.cls.__name__, ())
                na = set(oa.attrs) - set(ign)
                nb = set(ob.attrs) - set(ign)
                if na != nb:
                    return False
                return self.and_([self.same(oa.attrs[n], ob.attrs[n], seen)
                                  for n in sorted(na)])
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.and_([self.same(x, y, seen) for x, y in zip(a, b)])
        if concrete(a) and concrete(b):
            if isinstance(a, (bool, int, float, str, type(None))) or \
                    isinstance(b, (bool, int, float, str, type(None))):
                return type(a) is type(b) and a == b
            return a is b or (type(a) is type(b) and bool(a == b))
        if isinstance(a, Ref) and concrete(b) or \
                isinstance(b, Ref) and concrete(a):
            try:
                a2, b2 = self.to_py(a), self.to_py(b)
                return type(a2) is type(b2) and a2 == b2
            except Unsupported:
                pass
        if isinstance(a, FuncVal) and isinstance(b, FuncVal):
            return a.node is b.node
        ta, tb = self.scalar_ty(a), self.scalar_ty(b)
        if ta is not None and tb is not None:
            if ta != tb:
                return False
            return self.py_eq(a, b)
        try:
            return self.to_v(a) == self.to_v(b)
        except Unsupported:
            return False

    def norm_writes(self, items):
        """Normalise a write log of a dict with constant keys."""
        if not all((not isinstance(i, Seg)) and concrete(i[0]) for i in items):
            return items
        out = collections.OrderedDict()
        for k, v in items:
            out[k] = v
        return tuple((k, v) for k, v in out.items())

    def scalar_ty(self, x):
        if isinstance(x, Sym):
            return x.ty if x.ty in ('str', 'int', 'bool', 'real') else None
        if isinstance(x, bool):
            return 'bool'
        if isinstance(x, int):
            return 'int'
        if isinstance(x, float):
            return 'real'
        if isinstance(x, str):
            return 'str'
        return None

    def set_mem_v(self, o, xv):
        out = []
        for it in o.items:
            if isinstance(it, Seg):
                out.append(self.M.in_set(it.v, xv))
            else:
                out.append(self.to_v(it) == xv)
        return z3.Or(out) if out else z3.BoolVal(False)

    def to_py(self, x):
        """Convert to a plain Python value if it is concrete."""
        if isinstance(x, Ref):
            o = self.c.store[x.oid]
            if isinstance(o, ListC):
                if any(isinstance(i, Seg) for i in o.items):
                    raise Unsupported('symbolic list')
                return [self.to_py(i) for i in o.items]
            if isinstance(o, SetC):
                if any(isinstance(i, Seg) for i in o.items):
                    raise Unsupported('symbolic set')
                return {self.to_py(i) for i in o.items}
            if isinstance(o, DictC):
                if any(isinstance(i, Seg) for i in o.items):
                    raise Unsupported('symbolic dict')
                return o.cls([(self.to_py(k), self.to_py(v))
                              for k, v in o.items])
            raise Unsupported('instance')
        if isinstance(x, tuple):
            return tuple(self.to_py(i) for i in x)
        if is_sym(x):
            raise Unsupported('not concrete {!r}'.format(x))
        return x

    # ------------------------------------------------------------------ loops
    def source_of(self, it):
        """Break an iterable into pieces: concrete runs and symbolic sources.

        Yields ('elems', [values]) or ('loop', src).
        """
        c = self.c
        it = self.norm(it)
        if isinstance(it, EnumView):
            out = []
            off = it.start
            for p in self.source_of(it.src):
                if p[0] == 'elems':
                    els = []
                    for e in p[1]:
                        els.append((off, e))
                        off = self.M.add(self, off, 1)
                    out.append(('elems', els))
                else:
                    out.append(('loop', ('enum', p[1], off)))
                    off = self.M.add(self, off, self.src_len(p[1]))
            return out
        if isinstance(it, Ref):
            o = c.store[it.oid]
            if isinstance(o, ListC):
                out = []
                for x in o.items:
                    if isinstance(x, Seg):
                        if x.producer is not None:
                            out.append(('loop', ('fused', x.producer)))
                        else:
                            out.append(('loop', ('list', x.v, x.ty)))
                    elif out and out[-1][0] == 'elems':
                        out[-1][1].append(x)
                    else:
                        out.append(('elems', [x]))
                return out
            if isinstance(o, DictC):
                return self.dict_pieces(o, 'keys')
            if isinstance(o, SetC) and not any(
                    isinstance(i, Seg) for i in o.items):
                if all(concrete(i) for i in o.items):
                    return [('elems', list(dict.fromkeys(o.items)))]
                raise Unsupported('iteration over a symbolic set')
            if isinstance(o, SetC):
                t = self.to_v(it)
                if len(o.items) == 1:
                    t = o.items[0].v
                v = c.fresh('setlist', V)
                c.set_order[v.get_id()] = t
                c.fact(llen(v) >= 0)
                ty = self.join_types([x.ty if isinstance(x, Seg) else
                                      self.type_of(x) for x in o.items])
                return [('loop', ('list', v, ty))]
            raise Unsupported('iteration over {!r}'.format(o))
        if isinstance(it, DictView):
            d = self.norm(it.d)
            if isinstance(d, Ref):
                o = c.store[d.oid]
                if it.sort:
                    raise Unsupported('sorted local dict')
                return self.dict_pieces(o, it.what)
            if isinstance(d, Sym):
                return [('loop', ('dict', d, it.what, it.sort))]
            return [('elems', list(getattr(d, it.what)()))]
        if isinstance(it, Sym):
            if isinstance(it.ty, tuple) and it.ty[0] == 'list':
                return [('loop', ('list', it.t, it.ty[1]))]
            if isinstance(it.ty, tuple) and it.ty[0] == 'dict':
                return [('loop', ('dict', it, 'keys', False))]
            if it.ty == 'str':
                return [('loop', ('chars', it.t))]
            if it.ty == 'json':
                if c.decide(tag(it.t) == LIST):
                    c.fact(llen(it.t) >= 0)
                    return [('loop', ('list', it.t, 'json'))]
                if c.decide(tag(it.t) == DICT):
                    return [('loop', ('dict', it, 'keys', False))]
                if c.decide(tag(it.t) == STR):
                    return [('loop', ('chars', v_s(it.t)))]
                raise PyRaise(TypeError)
        if isinstance(it, SymRange):
            return [('loop', ('range', it.lo, it.hi))]
        if concrete(it):
            try:
                return [('elems', list(it))]
            except TypeError:
                raise PyRaise(TypeError)
        if isinstance(it, tuple):
            return [('elems', list(it))]
        raise Unsupported('iteration over {!r}'.format(it))

    def dict_pieces(self, o, what):
        items = o.items
        if all((not isinstance(i, Seg)) and concrete(i[0]) for i in items):
            d = collections.OrderedDict()
            for k, v in items:
                d[k] = v
            return [('elems', [k if what == 'keys' else
                               v if what == 'values' else (k, v)
                               for k, v in d.items()])]
        if len(items) == 1 and isinstance(items[0], Seg):
            g = items[0]
            return [('loop', ('dict', Sym(g.v, ('dict', g.ty)), what, False))]
        raise Unsupported('iteration over a symbolic local dict')

    def src_len(self, src):
        if src[0] == 'list':
            return Sym(llen(src[1]), 'int')
        if src[0] == 'dict':
            return Sym(dlen(src[1].t), 'int')
        raise Unsupported('length of {}'.format(src[0]))

    def src_key(self, src):
        """Canonical identity of the source of a loop."""
        if src[0] == 'list':
            return ('list', src[1].get_id())
        if src[0] == 'dict':
            return ('dict', src[1].t.get_id(), src[3])
        if src[0] == 'enum':
            return self.src_key(src[1])
        if src[0] == 'fused':
            return self.src_key(src[1].src)
        if src[0] == 'chars':
            return ('chars', src[1].get_id())
        if src[0] == 'range':
            return ('range', str(src[1]), str(src[2]))
        if src[0] == 'while':
            return ('while',)
        raise Unsupported(str(src[0]))

    def src_term(self, src):
        if src[0] == 'list':
            return src[1]
        if src[0] == 'dict':
            return src[1].t
        if src[0] == 'enum':
            return self.src_term(src[1])
        if src[0] == 'fused':
            return self.src_term(src[1].src)
        return None

    def src_kind(self, src):
        if src[0] == 'enum':
            return self.src_kind(src[1])
        if src[0] == 'fused':
            return self.src_kind(src[1].src)
        return src[0]

    def same_source(self, a, b):
        if self.src_key(a) == self.src_key(b):
            return True
        if self.src_kind(a) != self.src_kind(b):
            return False
        ta, tb = self.src_term(a), self.src_term(b)
        if ta is None or tb is None:
            return False
        ka, kb = self.src_key(a), self.src_key(b)
        if len(ka) == 3 and ka[2] != kb[2]:
            return False
        return self.c.must(ta == tb, 4000)

    def elem_at(self, src, idx):
        """Values produced at index idx: a list (fused sources may yield 0..n)."""
        c = self.c
        if src[0] == 'list':
            t = lelem(src[1], idx)
            self.M.on_elem(self, src[1], t)
            c.fact(z3.And(idx >= 0, idx < llen(src[1])))
            return [self.from_v(t, src[2])]
        if src[0] == 'dict':
            d, what, srt = src[1], src[2], src[3]
            k = (skey if srt else dkey)(d.t, idx)
            c.fact(z3.And(idx >= 0, idx < dlen(d.t)))
            c.fact(has(d.t, k))
            if what == 'keys':
                return [Sym(k, 'str')]
            t = get(d.t, k)
            self.M.on_get(self, d.t, None, t)
            vt = d.ty[1] if isinstance(d.ty, tuple) else 'json'
            val = self.from_v(t, vt)
            return [val] if what == 'values' else [(Sym(k, 'str'), val)]
        if src[0] == 'enum':
            vals = self.elem_at(src[1], idx)
            if src[1][0] == 'fused':
                raise Unsupported('enumerate over a fused source')
            i = self.M.add(self, src[2], Sym(idx, 'int'))
            return [(i, vals[0])]
        if src[0] == 'chars':
            c.fact(z3.And(idx >= 0, idx < z3.Length(src[1])))
            return [Sym(z3.SubString(src[1], idx, 1), 'str')]
        if src[0] == 'range':
            lo = self.as_num(src[1])
            i = lo + idx if not (z3.is_int_value(lo) and
                                 lo.as_long() == 0) else idx
            c.fact(z3.And(idx >= 0, i < self.as_num(src[2])))
            return [Sym(i, 'int')]
        if src[0] == 'while':
            return [None]
        if src[0] == 'fused':
            p = src[1]
            saved = dict(c.store)
            tr, c.trackers = c.trackers, []
            before = set(c.store)
            # run the producer body in the state of its entry
            for k, v in p.entry_store.items():
                c.store[k] = v
            acc = p.acc
            c.store[acc] = ListC(())
            try:
                for e in self.elem_at(p.src, idx):
                    try:
                        p.run_iter(e)
                    except ContinueX:
                        pass
                items = c.store[acc].items
                if any(isinstance(x, Seg) for x in items):
                    raise Unsupported('fusion of nested producers')
            finally:
                new = {k: v for k, v in c.store.items() if k not in before}
                c.store = saved
                c.store.update(new)
                c.trackers = tr
            return list(items)
        raise Unsupported(src[0])

    # -- havoc of modified state
    def havoc(self, key, entry, name, sink=None):
        """Return the havoced content for a store key and its symbols."""
        c = self.c
        if isinstance(entry, ListC):
            v = z3.Const(name, V)
            return ListC(entry.items + (Seg(v, None),))
        if isinstance(entry, DictC):
            return DictC(entry.items + (Seg(z3.Const(name, V), None),),
                         entry.cls)
        if isinstance(entry, SetC):
            return SetC(entry.items + (Seg(z3.Const(name, V), None),))
        raise Unsupported('havoc of {!r}'.format(entry))

    def run_for(self, it, run_iter, is_comp=None):
        """Run a loop; run_iter(elem) runs one iteration."""
        for p in self.source_of(it):
            if p[0] == 'elems':
                for e in p[1]:
                    try:
                        run_iter(e)
                    except ContinueX:
                        pass
                    except BreakX:
                        return True
            else:
                try:
                    self.sym_loop(p[1], run_iter, is_comp)
                except BreakX:
                    return True
        return False

    def _one_iter(self, src, idx, run_iter):
        """Run one iteration; returns the outcome."""
        try:
            for e in self.elem_at(src, idx):
                try:
                    run_iter(e)
                except ContinueX:
                    pass
            return ('normal',)
        except BreakX:
            return ('break',)
        except ReturnX as r:
            return ('return', r.v)
        except PyRaise as r:
            return ('raise', r.cls, r.val)

    def analyse(self, src, run_iter, lid):
        """Find the pieces a loop modifies, their types and its exits."""
        c = self.c
        ck = ('an', c.decided, lid, c.side)
        if ck in c.analysis_cache:
            return c.analysis_cache[ck]
        mods = {}  # key -> type info
        exits = set()
        for _round in range(8):
            changed = [False]
            entry_keys = set(c.store)
            cur = {k: v for k, v in mods.items()}

            def body():
                tr = set()
                pre = {}
                for n, k in enumerate(sorted(cur, key=str)):
                    c.store[k] = self.havoc_content(
                        k, c.store[k], cur[k], '{}an{}_{}'.format(
                            c.prefix, lid, n))
                    pre[k] = c.store[k]
                idx = c.fresh('i', I)
                c.prefix = c.prefix + 'an{}.'.format(lid)
                c.trackers.append(tr)
                try:
                    out = self._one_iter(src, idx, run_iter)
                finally:
                    c.trackers.pop()
                if out[0] != 'normal':
                    exits.add(out[0])
                for k in tr:
                    if k in entry_keys:
                        info = self.piece_type(
                            c.store[k], pre.get(k, None), entry[k])
                        if k not in mods:
                            mods[k] = info
                            changed[0] = True
                        else:
                            j = self.join_info(mods[k], info)
                            if j != mods[k]:
                                mods[k] = j
                                changed[0] = True
            entry = {k: c.store[k] for k in entry_keys}
            c.explore(body, label='an{}.{}'.format(lid, _round))
            if not changed[0]:
                break
        else:
            raise Unsupported('loop analysis does not converge')
        c.analysis_cache[ck] = (mods, exits)
        return mods, exits

    def piece_type(self, after, before, entry):
        if isinstance(entry, (ListC, DictC, SetC)):
            base = before if before is not None else entry
            if type(after) is not type(entry):
                raise Unsupported('piece changes kind')
            n = len(base.items)
            if after.items[:n] != base.items[:n]:
                raise Unsupported('loop modifies a collection other than by '
                                  'adding')
            new = after.items[n:]
            if isinstance(entry, DictC):
                ty = self.join_types([x.ty if isinstance(x, Seg) else
                                      self.type_of(x[1]) for x in new])
            else:
                ty = self.join_types([x.ty if isinstance(x, Seg) else
                                      self.type_of(x) for x in new])
            return ('coll', ty)
        if isinstance(entry, InstC):
            raise Unsupported('loop modifies an instance')
        if after is UNDEF:
            return ('var', None)
        if isinstance(after, (FuncVal, BoundVal, DictView)):
            return ('dead', None)
        return ('var', self.join_types([self.type_of(entry),
                                        self.type_of(after)])
                if entry is not UNDEF else self.type_of(after))

    def join_info(self, a, b):
        if a[0] == b[0]:
            return (a[0], self.join_types([a[1], b[1]]))
        return ('dead', None)

    def havoc_content(self, key, content, info, name):
        kind, ty = info
        if isinstance(content, (ListC, DictC, SetC)):
            return type(content)(
                content.items + (Seg(z3.Const(name, V), ty),),
                *([content.cls] if isinstance(content, DictC) else []))
        if kind == 'dead' or content is UNDEF:
            return UNDEF
        return self.fresh_named(name, ty)

    def fresh_named(self, name, ty):
        if ty == 'str':
            return Sym(z3.Const(name + 's', S), 'str')
        if ty == 'int':
            return Sym(z3.Const(name + 'i', I), 'int')
        if ty == 'bool':
            return Sym(z3.Const(name + 'b', B), 'bool')
        if ty == 'real':
            return Sym(z3.Const(name + 'r', R), 'real')
        return self.from_v(z3.Const(name, V), ty)

    def sym_loop(self, src, run_iter, is_comp=None):
        c = self.c
        c.counter += 1
        lid = c.counter
        name = '{}{}L{}'.format(c.prefix, c.side[0], lid)
        mods, exits = self.analyse(src, run_iter, lid)
        L = LoopRec()
        L.src, L.run_iter, L.mods, L.exits = src, run_iter, mods, exits
        L.entry = dict(c.store)
        L.side = c.side
        L.name = name
        L.exit_flag = z3.Const(name + '_exit', B)
        L.witness = z3.Const(name + '_w', I)
        L.keys = sorted(mods, key=str)
        L.mid = {}
        L.end = {}
        for n, k in enumerate(L.keys):
            L.mid[k] = '{}_m{}'.format(name, n)
            L.end[k] = '{}_e{}'.format(name, n)
        if c.side == 'spec':
            self.find_pair(L, lid)
        c.loops.append(L)
        # continue with the loop's abstraction
        if exits:
            took = c.decide(L.exit_flag)
        else:
            took = False
        if took:
            for k in L.keys:
                c.store[k] = self.havoc_content(k, c.store[k], mods[k],
                                                L.mid[k])
                self._touch(k)
            out = self._one_iter(src, L.witness, run_iter)
            if out[0] == 'normal':
                raise Infeasible()
            if out[0] == 'break':
                raise BreakX()
            if out[0] == 'return':
                raise ReturnX(out[1])
            raise PyRaise(out[1], out[2])
        pure = (len(L.keys) == 1 and not exits and
                isinstance(c.store[L.keys[0]], ListC))
        lk = self.loop_len(src)
        for k in L.keys:
            old = c.store[k]
            new = self.havoc_content(k, old, mods[k], L.end[k])
            if isinstance(new, (ListC, DictC, SetC)):
                seg = new.items[-1]
                if isinstance(new, ListC):
                    c.fact(llen(seg.v) >= 0)
                    if pure and is_comp:
                        P = LoopRec()
                        P.src, P.run_iter, P.acc = src, run_iter, k
                        P.entry_store = dict(L.entry)
                        seg = Seg(seg.v, seg.ty, P)
                        new = ListC(new.items[:-1] + (seg,))
                    if is_comp == 'map' and lk is not None:
                        c.fact(llen(seg.v) == lk)
                    elif lk is not None:
                        c.fact(z3.Implies(lk == 0, llen(seg.v) == 0))
                elif lk is not None:
                    c.fact(z3.Implies(lk == 0,
                                      z3.Not(uf('nonempty', V, B)(seg.v))))
            c.store[k] = new
            self._touch(k)

    def _touch(self, k):
        for t in self.c.trackers:
            t.add(k)

    def loop_len(self, src):
        if src[0] == 'list':
            self.c.fact(llen(src[1]) >= 0)
            return llen(src[1])
        if src[0] == 'dict':
            self.c.fact(dlen(src[1].t) >= 0)
            return dlen(src[1].t)
        if src[0] == 'enum':
            return self.loop_len(src[1])
        return None

    def find_pair(self, L, lid):
        c = self.c
        ck = ('pair', c.decided, lid, L.name)
        if ck in c.cache:
            res = c.cache[ck]
        else:
            res = None
            best = -1
            for n, cand in enumerate(c.loops):
                if cand.side != 'impl' or cand.paired:
                    continue
                if not self.same_source(cand.src, L.src):
                    continue
                cp = self.try_pair(cand, L, lid, n)
                if cp is None:
                    continue
                score = len(cp)
                if score > best:
                    best = score
                    res = (n, cp)
                need = [k for k in L.keys
                        if L.mods[k][0] == 'coll' or L.mods[k][0] == 'var']
                if len({s for _, s in cp}) == len(need):
                    break
            c.cache[ck] = res
        if res is None:
            return
        n, cp = res
        cand = c.loops[n]
        cand = self.mark_paired(n)
        L.exit_flag = cand.exit_flag
        L.witness = cand.witness
        for (ki, ks) in cp:
            L.mid[ks] = cand.mid[ki]
            L.end[ks] = cand.end[ki]

    def mark_paired(self, n):
        c = self.c
        old = c.loops[n]
        new = LoopRec()
        new.__dict__.update(old.__dict__)
        new.paired = True
        c.loops[n] = new
        return new

    def try_pair(self, A, L, lid, n):
        """Prove that the two loops run in lockstep; return couplings."""
        c = self.c
        pairs = []
        for ki in A.keys:
            for ks in L.keys:
                if A.mods[ki][0] != L.mods[ks][0] or A.mods[ki][0] == 'dead':
                    continue
                ei, es = A.entry[ki], L.entry[ks]
                if A.mods[ki][0] == 'coll':
                    if type(ei) is not type(es):
                        continue
                    if isinstance(ei, (SetC, DictC)):
                        if not self.init_equal(ei, es):
                            continue
                    pairs.append((ki, ks))
                else:
                    if ei is UNDEF or es is UNDEF:
                        continue
                    try:
                        if c.must(self.same(ei, es), 3000):
                            pairs.append((ki, ks))
                    except Unsupported:
                        continue
        while True:
            bad = set()
            fail = []
            ok_pairs = list(pairs)

            def body():
                base = '{}P{}_{}_'.format(c.prefix, lid, n)
                c.store.update(A.entry)
                for k in c.spec_keys:
                    if k in L.entry:
                        c.store[k] = L.entry[k]
                # names
                smap = {}
                for q, (ki, ks) in enumerate(ok_pairs):
                    smap.setdefault(ki, '{}c{}'.format(base, q))
                for q, (ki, ks) in enumerate(ok_pairs):
                    # a spec piece may be coupled with several impl pieces:
                    # they then share one symbol
                    smap[('s', ks)] = smap[ki]
                # unify transitively
                chg = True
                while chg:
                    chg = False
                    for (ki, ks) in ok_pairs:
                        m = min(smap[ki], smap[('s', ks)])
                        if smap[ki] != m or smap[('s', ks)] != m:
                            smap[ki] = smap[('s', ks)] = m
                            chg = True
                tyi = {}
                for (ki, ks) in ok_pairs:
                    tyi[ki] = tyi[('s', ks)] = None
                for q, ki in enumerate(A.keys):
                    nm = smap.get(ki, '{}i{}'.format(base, q))
                    c.store[ki] = self.havoc_content(ki, c.store[ki],
                                                     A.mods[ki], nm)
                for q, ks in enumerate(L.keys):
                    nm = smap.get(('s', ks), '{}s{}'.format(base, q))
                    c.store[ks] = self.havoc_content(ks, c.store[ks],
                                                     L.mods[ks], nm)
                pre = {k: c.store[k] for k in list(A.keys) + list(L.keys)}
                idx = z3.Const(base + 'k', I)
                c.prefix = base + '.'
                c.loops = list(c.loops)
                mark = len(c.loops)
                hidden = c.loops
                c.loops = []
                side = c.side
                c.side = 'impl'
                oi = self._one_iter(A.src, idx, A.run_iter)
                c.side = 'spec'
                os_ = self._one_iter(L.src, idx, L.run_iter)
                c.side = side
                if (oi[0] == 'normal') != (os_[0] == 'normal'):
                    # how they leave the loop is up to each of them
                    if not self.infeasible_now():
                        fail.append('outcomes differ: {} vs {}'.format(
                            oi, os_))
                        raise StopPair()
                    return
                if oi[0] != 'normal':
                    return
                for (ki, ks) in ok_pairs:
                    if (ki, ks) in bad:
                        continue
                    try:
                        e = self.piece_same(pre[ki], c.store[ki], pre[ks],
                                            c.store[ks])
                        if not c.must(e):
                            bad.add((ki, ks))
                    except Unsupported:
                        bad.add((ki, ks))
            try:
                c.explore(body, label='pair{}.{}.{}'.format(lid, n, len(pairs)))
            except StopPair:
                c.failures.append(fail[-1] if fail else 'pair')
                return None
            STATS.lemmas += 1
            if not bad:
                return ok_pairs
            pairs = [p for p in pairs if p not in bad]

    def infeasible_now(self):
        return self.c.check(z3.BoolVal(True), 5000) == 'unsat'

    def init_equal(self, a, b):
        try:
            if isinstance(a, DictC):
                return self.c.must(self.rope_eq(a.items, b.items), 3000)
            r = self.rope_eq(a.items, b.items)
            if self.c.must(r, 3000):
                return True
            x = self.c.fresh('member', V)
            return self.c.must(
                self.set_mem_v(a, x) == self.set_mem_v(b, x), 3000)
        except Unsupported:
            return False

    def piece_same(self, pi, ai, ps, as_):
        if isinstance(ai, (ListC, DictC, SetC)):
            ni, ns = ai.items[len(pi.items):], as_.items[len(ps.items):]
            r = self.rope_eq(ni, ns)
            if isinstance(ai, SetC) and r is not True:
                if r is not False and self.c.must(r):
                    return True
                x = self.c.fresh('member', V)
                return self.set_mem_v(ai, x) == self.set_mem_v(as_, x)
            return r
        if ai is UNDEF or as_ is UNDEF:
            return False
        return self.same(ai, as_)


class StopPair(Exception):
    pass


class SymRange:
    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi
