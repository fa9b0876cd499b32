"""The contracts of generated Go code, and the meaning of Go operations."""
import ast
import fractions

import z3

from pv import gv, gvpy
from pv.engine import PyRaise, ReturnX, Unsupported
from pv.gv import (and_, B, blen, boolean, Code, const, Dct, DEAD, Dotted,
                   elem, Errs, fn, get, has, I, Inst, K, keyat, Lst, Method,
                   NILD, NONE, num, plain, Ptr, R, real, Ref, Reg,
                   rope, Seg, Str, Sym, SymInst, tag, T_BOOL, T_DICT, T_INT,
                   T_LIST, T_NONE, T_REAL, T_STR, U, View)
from pv.gvpy import (And, DEFAULT_FORMAT, den, If, Implies, inst, Not, ok, Or,
                     reg, Regex, Theory)

IFACE = ('iface', )
JMAP = ('map', ('name', 'string'), IFACE)
JLIST = ('slice', IFACE)


class GoPanic(Exception):
    """A panic."""


class AllowedPanic(Exception):
    """A panic that is a known finding."""


class GoErr:
    """An error that is not nil."""

    def __repr__(self):
        return 'GoErr'


GOERR = GoErr()


class Made:
    """The elements of a slice that was made with a length: all are zero."""
    __slots__ = ('n', 'type')

    def __init__(self, n, ty):
        self.n = n
        self.type = ty


class At:
    """An element is assigned."""
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k = k
        self.v = v


def panic():
    raise PyRaise(GoPanic)


def is_int(x):
    return z3.IsInt(x) if x.sort() == R else z3.BoolVal(True)


class GoTheory(Theory):
    """Operations on the values of the executor (Go)."""
    ID_REFS = False

    def __init__(self, spec, settings, pkg):
        Theory.__init__(self, spec, settings)
        self.pkg = pkg
        self.cur = []

    # ---------------------------------------------------------------- names
    def name_of(self, kind, name):
        import mapry.naming as mn
        return mn.ucamel_case(name)

    def attr_name(self, n):
        import mapry.naming as mn
        return mn.ucamel_case(n)

    def reg_attr(self, cls):
        import mapry.naming as mn
        return mn.ucamel_case(self.sp.plural[cls])

    def var(self, name):
        import mapry.naming as mn
        return mn.ucamel_case(name)

    # ---------------------------------------------------------------- terms
    def content(self, v):
        """What a pointer refers to."""
        o = self.x.obj(v.ref)
        if o is DEAD:
            raise Unsupported('object after a cut point')
        return o

    def to_u(self, v):
        if isinstance(v, Ptr):
            o = self.content(v)
            if isinstance(o, Inst) and o.cls == 'cell':
                return self.to_u(o.attrs['v'])
            return self.to_u(v.ref)
        if isinstance(v, fractions.Fraction):
            return const('number {}'.format(v))
        if isinstance(v, GoErr):
            raise Unsupported('an error as a term')
        if isinstance(v, Ref):
            o = self.x.obj(v)
            if o is DEAD:
                raise Unsupported('object after a cut point')
            if isinstance(o, Lst) and any(isinstance(i, (Made, At))
                                          for i in o.items):
                if len(o.items) == 1 and isinstance(o.items[0], Made) and \
                        self.c.must(o.items[0].n == 0):
                    return Theory.to_u(self, self.x.new(Lst()))
                raise Unsupported('a slice being filled as a term')
        return Theory.to_u(self, v)

    def reg_u(self, v):
        return NILD if v is None else self.to_u(v)

    def deref(self, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Ref) and self.x.obj(v) is DEAD:
            raise Unsupported('object after a cut point')
        return Theory.deref(self, v)

    def is_portable(self, v):
        return isinstance(v, GoErr)

    # ---------------------------------------------------------------- types
    def zero(self, t):
        if t[0] == 'name':
            n = t[1]
            if n == 'bool':
                return False
            if n == 'string':
                return ''
            if n == 'error' or n == 'any':
                return None
            if n == 'time.Time':
                return Sym(const('zero time'), 'val')
            if n == 'time.Duration' or n in (
                    'int', 'int64', 'uint64', 'float64', 'int32', 'uint32',
                    'uint', 'byte'):
                return 0
            d = self.pkg.types.get(n)
            if d is not None and d[0] == 'struct':
                return self.x.new(Inst(n, {f: self.zero(ft)
                                           for f, ft in d[1]}))
            if d is not None and d[0] == 'other':
                return self.zero(d[1])
            raise Unsupported('zero of {}'.format(n))
        return None

    def is_struct(self, v):
        return isinstance(v, Ref) and isinstance(self.x.obj(v), Inst)

    def copied(self, v):
        """The value as it is stored elsewhere."""
        if self.is_struct(v):
            o = self.x.obj(v)
            if o.cls == 'cell':
                raise Unsupported('cell')
            return self.x.new(Inst(o.cls, {k: self.copied(a)
                                           for k, a in o.attrs.items()},
                                   o.ident))
        return v

    def overwrite(self, old, v):
        """Assign a struct in place."""
        new = self.x.obj(self.copied(v))
        if new.cls != self.x.obj(old).cls:
            raise Unsupported('type of an assignment')
        self.c.write(old.oid, new)

    # ----------------------------------------------------------- intrinsics
    def n_go_val(self, v):
        return self.copied(v)

    def n_go_cell(self, v):
        if self.is_struct(v):
            return self.copied(v)
        return self.x.new(Inst('cell', {'v': v}))

    def n_go_load(self, r):
        if not isinstance(r, Ref):
            raise Unsupported('cell')
        o = self.x.obj(r)
        if o is DEAD:
            raise Unsupported('object after a cut point')
        return o.attrs['v'] if isinstance(o, Inst) and o.cls == 'cell' else r

    def n_go_store(self, r, v):
        o = self.x.obj(r)
        if o is DEAD:
            raise Unsupported('object after a cut point')
        if o.cls == 'cell':
            self.c.write(r.oid, Inst('cell', {'v': v}))
        elif self.is_struct(v):
            self.overwrite(r, v)
        else:
            raise Unsupported('assignment to a struct')

    def n_go_addr(self, r):
        if not isinstance(r, Ref) or not isinstance(self.x.obj(r), Inst):
            raise Unsupported('address')
        return Ptr(r)

    def n_go_addr_field(self, o, name):
        v = self.getattr(o, name)
        if self.is_struct(v):
            return Ptr(v)
        if isinstance(v, Sym) and v.k == 'val':
            # only read: a part of what is serialized
            return v
        raise Unsupported('address of a field')

    def n_go_addr_elem(self, o, k):
        o = self.deref(o)
        if isinstance(o, Ref) and isinstance(self.x.obj(o), Lst):
            self.in_range(o, k)
            items = self.x.obj(o).items
            for it in reversed(items):
                if isinstance(it, At):
                    if self.same_index(it.k, k):
                        if not self.is_struct(it.v):
                            raise Unsupported('address of an element')
                        return Ptr(it.v)
                    raise Unsupported('address of an element')
                if isinstance(it, Seg):
                    # other iterations assign other elements
                    if not (self.cur and isinstance(k, Sym) and
                            k.t.eq(self.cur[-1])):
                        raise Unsupported('address of an element')
                    continue
                if isinstance(it, Made):
                    v = self.zero(it.type)
                    if not self.is_struct(v):
                        raise Unsupported('address of an element')
                    self.c.write(o.oid, Lst(items + (At(k, v), )))
                    return Ptr(v)
            raise Unsupported('address of an element')
        v = self.getitem(o, k)
        if self.is_struct(v):
            return Ptr(v)
        if isinstance(v, Sym) and v.k == 'val':
            return v
        raise Unsupported('address of an element')

    def same_index(self, a, b):
        if plain(a) and plain(b):
            return a == b
        return self.c.must(self.number(a) == self.number(b))

    def n_go_deref(self, p):
        if p is None:
            panic()
        if isinstance(p, Ptr):
            o = self.content(p)
            return o.attrs['v'] if o.cls == 'cell' else p.ref
        if isinstance(p, (Sym, SymInst)):
            return self.deref_val(p)
        raise Unsupported('dereference of {!r}'.format(p))

    def deref_val(self, p):
        raise Unsupported('dereference of {!r}'.format(p))

    def n_go_storep(self, p, v):
        if p is None:
            panic()
        if not isinstance(p, Ptr):
            raise Unsupported('assignment through {!r}'.format(p))
        self.n_go_store(p.ref, v)

    def n_go_zero(self, t):
        return self.zero(t)

    def n_go_new(self, t):
        return Ptr(self.n_go_cell(self.zero(t)))

    def n_go_slice(self, t, *els):
        return self.x.new(Lst([self.copied(e) for e in els]))

    def n_go_map(self, t, *els):
        return self.x.new(Dct([(k, self.copied(v)) for k, v in els]))

    def n_go_struct(self, t, *fields):
        r = self.zero(t)
        if not self.is_struct(r):
            raise Unsupported('struct')
        o = self.x.obj(r)
        for k, v in fields:
            if k not in o.attrs:
                raise Unsupported('field {}'.format(k))
            o = o.set(k, self.copied(v))
        self.c.write(r.oid, o)
        return r

    def n_go_make(self, t, *args):
        if t[0] == 'map':
            return self.x.new(Dct())
        if t[0] != 'slice':
            raise Unsupported('make')
        n = args[0]
        if plain(n) and n == 0:
            return self.x.new(Lst())
        if isinstance(n, Sym) and n.k == 'int':
            return self.x.new(Lst((Made(n.t, t[1]), )))
        raise Unsupported('make')

    def n_go_panic(self, v=None):
        panic()

    def n_go_append(self, lst, *els):
        if lst is None:
            return self.x.new(Lst([self.copied(e) for e in els]))
        if isinstance(lst, Ref) and isinstance(self.x.obj(lst), Lst) and \
                not any(isinstance(i, (Made, At))
                        for i in self.x.obj(lst).items):
            return self.x.new(Lst(self.x.obj(lst).items + tuple(
                self.copied(e) for e in els)))
        raise Unsupported('append')

    def n_go_append_to(self, lst, *els):
        """x = append(x, ...)"""
        if not isinstance(lst, Ref) or not isinstance(self.x.obj(lst), Lst):
            raise Unsupported('append')
        o = self.x.obj(lst)
        if any(isinstance(i, (Made, At)) for i in o.items):
            raise Unsupported('append')
        self.c.write(lst.oid, Lst(o.items + tuple(
            self.copied(e) for e in els)))

    def n_go_len(self, v):
        v = self.deref(v)
        if v is None:
            return 0
        if isinstance(v, Ref):
            o = self.x.obj(v)
            if isinstance(o, Lst):
                if o.items and isinstance(o.items[0], Made):
                    # what follows are assignments of its elements
                    return Sym(o.items[0].n, 'int')
                n = 0
                for i in o.items:
                    n = n + (blen(i.t) if isinstance(i, Seg) else 1)
                return n if isinstance(n, int) else Sym(n, 'int')
            if isinstance(o, Dct) and not o.items:
                return 0
        if isinstance(v, (str, Str)) and not isinstance(v, str):
            return Sym(self.c.fresh('strlen', I), 'int')
        if isinstance(v, str):
            return len(v.encode('utf-8', 'surrogateescape'))
        if isinstance(v, Sym) and v.k == 'json':
            if self.c.decide(tag(v.t) == T_STR):
                n = fn('strlen', U, I)(v.t)
                self.c.fact(And(n >= 0, (n == 0) == (v.t == K(''))))
                return Sym(n, 'int')
        if isinstance(v, Sym) and v.k in ('json', 'val'):
            # (an int)
            self.c.fact(And(blen(v.t) >= 0, blen(v.t) < 2**63))
            return Sym(blen(v.t), 'int', ('len', v))
        raise Unsupported('len of {!r}'.format(v))

    def tag_of(self, t):
        return {('name', 'bool'): T_BOOL, ('name', 'float64'): T_REAL,
                ('name', 'string'): T_STR, JLIST: T_LIST,
                JMAP: T_DICT}.get(tuple(
                    IFACE if x == ('name', 'any') else x for x in t))

    def has_type(self, v, t):
        """Is the value of an interface of a type?"""
        if isinstance(v, Sym) and v.k == 'json':
            k = self.tag_of(t)
            if k is not None:
                return tag(v.t) == k
            if t == IFACE:
                return tag(v.t) != T_NONE
            if t[0] == 'name' and t[1] in self.pkg.types or t[0] == 'ptr' \
                    or t[0] == 'name' and t[1] in (
                        'int', 'int64', 'uint64', 'float32', 'int32'):
                return False
        raise Unsupported('type assertion')

    def n_go_assert2(self, v, t):
        r = self.has_type(v, t)
        if r if isinstance(r, bool) else self.c.decide(r):
            return (v, True)
        return (self.zero(t), False)

    def n_go_assert1(self, v, t):
        r = self.n_go_assert2(v, t)
        if not r[1]:
            panic()
        return r[0]

    def n_go_is_type(self, v, t):
        r = self.has_type(v, t)
        return r if isinstance(r, bool) else Sym(r, 'bool')

    def n_go_index2(self, o, k):
        o = self.deref(o)
        c = self.c
        if o is None:
            # a nil map
            return (None, False)
        if isinstance(o, Sym) and o.k == 'json':
            ku = self.key_u(k)
            if c.decide(has(o.t, ku)):
                return (self.dict_elem(o, ku, self.ref_part(k)), True)
            return (None, False)
        if isinstance(o, Reg):
            ku = self.key_u(k)
            if c.decide(self.reg_has(o, ku)):
                return (self.reg_get(o, ku), True)
            return (None, False)
        raise Unsupported('index of {!r}'.format(o))

    def ref_part(self, k):
        if isinstance(k, (str, Str)):
            return k
        return Str((('j', self.key_u(k)), ))

    def in_range(self, o, k):
        n = self.n_go_len(o)
        i, n = self.number(k), self.number(n)
        if not self.c.decide(And(i >= 0, i < n)):
            panic()

    def getitem(self, o, k):
        o = self.deref(o)
        c = self.c
        if isinstance(o, Sym) and o.k == 'json':
            if c.decide(tag(o.t) == T_LIST):
                i = self.number(k)
                if not c.decide(And(i >= 0, i < blen(o.t))):
                    panic()
                return self.list_elem(o, i)
            if c.decide(tag(o.t) == T_DICT):
                return self.n_go_index2(o, k)[0]
            raise Unsupported('index')
        if isinstance(o, Reg):
            return self.n_go_index2(o, k)[0]
        if o is None:
            if isinstance(k, (str, Str)) or isinstance(k, Sym) and \
                    k.k == 'json':
                return None
            panic()
        if isinstance(o, Ref) and isinstance(self.x.obj(o), Lst):
            self.in_range(o, k)
            items = self.x.obj(o).items
            for it in reversed(items):
                if isinstance(it, At) and self.same_index(it.k, k):
                    return it.v
                break
            if plain(k) and not any(isinstance(i, (At, Made, Seg))
                                    for i in items):
                return items[k]
        raise Unsupported('index of {!r}'.format(o))

    def setitem(self, o, k, v):
        o = self.deref(o)
        if o is None:
            panic()
        if isinstance(o, Ref):
            h = self.x.obj(o)
            if isinstance(h, Dct):
                self.c.write(o.oid, Dct(h.items + ((k, self.copied(v)), )))
                return
            if isinstance(h, Lst):
                self.in_range(o, k)
                last = h.items[-1] if h.items else None
                if isinstance(last, At) and self.same_index(last.k, k) and \
                        self.is_struct(last.v) and self.is_struct(v):
                    self.overwrite(last.v, v)
                    return
                self.c.write(o.oid, Lst(h.items + (
                    At(k, self.copied(v)), )))
                return
        raise Unsupported('item assignment to {!r}'.format(o))

    def n_go_range1(self, v):
        v = self.deref(v)
        if v is None:
            return ()
        if isinstance(v, int):
            return tuple(range(v))
        if isinstance(v, Sym) and v.k == 'int':
            return self.n_go_count(v)
        if isinstance(v, Sym) and v.k == 'json':
            if self.c.decide(tag(v.t) == T_LIST):
                return View(v, 'range')
            return View(v, 'keys')
        if isinstance(v, Ref):
            o = self.x.obj(v)
            if isinstance(o, Lst) and not any(isinstance(
                    i, (Seg, Made, At)) for i in o.items):
                return tuple(range(len(o.items)))
            if isinstance(o, Dct):
                return View(v, 'keys')
        return self.range_val(v, 1)

    def n_go_range2(self, v):
        v = self.deref(v)
        if v is None:
            return ()
        if isinstance(v, Sym) and v.k == 'json':
            if self.c.decide(tag(v.t) == T_LIST):
                return View(v, 'enum')
            return View(v, 'items')
        if isinstance(v, Ref):
            o = self.x.obj(v)
            if isinstance(o, Lst) and not any(isinstance(
                    i, (Seg, Made, At)) for i in o.items):
                return tuple(enumerate(o.items))
            if isinstance(o, Dct):
                return View(v, 'items')
        return self.range_val(v, 2)

    def range_val(self, v, n):
        raise Unsupported('range over {!r}'.format(v))

    def n_go_count(self, n):
        if isinstance(n, Sym) and isinstance(n.node, tuple) and \
                n.node[0] == 'len':
            return View(n.node[1], 'range')
        if plain(n):
            return tuple(range(n))
        for i in range(40):
            if self.c.decide(n.t <= i):
                return tuple(range(i))
        raise Unsupported('loop')

    def n_go_conv(self, t, v):
        if t[0] != 'name':
            if v is None or isinstance(v, (Ref, Ptr)):
                return v
            raise Unsupported('conversion')
        n = t[1]
        if n in ('int64', 'int', 'uint64', 'time.Duration'):
            if plain(v):
                if isinstance(v, fractions.Fraction):
                    if v.denominator != 1:
                        raise Unsupported('conversion')
                    return int(v)
                return v
            x = self.number(v)
            if isinstance(v, Sym) and v.k == 'int':
                return v
            lo, hi = (0, 2**64) if n == 'uint64' else (-2**63, 2**63)
            if self.c.must(And(is_int(x), x >= lo, x < hi)):
                if isinstance(v, Sym) and v.k == 'json':
                    return Sym(v.t, 'val', 'int')
                return self.whole(x)
            if isinstance(v, Sym) and v.k == 'json':
                # what results is not specified by the language
                return Sym(self.c.fresh('converted', U), 'val', 'int')
            return self.truncated(x, lo, hi)
        if n == 'float64':
            if isinstance(v, Sym) and v.k == 'val' and v.node == 'int':
                return Sym(num(v.t), 'num')
            if isinstance(v, int):
                return fractions.Fraction(v)
            if isinstance(v, Sym) and v.k == 'int':
                return Sym(z3.ToReal(v.t), 'num')
            return v
        if n in ('error', 'any'):
            return v
        if n == 'string' and isinstance(v, (str, Str)):
            return v
        if n == 'bool':
            return v
        raise Unsupported('conversion to {}'.format(n))

    def whole(self, x):
        return Sym(z3.ToInt(x), 'int')

    def truncated(self, x, lo, hi):
        raise Unsupported('conversion')

    # ------------------------------------------------------------ operations
    def is_none(self, v):
        if isinstance(v, (Ptr, GoErr, SymInst, Str, Errs)):
            return False
        if isinstance(v, Reg):
            raise Unsupported('registry == nil')
        if isinstance(v, Ref):
            return False
        return Theory.is_none(self, v)

    def eq(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.ref == b.ref
        if isinstance(a, fractions.Fraction) or \
                isinstance(b, fractions.Fraction):
            return self.number(a) == self.number(b)
        return Theory.eq(self, a, b)

    def number(self, v):
        if isinstance(v, fractions.Fraction):
            return real(v)
        if isinstance(v, Sym) and v.k == 'json':
            # its type is asserted before
            return num(v.t)
        if isinstance(v, Sym) and v.k == 'val' and v.node == 'int':
            return num(v.t)
        return Theory.number(self, v)

    def truth(self, v):
        if isinstance(v, Sym) and v.k == 'json':
            return fn('b', U, B)(v.t)
        return Theory.truth(self, v)

    def binop(self, op, a, b):
        if plain(a) and plain(b) and not isinstance(a, str):
            if isinstance(op, ast.Div):
                if b == 0:
                    panic()
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b)
                    return q if (a < 0) == (b < 0) else -q
                return fractions.Fraction(a) / b
            if isinstance(op, ast.Mod):
                return abs(a) % abs(b) * (1 if a >= 0 else -1)
            r = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
                 ast.Mult: lambda: a * b}.get(type(op))
            if r is None:
                raise Unsupported('operator')
            return r()
        if isinstance(op, ast.Mod):
            raise Unsupported('operator')
        return Theory.binop(self, op, a, b)

    def percent(self, s, args):
        raise Unsupported('operator')

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name):
        if v is None:
            panic()
        if isinstance(v, Ptr):
            o = self.content(v)
            v = v.ref
            if isinstance(o, Inst) and o.cls == 'cell':
                raise Unsupported('field of a cell')
        if isinstance(v, Ref) and isinstance(self.x.obj(v), Inst):
            o = self.x.obj(v)
            if name in o.attrs:
                return o.attrs[name]
            if '{}.{}'.format(o.cls, name) in self.pkg.methods:
                return Method(Ptr(v), name)
            raise Unsupported('field {}'.format(name))
        if isinstance(v, SymInst) and name == 'ID':
            return Sym(fn('idof', U, U)(v.t), 'val')
        return Theory.getattr(self, v, name)

    def setattr(self, o, name, v):
        if o is None:
            panic()
        if isinstance(o, Ptr):
            o = o.ref
        if isinstance(o, Ref) and isinstance(self.x.obj(o), Inst):
            old = self.x.obj(o).attrs.get(name, DEAD)
            if self.is_struct(v) and self.is_struct(old):
                self.overwrite(old, v)
                return
            if name not in self.x.obj(o).attrs:
                raise Unsupported('field {}'.format(name))
            v = self.copied(v)
        if isinstance(o, SymInst):
            raise Unsupported('assignment to a registered instance')
        Theory.setattr(self, o, name, v)

    # --------------------------------------------------------------- methods
    def method(self, o, name, args, kwargs):
        if isinstance(o, Errs):
            m = {'Add': 'add', 'Full': 'full', 'Empty': 'empty'}.get(name)
            if m is None:
                raise Unsupported('method {}'.format(name))
            return self.errors(m, args, kwargs)
        if isinstance(o, Regex):
            if name == 'MatchString':
                return Sym(self.match(o.pattern, self.to_u(
                    self.as_text(args[0]))), 'bool')
            return self.regex_method(o, name, args)
        if isinstance(o, GoErr) and name == 'Error' and not args:
            return self.opaque_text()
        if isinstance(o, Ptr):
            key = '{}.{}'.format(self.content(o).cls, name)
            d = self.pkg.names.get(key)
            if key in self.pkg.methods and d is not None:
                return self.x.inline(Code(d, self.pkg), [o] + list(args), {})
        if o is None:
            panic()
        return self.other_method(o, name, args)

    def regex_method(self, o, name, args):
        raise Unsupported('method {}'.format(name))

    def other_method(self, o, name, args):
        raise Unsupported('method {} of {!r}'.format(name, o))

    # --------------------------------------------------------------- natives
    def n_fmt_Sprintf(self, f, *args):
        if isinstance(f, str):
            out = []
            rest = list(args)
            i = 0
            while i < len(f):
                j = f.find('%', i)
                if j < 0:
                    out.append(f[i:])
                    break
                out.append(f[i:j])
                verb = f[j + 1:j + 2]
                i = j + 2
                if f[j + 1:j + 4] == '09d' and rest:
                    i = j + 4
                    v = rest.pop(0)
                    if not isinstance(v, Sym) or v.k != 'int' or \
                            not self.c.must(And(v.t >= 0, v.t < 10**9)):
                        return self.opaque_text()
                    out.append(Str((('nine', v.t), )))
                    continue
                if verb == '%':
                    out.append('%')
                    continue
                if not rest:
                    return self.opaque_text()
                v = rest.pop(0)
                if verb in ('s', 'v') and isinstance(v, (str, Str)):
                    out.append(v)
                elif verb in ('s', 'v') and isinstance(v, Sym) and \
                        v.k == 'json' and self.c.must(tag(v.t) == T_STR):
                    out.append(Str((('j', v.t), )))
                elif verb in ('d', 'v') and (
                        isinstance(v, int) and not isinstance(v, bool) or
                        isinstance(v, Sym) and v.k == 'int'):
                    out.append(self.text(v))
                else:
                    return self.opaque_text()
            return self.opaque_text() if rest else rope(*out)
        return self.opaque_text()

    def n_fmt_Errorf(self, f, *args):
        return GOERR

    n_errors_New = n_fmt_Errorf

    def n_strings_Join(self, lst, sep):
        els = self.elements(lst)
        if els is None or not isinstance(sep, str):
            return self.opaque_text()
        out = []
        for i, e in enumerate(els):
            if i:
                out.append(sep)
            out.append(self.as_text(e))
        return rope(*out)

    def as_text(self, v):
        if isinstance(v, Sym) and v.k == 'json' and self.c.must(
                tag(v.t) == T_STR):
            return Str((('j', v.t), ))
        if isinstance(v, Sym) and v.k == 'val' and v.node in ('string',
                                                              'path'):
            return Str((('j', v.t), ))
        return Theory.as_text(self, v)

    def n_strconv_Itoa(self, v):
        return self.text(v)

    def n_strconv_FormatInt(self, v, base):
        if base != 10 or not (plain(v) or isinstance(v, Sym) and
                              v.k == 'int'):
            raise Unsupported('FormatInt')
        return self.text(v)

    def n_math_Trunc(self, v):
        x = self.number(v)
        if x.sort() == I:
            return v
        r = self.c.fresh('trunc', R)
        self.c.fact((r == x) == z3.IsInt(x))
        return Sym(r, 'num')

    n_math_Floor = n_math_Ceil = n_math_Round = n_math_Trunc

    def n_math_Mod(self, v, w):
        if w != 1:
            raise Unsupported('Mod')
        x = self.number(v)
        r = self.c.fresh('mod', R)
        self.c.fact((r == 0) == z3.IsInt(x))
        return Sym(r, 'num')

    def n_math_IsNaN(self, v):
        return False

    def n_math_IsInf(self, v, sign):
        return False

    def n_regexp_MustCompile(self, p):
        if not isinstance(p, str):
            raise Unsupported('pattern')
        return Regex(p)

    def n_regexp_MatchString(self, p, s):
        if not isinstance(p, str):
            raise Unsupported('pattern')
        return (Sym(self.match(p, self.to_u(self.as_text(s))), 'bool'), None)

    def n_time_Parse(self, layout, s):
        if not isinstance(layout, str):
            raise Unsupported('layout')
        u = self.to_u(self.as_text(s))
        if not self.c.decide(fn('is ' + layout, U, B)(u)):
            return (Sym(const('zero time'), 'val'), GOERR)
        return (Sym(fn('time ' + layout, U, U)(u), 'val'), None)

    def n_time_LoadLocation(self, s):
        u = self.to_u(self.as_text(s))
        if not self.c.decide(fn('is_zone', U, B)(u)):
            return (None, GOERR)
        return (Sym(fn('zone', U, U)(u), 'val'), None)

    # --------------------------------------------------------------- schema
    def define(self, node, t):
        k, s = node.kind, node.t
        d = [den(node, t) == t]
        if k == 'integer':
            x = num(t)
            return (and_(tag(t) == T_REAL, z3.IsInt(x), x >= -2**63,
                         x < 2**63, *self.bounds(s, x)), True, d)
        if k == 'float':
            return (and_(tag(t) == T_REAL, *self.bounds(s, num(t))), True, d)
        if k == 'path':
            good = [tag(t) == T_STR]
            if 'pattern' in s:
                good.append(self.match(s['pattern'], t))
            return and_(*good), True, d
        if k in ('date', 'time', 'datetime'):
            f = self.layout(s)
            return (And(tag(t) == T_STR, fn('is ' + f, U, B)(t)), True,
                    [den(node, t) == fn('time ' + f, U, U)(t)])
        if k == 'time_zone':
            return (And(tag(t) == T_STR, fn('is_zone', U, B)(t)), True,
                    [den(node, t) == fn('zone', U, U)(t)])
        return Theory.define(self, node, t)

    def layout(self, s):
        import contracts.strftime as st
        return st.go_convert(s.get('format', DEFAULT_FORMAT[s['type']]))

    def is_absent(self, t, k, child):
        return Not(has(t, k))

    def registry_facts(self, n, t, kr, rv):
        pass

    # ----------------------------------------------------------------- loops
    def source(self, it):
        if isinstance(it, View) and it.what == 'enum':
            return ('enum-list', it.v)
        return Theory.source(self, it)

    def element(self, src, idx):
        self.cur.append(idx)
        return Theory.element(self, src, idx)

    def acc_base(self, old, src):
        items = old.items
        if len(items) == 1 and isinstance(items[0], Made) and self.c.must(
                items[0].n == blen(src[1].t)):
            return ()
        return items

    def delta(self, src, idx, items, erred):
        if self.c.must(erred):
            return {'den', 'registry'}
        if items and all(isinstance(i, At) for i in items):
            if not all(isinstance(i.k, Sym) and i.k.t.eq(idx)
                       for i in items):
                return set()
            items = (items[-1].v, )
        elif any(isinstance(i, (At, Made)) for i in items):
            return set()
        return Theory.delta(self, src, idx, items, erred)

    def is_placeholder(self, v, cls, k):
        if not isinstance(v, Ptr):
            return False
        o = self.content(v)
        return isinstance(o, Inst) and o.cls == self.name_of('class', cls) \
            and self.optional_none(o, self.sp.classes[cls])

    def optional_none(self, o, comp):
        """Is it as if just created, for what parsing does not assign?"""
        for n, p in self.sp.props(comp):
            v = o.attrs.get(self.attr_name(n), DEAD)
            if p.get('optional', False):
                if v is not None:
                    return False
            elif p['type'] in self.sp.embeds:
                if not self.is_struct(v) or not self.optional_none(
                        self.x.obj(v), self.sp.embeds[p['type']]):
                    return False
            elif v is DEAD:
                return False
        return True

    # ------------------------------------------------------------- contracts
    def roles(self, node):
        """The parameters of a parsing function by what they are."""
        out = {}
        strings = []
        for n in node.order:
            t = node.param_types[n]
            p = node.param_names[n]
            if t in (IFACE, ('name', 'any')):
                out['value'] = p
            elif t == ('name', 'string'):
                strings.append(p)
            elif t == ('ptr', ('name', 'Errors')):
                out['errors'] = p
            elif t[0] == 'ptr':
                out['target'] = p
            elif t[0] == 'map':
                for c in self.sp.classes:
                    if t == ('map', ('name', 'string'), ('ptr', (
                            'name', self.name_of('class', c)))):
                        out['registry ' + c] = p
            else:
                raise Unsupported('parameter {}'.format(n))
        if len(strings) == 2:
            out['id'], out['ref'] = strings
        elif len(strings) == 1:
            out['ref'] = strings[0]
        if len(out) != len(node.order):
            raise Unsupported('parameters')
        return out

    def contract(self, mod, name):
        d = self.pkg.names.get(name)
        for kind, names in (('class', self.sp.classes),
                            ('embed', self.sp.embeds)):
            for n in names:
                if name == '{}FromJSONable'.format(self.var(n)):
                    roles = self.roles(d)
                    return lambda a, k=kind, n=n: self.parse_contract(
                        k, n, {r: a[p] for r, p in roles.items()})
        if name == 'durationFromString':
            return self.duration_contract
        return None

    def duration_contract(self, args):
        (text, ) = args.values()
        u = self.to_u(self.as_text(text))
        if not self.c.decide(fn('is_duration', U, B)(u)):
            return (Sym(self.c.fresh('duration', U), 'val'), GOERR)
        return (Sym(fn('duration', U, U)(u), 'val'), None)

    def parse_contract(self, kind, name, a):
        c = self.c
        x = self.x
        sp = self.sp
        node = (sp.instance if kind == 'class' else sp.embed)[name]
        v, target = a['value'], a['target']
        n0 = c.store['n']
        what = 'call of {}FromJSONable: '.format(self.var(name))
        # a panic after an error is a known finding
        if c.decide(boolean(n0 > 0)) and c.decide(c.fresh('panics', B)):
            raise PyRaise(AllowedPanic)
        x.obligation(what + 'errors', isinstance(a.get('errors'), Errs))
        if not isinstance(v, Sym) or v.k != 'json':
            raise Unsupported('value of a call')
        for n in sp.classes:
            if 'registry ' + n in a:
                r = self.deref(a['registry ' + n])
                x.obligation(what + 'registry of ' + n,
                             self.reg_u(r) == reg(n))
        if v.node is not None and v.ref is not None:
            same = self.same_text(v.ref, a['ref']) if isinstance(
                a['ref'], (str, Str)) else False
            x.obligation(what + 'reference', same)
        okv = ok(node, v.t)
        x.obligation(what + 'the part conforms if the value does',
                     Or(okv, Not(self.root_ok)))
        n1 = c.fresh('n_call', I)
        c.fact(And(n1 >= n0, n1 <= c.store['cap']))
        c.fact(Implies(n1 > n0, Not(okv)))
        c.fact(Or(n1 > 0, okv))
        c.write('n', n1)
        if isinstance(target, SymInst) and kind == 'class':
            x.obligation(what + 'class of the target', target.cls == name)
            x.obligation(what + 'identifier', self.to_u(a['id']) ==
                         fn('idof', U, U)(target.t))
            c.events += ((name, target.t, v.t), )
            return None
        if isinstance(target, Ptr) and isinstance(self.content(target),
                                                  Inst):
            comp = sp.comp(kind, name)
            o = self.content(target)
            x.obligation(what + 'the target is a placeholder',
                         o.cls == self.name_of(kind, name) and
                         self.optional_none(o, comp))
            if kind == 'class':
                raise Unsupported('an instance apart from the registry')
            attrs = dict(o.attrs)
            for n, _ in sp.props(comp):
                attrs[self.attr_name(n)] = Sym(
                    c.fresh('parsed_' + n, U), 'val', node='any')
            e = c.fresh('parsed', U)
            c.fact(Or(n1 > 0, e == den(node, v.t)))
            c.write(target.ref.oid, Inst(o.cls, attrs, e))
            return None
        x.obligation(what + 'target', z3.BoolVal(False))
        raise Unsupported('target of a call')


# --------------------------------------------------------------- verification
FIXED = {}
GRAMMAR = None


class GoParseCheck(gvpy.ParseCheck):
    """Verifies the parsing functions of a generated Go package."""

    theory = GoTheory

    def __init__(self, m, files, limit=60, pkg=None):
        from pv import gosrc
        self.m = m
        self.sp = gvpy.Spec(m)
        self.limit = limit
        self.base = ' pkg'
        self.pkg = pkg or gosrc.Package(self.base, {
            k: v for k, v in files.items() if not k.endswith('_test.go')})
        self.modules = {self.base: self.pkg}

    def executor(self, th=None):
        th = th or self.theory(self.sp, self.m.get('go', {}), self.pkg)
        return gvpy.ParseCheck.executor(self, th)

    def functions(self):
        for kind, names in (('class', self.sp.classes),
                            ('embed', self.sp.embeds)):
            for n in names:
                yield 'inner', kind, n
        yield 'inner', 'graph', None
        yield 'errors', None, 'Errors'
        if 'durationFromString' in self.pkg.names:
            yield 'duration', None, 'durationFromString'

    def title(self, th, what, kind, name):
        return '{}FromJSONable'.format(th.var(name or self.m['name']))

    def source(self, name):
        if name == 'Errors':
            names = ['NewErrors'] + sorted(
                k for k in self.pkg.methods if k.startswith('Errors.'))
            return tuple(unparse(self.pkg.names.get(n)) for n in names) + (
                self.pkg.types.get('Errors'), self.pkg.types.get('Error'))
        return closure(self.pkg.names, (
            'durationFromString', 'addDuration', 'durationRe'))

    def find(self, fname):
        d = self.pkg.names.get(fname)
        if not isinstance(d, ast.FunctionDef):
            raise Unsupported('no function {}'.format(fname))
        return Code(d, self.pkg)

    def old_value(self, x, th, t, p):
        """The value of a field before parsing."""
        if p is not None and p.get('optional', False):
            return None
        v = th.zero(t)
        if th.is_struct(v):
            return v
        return Sym(x.c.fresh('old', U), 'val', node='any')

    def verify_inner(self, x, th, kind, name, fname):
        c = x.c
        code = self.find(fname)
        ref = Str((('p', const('ref')), ))
        n0 = z3.Int('n0')
        c.fact(And(n0 >= 0, n0 <= c.store['cap']))
        c.store['n'] = n0
        value = th.unfold(kind, name, ref)
        cls = th.name_of(kind, name or self.m['name'])
        d = self.pkg.types.get(cls)
        if d is None or d[0] != 'struct':
            raise Unsupported('no struct {}'.format(cls))
        byname = {th.attr_name(n): p for n, p in self.sp.props(th.comp)}
        regs = {th.reg_attr(n) for n in self.sp.classes} \
            if kind == 'graph' else set()
        attrs = {}
        for f, t in d[1]:
            attrs[f] = None if f in regs else self.old_value(
                x, th, t, byname.get(f))
        # nested optional properties are unset
        target = x.new(Inst(cls, attrs))
        ident = Sym(const('id'), 'json')
        c.fact(tag(ident.t) == T_STR)
        given = dict(value=value, ref=ref, target=Ptr(target), errors=Errs(),
                     id=ident)
        for n in self.sp.classes:
            given['registry ' + n] = Reg(n)
        roles = th.roles(code.node)
        fr = x.enter(code, {p: given[r] for r, p in roles.items()})

        def on_exit(how, r):
            if how == 'raise':
                if r.cls is AllowedPanic:
                    return
                # a panic if there are errors before is a known finding
                x.obligation('no panic ({})'.format(r.cls.__name__), n0 > 0)
                return
            for k, f in self.property_facts(x, th, target).items():
                x.obligation(k, f)
            if kind == 'class':
                x.obligation('the identifier is set', Or(
                    x.n() > 0, self.attr_is(x, th, target, 'ID', ident.t)))

        x.cut_body(code.node.body, fr, on_exit,
                   lambda: self.go_candidates(x, th, target, kind, ident),
                   [target], after=exits_of(code))

    def attr_is(self, x, th, target, name, t):
        try:
            return th.to_u(x.obj(target).attrs[name]) == t
        except (Unsupported, KeyError):
            return z3.BoolVal(False)

    def go_candidates(self, x, th, target, kind, ident):
        out = self.candidates(x, th, target)
        if kind == 'class':
            out['identifier'] = Or(x.n() > 0, self.attr_is(
                x, th, target, 'ID', ident.t))
        return out

    def verify_errors(self, x, th, kind, name, fname):
        """The container of errors is its number of errors and its cap."""
        c = x.c
        cap = z3.Int('capacity')
        c.fact(cap >= 0)
        c.store['n'] = z3.IntVal(0)

        def call(name, *args):
            return x.inline(self.find(name), list(args), {})

        def state(o, items):
            a = x.obj(o).attrs
            x.obligation('the cap is kept', isinstance(
                a.get('cap'), Sym) and a['cap'].t.eq(cap))
            v = a.get('values')
            x.obligation('the errors in order', isinstance(v, Ref) and
                         isinstance(x.obj(v), Lst) and
                         len(x.obj(v).items) == len(items) and
                         all(i is j for i, j in zip(x.obj(v).items, items)))

        def created():
            r = call('NewErrors', Sym(cap, 'int'))
            good = isinstance(r, Ptr) and x.obj(r.ref).cls == 'Errors'
            x.obligation('a container', good)
            if good:
                state(r.ref, [])

        def some():
            s = Seg(c.fresh('errors', U))
            c.fact(And(blen(s.t) >= 0, Or(cap == 0, blen(s.t) <= cap)))
            o = x.new(Inst('Errors', {'cap': Sym(cap, 'int'),
                                      'values': x.new(Lst([s]))}))
            return o, s, blen(s.t)

        def added():
            o, s, n = some()
            ref, message = Sym(const('ref'), 'json'), Sym(const('m'), 'json')
            call('Errors.Add', Ptr(o), ref, message)
            a = x.obj(o).attrs
            items = x.obj(a['values']).items
            if len(items) == 1:
                x.obligation('an error is ignored only if full',
                             And(cap != 0, n == cap))
                state(o, [s])
                return
            x.obligation('an error is added only if not full',
                         Or(cap == 0, n < cap))
            state(o, [s, items[-1]])
            e = items[-1]
            good = isinstance(e, Ref) and isinstance(x.obj(e), Inst)
            attrs = x.obj(e).attrs if good else {}
            x.obligation('the reference of the error',
                         attrs.get('Ref') is ref)
            x.obligation('the message of the error',
                         attrs.get('Message') is message)

        def asked():
            o, s, n = some()
            x.obligation('full', boolean(th.truth(call(
                'Errors.Full', Ptr(o)))) == And(cap != 0, n == cap))
            x.obligation('empty', boolean(th.truth(call(
                'Errors.Empty', Ptr(o)))) == (n == 0))
            v = call('Errors.Values', Ptr(o))
            x.obligation('the values', isinstance(v, Ref) and
                         x.obj(v).items == (s, ))
            state(o, [s])

        for f in (created, added, asked):
            def run():
                try:
                    f()
                except PyRaise as e:
                    x.obligation('no panic ({})'.format(e.cls.__name__),
                                 z3.BoolVal(False))
            c.explore(run, label=f.__name__)

    def verify_duration(self, x, th, kind, name, fname):
        from pv import gvgodur
        gvgodur.verify_parse(self, x, th, fname)


def exits_of(code):
    """Named results and deferred statements."""
    return list(code.node.go_results or ()) + list(code.node.go_defers)


def unparse(n):
    return ast.unparse(n) if isinstance(n, ast.AST) else repr(n)


def closure(names, roots):
    """The text of declarations and of all that they refer to."""
    import re
    out, todo = {}, list(roots)
    while todo:
        n = todo.pop()
        short = re.sub(r' 0x[0-9a-f]+', '', n)
        d = names.get(n)
        if short in out or d is None:
            continue
        out[short] = re.sub(r' 0x[0-9a-f]+', '', unparse(d))
        if isinstance(d, ast.AST):
            todo.extend(x.id for x in ast.walk(d)
                        if isinstance(x, ast.Name))
            todo.extend(x.attr for x in ast.walk(d)
                        if isinstance(x, ast.Attribute))
    return tuple(sorted(out.items()))
