"""The meaning of generated C++ code for the executor of pv/gv.py.

Values of Jsoncpp are JSON values: numbers have the tag T_REAL (isInt64 asks
whether the value is integral and in range), asserting members throw, which
is an obligation that never happens.  Optionals are a value or nothing;
vectors and maps are objects that are changed in place; the registries are
maps of pointers to instances.
"""
import ast
import re

import z3
from z3 import And, Implies, Not, Or

from pv import gvpy
from pv.engine import PyRaise, Unsupported
from pv.gv import (DEAD, I, R, T_BOOL, T_DICT, T_LIST, T_NONE, T_REAL, T_STR,
                   U, B, Code, Dct, Errs, Inst, K, Lst, Method, Ptr, Ref, Seg,
                   Str, Sym, SymInst, View, and_, blen, boolean, const, fn,
                   has, num, plain, rope, tag)
from pv.gvgo import At, GoParseCheck, GoTheory, Made, panic, unparse
from pv.gvpy import Reg, Regex, Theory, den, inst, ok, reg

RANGES = {'int64': (-2**63, 2**63), 'int32': (-2**31, 2**31),
          'uint64': (0, 2**64), 'uint32': (0, 2**32), 'char': (0, 256),
          'bool': (0, 2)}
SCALARS = ('ns', 'tm', 'path', 'date', 'datetime', 'time')
# equal for parsing
SAME_CTIME = {'%e': '%d', '%l': '%I', '%h': '%b', '%B': '%b', '%a': '%A'}
SAME_DATE = {'%h': '%b', '%B': '%b', '%a': '%A'}
LONG = 2 ** 40


class Pos:
    """What strptime returns: a pointer to a character."""

    def __init__(self, char):
        self.char = char


class CppTheory(GoTheory):
    """Operations on the values of the executor (C++)."""

    def __init__(self, spec, settings, pkg):
        GoTheory.__init__(self, spec, settings, pkg)
        self.held = {}
        self.ctime = settings['datetime_library'] == 'ctime'

    # ---------------------------------------------------------------- names
    def name_of(self, kind, name):
        import contracts.naming as nm
        return nm.cpp_as_composite(name)

    def attr_name(self, n):
        import contracts.naming as nm
        return nm.cpp_as_field(n)

    def reg_attr(self, cls):
        import contracts.naming as nm
        return nm.cpp_as_field(self.sp.plural[cls])

    def var(self, name):
        import contracts.naming as nm
        return nm.cpp_as_variable(name)

    # ---------------------------------------------------------------- types
    def zero(self, t):
        k = t[0]
        if k == 'slice':
            r = self.x.new(Lst())
            self.held[r.oid] = t[1]
            return r
        if k == 'map':
            r = self.x.new(Dct())
            self.held[r.oid] = t[2]
            return r
        if k in ('opt', 'ptr'):
            return None
        if k == 'name':
            n = t[1].split('::')[-1] if t[1].split('::')[-1] in \
                self.pkg.types else t[1]
            d = self.pkg.types.get(n)
            if d is not None:
                return self.x.new(Inst(n, {f: self.zero(ft)
                                           for f, ft in d[1]}))
            if n == 'string':
                return ''
            if n == 'bool':
                return False
            if n in RANGES or n == 'float64':
                return 0
            if n != 'Json':
                return Sym(const('zero ' + n), 'val')
        raise Unsupported('zero of {}'.format(t))

    def is_object(self, v):
        return isinstance(v, Ref) and isinstance(self.x.obj(v),
                                                 (Inst, Lst, Dct))

    def copied(self, v):
        if isinstance(v, Ref) and isinstance(self.x.obj(v), (Lst, Dct)):
            # only what was just made
            return v
        return GoTheory.copied(self, v)

    # ---------------------------------------------------------- intrinsics
    def n_go_cell(self, v):
        return self.x.new(Inst('cell', {'v': v}))

    def n_go_load(self, r):
        v = GoTheory.n_go_load(self, r)
        if v is DEAD:
            raise Unsupported('uninitialised')
        return v

    def n_go_new(self, t):
        return Ptr(self.zero(t))

    def n_cpp_uninitialised(self, t):
        return DEAD

    def n_cpp_moved(self):
        return DEAD

    def n_cpp_copy(self, v):
        v = self.resolved_ref(v)
        if isinstance(v, Ref) and isinstance(self.x.obj(v), (Lst, Dct)):
            raise Unsupported('copy of a container')
        return self.copied(v)

    def resolved_ref(self, v):
        return v

    def n_cpp_constant(self, n):
        return Sym(const('constant ' + n), 'val')

    def n_cpp_construct(self, t, *args):
        if t == ('name', 'string'):
            if not args:
                return ''
            if len(args) == 1 and isinstance(args[0], (str, Str, Sym)):
                return self.as_text(args[0])
            raise Unsupported('construction of a text')
        if t[0] == 'opt':
            if not args:
                return None
            if len(args) == 1:
                return args[0]
        if t[0] == 'name':
            n = t[1]
            if 'stringstream' in n and len(args) <= 1:
                return self.x.new(Inst('stream', {
                    'text': self.as_text(args[0]) if args else '',
                    'failed': False, 'used': False}))
            if 'basic_regex' in n or n == 'regex':
                if len(args) == 1 and isinstance(args[0], str):
                    return Regex(args[0])
                raise Unsupported('regular expression')
            if n == 'path' and len(args) == 1:
                return Sym(fn('path', U, U)(self.to_u(
                    self.as_text(args[0]))), 'val')
            if n.startswith('std::chrono::duration') and not args:
                return self.x.new(Inst('cell', {
                    'v': Sym(const('zero duration'), 'val')}))
        if not args:
            return self.zero(t)
        if len(args) == 1 and t == ('name', 'ns') and isinstance(
                args[0], Sym):
            return args[0]
        raise Unsupported('construction of {}'.format(t))

    def n_cpp_float(self, text):
        import fractions
        return fractions.Fraction(float(text))

    def n_cpp_struct(self, t, *fields):
        return self.n_go_struct(t, *fields)

    def n_cpp_assign(self, place, v):
        if isinstance(place, Ptr):
            place = place.ref
        if not isinstance(place, Ref):
            raise Unsupported('assignment')
        o = self.x.obj(place)
        if isinstance(o, Inst) and o.cls == 'cell':
            self.c.write(place.oid, Inst('cell', {'v': v}))
        elif self.is_struct(v):
            self.overwrite(place, v)
        else:
            raise Unsupported('assignment')

    def n_cpp_storep(self, p, v):
        self.n_go_storep(p, v)

    def n_cpp_deref(self, v):
        if v is None:
            panic()
        if isinstance(v, tuple):
            return v[1]
        if isinstance(v, Pos):
            return v.char
        if isinstance(v, Ptr):
            return self.n_go_deref(v)
        if isinstance(v, (SymInst, Ref)):
            return v
        raise Unsupported('dereference of {!r}'.format(v))

    def n_cpp_addr(self, v):
        if isinstance(v, Ref) and isinstance(self.x.obj(v), Inst):
            return Ptr(v)
        if isinstance(v, SymInst):
            return v
        raise Unsupported('address')

    def n_cpp_engaged(self, v):
        return v

    def n_cpp_engaged_bool(self, v):
        return not self.is_none(v)

    def n_cpp_range(self, v):
        if isinstance(v, Sym) and v.k == 'json':
            if self.c.must(tag(v.t) == T_LIST):
                return v
            raise Unsupported('iteration')
        return self.n_go_range1(v)

    def n_cpp_members(self, v):
        if isinstance(v, Sym) and v.k == 'json':
            if self.c.decide(tag(v.t) == T_DICT):
                return View(v, 'items')
            if self.c.decide(tag(v.t) == T_NONE):
                return ()
        raise Unsupported('members of {!r}'.format(v))

    def n_cpp_count(self, n):
        return self.n_go_count(n)

    def n_cpp_concat(self, a, b, n=None):
        if n is not None:
            m = self.length(b)
            if not (plain(m) and plain(n) and m == n):
                raise Unsupported('part of a text')
        return rope(self.as_text(a), self.as_text(b))

    def length(self, text):
        """The number of bytes of a text."""
        text = self.as_text(text)
        total = 0
        for p in text.parts if isinstance(text, Str) else (text, ):
            total = total + self.part_length(p)
        return total

    def part_length(self, p):
        if isinstance(p, str):
            return len(p.encode('utf-8', 'surrogateescape'))
        n = fn('strlen', U, I)(self.part_u(p))
        # (an assumption: texts are no longer)
        self.c.fact(And(n >= 0, n < LONG))
        return n

    def n_cpp_resized(self, text, n):
        """The beginning of a text."""
        text = self.as_text(text)
        parts = text.parts if isinstance(text, Str) else (text, )
        want = self.number(n)
        total = z3.IntVal(0)
        for i in range(len(parts) + 1):
            if self.c.must(total == want):
                return rope(*[p if isinstance(p, str) else Str((p, ))
                              for p in parts[:i]])
            if i < len(parts):
                total = total + self.part_length(parts[i])
        raise Unsupported('part of a text')

    def n_cpp_text_from(self, s, i):
        raise Unsupported('part of a text')

    def n_cpp_fits(self, t, e):
        lo, hi = RANGES[t]
        x = self.number(e)
        self.x.obligation('no overflow', And(x >= lo, x < hi))
        return e

    def n_cpp_cast(self, src, dst, v):
        s, d = src[1], dst[1]
        if isinstance(v, str) and len(v) == 1:
            v = ord(v)
        if s == 'Json::ValueType':
            return v
        if s in RANGES and d in RANGES:
            lo, hi = RANGES[d]
            x = self.number(v)
            self.x.obligation('a conversion keeps the value',
                              And(x >= lo, x < hi))
            return v
        if s in RANGES and d == 'float64':
            return self.n_go_conv(('name', 'float64'), v)
        raise Unsupported('conversion of {} to {}'.format(s, d))

    # ----------------------------------------------------------- containers
    def n_cpp_put_at(self, o, k, v):
        self.setitem(o, k, v)

    def n_cpp_at(self, o, k):
        return self.element_of(self.deref(o), k)

    def element_of(self, o, k):
        """An element of a vector; it is made if it was not assigned."""
        if isinstance(o, Ref) and isinstance(self.x.obj(o), Lst):
            self.in_range(o, k)
            items = self.x.obj(o).items
            for it in reversed(items):
                if isinstance(it, At):
                    if self.same_index(it.k, k):
                        return it.v
                    break
                if isinstance(it, Seg):
                    # other iterations assign other elements
                    if not (self.cur and isinstance(k, Sym) and
                            k.t.eq(self.cur[-1])):
                        break
                    continue
                if isinstance(it, Made):
                    v = self.zero(it.type)
                    if not self.is_object(v):
                        break
                    self.c.write(o.oid, Lst(items + (At(k, v), )))
                    return v
        raise Unsupported('element of {!r}'.format(o))

    def setitem(self, o, k, v):
        if isinstance(k, Sym) and k.k == 'json':
            k = self.as_text(k)
        GoTheory.setitem(self, o, k, v)

    def getitem(self, o, k):
        o = self.deref(o)
        c = self.c
        if isinstance(o, Sym) and o.k == 'json':
            if isinstance(k, (str, Str)) or isinstance(k, Sym) and \
                    k.k == 'json':
                ku = self.key_u(k)
                if c.decide(tag(o.t) == T_DICT):
                    if c.decide(has(o.t, ku)):
                        return self.dict_elem(o, ku, self.ref_part(k))
                elif not c.decide(tag(o.t) == T_NONE):
                    panic()
                null = const('null')
                c.fact(tag(null) == T_NONE)
                return Sym(null, 'json')
            raise Unsupported('index')
        if isinstance(o, Ref) and isinstance(self.x.obj(o), Dct):
            items = self.x.obj(o).items
            ku = self.key_u(k)
            for it in reversed(items):
                if isinstance(it, Seg):
                    # keys of JSON objects are distinct
                    continue
                if self.c.must(self.key_u(it[0]) == ku):
                    return it[1]
                if not self.c.must(self.key_u(it[0]) != ku):
                    raise Unsupported('key')
            if o.oid not in self.held or any(
                    isinstance(i, Seg) for i in items) and not self.cur:
                raise Unsupported('key')
            v = self.zero(self.held[o.oid])
            if not self.is_object(v):
                raise Unsupported('element that is not assigned')
            c.write(o.oid, Dct(items + ((self.as_text(k), v), )))
            return v
        if isinstance(o, Ref) and isinstance(self.x.obj(o), Lst):
            return self.element_of(o, k)
        raise Unsupported('index of {!r}'.format(o))

    def deref(self, v):
        if isinstance(v, Ref) and isinstance(self.x.obj(v), Inst):
            return v
        return GoTheory.deref(self, v)

    # -------------------------------------------------------------- members
    def getattr(self, v, name):
        if isinstance(v, SymInst) and name == 'id':
            return Sym(fn('idof', U, U)(v.t), 'val')
        return GoTheory.getattr(self, v, name)

    def setattr(self, o, name, v):
        if isinstance(v, Sym) and v.k == 'json':
            v = self.as_text(v)
        GoTheory.setattr(self, o, name, v)

    def n_cpp_call(self, name, o, *args):
        c = self.c
        if isinstance(o, Errs):
            if name not in ('add', 'full', 'empty'):
                raise Unsupported('errors.{}'.format(name))
            return self.errors(name, [self.as_text(args[0])] + list(
                args[1:]) if name == 'add' else list(args), {})
        if isinstance(o, tuple) and name == 'name' and not args:
            return o[0]
        if isinstance(o, Ptr) and name == 'get' and not args or isinstance(
                o, SymInst) and name == 'get' and not args:
            return o
        d = self.deref(o)
        if isinstance(d, Reg):
            ku = self.key_u(args[0]) if args else None
            if name == 'count':
                return self.as_int(self.reg_has(d, ku))
            if name == 'at':
                if not c.decide(self.reg_has(d, ku)):
                    panic()
                return self.reg_get(d, ku)
            raise Unsupported('method {} of a registry'.format(name))
        if isinstance(o, (str, Str)) or isinstance(o, Sym) and \
                o.k == 'json' and name in ('size', 'length', 'empty',
                                           'c_str') and not (
                    name in ('size', 'empty') and not c.must(
                        tag(o.t) == T_STR)):
            return self.text_method(name, self.as_text(o), args)
        if isinstance(o, Sym) and o.k == 'json':
            return self.json_method(name, o, args)
        if isinstance(o, Ref):
            h = self.x.obj(o)
            if isinstance(h, Inst) and h.cls == 'stream':
                if name == 'fail':
                    return h.attrs['failed']
                if name == 'str':
                    return h.attrs['text']
            if isinstance(h, Lst):
                return self.vector_method(name, o, h, args)
            if isinstance(h, Inst):
                key = '{}.{}'.format(h.cls, name)
                d = self.pkg.names.get(key)
                if key in self.pkg.methods and isinstance(
                        d, ast.FunctionDef):
                    return self.x.inline(Code(d, self.pkg),
                                         [o] + list(args), {})
        raise Unsupported('method {} of {!r}'.format(name, o))

    def as_int(self, cond):
        return Sym(z3.If(boolean(cond), z3.IntVal(1), z3.IntVal(0)), 'int')

    def text_method(self, name, o, args):
        if name in ('size', 'length'):
            n = self.length(o)
            return n if isinstance(n, int) else Sym(n, 'int')
        if name == 'empty':
            if isinstance(o, str):
                return not o
            if any(isinstance(p, str) and p or p[0] == 'n'
                   for p in o.parts):
                return False
            return Sym(self.length(o) == 0, 'bool')
        if name == 'c_str' or name.startswith('operator ') and \
                'string_view' in name and not args:
            return o
        raise Unsupported('method {} of a text'.format(name))

    def json_method(self, name, o, args):
        c = self.c
        k = tag(o.t)
        x = num(o.t)
        whole = And(k == T_REAL, z3.IsInt(x))

        def bool_(f):
            return Sym(f, 'bool')

        if name == 'isObject':
            return bool_(Or(k == T_DICT) if not args else False)
        tags = {'isArray': T_LIST, 'isBool': T_BOOL, 'isString': T_STR,
                'isNull': T_NONE}
        if name in tags:
            return bool_(k == tags[name])
        if name in ('isDouble', 'isNumeric'):
            return bool_(k == T_REAL)
        if name == 'isIntegral':
            return bool_(And(whole, x >= -2**63, x < 2**64))
        for n, (lo, hi) in (('Int64', RANGES['int64']),
                            ('Int', RANGES['int32']),
                            ('UInt64', RANGES['uint64']),
                            ('UInt', RANGES['uint32'])):
            inside = And(whole, x >= lo, x < hi)
            if name == 'is' + n:
                return bool_(inside)
            if name == 'as' + n:
                if not c.decide(inside):
                    panic()
                return Sym(o.t, 'val', 'int')
        if name == 'isMember':
            if not c.decide(k == T_DICT):
                if not c.decide(k == T_NONE):
                    panic()
                return False
            return bool_(has(o.t, self.key_u(args[0])))
        if name == 'asBool':
            if not c.decide(k == T_BOOL):
                panic()
            return Sym(o.t, 'val')
        if name == 'asString':
            if not c.decide(k == T_STR):
                panic()
            return Str((('j', o.t), ))
        if name == 'asDouble':
            if not c.decide(k == T_REAL):
                panic()
            f = fn('double', U, U)(o.t)
            return Sym(f, 'val', 'int')
        if name == 'size':
            if c.decide(Or(k == T_LIST, k == T_DICT)):
                c.fact(And(blen(o.t) >= 0, blen(o.t) < 2**31))
                return Sym(blen(o.t), 'int', ('len', o))
            raise Unsupported('size')
        if name == 'empty':
            if c.decide(Or(k == T_LIST, k == T_DICT)):
                return bool_(blen(o.t) == 0)
            raise Unsupported('empty')
        if name == 'type':
            return Sym(fn('type', U, U)(o.t), 'val')
        raise Unsupported('method {} of a JSON value'.format(name))

    def vector_method(self, name, o, h, args):
        if name in ('size', 'empty'):
            n = self.n_go_len(o)
            if name == 'size':
                return n
            return Sym(boolean(self.number(n) == 0), 'bool')
        if name == 'reserve':
            return None
        if name == 'at':
            return self.element_of(o, *args)
        if name in ('push_back', 'emplace_back'):
            self.n_go_append_to(o, *args)
            return None
        if name == 'clear':
            self.c.write(o.oid, Lst())
            return None
        if name == 'resize' and not h.items:
            (n, ) = args
            if plain(n):
                if n == 0:
                    return None
                raise Unsupported('resize')
            if o.oid not in self.held:
                raise Unsupported('resize')
            self.c.write(o.oid, Lst((Made(n.t, self.held[o.oid]), )))
            return None
        raise Unsupported('method {} of a vector'.format(name))

    def in_range(self, o, k):
        n = self.n_go_len(o)
        i, n = self.number(k), self.number(n)
        self.x.obligation('an index is in range', And(i >= 0, i < n))

    # --------------------------------------------------- external functions
    def n_cpp_x_strlen(self, s):
        return self.length(s)

    def n_cpp_x_to_string(self, v):
        if isinstance(v, Sym) and v.k == 'int' or isinstance(v, int):
            return self.text(v)
        return self.opaque_text()

    def n_cpp_x_regex_match(self, s, r):
        if not isinstance(r, Regex):
            raise Unsupported('regex_match')
        return Sym(self.match(r.pattern, self.to_u(self.as_text(s))), 'bool')

    def n_cpp_x_locate_zone(self, s):
        u = self.to_u(self.as_text(s))
        if not self.c.decide(fn('is_zone', U, B)(u)):
            raise PyRaise(RuntimeError)
        return Sym(fn('zone', U, U)(u), 'val')

    def n_cpp_x_make_time(self, v):
        if isinstance(v, Ref) and self.x.obj(v).cls == 'cell':
            v = self.x.obj(v).attrs['v']
        return Sym(fn('make_time', U, U)(self.to_u(v)), 'val')

    def same(self, fmt):
        same = SAME_CTIME if self.ctime else SAME_DATE
        return re.sub('%.', lambda x: same.get(x.group(), x.group()), fmt)

    def n_cpp_x_strptime(self, s, fmt, p):
        if not isinstance(fmt, str) or not isinstance(p, Ptr) or \
                self.content(p).cls != 'cell' or \
                not self.content(p).attrs['v'].t.eq(const('zero tm')):
            raise Unsupported('strptime')
        u = self.to_u(self.as_text(s))
        f = self.same(fmt)
        c = self.c
        if c.decide(fn('is ' + f, U, B)(u)):
            self.n_go_storep(p, Sym(fn('strptime ' + f, U, U)(u), 'val'))
            return Pos(0)
        self.n_go_storep(p, Sym(c.fresh('tm', U), 'val'))
        if c.decide(c.fresh('begins', B)):
            n = c.fresh('char', I)
            c.fact(And(n > 0, n < 256))
            return Pos(Sym(n, 'int'))
        return None

    def n_cpp_date_parse(self, s, fmt, t):
        o = self.x.obj(s)
        if not isinstance(fmt, str) or o.cls != 'stream' or o.attrs['used']:
            raise Unsupported('date::parse')
        f = '{} {}'.format(t[1], self.same(fmt))
        good = self.c.decide(fn('is ' + f, U, B)(self.to_u(
            o.attrs['text'])))
        self.c.write(s.oid, o.set('used', True).set('failed', not good))
        return good

    def n_cpp_date_parsed(self, s, fmt, t):
        f = '{} {}'.format(t[1], self.same(fmt))
        return Sym(fn('parsed ' + f, U, U)(self.to_u(
            self.x.obj(s).attrs['text'])), 'val')

    def n_cpp_stream_out(self, s, v):
        return s

    # --------------------------------------------------------------- values
    def truth(self, v):
        if isinstance(v, Sym) and v.k == 'bool':
            return v.t
        return GoTheory.truth(self, v)

    def is_none(self, v):
        if isinstance(v, (Pos, Ref)):
            return False
        return GoTheory.is_none(self, v)

    def number(self, v):
        if isinstance(v, Sym) and v.k == 'val' and v.node == 'int':
            return num(v.t)
        return GoTheory.number(self, v)

    def to_u(self, v):
        if isinstance(v, Ptr) and self.content(v).cls == 'cell':
            raise Unsupported('cell')
        return GoTheory.to_u(self, v)

    # --------------------------------------------------------------- schema
    def define(self, node, t):
        k, s = node.kind, node.t
        d = [den(node, t) == t]
        if k == 'float':
            f = fn('double', U, U)(t)
            return (and_(tag(t) == T_REAL, *self.bounds(s, num(f))), True,
                    [den(node, t) == f])
        if k == 'path':
            good = [tag(t) == T_STR]
            if 'pattern' in s:
                good.append(self.match(s['pattern'], t))
            return (and_(*good), True,
                    [den(node, t) == fn('path', U, U)(t)])
        if k in ('date', 'time', 'datetime'):
            f = self.expected(s)
            if self.ctime:
                p = fn('strptime ' + f, U, U)(t)
            else:
                f = '{} {}'.format(k, f)
                p = fn('parsed ' + f, U, U)(t)
                if k == 'time':
                    p = fn('make_time', U, U)(p)
            return (And(tag(t) == T_STR, fn('is ' + f, U, B)(t)), True,
                    [den(node, t) == p])
        if k == 'time_zone' and self.ctime:
            return tag(t) == T_STR, True, d
        return GoTheory.define(self, node, t)

    def expected(self, s):
        """The format that the format of the schema stands for."""
        f = s.get('format', gvpy.DEFAULT_FORMAT[s['type']])
        same = {'%P': '%p'}
        if not self.ctime:
            same.update({'%e': ' %d', '%l': ' %I'})
        return self.same(re.sub('%.', lambda x: same.get(
            x.group(), x.group()), f))

    # ----------------------------------------------------------------- loops
    def hypothesis(self, v):
        if isinstance(v, int) and not isinstance(v, bool) or isinstance(
                v, (str, Str)) and v != '':
            return v
        return None

    def assumed(self, h, idx):
        if isinstance(h, int):
            return Sym(idx if h == 0 else idx + h, 'int')
        return rope(h, Str((('t', self.c.fresh('rest', U)), )))

    def preserved(self, h, idx, v):
        if v is DEAD:
            return False
        if isinstance(h, int):
            return isinstance(v, (Sym, int)) and not isinstance(
                v, bool) and (isinstance(v, int) or v.k == 'int') and \
                self.c.must(self.number(v) == idx + h + 1)
        if not isinstance(v, (str, Str)):
            return False
        want = h.parts if isinstance(h, Str) else (h, )
        got = v.parts if isinstance(v, Str) else (v, )
        if len(got) < len(want):
            return False
        for i, (a, b) in enumerate(zip(want, got)):
            if isinstance(a, str) and isinstance(b, str):
                if a != b and not (i == len(want) - 1 and b.startswith(a)):
                    return False
            elif isinstance(a, str) or isinstance(b, str) or \
                    a[0] != b[0] or not a[1].eq(b[1]):
                return False
        return True

    def element(self, src, idx):
        if src[0] in ('list', 'range') or src[0].startswith('enum'):
            # (indices of Jsoncpp are 32 bit numbers)
            self.c.fact(blen(src[1].t) < 2**31)
        return GoTheory.element(self, src, idx)

    def is_placeholder(self, v, cls, k):
        if not GoTheory.is_placeholder(self, v, cls, k):
            return False
        return self.c.must(Or(self.c.store['n'] > 0, self.to_u(
            self.content(v).attrs['id']) == k))

    def optional_none(self, o, comp):
        if not GoTheory.optional_none(self, o, comp):
            return False
        for n, p in self.sp.props(comp):
            v = o.attrs[self.attr_name(n)]
            if p['type'] in ('array', 'map') and not p.get(
                    'optional', False):
                if not isinstance(v, Ref) or self.x.obj(v) is DEAD or \
                        self.x.obj(v).items:
                    return False
        return True

    # ------------------------------------------------------------- contracts
    def roles(self, node):
        out = {}
        for n in node.order:
            t = node.param_types[n]
            p = node.param_names[n]
            if t == ('ref', ('name', 'Json')):
                role = 'value'
            elif t == ('name', 'string') or t == ('ref', ('name', 'string')):
                role = 'ref'
            elif t == ('ptr', ('name', 'Errors')):
                role = 'errors'
            elif t[0] == 'ptr':
                role = 'target'
            elif t[0] == 'ref' and t[1][0] == 'map':
                role = None
                for c in self.sp.classes:
                    if t[1][2] == ('ptr', ('name',
                                           self.name_of('class', c))):
                        role = 'registry ' + c
            else:
                role = None
            if role is None or role in out:
                raise Unsupported('parameter {}'.format(n))
            out[role] = p
        return out

    def contract(self, mod, name):
        d = self.pkg.names.get(name)
        for kind, names in (('class', self.sp.classes),
                            ('embed', self.sp.embeds)):
            for n in names:
                if name == '{}_from'.format(self.var(n)):
                    roles = self.roles(d)
                    return lambda a, k=kind, n=n: self.parse_contract(
                        k, n, {r: a[p] for r, p in roles.items()})
        if name == 'duration_from_string':
            return self.duration_contract
        if name in ('message', 'value_type_to_string'):
            return lambda a: self.opaque_text()
        return None

    def duration_contract(self, args):
        """The error is set iff the text is not a duration."""
        text, p = args.values()
        u = self.to_u(self.as_text(text))
        if not isinstance(p, Ptr) or self.content(p).cls != 'cell' or \
                self.content(p).attrs['v'] != '':
            raise Unsupported('place of an error')
        if not self.c.decide(fn('is_duration', U, B)(u)):
            self.n_go_storep(p, Str((('n', self.c.fresh('error', U)), )))
            return Sym(self.c.fresh('duration', U), 'val')
        return Sym(fn('duration', U, U)(u), 'val')

    def parse_contract(self, kind, name, a):
        c = self.c
        x = self.x
        sp = self.sp
        node = (sp.instance if kind == 'class' else sp.embed)[name]
        v, target = a['value'], a['target']
        n0 = c.store['n']
        what = 'call of {}_from: '.format(self.var(name))
        x.obligation(what + 'errors', isinstance(a.get('errors'), Errs))
        if not isinstance(v, Sym) or v.k != 'json':
            raise Unsupported('value of a call')
        for n in sp.classes:
            if 'registry ' + n in a:
                r = self.deref(a['registry ' + n])
                x.obligation(what + 'registry of ' + n,
                             self.reg_u(r) == reg(n))
        if v.node is not None and v.ref is not None:
            same = self.same_text(v.ref, a['ref']) if isinstance(
                a['ref'], (str, Str)) else False
            x.obligation(what + 'reference', same)
        okv = ok(node, v.t)
        x.obligation(what + 'the part conforms if the value does',
                     Or(okv, Not(self.root_ok)))
        n1 = c.fresh('n_call', I)
        c.fact(And(n1 >= n0, n1 <= c.store['cap']))
        c.fact(Implies(n1 > n0, Not(okv)))
        c.fact(Or(n1 > 0, okv))
        c.write('n', n1)
        if isinstance(target, SymInst) and kind == 'class':
            x.obligation(what + 'class of the target', target.cls == name)
            c.events += ((name, target.t, v.t), )
            return None
        if isinstance(target, Ptr) and isinstance(self.content(target),
                                                  Inst) and kind == 'embed':
            comp = sp.comp(kind, name)
            o = self.content(target)
            x.obligation(what + 'the target is a placeholder',
                         o.cls == self.name_of(kind, name) and
                         self.optional_none(o, comp))
            attrs = dict(o.attrs)
            for n, _ in sp.props(comp):
                attrs[self.attr_name(n)] = Sym(
                    c.fresh('parsed_' + n, U), 'val', node='any')
            e = c.fresh('parsed', U)
            c.fact(Or(n1 > 0, e == den(node, v.t)))
            c.write(target.ref.oid, Inst(o.cls, attrs, e))
            return None
        raise Unsupported('target of a call')


# --------------------------------------------------------------- verification
class CppParseCheck(GoParseCheck):
    """Verifies the parsing functions of generated C++ code."""

    theory = CppTheory

    def __init__(self, m, files, limit=60, pkg=None):
        from pv import cppsrc
        self.m = m
        self.sp = gvpy.Spec(m)
        self.limit = limit
        self.base = ' pkg'
        self.pkg = pkg or cppsrc.Package(self.base, files)
        self.modules = {self.base: self.pkg}

    def executor(self, th=None):
        th = th or self.theory(self.sp, self.m['cpp'], self.pkg)
        return gvpy.ParseCheck.executor(self, th)

    def functions(self):
        for kind, names in (('class', self.sp.classes),
                            ('embed', self.sp.embeds)):
            for n in names:
                yield 'inner', kind, n
        yield 'inner', 'graph', None
        yield 'errors', None, 'Errors'

    def title(self, th, what, kind, name):
        return '{}_from'.format(th.var(name or self.m['name']))

    def source(self, name):
        return tuple(re.sub(r' 0x[0-9a-f]+', '', unparse(
            self.pkg.names.get(n))) for n in sorted(
                k for k in self.pkg.names if k.startswith('Errors.'))) + (
                    'cpp', self.pkg.types.get('Errors'),
                    self.pkg.types.get('Error'))

    def verify_inner(self, x, th, kind, name, fname):
        c = x.c
        code = self.find(fname)
        ref = Str((('p', const('ref')), ))
        n0 = z3.Int('n0')
        c.fact(And(n0 >= 0, n0 <= c.store['cap']))
        if kind == 'graph':
            # nothing else is accepted
            c.fact(n0 == 0)
        c.store['n'] = n0
        value = th.unfold(kind, name, ref)
        cls = th.name_of(kind, name or self.m['name'])
        d = self.pkg.types.get(cls)
        if d is None or d[0] != 'struct':
            raise Unsupported('no struct {}'.format(cls))
        attrs = {}
        for f, t in d[1]:
            v = th.zero(t)
            # what a new structure has that is not initialised
            attrs[f] = v if v is None or th.is_object(v) else Sym(
                c.fresh('old', U), 'val', node='any')
        if kind == 'class':
            attrs['id'] = Sym(const('id'), 'val')
        target = x.new(Inst(cls, attrs))
        given = dict(value=value, ref=ref, target=Ptr(target), errors=Errs())
        for n in self.sp.classes:
            given['registry ' + n] = Reg(n)
        roles = th.roles(code.node)
        fr = x.enter(code, {p: given[r] for r, p in roles.items()})

        def on_exit(how, r):
            if how == 'raise':
                x.obligation('throws nothing ({})'.format(r.cls.__name__),
                             z3.BoolVal(False))
                return
            for k, f in self.property_facts(x, th, target).items():
                x.obligation(k, f)
            if kind == 'class':
                x.obligation('the identifier is kept', self.attr_is(
                    x, th, target, 'id', const('id')))

        x.cut_body(code.node.body, fr, on_exit,
                   lambda: self.candidates(x, th, target), [target])

    def verify_errors(self, x, th, kind, name, fname):
        """The container of errors is its number of errors and its cap."""
        c = x.c
        cap = z3.Int('capacity')
        c.fact(And(cap >= 1, cap < 2**63))
        c.store['n'] = z3.IntVal(0)

        def call(name, *args):
            return x.inline(self.find('Errors.' + name), list(args), {})

        def state(o, items):
            a = x.obj(o).attrs
            x.obligation('the cap is kept', isinstance(
                a.get('cap_'), Sym) and a['cap_'].t.eq(cap))
            v = a.get('errors_')
            x.obligation('the errors in order', isinstance(v, Ref) and
                         isinstance(x.obj(v), Lst) and
                         len(x.obj(v).items) == len(items) and
                         all(i is j for i, j in zip(x.obj(v).items, items)))

        def created():
            o = th.zero(('name', 'Errors'))
            call('new', o, Sym(cap, 'int'))
            state(o, [])

        def some():
            s = Seg(c.fresh('errors', U))
            c.fact(And(blen(s.t) >= 0, blen(s.t) <= cap))
            v = th.zero(('slice', ('name', 'Error')))
            c.write(v.oid, Lst([s]))
            o = x.new(Inst('Errors', {'cap_': Sym(cap, 'int'),
                                      'errors_': v}))
            return o, s, blen(s.t)

        def added():
            o, s, n = some()
            ref, message = [Str((('p', const(i)), )) for i in 'rm']
            call('add', o, ref, message)
            items = x.obj(x.obj(o).attrs['errors_']).items
            if len(items) == 1:
                x.obligation('an error is ignored only if full', n == cap)
                state(o, [s])
                return
            x.obligation('an error is added only if not full', n < cap)
            state(o, [s, items[-1]])
            e = items[-1]
            good = isinstance(e, Ref) and isinstance(x.obj(e), Inst)
            attrs = x.obj(e).attrs if good else {}
            x.obligation('the reference of the error',
                         attrs.get('ref') is ref)
            x.obligation('the message of the error',
                         attrs.get('message') is message)

        def asked():
            o, s, n = some()
            x.obligation('full', boolean(th.truth(
                call('full', o))) == (n == cap))
            x.obligation('empty', boolean(th.truth(
                call('empty', o))) == (n == 0))
            v = call('get', o)
            x.obligation('the values', isinstance(v, Ref) and
                         x.obj(v).items == (s, ))
            state(o, [s])

        for f in (created, added, asked):
            def run():
                try:
                    f()
                except PyRaise as e:
                    x.obligation('throws nothing ({})'.format(
                        e.cls.__name__), z3.BoolVal(False))
            c.explore(run, label=f.__name__)
