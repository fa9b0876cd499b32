"""Contracts of the generated C++ serialization, and the lemma that the
parsers invert it."""
import ast

import z3

from pv import gvgodur, gvpy, gvpyser
from pv.engine import PyRaise, Unsupported
from pv.gv import (B, blen, const, Dct, DEAD, fn, get, has, I, Inst, K, Lst,
                   NONE, plain, Ref, rope, Seg, Str, Sym, T_REAL, T_STR, tag, U, View)
from pv.gvcpp import CppParseCheck, CppTheory
from pv.gvgo import At, exits_of, GoTheory, panic
from pv.gvgoser import GoSerCheck, GoSerTheory
from pv.gvpy import And, Implies, inst, Node, Not, Or
from pv.gvpyser import CUT, Part, ser, SerTheory

JSON = ('name', 'Json')
TEXTS = ('string', 'path')


class CppThrow(ValueError):
    """An exception that is thrown on purpose."""


class CppSerTheory(CppTheory, GoSerTheory):
    """The values are those that a conforming JSON value denotes.

    A Json::Value that is made by default is null until something is
    assigned to one of its keys.
    """

    def __init__(self, spec, settings, pkg):
        CppTheory.__init__(self, spec, settings, pkg)
        self.parts = {}
        self.regs = {}
        self.parsed = True

    # ------------------------------------------------------- specification
    def identity(self, node):
        return node.kind in CUT or node.kind == 'time_zone' and self.ctime

    def layout(self, t):
        """What is written in place of the format of the schema."""
        import re
        f = t.get('format', gvpy.DEFAULT_FORMAT[t['type']])
        if not self.ctime:
            same = {'%l': '%I', '%P': '%p'}
            f = re.sub('%.', lambda x: same.get(x.group(), x.group()), f)
        return self.written(f)

    def written(self, f):
        return f.replace('%h', '%b') if '%%' not in f else f

    def formatted(self, f, t):
        if f == '':
            return K('')
        return fn('format ' + f, U, U)(t)

    def serialized(self, node, t):
        if self.identity(node):
            return t
        if node.kind in ('date', 'time', 'datetime'):
            return self.formatted(self.layout(node.t), t)
        if node.kind == 'path':
            return fn('str_path', U, U)(t)
        if node.kind == 'time_zone':
            return fn('str_zone', U, U)(t)
        if node.kind == 'duration':
            return fn('duration_text', U, U)(t)
        if node.kind == 'class':
            return fn('idof', U, U)(t)
        return None

    def value(self, t, node, optional=False):
        return SerTheory.value(self, t, node, optional)

    def instance(self, kind, name):
        comp = self.sp.comp(kind, name)
        cls = self.name_of(kind, name or self.sp.m['name'])
        d = self.pkg.types.get(cls)
        if d is None or d[0] != 'struct':
            raise Unsupported('no struct {}'.format(cls))
        types = dict(d[1])
        attrs = {}
        for n, p in self.sp.props(comp):
            pn = self.sp.node(p)
            t = const('attribute ' + n)
            opt = p.get('optional', False)
            v = self.value(t, pn, opt)
            f = self.attr_name(n)
            if f not in types:
                raise Unsupported('no field {}'.format(f))
            if types[f][0] == 'opt':
                v = Sym(t, 'ptr', node=pn)
            attrs[f] = v
            self.parts[p.get('json', n)] = (
                t != NONE if opt else z3.BoolVal(True), ser(pn, t))
        if kind == 'class':
            attrs['id'] = Sym(const('id'), 'val', node='any')
        if kind == 'graph':
            for n in self.sp.classes:
                t = const('registry ' + n)
                rn = self.sp.regnode[n]
                attrs[self.reg_attr(n)] = self.value(t, rn)
                self.regs[n] = t
                self.parts[self.sp.registry[n]] = (blen(t) > 0, ser(rn, t))
        return self.x.new(Inst(cls, attrs))

    # --------------------------------------------------------- JSON values
    def is_json(self, v):
        return isinstance(v, Ref) and isinstance(self.x.obj(v), (Dct, Lst)) \
            and ('json ' + v.oid) in self.c.store

    def new_json(self, content, null=False):
        r = self.x.new(content)
        self.c.write('json ' + r.oid, null)
        return r

    def not_null(self, v):
        """When is it an object, and not null?"""
        o = self.x.obj(v)
        if isinstance(o, Lst) or not self.c.store['json ' + v.oid]:
            return z3.BoolVal(True)
        out = []
        for it in o.items:
            if isinstance(it, tuple):
                return z3.BoolVal(True)
            if isinstance(it, Part):
                out.append(self.parts[it.key][0])
            else:
                out.append(blen(it.t) > 0)
        return Or(out) if out else z3.BoolVal(False)

    def snapshot(self, v, top=False):
        """A copy of a JSON value."""
        if not isinstance(v, Ref):
            return v
        if not self.is_json(v):
            raise Unsupported('copy')
        o = self.x.obj(v)
        if top:
            null = self.c.store['json ' + v.oid]
        else:
            null = False
            self.x.obligation('an object, not null', self.not_null(v))
        if isinstance(o, Lst):
            items = [At(i.k, self.inner(i.v)) if isinstance(i, At) else
                     self.inner(i) for i in o.items]
            return self.new_json(Lst(items), null)
        return self.new_json(Dct(tuple(
            (i[0], self.inner(i[1])) if isinstance(i, tuple) else i
            for i in o.items)), null)

    def inner(self, v):
        return self.snapshot(v) if isinstance(v, Ref) else v

    def n_cpp_construct(self, t, *args):
        if t == JSON:
            if not args:
                return self.new_json(Dct(), True)
            if len(args) == 1:
                v = args[0]
                if isinstance(v, Sym) and v.k == 'val' and \
                        v.t.decl().name() == 'constant arrayValue':
                    return self.new_json(Lst())
                if isinstance(v, Sym) and v.k == 'val' and \
                        v.t.decl().name() == 'constant objectValue':
                    return self.new_json(Dct())
                if isinstance(v, (str, bool)):
                    return v
                if self.opaque(v) and v.k == 'val' and self.identity(
                        v.node):
                    return v
                if isinstance(v, Sym) and v.k == 'val' and v.node == 'any':
                    return v
                if self.is_json(v):
                    return self.snapshot(v, True)
            raise Unsupported('construction of a JSON value')
        if t == ('name', 'string') and len(args) == 1 and isinstance(
                args[0], Sym) and args[0].k == 'val':
            v = args[0]
            if v.node == 'any' or self.opaque(v) and v.node.kind in (
                    'string', ) or self.opaque(v) and \
                    v.node.kind == 'time_zone' and self.ctime:
                return v
            raise Unsupported('construction of a text')
        return CppTheory.n_cpp_construct(self, t, *args)

    def n_cpp_copy(self, v):
        if self.is_json(v):
            return self.snapshot(v, True)
        if self.opaque(v) or isinstance(v, Sym):
            return v
        return CppTheory.n_cpp_copy(self, v)

    def copied(self, v, kinds=None):
        if kinds is not None:
            return SerTheory.copied(self, v, kinds)
        if self.is_json(v):
            return self.snapshot(v)
        return CppTheory.copied(self, v)

    def setitem(self, o, k, v):
        if not self.is_json(o):
            raise Unsupported('assignment of an element')
        h = self.x.obj(o)
        v = self.snapshot(v)
        if isinstance(h, Lst):
            if not isinstance(k, (int, Sym)) or isinstance(
                    k, Sym) and k.k != 'int':
                raise Unsupported('index of an array')
            last = h.items[-1] if h.items else None
            if isinstance(last, At) and self.same_index(last.k, k):
                raise Unsupported('an element is assigned again')
            self.c.write(o.oid, Lst(h.items + (At(k, v), )))
            return
        if not isinstance(k, (str, Str)) and not (isinstance(
                k, Sym) and k.k == 'val'):
            raise Unsupported('key')
        if isinstance(k, str):
            for i, it in enumerate(h.items):
                if isinstance(it, Part) and it.key == k:
                    raise Unsupported('a key is written again')
                if isinstance(it, tuple) and it[0] == k:
                    self.c.write(o.oid, Dct(h.items[:i] + ((k, v), ) +
                                            h.items[i + 1:]))
                    return
        self.c.write(o.oid, Dct(h.items + ((k, v), )))

    def json_call(self, name, o, args):
        h = self.x.obj(o)
        if isinstance(h, Lst) and name == 'append' and len(args) == 1:
            self.c.write(o.oid, Lst(h.items + (self.snapshot(args[0]), )))
            return None
        if name == 'resize' and isinstance(h, Lst) and not h.items:
            # every element is assigned
            return None
        raise Unsupported('method {} of a JSON value'.format(name))

    # ------------------------------------------------------------ operations
    def deref(self, v):
        return CppTheory.deref(self, v)

    def is_none(self, v):
        if isinstance(v, Sym) and v.k in ('ptr', 'val'):
            return v.t == NONE
        return CppTheory.is_none(self, v)

    def n_cpp_engaged_bool(self, v):
        if self.opaque(v):
            if v.k == 'val' and v.node.kind not in (
                    'class', 'instance', 'time_zone'):
                raise Unsupported('condition')
            return Sym(v.t != NONE, 'bool')
        return CppTheory.n_cpp_engaged_bool(self, v)

    def n_cpp_deref(self, v):
        if self.opaque(v):
            if v.k == 'ptr' or v.node.kind in ('class', 'instance',
                                               'time_zone'):
                if self.c.decide(v.t == NONE):
                    panic()
                return Sym(v.t, 'val', node=v.node)
            raise Unsupported('dereference')
        return CppTheory.n_cpp_deref(self, v)

    def truth(self, v):
        if self.opaque(v):
            if v.k == 'val' and v.node.kind == 'boolean':
                return fn('b', U, B)(v.t)
            if v.k == 'ptr' or v.node.kind in ('class', 'instance'):
                return v.t != NONE
            raise Unsupported('condition')
        return CppTheory.truth(self, v)

    def number(self, v):
        if self.opaque(v) and v.k == 'val' and \
                v.node.kind in ('integer', 'float'):
            return gvpy.num(v.t)
        return CppTheory.number(self, v)

    def eq(self, a, b):
        return GoSerTheory.eq(self, a, b)

    def compare(self, op, a, b):
        return GoSerTheory.compare(self, op, a, b)

    def getattr(self, v, name):
        if isinstance(v, tuple) and len(v) == 2 and name in (
                'first', 'second'):
            return v[name == 'second']
        if self.opaque(v):
            if v.k == 'ptr' or v.node.kind in ('class', 'instance'):
                if self.c.decide(v.t == NONE):
                    panic()
            if name == 'id' and v.k == 'val' and v.node.kind in (
                    'class', 'instance'):
                return Sym(fn('idof', U, U)(v.t), 'val', node='any')
            raise Unsupported('member {}'.format(name))
        return CppTheory.getattr(self, v, name)

    def getitem(self, o, k):
        if isinstance(o, Sym):
            return GoSerTheory.getitem(self, o, k)
        if self.is_json(o):
            raise Unsupported('element of a JSON value')
        return CppTheory.getitem(self, o, k)

    def n_cpp_at(self, o, k):
        return self.getitem(o, k)

    def n_cpp_call(self, name, o, *args):
        if self.is_json(o):
            return self.json_call(name, o, args)
        if self.opaque(o):
            if o.k == 'ptr':
                if name == 'has_value' and not args:
                    return Sym(o.t != NONE, 'bool')
                if name == 'value' and not args:
                    return self.n_cpp_deref(o)
                raise Unsupported('method {} of an optional'.format(name))
            return self.value_method(name, o, args)
        if isinstance(o, Sym) and o.k == 'val' and o.node == 'any':
            if name in ('size', 'length') and not args:
                return Sym(self.part_length(('v', o.t)), 'int')
            if name == 'empty' and not args:
                return Sym(self.part_length(('v', o.t)) == 0, 'bool')
            if name == 'c_str':
                return Sym(fn('c_str', U, U)(o.t), 'val', node='any')
        return CppTheory.n_cpp_call(self, name, o, *args)

    def value_method(self, name, o, args):
        k = o.node.kind
        if k in ('array', 'map', 'registry'):
            if name == 'size' and not args:
                return self.n_go_len(o)
            if name == 'empty' and not args:
                return Sym(blen(o.t) == 0, 'bool')
            if name == 'count' and len(args) == 1 and k != 'array':
                return self.as_int(has(o.t, self.key_u(args[0])))
            if name == 'at' and len(args) == 1:
                return self.getitem(o, args[0])
        if k in ('class', 'instance') and name == 'get' and not args:
            return o
        if k == 'path' and name in ('string', 'native', 'generic_string') \
                and not args:
            return Sym(fn('str_path', U, U)(o.t), 'val', node='any')
        if k == 'time_zone' and name == 'name' and not args and \
                not self.ctime:
            if self.c.decide(o.t == NONE):
                panic()
            return Sym(fn('str_zone', U, U)(o.t), 'val', node='any')
        if k == 'time' and name == 'to_duration' and not args:
            return o
        if k in ('string', ) and name == 'c_str':
            return Sym(fn('c_str', U, U)(o.t), 'val', node='any')
        if k == 'string' and name in ('size', 'length', 'empty'):
            n = self.n_go_len(o)
            return n if name != 'empty' else Sym(n.t == 0, 'bool')
        raise Unsupported('method {} of {}'.format(name, k))

    def n_cpp_x_format(self, f, v):
        if not isinstance(f, str) or not self.opaque(v) or v.k != 'val' or \
                v.node.kind not in ('date', 'time', 'datetime'):
            raise Unsupported('date::format')
        return Sym(self.formatted(self.written(f), v.t), 'val', node='any')

    def n_cpp_concat(self, a, b, n=None):
        for v in (a, b):
            if not isinstance(v, (str, Str)) and not (isinstance(
                    v, Sym) and v.k == 'val'):
                raise Unsupported('text')
        return self.opaque_text()

    def part_u(self, p):
        return p[1] if isinstance(p, tuple) and p[0] == 'v' else \
            CppTheory.part_u(self, p)

    def n_go_panic(self, v=None):
        raise PyRaise(CppThrow)

    def n_go_len(self, v):
        return GoSerTheory.n_go_len(self, v)

    # ----------------------------------------------------------------- loops
    def n_cpp_range(self, v):
        if self.opaque(v) and v.k == 'val':
            if v.node.kind == 'array':
                return v
            if v.node.kind in ('map', 'registry'):
                return View(v, 'items')
        raise Unsupported('iteration')

    n_cpp_members = n_cpp_range

    def range_val(self, v, n):
        return GoSerTheory.range_val(self, v, n)

    def source(self, it):
        return GoSerTheory.source(self, it)

    def element(self, src, idx):
        # (indices are 32 bit numbers)
        self.c.fact(blen(src[1].t) < 2**31)
        return GoSerTheory.element(self, src, idx)

    def delta(self, src, idx, items, erred):
        if items and isinstance(src[1], Sym) and self.opaque(src[1]):
            whole = src[1].node.kind
            if whole == 'array' and any(
                    isinstance(i, tuple) for i in items):
                return set()
        return GoSerTheory.delta(self, src, idx, items, erred)

    def acc_facts(self, kind, src, s):
        out = GoSerTheory.acc_facts(self, kind, src, s)
        if kind in ('ser', 'same') and self.is_val(src):
            # one for each
            out = out + [blen(s) == blen(src[1].t)]
        return out

    def n_go_count(self, n):
        return GoSerTheory.n_go_count(self, n)

    # ------------------------------------------------------------- contracts
    def contract(self, mod, name):
        for kind, names in (('class', self.sp.classes),
                            ('embed', self.sp.embeds)):
            for n in names:
                if name == 'serialize_{}'.format(self.var(n)):
                    return lambda a, k=kind, n=n: self.cpp_ser_contract(
                        k, n, a)
        if name == 'duration_to_string':
            return lambda a: self.text_contract(
                {'duration': list(a.values())[0]})
        if name == 'tm_to_string':
            return self.tm_contract
        if name in ('message', 'value_type_to_string'):
            return lambda a: self.opaque_text()
        return None

    def tm_contract(self, a):
        v, f = a.values()
        if not isinstance(f, str) or not self.opaque(v) or v.k != 'val' or \
                v.node.kind not in ('date', 'time', 'datetime'):
            raise Unsupported('tm_to_string')
        return Sym(self.formatted(self.written(f), v.t), 'val', node='any')

    def cpp_ser_contract(self, kind, name, a):
        (v, ) = a.values()
        if self.opaque(v):
            v = Sym(v.t, 'val', node=v.node)
        return self.ser_contract(kind, name, {'instance': v})


class CppTextTheory(gvgodur.DurationTheory, CppSerTheory):
    """Arithmetic and streams of the text of a duration."""

    def contract(self, mod, name):
        return None

    def n_cpp_construct(self, t, *args):
        if t[0] == 'name' and 'stringstream' in t[1] and not args:
            return self.x.new(Inst('stream', {
                'text': '', 'fill': ' ', 'width': 0}))
        return CppSerTheory.n_cpp_construct(self, t, *args)

    def digits(self, n):
        """The nine digits of a number."""
        ds = [fn('digit {}'.format(i), I, I)(n) for i in range(9)]
        self.c.fact(And([And(d >= 0, d <= 9) for d in ds]))
        self.c.fact(n == sum(d * 10**(8 - i) for i, d in enumerate(ds)))
        return ds

    def binop(self, op, a, b):
        if isinstance(op, (ast.Div, ast.Mod)) and isinstance(
                a, Sym) and a.k == 'int' and isinstance(b, int) and b > 0 \
                and self.c.must(a.t >= 0):
            q, r = [fn('{} by {}'.format(i, b), I, I)(a.t) for i in (
                'quotient', 'rest')]
            self.c.fact(And(q >= 0, r >= 0, r < b, a.t == q * b + r))
            return Sym(q if isinstance(op, ast.Div) else r, 'int')
        return gvgodur.DurationTheory.binop(self, op, a, b)

    def n_cpp_x_setfill(self, ch):
        return ('fill', ch)

    def n_cpp_x_setw(self, n):
        return ('width', n)

    def n_cpp_stream_out(self, s, v):
        o = self.x.obj(s)
        if o.cls != 'stream':
            raise Unsupported('stream')
        if isinstance(v, tuple):
            self.c.write(s.oid, o.set(*v))
            return s
        if isinstance(v, Sym) and v.k == 'int' and o.attrs['width'] == 9 \
                and o.attrs['fill'] == '0' and self.c.must(
                    And(v.t >= 0, v.t < 10**9)):
            text = Str((('nine', v.t), ))
        elif o.attrs['width'] == 0 and isinstance(v, (Sym, int)) and \
                not isinstance(v, bool) and (plain(v) or v.k == 'int'):
            text = self.text(v)
        elif o.attrs['width'] == 0 and isinstance(v, (str, Str)):
            text = v
        else:
            raise Unsupported('output')
        self.c.write(s.oid, o.set('text', rope(
            o.attrs['text'], text)).set('width', 0))
        return s

    def n_cpp_call(self, name, o, *args):
        if isinstance(o, Sym) and o.node == 'duration' and \
                name == 'count' and not args:
            return Sym(o.t, 'int')
        if isinstance(o, Ref) and isinstance(
                self.x.obj(o), Inst) and self.x.obj(o).cls == 'stream' and \
                name == 'str' and not args:
            return self.x.obj(o).attrs['text']
        if isinstance(o, Str) and len(o.parts) == 1 and \
                o.parts[0][0] == 'nine':
            n = o.parts[0][1]
            if name in ('size', 'length') and not args:
                return 9
            if name == 'at' and len(args) == 1 and plain(args[0]):
                if not 0 <= args[0] < 9:
                    panic()
                return Sym(48 + self.digits(n)[args[0]], 'int')
            if name == 'back' and not args:
                return Sym(48 + self.digits(n)[8], 'int')
            if name == 'substr' and len(args) == 2 and args[0] == 0 and \
                    plain(args[1]) and 0 < args[1] <= 9 and self.c.must(
                        And([d == 0 for d in self.digits(n)[args[1]:]])):
                return Str((('fraction', n), ))
        return CppSerTheory.n_cpp_call(self, name, o, *args)

    def getitem(self, o, k):
        if isinstance(o, Str) and len(o.parts) == 1 and \
                o.parts[0][0] == 'nine':
            return self.n_cpp_call('at', o, k)
        return CppSerTheory.getitem(self, o, k)


class CppSerCheck(GoSerCheck, CppParseCheck):
    """Verifies the serializing functions of generated C++ code."""

    def __init__(self, m, files, limit=60, pkg=None):
        CppParseCheck.__init__(self, m, files, limit, pkg)

    def executor(self, th=None):
        return CppParseCheck.executor(self, th or CppSerTheory(
            self.sp, self.m['cpp'], self.pkg))

    def functions(self):
        for what in ('serialize', 'inverse'):
            for kind, names in (('class', self.sp.classes),
                                ('embed', self.sp.embeds)):
                for n in names:
                    yield what, kind, n
            yield what, 'graph', None
        if 'duration_to_string' in self.pkg.names:
            yield 'duration', None, 'duration_to_string'
        if 'duration_from_string' in self.pkg.names:
            yield 'duration', None, 'duration_from_string'

    def title(self, th, what, kind, name):
        var = th.var(name or self.m['name'])
        return 'serialize_{}'.format(var) if what == 'serialize' else \
            'lemma: {0}_from parses what serialize_{0} gives'.format(var)

    def source(self, name):
        from pv.gvgo import closure
        return closure(self.pkg.names, (name, )) + ('text of C++', )

    def find(self, fname):
        return CppParseCheck.find(self, fname)

    # ------------------------------------------------------------ functions
    def verify_serialize(self, x, th, kind, name, fname):
        c = x.c
        code = self.find(fname)
        # there are no errors to collect
        c.store['n'] = c.store['cap'] = z3.IntVal(0)
        obj = th.instance(kind, name)
        for t in th.regs.values():
            # nothing at all holds of no instances
            c.fact(Implies(blen(t) == 0, fn('allmatch', U, B)(t)))
        content = x.obj(obj)
        if len(code.node.order) != 1:
            raise Unsupported('parameters')
        fr = x.enter(code, {code.node.args.args[0].arg: obj})

        def on_exit(how, r):
            x.obligation('the object is not changed', x.obj(obj) is content)
            if how == 'raise':
                if r.cls is not CppThrow or not th.regs:
                    x.obligation('throws nothing ({})'.format(
                        r.cls.__name__), z3.BoolVal(False))
                else:
                    x.obligation(
                        'an instance is refused only for its identifier',
                        Or([Not(th.matched(n)) for n in th.regs]))
                return
            for n in th.regs:
                x.obligation('identifiers in the registry of ' + n,
                             th.matched(n))
            if not isinstance(r, Ref) or not isinstance(x.obj(r), Dct):
                x.obligation('an object is returned', z3.BoolVal(False))
                return
            there = {}
            for it in x.obj(r).items:
                if isinstance(it, Part):
                    there.setdefault(it.key, []).append(None)
                elif isinstance(it, tuple) and isinstance(it[0], str):
                    there.setdefault(it[0], []).append(it[1])
                else:
                    raise Unsupported('keys of the result')
            for k in there:
                x.obligation('key ' + k, k in th.parts and
                             len(there[k]) == 1)
            for k, (present, want) in th.parts.items():
                if k not in there:
                    x.obligation('the value of ' + k, Not(present))
                elif there[k][0] is not None:
                    x.obligation('the value of ' + k, And(
                        present, th.to_u(there[k][0]) == want))
                else:
                    x.obligation('the value of ' + k, True)

        x.cut_body(code.node.body, fr, on_exit,
                   lambda: {n: th.matched(n) for n in th.regs}, [],
                   after=exits_of(code))

    def verify_duration(self, x, th, kind, name, fname):
        """The text of a duration is in the grammar, and denotes it."""
        if name == 'duration_from_string':
            from pv import gvcppdur
            gvcppdur.verify(self, x, fname)
            return
        c = x.c
        code = self.find(fname)
        x.th.__class__ = CppTextTheory
        c.store['n'] = z3.IntVal(0)
        d = z3.Int('nanoseconds')
        # what parsing gives
        c.fact(And(d > -2**63, d < 2**63))
        if len(code.node.order) != 1:
            raise Unsupported('parameters')

        def run():
            try:
                r = x.inline(code, [Sym(d, 'int', 'duration')], {})
            except PyRaise as e:
                x.obligation('throws nothing ({})'.format(e.cls.__name__),
                             z3.BoolVal(False))
                return
            total, conds = gvpyser.denoted(r, 10**9)
            x.obligation('the text is a duration', And(conds))
            x.obligation('the text denotes the duration', total == d)

        c.explore(run, label='duration')

    # ---------------------------------------------------------------- lemmas
    def theories(self):
        st = CppSerTheory(self.sp, self.m['cpp'], self.pkg)
        return CppTheory(self.sp, self.m['cpp'], self.pkg), st

    def axioms(self, th, node, a, v, s):
        """What is assumed of natives about the values they return."""
        k = node.kind
        if k == 'float':
            f = fn('double', U, U)
            return [tag(a) == T_REAL, f(f(v)) == f(v)]
        if k == 'path':
            p, q = fn('path', U, U), fn('str_path', U, U)
            # paths are kept as they are
            return [q(p(v)) == v]
        if k == 'time_zone' and not th.ctime:
            p, q = fn('zone', U, U), fn('str_zone', U, U)
            return [p(q(p(v))) == p(v), tag(q(p(v))) == T_STR,
                    fn('is_zone', U, B)(q(p(v)))]
        if k in ('date', 'time', 'datetime'):
            st = self.theories()[1]
            f = th.expected(node.t)
            if th.ctime:
                name = f
                p = fn('strptime ' + f, U, U)
            else:
                name = '{} {}'.format(k, f)
                p = fn('parsed ' + name, U, U)
                if k == 'time':
                    q0 = p
                    p = lambda y: fn('make_time', U, U)(q0(y))
            text = st.formatted(st.layout(node.t), p(v))
            return [p(text) == p(v), fn('is ' + name, U, B)(text),
                    tag(text) == T_STR]
        if k == 'duration':
            # the contracts of the two functions
            p, q = fn('duration', U, U), fn('duration_text', U, U)
            return [p(q(p(v))) == p(v), fn('is_duration', U, B)(q(p(v))),
                    tag(q(p(v))) == T_STR]
        if k == 'class':
            return [fn('idof', U, U)(inst(node.name, v)) == v,
                    tag(v) == T_STR]
        return []
