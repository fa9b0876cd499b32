"""Meaning of schemas, and the contracts of generated Python code."""
import ast
import re

import z3

from pv import gv
from pv.gv import (and_, B, blen, boolean, Code, const, Dct, DEAD, Dotted,
                   elem, Errs, fn, get, has, I, Inst, K, keyat, Lst, Method,
                   NIL, NILD, NONE, num, Opt, plain, R, real, Ref, Reg, rope,
                   Seg, Str, Sym, SymInst, tag, T_BOOL, T_DICT, T_INT, T_LIST,
                   T_NONE, T_REAL, T_STR, TypeOf, U, View)
from pv.engine import Infeasible, PyRaise, ReturnX, Unsupported

DEFAULT_FORMAT = {'date': '%Y-%m-%d', 'time': '%H:%M:%S',
                  'datetime': '%Y-%m-%dT%H:%M:%SZ'}
SAME_TEXT = {'%e': '%d', '%l': '%I', '%P': '%p'}
Or, And, Not, Implies, If = z3.Or, z3.And, z3.Not, z3.Implies, z3.If


class Node:
    """A type (or composite) of a schema."""

    def __init__(self, uid, kind, t=None, name=None, values=None):
        self.uid = uid
        self.kind = kind
        self.t = t or {}
        self.name = name
        self.values = values


class Spec:
    """The types of a schema."""

    def __init__(self, m):
        import contracts.naming as nm
        self.m = m
        self.classes = {c['name']: c for c in m.get('classes', ())}
        self.embeds = {c['name']: c for c in m.get('embeds', ())}
        self.plural = {n: c['plural'] if 'plural' in c else nm.plural(n)
                       for n, c in self.classes.items()}
        self.registry = {n: p.lower() for n, p in self.plural.items()}
        self.nodes = {}
        self.instance = {n: Node('C_' + n, 'instance', name=n)
                         for n in self.classes}
        self.embed = {n: Node('E_' + n, 'embed', name=n)
                      for n in self.embeds}
        self.regnode = {n: Node('R_' + n, 'registry', self.classes[n], n,
                                self.instance[n]) for n in self.classes}

    def node(self, t):
        k = t['type']
        if k in self.embed:
            return self.embed[k]
        if id(t) not in self.nodes:
            uid = len(self.nodes)
            v = self.node(t['values']) if k in ('array', 'map') else None
            kind = 'class' if k in self.classes else k
            self.nodes[id(t)] = Node(uid, kind, t, k, v)
        return self.nodes[id(t)]

    def comp(self, kind, name=None):
        return {'graph': lambda: self.m, 'class': lambda: self.classes[name],
                'embed': lambda: self.embeds[name]}[kind]()

    def props(self, comp):
        return comp.get('properties', {}).items()


def ok(node, v):
    return fn('ok_{}'.format(node.uid), U, B)(v)


def den(node, v):
    return fn('den_{}'.format(node.uid), U, U)(v)


def allok(v):
    return fn('allok', U, B)(v)


def inst(cls, k):
    return fn('inst_' + cls, U, U)(k)


def reg(cls):
    return const('REG_' + cls)


def done(cls):
    return z3.Bool('parsed_' + cls)


DURATION = (r'^(?P<sign>\+|-)?P'
            r'((?P<years>(0|[1-9][0-9]*)(\.[0-9]+)?)Y)?'
            r'((?P<months>(0|[1-9][0-9]*)(\.[0-9]+)?)M)?'
            r'((?P<weeks>(0|[1-9][0-9]*)(\.[0-9]+)?)W)?'
            r'((?P<days>(0|[1-9][0-9]*)(\.[0-9]+)?)D)?'
            r'(T((?P<hours>(0|[1-9][0-9]*)(\.[0-9]+)?)H)?'
            r'((?P<minutes>(0|[1-9][0-9]*)(\.[0-9]+)?)M)?'
            r'(((?P<seconds>0|[1-9][0-9]*)(\.(?P<fraction>[0-9]+))?)S)?)?$')
UNITS = {'years': '31556952', 'months': '2629746', 'weeks': '604800',
         'days': '86400', 'hours': '3600', 'minutes': '60', 'seconds': '1'}


def regex_tree(pattern):
    """What a pattern means, up to the numbering of unnamed groups."""
    import re._parser as sre
    import re._constants as sc
    tree = sre.parse(pattern)
    names = {v: k for k, v in tree.state.groupdict.items()}

    def norm(x):
        if isinstance(x, sre.SubPattern):
            out = []
            for op, av in x:
                if op is sc.SUBPATTERN and av[0] not in names and \
                        not av[1] and not av[2]:
                    out.extend(norm(av[3]))
                elif op is sc.SUBPATTERN:
                    out.append(('group', names.get(av[0]), av[1], av[2],
                                norm(av[3])))
                elif op is sc.IN and len(av) == 1 and \
                        av[0][0] is sc.LITERAL:
                    out.append(('LITERAL', av[0][1]))
                elif op is sc.AT and av is sc.AT_BEGINNING_STRING:
                    out.append(('AT', str(sc.AT_BEGINNING)))
                elif op is sc.AT and av is sc.AT_END_STRING:
                    # a newline at the end is a known finding
                    out.append(('AT', str(sc.AT_END)))
                else:
                    out.append((str(op), norm(av)))
            return tuple(out)
        if isinstance(x, (tuple, list)):
            return tuple(norm(y) for y in x)
        return str(x)

    return norm(tree)


class Regex:
    __slots__ = ('pattern', )

    def __init__(self, pattern):
        self.pattern = pattern


class Match:
    """A match of the grammar of durations."""


class Group:
    """The text of a group of the match."""
    __slots__ = ('name', )

    def __init__(self, name):
        self.name = name


def present(g):
    return z3.Bool('has ' + g)


def gnum(g):
    return z3.Real('number ' + g)


FRAC_LEN = z3.Int('length of the fraction')
FRAC = z3.Int('number of the fraction')


class Theory:
    """Operations on the values of the executor (Python)."""
    # is a bad identifier reported with its own reference?
    ID_REFS = True

    def __init__(self, spec, settings):
        self.sp = spec
        self.settings = settings
        self.x = None
        self.root = None  # (kind, name)
        self.root_ok = None
        self.root_sym = None
        self.registries = {}

    @property
    def c(self):
        return self.x.c

    # ---------------------------------------------------------------- terms
    def to_u(self, v):
        c = self.c
        if isinstance(v, Sym):
            if v.k in ('json', 'val'):
                return v.t
            return fn('of_' + v.k, v.t.sort(), U)(v.t)
        if v is None:
            return NONE
        if isinstance(v, bool):
            return const('bool {}'.format(v))
        if isinstance(v, str):
            return K(v)
        if isinstance(v, (int, float)):
            return const('{} {!r}'.format(type(v).__name__, v))
        if isinstance(v, Str):
            t = None
            for p in v.parts:
                u = self.part_u(p)
                t = u if t is None else fn('cat', U, U, U)(t, u)
            return t
        if isinstance(v, Reg):
            return reg(v.name)
        if isinstance(v, SymInst):
            return v.t
        if isinstance(v, tuple):
            t = const('()')
            for y in v:
                t = fn('tup', U, U, U)(t, self.to_u(y))
            return t
        if isinstance(v, Ref):
            o = self.x.obj(v)
            if isinstance(o, Inst):
                if o.ident is not None:
                    return o.ident
                raise Unsupported('an instance as a term')
            if isinstance(o, (Lst, Dct)):
                lst = isinstance(o, Lst)
                if len(o.items) == 1 and isinstance(o.items[0], Seg):
                    return o.items[0].t
                t = NIL if lst else NILD
                for it in o.items:
                    if isinstance(it, Seg):
                        t = fn('join', U, U, U)(t, it.t)
                    elif lst:
                        t = fn('app', U, U, U)(t, self.to_u(it))
                    else:
                        t = fn('put', U, U, U, U)(
                            t, self.to_u(it[0]), self.to_u(it[1]))
                return t
        raise Unsupported('term of {!r}'.format(v))

    def part_u(self, p):
        if isinstance(p, str):
            return K(p)
        kind, t = p
        if kind == 'j':
            return t
        return fn('text_' + kind, t.sort(), U)(t)

    # ---------------------------------------------------------------- texts
    def text(self, v):
        if isinstance(v, (str, Str)):
            return v
        if plain(v):
            return str(v)
        if isinstance(v, Sym):
            if v.k == 'int':
                return Str((('i', v.t), ))
            if v.k == 'json':
                if self.c.decide(tag(v.t) == T_STR):
                    return Str((('j', v.t), ))
                return Str((('x', v.t), ))
            if v.k == 'val':
                return Str((('x', v.t), ))
        return self.opaque_text()

    def text_repr(self, v):
        if plain(v):
            return repr(v)
        if isinstance(v, Sym) and v.k == 'json':
            return Str((('r', v.t), ))
        return self.opaque_text()

    def opaque_text(self):
        return Str((('o', self.c.fresh('text', U)), ))

    def spec_text(self, v, spec):
        """A value in a format."""
        if spec == 'd' and isinstance(v, Sym) and v.k == 'int' or \
                spec == 's' and isinstance(v, (str, Str)):
            return self.text(v)
        if plain(v):
            return format(v, spec)
        return self.opaque_text()

    def percent(self, s, args):
        """The % operator of texts."""
        import re
        args = list(args) if isinstance(args, tuple) else [args]
        out = []
        for lit, spec, conv in re.findall(
                r'((?:[^%]|%%)*)(?:%(\d*)([a-z])|$)', s):
            out.append(lit.replace('%%', '%'))
            if not conv:
                continue
            if not args:
                raise PyRaise(TypeError)
            v = args.pop(0)
            if conv == 's' and not spec:
                out.append(self.text(v))
            elif conv == 'r' and not spec:
                out.append(self.text_repr(v))
            elif conv == 'd' and isinstance(v, Sym) and v.k == 'int':
                out.append(self.spec_text(v, spec + 'd'))
            else:
                return self.opaque_text()
        if args:
            raise PyRaise(TypeError)
        return rope(*out)

    def as_text(self, v):
        """v if it is a text, deciding it for a JSON value."""
        if isinstance(v, (str, Str)):
            return v
        if isinstance(v, Sym) and v.k == 'json':
            if self.c.decide(tag(v.t) == T_STR):
                return Str((('j', v.t), ))
        raise PyRaise(TypeError)

    def same_text(self, a, b):
        """Are two texts equal for all values of their parts?"""
        pa = a.parts if isinstance(a, Str) else (a, )
        pb = b.parts if isinstance(b, Str) else (b, )
        if len(pa) != len(pb):
            return False
        out = []
        for x, y in zip(pa, pb):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return False
                continue
            if x[0] != y[0] or x[1].sort() != y[1].sort():
                return False
            if not x[1].eq(y[1]):
                out.append(x[1] == y[1])
        return and_(*out) if out else True

    # ------------------------------------------------------------ operations
    def deref(self, v):
        """The registry a value is known to be."""
        if isinstance(v, Sym) and v.k == 'val' and v.node == 'any' or \
                isinstance(v, Ref) and isinstance(self.x.obj(v), Dct) and \
                len(self.x.obj(v).items) == 1 and isinstance(
                    self.x.obj(v).items[0], Seg):
            t = self.to_u(v)
            for n in self.sp.classes:
                if self.c.must(t == reg(n)):
                    return Reg(n)
        return v

    def truth(self, v):
        if isinstance(v, Sym):
            if v.k == 'bool':
                return v.t
            if v.k in ('int', 'num'):
                return v.t != 0
            if v.k == 'json':
                t = v.t
                return Or(And(tag(t) == T_BOOL, fn('b', U, B)(t)),
                          And(Or(tag(t) == T_INT, tag(t) == T_REAL),
                              num(t) != 0),
                          And(tag(t) == T_STR, t != K('')),
                          And(Or(tag(t) == T_LIST, tag(t) == T_DICT),
                              blen(t) > 0))
            raise Unsupported('truth of {!r}'.format(v))
        if isinstance(v, Opt):
            return v.cond
        if isinstance(v, Group):
            return FRAC > 0 if v.name == 'stripped' else True
        if isinstance(v, Ref):
            o = self.x.obj(v)
            if isinstance(o, Inst):
                return True
            if not o.items:
                return False
            if any(not isinstance(i, Seg) for i in o.items):
                return True
            raise Unsupported('truth of a collection')
        if isinstance(v, (SymInst, Dotted, Errs, Code)):
            return True
        if plain(v):
            return bool(v)
        raise Unsupported('truth of {!r}'.format(v))

    def is_none(self, v):
        if v is None:
            return True
        if isinstance(v, Sym):
            if v.k == 'json':
                return tag(v.t) == T_NONE
            if v.k == 'val':
                return v.t == NONE if v.node == 'any' else \
                    self.val_none(v)
            return False
        if isinstance(v, Opt):
            return Not(v.cond)
        return False

    def val_none(self, v):
        return False

    # hooks of the executor
    def describe(self, base):
        """What a segment did to collections."""
        return {}

    def summarize(self, base, survivors):
        """{collection: its content after all the ends of a segment}"""
        return {}

    def exit_conditions(self):
        return []

    def local_terms(self):
        """{name: term}: what a local variable may be equal to."""
        return {}

    def is_portable(self, v):
        """Does a value mean the same outside of a loop?"""
        return False

    def acc_base(self, old, src):
        """What is kept of a collection that a loop extends."""
        return old.items

    def reg_u(self, v):
        """The term of the registry in an attribute."""
        return self.to_u(v)

    def on_raise(self, cls):
        pass

    def number(self, v):
        """A number as a Real or Int term."""
        if isinstance(v, Sym):
            if v.k in ('int', 'num'):
                return v.t
            if v.k == 'json':
                if self.c.decide(Or(tag(v.t) == T_INT, tag(v.t) == T_REAL)):
                    return num(v.t)
                if self.c.decide(tag(v.t) == T_BOOL):
                    return If(fn('b', U, B)(v.t), real(1), real(0))
                raise PyRaise(TypeError)
            if v.k == 'val' and v.node == 'float':
                return num(v.t)
        if isinstance(v, (bool, int)):
            return z3.IntVal(int(v))
        if isinstance(v, float):
            return real(v)
        raise PyRaise(TypeError)

    def compare(self, op, a, b):
        if plain(a) and plain(b):
            return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b,
                    ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                    ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                    ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b,
                    ast.In: lambda: a in b,
                    ast.NotIn: lambda: a not in b}[type(op)]()
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
        elif isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
        elif isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b)
        else:
            x, y = self.number(a), self.number(b)
            r = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                 ast.Gt: lambda: x > y,
                 ast.GtE: lambda: x >= y}[type(op)]()
            return Sym(r, 'bool')
        if isinstance(op, (ast.IsNot, ast.NotIn, ast.NotEq)):
            return (not r) if isinstance(r, bool) else Sym(Not(r), 'bool')
        return r if isinstance(r, bool) else Sym(r, 'bool')

    def is_(self, a, b):
        if a is None or b is None:
            return self.is_none(b if a is None else a)
        if isinstance(a, TypeOf) and isinstance(b, Dotted):
            return self.isinstance_(a.v, b, exact=True)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, Dotted) and isinstance(b, Dotted):
            return a.path == b.path
        if isinstance(a, Sym) and a.k == 'bool' and isinstance(b, bool):
            return a.t == b
        raise Unsupported('is')

    def eq(self, a, b):
        if a is None or b is None:
            return self.is_none(b if a is None else a)
        if isinstance(a, TypeOf) or isinstance(a, Dotted):
            return self.is_(a, b)
        if isinstance(a, Opt) and isinstance(a.val, Group) and \
                a.val.name == 'sign' and b in ('+', '-'):
            neg = z3.Bool('negative')
            return And(a.cond, neg if b == '-' else Not(neg))
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, Sym):
            if a.k in ('int', 'num') or isinstance(b, (int, float)) and \
                    not isinstance(b, bool) or \
                    isinstance(b, Sym) and b.k in ('int', 'num'):
                return self.number(a) == self.number(b)
            if a.k == 'json' and isinstance(b, str):
                return And(tag(a.t) == T_STR, a.t == K(b))
            if a.k in ('json', 'val') and isinstance(b, Sym) and \
                    b.k in ('json', 'val'):
                return a.t == b.t
            if a.k in ('json', 'val') and isinstance(b, Str):
                return a.t == self.to_u(b)
            if a.k == 'bool' and isinstance(b, bool):
                return a.t == b
        if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
            r = self.same_text(a, b)
            if r is True:
                return True
            return self.to_u(a) == self.to_u(b)
        if isinstance(a, Ref) and plain(b) or plain(a) and isinstance(b, Ref):
            raise Unsupported('==')
        raise Unsupported('== of {!r} and {!r}'.format(a, b))

    def key_u(self, k):
        if isinstance(k, (str, Str)) or isinstance(k, Sym) and \
                k.k in ('json', 'val'):
            return self.to_u(k)
        raise Unsupported('key {!r}'.format(k))

    def contains(self, cont, x):
        cont = self.deref(cont)
        if isinstance(cont, Sym) and cont.k == 'json':
            if self.c.decide(tag(cont.t) == T_DICT):
                return has(cont.t, self.key_u(x))
            if self.c.decide(tag(cont.t) == T_LIST):
                raise Unsupported('in a list')
            raise PyRaise(TypeError)
        if isinstance(cont, Reg):
            return self.reg_has(cont, self.key_u(x))
        if isinstance(cont, (tuple, list)):
            rs = [self.eq(x, y) for y in cont]
            if all(isinstance(r, bool) for r in rs):
                return any(rs)
            return Or([boolean(r) for r in rs])
        raise Unsupported('in')

    def reg_has(self, r, k):
        self.link(r.name, k)
        return has(reg(r.name), k)

    def reg_get(self, r, k):
        i = inst(r.name, k)
        self.c.fact(Implies(has(reg(r.name), k), fn('idof', U, U)(i) == k))
        return SymInst(i, r.name)

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
                return rope(self.as_text(a), self.as_text(b))
        if plain(a) and plain(b) and not (isinstance(op, ast.Mod) and
                                          isinstance(a, str)):
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
                    ast.Mult: lambda: a * b,
                    ast.FloorDiv: lambda: a // b,
                    ast.Div: lambda: a / b,
                    ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b,
                    }[type(op)]()
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return self.percent(a, b)
        if isinstance(op, ast.Mult) and (plain(a) or plain(b)):
            r = self.number(a) * self.number(b)
            return Sym(r, 'num' if r.sort() == R else 'int')
        if isinstance(op, ast.Pow) and a == 10 and isinstance(b, Sym) and \
                b.k == 'int':
            for i in range(20):
                if self.c.decide(b.t == i):
                    return 10 ** i
            raise Unsupported('power')
        if isinstance(op, (ast.Add, ast.Sub)):
            x, y = self.number(a), self.number(b)
            r = x + y if isinstance(op, ast.Add) else x - y
            return Sym(r, 'num' if r.sort() == R else 'int')
        raise Unsupported('operator')

    def unary(self, op, v):
        if isinstance(op, ast.USub):
            x = self.number(v)
            return Sym(-x, 'num' if x.sort() == R else 'int')
        raise Unsupported('operator')

    # -------------------------------------------------------------- elements
    def elements(self, it):
        """The elements of a concrete iterable, or None."""
        if isinstance(it, View) and it.what == 'enum':
            els = self.elements(it.v)
            return None if els is None else list(enumerate(els))
        if isinstance(it, View):
            if isinstance(it.v, Ref):
                o = self.x.obj(it.v)
                if isinstance(o, Dct) and not any(isinstance(i, Seg)
                                                  for i in o.items):
                    i = {'keys': 0, 'values': 1}.get(it.what)
                    return [x if i is None else x[i] for x in o.items]
            return None
        if isinstance(it, (tuple, list)):
            return list(it)
        if isinstance(it, Ref):
            o = self.x.obj(it)
            if isinstance(o, (Lst, Dct)) and not any(
                    isinstance(i, Seg) for i in o.items):
                return list(o.items) if isinstance(o, Lst) else \
                    [i[0] for i in o.items]
        return None

    def source(self, it):
        """(kind, symbolic collection) of an iterable."""
        if isinstance(it, View) and it.what == 'enum':
            k, v = self.source(it.v)
            return ('enum-' + k, v)
        if isinstance(it, View):
            v = self.deref(it.v)
            if isinstance(v, Sym):
                if it.what == 'range' and not self.c.decide(
                        tag(v.t) == T_LIST):
                    raise Unsupported('range')
                return (it.what, v)
        it = self.deref(it)
        if isinstance(it, Sym) and it.k == 'json':
            if self.c.decide(tag(it.t) == T_LIST):
                return ('list', it)
            if self.c.decide(tag(it.t) == T_DICT):
                return ('keys', it)
            raise PyRaise(TypeError)
        if isinstance(it, Sym) and it.k == 'val':
            return self.val_source(it)
        raise Unsupported('iteration over {!r}'.format(it))

    def val_source(self, it):
        raise Unsupported('iteration over {!r}'.format(it))

    def element(self, src, idx):
        kind, v = src
        c = self.c
        if kind.startswith('enum-'):
            return (Sym(idx, 'int'), self.element((kind[5:], v), idx))
        if v.k == 'val':
            return self.val_element(src, idx)
        c.fact(And(idx >= 0, idx < blen(v.t)))
        if kind == 'list':
            return self.list_elem(v, idx)
        if kind == 'range':
            return Sym(idx, 'int')
        k = keyat(v.t, idx)
        c.fact(has(v.t, k))
        c.fact(tag(k) == T_STR)
        ks = self.key(v, k)
        child = self.dict_elem(v, k, self.ref_part(ks))
        return {'keys': ks, 'values': child, 'items': (ks, child)}[kind]

    def ref_part(self, k):
        """How a key appears in a reference."""
        return k if isinstance(k, str) else self.text_repr(k)

    def list_elem(self, v, idx):
        t = elem(v.t, idx)
        if v.node is None or v.node.kind != 'array':
            return Sym(t, 'json')
        child = self.typed(t, v.node.values, None if v.ref is None else
                           rope(v.ref, '/', Str((('i', idx), ))))
        self.c.fact(Implies(And(tag(v.t) == T_LIST, idx >= 0,
                                idx < blen(v.t), Not(ok(v.node.values, t))),
                            Not(allok(v.t))))
        return child

    def key(self, v, k):
        if v.node is not None and v.node.kind == 'registry':
            bad = Not(self.id_ok(v.node.name, k))
            c = self.c
            c.fact(Implies(And(tag(v.t) == T_DICT, has(v.t, k), bad),
                           Not(fn('allids', U, B)(v.t))))
            if v.ref is not None and self.ID_REFS:
                c.offenders += ((rope(v.ref, '/', Str((('r', k), ))),
                                 And(has(v.t, k), bad)), )
        return Sym(k, 'json')

    def id_ok(self, cls, k):
        p = self.sp.classes[cls].get('id_pattern')
        return z3.BoolVal(True) if p is None else self.match(p, k)

    def match(self, pattern, k):
        return fn('match ' + pattern, U, B)(k)

    def dict_elem(self, v, k, part):
        """The value under a key of a JSON object."""
        t = get(v.t, k)
        if v.node is None:
            return Sym(t, 'json')
        ref = None if v.ref is None else rope(v.ref, '/', part)
        if v.node.kind == 'map':
            self.c.fact(Implies(And(tag(v.t) == T_DICT, has(v.t, k),
                                    Not(ok(v.node.values, t))),
                                Not(allok(v.t))))
            return self.typed(t, v.node.values, ref)
        if v.node.kind == 'registry':
            self.c.fact(Implies(And(tag(v.t) == T_DICT, has(v.t, k),
                                    Not(ok(v.node.values, t))),
                                Not(fn('allinst', U, B)(v.t))))
            return self.typed(t, v.node.values, ref)
        if v.node.kind == 'root' and isinstance(part, str):
            for child in v.node.children:
                if child[0] == part:
                    return Sym(t, 'json', child[1], ref)
        return Sym(t, 'json')

    # --------------------------------------------------------------- typing
    def typed(self, t, node, ref, guard=None):
        """A JSON value of a type: its definitions are made available."""
        c = self.c
        v = Sym(t, 'json', node, ref)
        key = (t.get_id(), node.uid, self.ref_key(ref))
        if key in c.facts_done:
            return v
        c.facts_done.add(key)
        c.fact(blen(t) >= 0)
        if node.kind in ('embed', 'instance'):
            return v
        good, more, d = self.define(node, t)
        if node.kind == 'registry':
            pass
        else:
            c.fact(ok(node, t) == and_(good, more))
        for f in d:
            c.fact(f)
        if ref is not None:
            bad = Not(good)
            if guard is not None:
                bad = And(guard, bad)
            c.offenders += ((ref, bad), )
        return v

    def ref_key(self, ref):
        if not isinstance(ref, Str):
            return ref
        return tuple(p if isinstance(p, str) else (p[0], p[1].get_id())
                     for p in ref.parts)

    def bounds(self, t, x):
        out = []
        if 'minimum' in t:
            lo = real(t['minimum'])
            out.append(x > lo if t.get('exclusive_minimum') else x >= lo)
        if 'maximum' in t:
            hi = real(t['maximum'])
            out.append(x < hi if t.get('exclusive_maximum') else x <= hi)
        return out

    def define(self, node, t):
        """(conditions on the value itself, on its parts, definitions)"""
        k, s = node.kind, node.t
        d = [den(node, t) == t]
        if k == 'boolean':
            return tag(t) == T_BOOL, True, d
        if k == 'integer':
            # a boolean as a number is a known finding
            d.append(tag(t) != T_BOOL)
            return and_(tag(t) == T_INT, *self.bounds(s, num(t))), True, d
        if k == 'float':
            f = fn('float', U, U)(t)
            return (and_(Or(tag(t) == T_INT, tag(t) == T_REAL),
                         *self.bounds(s, num(t))), True,
                    [den(node, t) == f, num(f) == num(t),
                     tag(t) != T_BOOL])
        if k in ('string', 'path'):
            good = [tag(t) == T_STR]
            if 'pattern' in s:
                good.append(self.match(s['pattern'], t))
            if k == 'path' and self.settings['path_as'] == 'pathlib.Path':
                d = [den(node, t) == fn('path', U, U)(t)]
            return and_(*good), True, d
        if k in ('date', 'time', 'datetime'):
            f = self.format(s)
            p = fn('strptime ' + f, U, U)(t)
            if k != 'datetime':
                p = fn(k + '_of', U, U)(p)
            return (And(tag(t) == T_STR, fn('is ' + f, U, B)(t)), True,
                    [den(node, t) == p])
        if k == 'time_zone':
            if self.settings['timezone_as'] == 'str':
                return tag(t) == T_STR, True, d
            return (And(tag(t) == T_STR, fn('is_zone', U, B)(t)), True,
                    [den(node, t) == fn('zone', U, U)(t)])
        if k == 'duration':
            return (And(tag(t) == T_STR, fn('is_duration', U, B)(t)), True,
                    [den(node, t) == fn('duration', U, U)(t)])
        if k == 'class':
            self.link(node.name, t)
            return (And(tag(t) == T_STR, has(reg(node.name), t)), True,
                    [den(node, t) == inst(node.name, t)])
        if k == 'array':
            good = [tag(t) == T_LIST]
            if 'minimum_size' in s:
                good.append(blen(t) >= s['minimum_size'])
            if 'maximum_size' in s:
                good.append(blen(t) <= s['maximum_size'])
            return (and_(*good), allok(t),
                    [Implies(And(tag(t) == T_LIST, blen(t) == 0),
                             And(allok(t), den(node, t) == NIL))])
        if k == 'map':
            return (tag(t) == T_DICT, allok(t),
                    [Implies(And(tag(t) == T_DICT, blen(t) == 0),
                             And(allok(t), den(node, t) == NILD))])
        if k == 'registry':
            return (And(tag(t) == T_DICT, fn('allids', U, B)(t)), True, [])
        raise Unsupported('type {}'.format(k))

    def format(self, s):
        f = s.get('format', DEFAULT_FORMAT[s['type']])
        return re.sub('%.', lambda x: SAME_TEXT.get(x.group(), x.group()), f)

    def link(self, cls, k):
        """What the registry of a class contains."""
        if self.root is not None and self.root[0] == 'graph':
            v = self.root_sym.t
            kr = K(self.sp.registry[cls])
            rv = get(v, kr)
            self.c.fact(has(reg(cls), k) == And(
                has(v, kr), tag(rv) == T_DICT, has(rv, k)))
            self.c.fact(Implies(has(reg(cls), k), tag(k) == T_STR))

    # ------------------------------------------------------------- composite
    def unfold(self, kind, name, ref):
        """The value under contract, of a composite."""
        c = self.c
        sp = self.sp
        comp = sp.comp(kind, name)
        self.root = (kind, name)
        self.comp = comp
        t = const('value')
        node = Node('root', 'root')
        node.children = []
        v = Sym(t, 'json', node, ref)
        self.root_sym = v
        c.fact(blen(t) >= 0)
        self.okp, self.absent, self.prop_node = {}, {}, {}
        oks, missing = [tag(t) == T_DICT], []
        for n, p in sp.props(comp):
            j = p.get('json', n)
            k = K(j)
            child = get(t, k)
            pn = sp.node(p)
            node.children.append((j, pn))
            absent = self.is_absent(t, k, child)
            r = rope(ref, '/', j)
            self.typed(child, pn, r, And(tag(t) == T_DICT, Not(absent)))
            if p.get('optional', False):
                self.okp[n] = Or(absent, ok(pn, child))
            else:
                self.okp[n] = And(Not(absent), ok(pn, child))
                missing.append(absent)
            self.absent[n] = absent
            self.prop_node[n] = (pn, child, p)
            oks.append(self.okp[n])
        c.offenders += ((ref, Not(tag(t) == T_DICT)), )
        if missing:
            c.offenders += ((ref, And(tag(t) == T_DICT, Or(missing))), )
        self.okr = {}
        if kind == 'graph':
            for n in sp.classes:
                kr = K(sp.registry[n])
                rv = get(t, kr)
                rn = sp.regnode[n]
                node.children.append((sp.registry[n], rn))
                self.registry_facts(n, t, kr, rv)
                self.typed(rv, rn, rope(ref, '/', sp.registry[n]),
                           And(tag(t) == T_DICT, has(t, kr)))
                self.okr[n] = Or(Not(has(t, kr)), And(
                    tag(rv) == T_DICT, fn('allids', U, B)(rv),
                    fn('allinst', U, B)(rv)))
                oks.append(self.okr[n])
                c.fact(Implies(Not(has(t, kr)), And(
                    reg(n) == NILD, done(n))))
        uid = {'graph': 'G', 'class': 'C_{}'.format(name),
               'embed': 'E_{}'.format(name)}[kind]
        self.root_ok = fn('ok_' + uid, U, B)(t)
        c.fact(self.root_ok == And(oks))
        return v

    def is_absent(self, t, k, child):
        return Or(Not(has(t, k)), tag(child) == T_NONE)

    def registry_facts(self, n, t, kr, rv):
        # null as a registry is a known finding
        self.c.fact(Implies(has(t, kr), tag(rv) != T_NONE))

    def denp(self, n):
        pn, child, _ = self.prop_node[n]
        return If(self.absent[n], NONE, den(pn, child))

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name):
        if isinstance(v, Ref):
            o = self.x.obj(v)
            if isinstance(o, Inst):
                if name in o.attrs:
                    return o.attrs[name]
                raise PyRaise(AttributeError)
            if o is DEAD:
                raise Unsupported('object after a cut point')
            return Method(v, name)
        if isinstance(v, SymInst) and name == 'id':
            return Sym(fn('idof', U, U)(v.t), 'val')
        v = self.deref(v)
        return Method(v, name)

    def setattr(self, o, name, v):
        c = self.c
        if isinstance(o, Ref) and isinstance(self.x.obj(o), Inst):
            c.write(o.oid, self.x.obj(o).set(name, v))
            return
        if isinstance(o, SymInst) and name == 'id':
            self.x.obligation('the instance keeps its identifier',
                              self.to_u(v) == fn('idof', U, U)(o.t))
            return
        raise Unsupported('attribute {} of {!r}'.format(name, o))

    def getitem(self, o, k):
        o = self.deref(o)
        c = self.c
        if isinstance(o, Sym) and o.k == 'json':
            if isinstance(k, (str, Str)) or isinstance(k, Sym) and \
                    k.k == 'json':
                if not c.decide(tag(o.t) == T_DICT):
                    raise PyRaise(TypeError)
                ku = self.key_u(k)
                if not c.decide(has(o.t, ku)):
                    raise PyRaise(KeyError)
                return self.dict_elem(o, ku, self.ref_part(k))
            if isinstance(k, Sym) and k.k == 'int' or isinstance(k, int):
                i = k.t if isinstance(k, Sym) else z3.IntVal(k)
                if not c.decide(tag(o.t) == T_LIST):
                    raise PyRaise(TypeError)
                if not c.decide(And(i >= 0, i < blen(o.t))):
                    raise PyRaise(IndexError)
                return self.list_elem(o, i)
        if isinstance(o, Reg):
            ku = self.key_u(k)
            if not c.decide(self.reg_has(o, ku)):
                raise PyRaise(KeyError)
            return self.reg_get(o, ku)
        if isinstance(o, (tuple, list)) and plain(k):
            return o[k]
        raise Unsupported('item of {!r}'.format(o))

    def setitem(self, o, k, v):
        if isinstance(o, Ref) and isinstance(self.x.obj(o), Dct):
            d = self.x.obj(o)
            self.c.write(o.oid, Dct(d.items + ((k, v), )))
            return
        raise Unsupported('item assignment to {!r}'.format(o))

    def slice(self, o, lo, hi, step):
        raise Unsupported('slice')

    # --------------------------------------------------------------- methods
    def method(self, o, name, args, kwargs):
        o = self.deref(o)
        c = self.c
        if isinstance(o, Errs):
            return self.errors(name, args, kwargs)
        if isinstance(o, str):
            if name == 'join' and len(args) == 1:
                els = self.elements(args[0])
                if els is None:
                    return self.opaque_text()
                out = []
                for i, e in enumerate(els):
                    if i:
                        out.append(o)
                    out.append(self.as_text(e))
                return rope(*out)
            if name == 'format':
                return self.format_text(o, args, kwargs)
        if isinstance(o, Sym) and o.k == 'json':
            if name == 'get':
                if not c.decide(tag(o.t) == T_DICT):
                    raise PyRaise(AttributeError)
                k = args[0]
                ku = self.key_u(k)
                d = args[1] if len(args) > 1 else kwargs.get('default')
                if not c.decide(has(o.t, ku)):
                    return d
                return self.dict_elem(o, ku, self.ref_part(k))
            if name in ('items', 'keys', 'values'):
                if not c.decide(tag(o.t) == T_DICT):
                    raise PyRaise(AttributeError)
                return View(o, name)
        if isinstance(o, Regex):
            if name == 'match' and len(args) == 1:
                return self.n_re_match(o.pattern, args[0])
        if isinstance(o, Opt) and isinstance(o.val, (Match, Group)):
            if not c.decide(o.cond):
                raise PyRaise(AttributeError)
            o = o.val
        if isinstance(o, Match) and name == 'group' and len(args) == 1:
            if args[0] == 'sign' or args[0] == 'fraction' or \
                    args[0] in UNITS:
                return Opt(present(args[0]), Group(args[0]))
            raise Unsupported('group {!r}'.format(args[0]))
        if isinstance(o, Group) and o.name == 'fraction' and \
                name == 'lstrip' and args == ['0']:
            return Group('stripped')
        if isinstance(o, Reg):
            if name == 'get':
                ku = self.key_u(args[0])
                if not c.decide(self.reg_has(o, ku)):
                    return args[1] if len(args) > 1 else None
                return self.reg_get(o, ku)
        if isinstance(o, Ref):
            h = self.x.obj(o)
            if isinstance(h, Lst) and name == 'append' and len(args) == 1:
                c.write(o.oid, Lst(h.items + (args[0], )))
                return None
            if isinstance(h, Dct) and name in ('items', 'keys', 'values'):
                return View(o, name)
        if isinstance(o, Sym) and o.k == 'val':
            return self.val_method(o, name, args, kwargs)
        raise Unsupported('method {} of {!r}'.format(name, o))

    def val_method(self, o, name, args, kwargs):
        if name in ('date', 'time') and not args and not kwargs:
            return Sym(fn(name + '_of', U, U)(o.t), 'val')
        raise Unsupported('method {}'.format(name))

    def format_text(self, s, args, kwargs):
        import string
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            out.append(lit)
            if field is None:
                continue
            if field == '':
                if auto >= len(args):
                    raise PyRaise(IndexError)
                v = args[auto]
                auto += 1
            elif field.isdigit():
                if int(field) >= len(args):
                    raise PyRaise(IndexError)
                v = args[int(field)]
            elif field.isidentifier():
                if field not in kwargs:
                    raise PyRaise(KeyError)
                v = kwargs[field]
            else:
                return self.opaque_text()
            if spec:
                out.append(self.spec_text(v, spec))
            elif conv == 'r':
                out.append(self.text_repr(v))
            elif isinstance(v, Sym) and v.k == 'json':
                # only its text matters: no case distinction
                out.append(Str((('s', v.t), )))
            else:
                out.append(self.text(v))
        return rope(*out)

    # ---------------------------------------------------------------- errors
    def errors(self, name, args, kwargs):
        c = self.c
        n, cap = c.store['n'], c.store['cap']
        if name == 'add':
            if len(args) + len(kwargs) != 2:
                raise PyRaise(TypeError)
            ref = args[0] if args else kwargs['ref']
            self.add_error(ref)
            return None
        if args or kwargs:
            raise PyRaise(TypeError)
        if name == 'full':
            return Sym(boolean(n == cap), 'bool')
        if name == 'empty':
            return Sym(boolean(n == 0), 'bool')
        if name == 'count':
            return Sym(n if not isinstance(n, int) else z3.IntVal(n), 'int')
        raise Unsupported('errors.{}'.format(name))

    def add_error(self, ref):
        c = self.c
        n, cap = c.store['n'], c.store['cap']
        good = []
        for r, bad in c.offenders:
            same = self.same_text(r, ref)
            if same is False:
                continue
            good.append(bad if same is True else And(same, bad))
        if not isinstance(ref, (str, Str)):
            good = []
        self.x.obligation('an error is reported only at an offending part',
                          Or(good) if good else z3.BoolVal(False))
        self.x.obligation('an error is reported only if the value does not '
                          'conform', Not(self.root_ok))
        n2 = c.fresh('n_add', I)
        c.fact(n2 == If(n < cap, n + 1, n))
        c.write('n', n2)

    # --------------------------------------------------------------- natives
    def native(self, path, args, kwargs):
        f = getattr(self, 'n_' + path.replace('.', '_'), None)
        if f is None:
            cls = None
            try:
                cls = self.x.real_class(Dotted(path))
            except Unsupported:
                pass
            if isinstance(cls, type) and issubclass(cls, BaseException):
                return Sym(self.c.fresh('exc', U), 'val')
            raise Unsupported('call of {}'.format(path))
        return f(*args, **kwargs)

    def n_isinstance(self, v, cls):
        r = self.isinstance_(v, cls)
        return r if isinstance(r, bool) else Sym(r, 'bool')

    def isinstance_(self, v, cls, exact=False):
        if isinstance(cls, tuple):
            rs = [self.isinstance_(v, x) for x in cls]
            if all(isinstance(r, bool) for r in rs):
                return any(rs)
            return Or([boolean(r) for r in rs])
        if not isinstance(cls, Dotted):
            raise Unsupported('isinstance')
        p = cls.path
        if isinstance(v, Sym) and v.k == 'json':
            t = v.t
            if p == 'int':
                return tag(t) == T_INT if exact else \
                    Or(tag(t) == T_INT, tag(t) == T_BOOL)
            if p == 'collections.OrderedDict':
                return And(tag(t) == T_DICT, fn('is_ordered', U, B)(t))
            if p == 'dict' and exact:
                return And(tag(t) == T_DICT, Not(fn('is_ordered', U, B)(t)))
            m = {'bool': T_BOOL, 'float': T_REAL, 'str': T_STR,
                 'list': T_LIST, 'dict': T_DICT,
                 'collections.abc.Mapping': T_DICT,
                 'typing.Mapping': T_DICT}
            if p in m:
                return tag(t) == m[p]
            if p in ('tuple', 'bytes', 'set', 'complex'):
                return False
        if isinstance(v, (str, Str)):
            return p == 'str'
        if plain(v):
            import builtins
            if hasattr(builtins, p):
                return isinstance(v, getattr(builtins, p))
        raise Unsupported('isinstance({!r}, {})'.format(v, p))

    def n_type(self, v):
        return TypeOf(v)

    def n_str(self, v=''):
        return self.text(v)

    def n_repr(self, v):
        return self.text_repr(v)

    def n_len(self, v):
        g = self.present_group(v)
        if g is not None and g.name == 'fraction':
            return Sym(FRAC_LEN, 'int')
        if isinstance(v, Sym) and v.k == 'json':
            if self.c.decide(Or(tag(v.t) == T_LIST, tag(v.t) == T_DICT)):
                return Sym(blen(v.t), 'int', ('len', v))
            if self.c.decide(tag(v.t) == T_STR):
                return Sym(self.c.fresh('strlen', I), 'int')
            raise PyRaise(TypeError)
        if plain(v):
            return len(v)
        if isinstance(v, Ref):
            o = self.x.obj(v)
            if isinstance(o, (Lst, Dct)) and not any(
                    isinstance(i, Seg) for i in o.items):
                return len(o.items)
            if isinstance(o, Lst):
                n = 0
                for i in o.items:
                    n = n + (blen(i.t) if isinstance(i, Seg) else 1)
                return Sym(n, 'int')
        raise Unsupported('len')

    def n_range(self, *args):
        v = args[-1]
        if len(args) == 2 and args[0] == 0 or len(args) == 1:
            if isinstance(v, Sym) and isinstance(v.node, tuple) and \
                    v.node[0] == 'len':
                return View(v.node[1], 'range')
            if plain(v):
                return tuple(range(v))
        raise Unsupported('range')

    def n_iter(self, v):
        return View(v, 'iter')

    def n_float(self, v):
        if isinstance(v, Sym) and v.k == 'json':
            if self.c.decide(Or(tag(v.t) == T_INT, tag(v.t) == T_REAL)):
                f = fn('float', U, U)(v.t)
                self.c.fact(num(f) == num(v.t))
                return Sym(f, 'val', node='float')
        g = self.present_group(v)
        if g is not None and g.name in UNITS:
            return Sym(gnum(g.name), 'num')
        if plain(v) and not isinstance(v, str):
            return float(v)
        raise Unsupported('float')

    def n_bool(self, v):
        r = self.truth(v)
        return r if isinstance(r, bool) else Sym(r, 'bool')

    def n_enumerate(self, v, start=0):
        if start != 0:
            raise Unsupported('enumerate from {!r}'.format(start))
        return View(v, 'enum')

    def n_dict(self, *args, **kwargs):
        if args or kwargs:
            raise Unsupported('dict(...)')
        return self.x.new(Dct())

    n_collections_OrderedDict = n_dict

    def n_list(self, *args):
        if args:
            raise Unsupported('list(...)')
        return self.x.new(Lst())

    def n_re_match(self, pattern, v, flags=0):
        if not isinstance(pattern, str) or flags != 0:
            raise Unsupported('pattern')
        v = self.as_text(v)
        if 'sign' in pattern:
            if regex_tree(pattern) != regex_tree(DURATION):
                raise Unsupported('grammar of durations')
            return Opt(z3.Bool('in the grammar'), Match())
        return Opt(self.match(pattern, self.to_u(v)))

    def n_re_compile(self, pattern):
        if not isinstance(pattern, str):
            raise Unsupported('pattern')
        return Regex(pattern)

    def present_group(self, v):
        if isinstance(v, Opt) and isinstance(v.val, Group):
            if not self.c.decide(v.cond):
                raise PyRaise(TypeError)
            v = v.val
        return v if isinstance(v, Group) else None

    def n_int(self, v):
        g = self.present_group(v)
        if g is not None:
            if g.name == 'seconds':
                return Sym(gnum(g.name), 'num')
            if g.name == 'fraction':
                return Sym(FRAC, 'int')
            if g.name == 'stripped':
                if not self.c.decide(FRAC > 0):
                    raise PyRaise(ValueError)
                return Sym(FRAC, 'int')
            raise Unsupported('int() of a group')
        if isinstance(v, Sym) and v.k == 'int':
            return v
        if plain(v) and not isinstance(v, str):
            return int(v)
        raise Unsupported('int')

    def n_datetime_timedelta(self, days=0, seconds=0, microseconds=0,
                             milliseconds=0, minutes=0, hours=0, weeks=0):
        t = real(0)
        for x, u in ((days, '86400'), (seconds, '1'),
                     (microseconds, '1/1000000'), (milliseconds, '1/1000'),
                     (minutes, '60'), (hours, '3600'), (weeks, '604800')):
            t = t + self.number(x) * z3.RealVal(u)
        t = z3.simplify(t)
        small = z3.is_rational_value(t) and \
            abs(t.as_fraction()) < 999999999 * 86400
        if not small and self.c.decide(fn('beyond', R, B)(t)):
            raise PyRaise(OverflowError)
        return Sym(t, 'num', node='timedelta')

    def n_datetime_datetime_strptime(self, v, fmt):
        if not isinstance(fmt, str):
            raise Unsupported('format')
        v = self.as_text(v)
        u = self.to_u(v)
        if not self.c.decide(fn('is ' + fmt, U, B)(u)):
            raise PyRaise(ValueError)
        return Sym(fn('strptime ' + fmt, U, U)(u), 'val')

    def n_pathlib_Path(self, v):
        return Sym(fn('path', U, U)(self.to_u(self.as_text(v))), 'val')

    def n_pytz_timezone(self, v):
        import pytz
        u = self.to_u(self.as_text(v))
        if not self.c.decide(fn('is_zone', U, B)(u)):
            raise PyRaise(pytz.UnknownTimeZoneError)
        return Sym(fn('zone', U, U)(u), 'val')

    # ----------------------------------------------------------------- loops
    def hypothesis(self, v):
        """What may hold of a variable before every iteration, given its
        value before the loop."""
        return None

    def empty_source(self, src):
        v = src[1]
        return blen(v.t) == 0

    def loop_goals(self, src):
        v = src[1]
        if v.node is None or v.node == 'any':
            return ()
        k = v.node.kind
        if k in ('array', 'map'):
            return ('items', )
        if k == 'registry':
            return ('ids', 'inst', 'parsed')
        return ()

    def loop_goal(self, g, src, idx):
        v = src[1]
        if v.node.kind == 'array':
            return ok(v.node.values, elem(v.t, idx))
        k = keyat(v.t, idx)
        if g == 'ids':
            return self.id_ok(v.node.name, k)
        if g == 'parsed':
            for e in self.c.events:
                if e[0] == v.node.name and self.c.must(And(
                        e[1] == inst(v.node.name, k),
                        e[2] == get(v.t, k))):
                    return z3.BoolVal(True)
            return z3.BoolVal(False)
        return ok(v.node.values, get(v.t, k))

    def loop_conclusion(self, g, src):
        v = src[1]
        if g == 'items':
            return allok(v.t)
        if g == 'ids':
            return fn('allids', U, B)(v.t)
        if g == 'inst':
            return fn('allinst', U, B)(v.t)
        return done(v.node.name)

    def delta(self, src, idx, items, erred):
        """What one iteration adds to a collection: a set of kinds."""
        c = self.c
        v = src[1]
        node = v.node
        if c.must(erred):
            return {'den', 'registry'}
        if len(items) != 1 or isinstance(items[0], Seg) or node is None or \
                node == 'any':
            return set()
        it = items[0]
        try:
            if node.kind == 'array':
                if isinstance(it, tuple):
                    return set()
                good = self.to_u(it) == den(node.values, elem(v.t, idx))
                return {'den'} if c.must(Or(erred, good)) else set()
            k = keyat(v.t, idx)
            if not isinstance(it, tuple) or not c.must(
                    Or(erred, self.to_u(it[0]) == k)):
                return set()
            if node.kind == 'map':
                good = self.to_u(it[1]) == den(node.values, get(v.t, k))
                return {'den'} if c.must(Or(erred, good)) else set()
            if node.kind == 'registry':
                if self.is_placeholder(it[1], node.name, k) and \
                        not c.must(done(node.name)):
                    return {'registry'}
        except Unsupported:
            pass
        return set()

    def is_placeholder(self, v, cls, k):
        if not isinstance(v, Ref):
            return False
        o = self.x.obj(v)
        if not isinstance(o, Inst) or o.cls != self.name_of('class', cls) or \
                'id' not in o.attrs:
            return False
        if not self.c.must(Or(self.c.store['n'] > 0,
                              self.to_u(o.attrs['id']) == k)):
            return False
        return self.optional_none(o, self.sp.classes[cls])

    def optional_none(self, o, comp):
        for n, p in self.sp.props(comp):
            a = self.attr_name(n)
            if a not in o.attrs:
                return False
            if p.get('optional', False) and o.attrs[a] is not None:
                return False
        return True

    def acc_facts(self, kind, src, s):
        v = src[1]
        if kind == 'den' and v.node.kind in ('array', 'map'):
            return [s == den(v.node, v.t)]
        if kind == 'registry' and v.node.kind == 'registry':
            return [s == reg(v.node.name)]
        return []

    # ---------------------------------------------------------------- names
    def name_of(self, kind, name):
        import mapry.py.naming as pn
        return pn.as_composite(name)

    def attr_name(self, n):
        import mapry.py.naming as pn
        return pn.as_attribute(n)

    def reg_param(self, cls):
        import mapry.py.naming as pn
        return pn.as_variable(self.sp.plural[cls]) + '_registry'

    def reg_attr(self, cls):
        import mapry.py.naming as pn
        return pn.as_attribute(self.sp.plural[cls])

    def var(self, name):
        import mapry.py.naming as pn
        return pn.as_variable(name)

    # ------------------------------------------------------------- contracts
    def contract(self, mod, name):
        if mod == self.x.base + '.fromjsonable':
            for kind, names in (('class', self.sp.classes),
                                ('embed', self.sp.embeds)):
                for n in names:
                    if name == '_{}_from'.format(self.var(n)):
                        return lambda a, k=kind, n=n: self.parse_contract(
                            k, n, a)
            if name == '_duration_from_string':
                return self.duration_contract
        return None

    def duration_contract(self, args):
        u = self.to_u(self.as_text(args['text']))
        if not self.c.decide(fn('is_duration', U, B)(u)):
            if self.c.decide(fn('is_overflow', U, B)(u)):
                raise PyRaise(OverflowError)
            raise PyRaise(ValueError)
        return Sym(fn('duration', U, U)(u), 'val')

    def parse_contract(self, kind, name, a):
        c = self.c
        x = self.x
        sp = self.sp
        comp = sp.comp(kind, name)
        node = (sp.instance if kind == 'class' else sp.embed)[name]
        v, target = a['value'], a['target']
        if not isinstance(v, Sym) or v.k != 'json':
            raise Unsupported('value of a call')
        what = 'call of _{}_from: '.format(self.var(name))
        x.obligation(what + 'errors', isinstance(a['errors'], Errs))
        for n in sp.classes:
            p = self.reg_param(n)
            if p in a:
                x.obligation(what + 'registry of ' + n,
                             self.to_u(a[p]) == reg(n))
        if v.node is not None and v.ref is not None:
            same = self.same_text(v.ref, a['ref']) if isinstance(
                a['ref'], (str, Str)) else False
            x.obligation(what + 'reference', same)
        okv = ok(node, v.t)
        n0 = c.store['n']
        x.obligation(what + 'the part conforms if the value does',
                     Or(okv, Not(self.root_ok)))
        n1 = c.fresh('n_call', I)
        c.fact(And(n1 >= n0, n1 <= c.store['cap']))
        c.fact(Implies(n1 > n0, Not(okv)))
        c.fact(Or(n1 > 0, okv))
        c.write('n', n1)
        if isinstance(target, SymInst) and kind == 'class':
            x.obligation(what + 'class of the target', target.cls == name)
            c.events += ((name, target.t, v.t), )
            return None
        if isinstance(target, Ref) and isinstance(x.obj(target), Inst):
            o = x.obj(target)
            x.obligation(what + 'the target is a placeholder',
                         o.cls == self.name_of(kind, name) and
                         self.optional_none(o, comp))
            attrs = dict(o.attrs)
            for n, _ in sp.props(comp):
                attrs[self.attr_name(n)] = Sym(
                    c.fresh('parsed_' + n, U), 'val', node='any')
            e = c.fresh('parsed', U)
            c.fact(Or(n1 > 0, e == den(node, v.t)))
            c.write(target.oid, Inst(o.cls, attrs, e))
            return None
        raise Unsupported('target of a call')


# --------------------------------------------------------------- verification
FIXED = {}


class ParseCheck:
    """Verifies the functions of a generated fromjsonable module."""

    def __init__(self, m, files, limit=60):
        self.m = m
        self.sp = Spec(m)
        self.base = m['py']['module_name']
        self.limit = limit
        self.modules = self.load(files)

    def load(self, files):
        mods = {}
        parts = self.base.split('.')
        for i in range(1, len(parts)):
            p = '.'.join(parts[:i])
            mods[p] = gv.Module(p, '')
        for f, p in (('__init__.py', self.base),
                     ('parse.py', self.base + '.parse'),
                     ('fromjsonable.py', self.base + '.fromjsonable'),
                     ('tojsonable.py', self.base + '.tojsonable')):
            mods[p] = gv.Module(p, files[f])
        return mods

    def executor(self, th=None):
        import time
        ctx = gv.GCtx(deadline=time.time() + self.limit)
        th = th or Theory(self.sp, self.m['py'])
        x = gv.Gen(ctx, self.modules, self.base, th)
        cap = z3.Int('cap')
        ctx.fact(cap >= 1)
        ctx.store['cap'] = cap
        return x, th

    def functions(self):
        for kind, names in (('class', self.sp.classes),
                            ('embed', self.sp.embeds)):
            for n in names:
                yield 'inner', kind, n
                yield 'outer', kind, n
        yield 'graph', 'graph', None
        yield 'errors', None, 'Errors'
        if '_duration_from_string' in self.modules[
                self.base + '.fromjsonable'].names:
            yield 'duration', None, '_duration_from_string'

    def title(self, th, what, kind, name):
        var = th.var(name or self.m['name'])
        return '_{}_from'.format(var) if what == 'inner' else \
            '{}_from'.format(var)

    def source(self, name):
        """The text that the verification of a fixed part depends on."""
        mods = [self.modules[self.base + '.' + x]
                for x in ('parse', 'fromjsonable')]
        names = ['Errors', 'Error'] if name == 'Errors' else [
            name, '_DURATION_RE']
        return tuple(ast.unparse(m.names[n]) for n in names for m in mods
                     if isinstance(m.names.get(n), ast.AST)) + tuple(
                         ast.unparse(st) for m in mods for st in m.tree.body
                         if isinstance(st, (ast.Import, ast.ImportFrom))
                         and not self.base in ast.unparse(st))

    def verify_all(self):
        """[(function, status, detail, obligations, seconds)]"""
        import time
        out = []
        for what, kind, name in self.functions():
            t0 = time.time()
            if kind is None:
                key = self.source(name)
                if key in FIXED:
                    out.append(FIXED[key])
                    continue
            x, th = self.executor()
            fname = name if kind is None else self.title(
                th, what, kind, name)
            x.func = fname
            try:
                getattr(self, 'verify_' + what)(x, th, kind, name, fname)
                status = 'proved'
            except Unsupported as e:
                x.failures[(fname, 'unsupported: {}'.format(e),
                            x.line)] = 'undecided'
            except PyRaise as e:
                x.failures[(fname, 'raises {}'.format(e.cls.__name__),
                            x.line)] = 'undecided'
            if x.failures:
                status = 'refuted' if 'refuted' in x.failures.values() \
                    else 'undecided'
            if not x.failures and not x.done:
                status = 'undecided'
            detail = '; '.join('{} ({} at line {})'.format(k[1], s, k[2])
                               for k, s in x.failures.items())
            out.append((fname, status, detail, len(x.done),
                        time.time() - t0))
            if kind is None:
                FIXED[key] = out[-1][:4] + (0., )
        return out

    def find(self, fname):
        mod = self.modules[self.base + '.fromjsonable']
        d = mod.names.get(fname)
        if not isinstance(d, ast.FunctionDef):
            raise Unsupported('no function {}'.format(fname))
        return Code(d, mod)

    def args(self, code, given):
        names = [a.arg for a in code.node.args.args +
                 code.node.args.kwonlyargs]
        if not set(names) <= set(given):
            raise Unsupported('parameters {}'.format(names))
        return {n: given[n] for n in names}

    def registries(self, th):
        return {th.reg_param(n): Reg(n) for n in self.sp.classes}

    def property_facts(self, x, th, target):
        """Assertions about the attributes of the target."""
        out = {}
        n = x.n()
        o = x.obj(target)
        for p, _ in self.sp.props(th.comp):
            a = th.attr_name(p)
            try:
                f = th.to_u(o.attrs[a]) == th.denp(p)
            except (Unsupported, KeyError):
                f = z3.BoolVal(False)
            out['property ' + p] = Or(n > 0, And(th.okp[p], f))
        if th.root[0] == 'graph':
            for c in self.sp.classes:
                try:
                    f = th.reg_u(o.attrs[th.reg_attr(c)]) == reg(c)
                except (Unsupported, KeyError):
                    f = z3.BoolVal(False)
                out['registry of ' + c] = Or(n > 0, f)
                out['instances of ' + c] = Or(n > 0, And(done(c),
                                                         th.okr[c]))
        out['the value is an object'] = Or(n > 0, tag(
            th.root_sym.t) == T_DICT)
        return out

    def candidates(self, x, th, target):
        out = self.property_facts(x, th, target)
        n, cap = x.n(), x.c.store['cap']
        out['no errors'] = boolean(n == 0)
        out['not full'] = boolean(n != cap)
        if th.root[0] == 'graph':
            t = th.root_sym.t
            for c in self.sp.classes:
                kr = K(self.sp.registry[c])
                rv = get(t, kr)
                try:
                    out['still registry of ' + c] = th.reg_u(
                        x.obj(target).attrs[th.reg_attr(c)]) == reg(c)
                except (Unsupported, KeyError):
                    out['still registry of ' + c] = z3.BoolVal(False)
                out['allids ' + c] = Or(n > 0, Not(has(t, kr)), And(
                    tag(rv) == T_DICT, fn('allids', U, B)(rv)))
                out['attr allids ' + c] = Or(n > 0, Not(has(t, kr)),
                                             tag(rv) == T_DICT)
        return out

    def verify_inner(self, x, th, kind, name, fname):
        c = x.c
        code = self.find(fname)
        ref = Str((('p', const('ref')), ))
        n0 = z3.Int('n0')
        c.fact(And(n0 >= 0, n0 <= c.store['cap']))
        c.store['n'] = n0
        value = th.unfold(kind, name, ref)
        attrs = {}
        for n, p in self.sp.props(th.comp):
            attrs[th.attr_name(n)] = None if p.get('optional', False) else \
                Sym(c.fresh('old_' + n, U), 'val', node='any')
        if kind == 'class':
            attrs['id'] = Sym(const('id'), 'json')
        target = x.new(Inst(th.name_of(kind, name), attrs))
        given = dict(value=value, ref=ref, target=target, errors=Errs())
        given.update(self.registries(th))
        fr = x.enter(code, self.args(code, given))

        def on_exit(how, r):
            if how == 'raise':
                x.obligation('raises nothing ({})'.format(r.cls.__name__),
                             z3.BoolVal(False))
                return
            for k, f in self.property_facts(x, th, target).items():
                x.obligation(k, f)
            o = x.obj(target)
            if kind == 'class':
                x.obligation('the identifier is kept',
                             th.to_u(o.attrs['id']) == const('id'))

        x.cut_body(code.node.body, fr, on_exit,
                   lambda: self.candidates(x, th, target), [target])

    def verify_outer(self, x, th, kind, name, fname):
        c = x.c
        code = self.find(fname)
        ref = Str((('p', const('ref')), ))
        c.store['n'] = z3.IntVal(0)
        node = (self.sp.instance if kind == 'class' else self.sp.embed)[name]
        value = Sym(const('value'), 'json', node, ref)
        th.root = (kind, name)
        th.root_ok = ok(node, value.t)
        th.comp = self.sp.comp(kind, name)
        ident = Sym(const('id'), 'json')
        given = dict(value=value, ref=ref, errors=Errs(), id=ident)
        given.update(self.registries(th))
        fr = x.enter(code, self.args(code, given))

        def run():
            try:
                x.exec_body(code.node.body, fr)
                r = None
            except ReturnX as e:
                r = e.v
            except PyRaise as e:
                x.obligation('raises nothing ({})'.format(e.cls.__name__),
                             z3.BoolVal(False))
                return
            n = x.n()
            if r is None:
                x.obligation('None is returned only if there are errors',
                             n > 0)
                return
            x.obligation('something is returned only if there are no errors',
                         boolean(n == 0))
            good = isinstance(r, Ref) and isinstance(x.obj(r), Inst) and \
                x.obj(r).cls == th.name_of(kind, name)
            x.obligation('the returned object denotes the value',
                         th.to_u(r) == den(node, value.t) if good else
                         z3.BoolVal(False))
            if kind == 'class' and good:
                x.obligation('the identifier is set', th.to_u(
                    x.obj(r).attrs['id']) == ident.t)

        c.explore(run, label='outer')

    def verify_errors(self, x, th, kind, name, fname):
        """The container of errors is its number of errors and its cap."""
        c = x.c
        mod = self.modules[self.base + '.parse']
        cls = mod.names.get('Errors')
        if not isinstance(cls, ast.ClassDef):
            raise Unsupported('no class Errors')
        methods = {d.name: d for d in cls.body
                   if isinstance(d, ast.FunctionDef)}
        c.store['n'] = z3.IntVal(0)
        cap = c.store['cap']

        def call(name, o, *args):
            if name not in methods:
                raise Unsupported('no method {}'.format(name))
            return x.inline(Code(methods[name], mod), [o] + list(args), {})

        def state(o, items):
            a = x.obj(o).attrs
            x.obligation('the cap is kept', isinstance(
                a.get('cap'), Sym) and a['cap'].t.eq(cap))
            v = a.get('_values')
            x.obligation('the errors in order', isinstance(v, Ref) and
                         isinstance(x.obj(v), Lst) and
                         len(x.obj(v).items) == len(items) and
                         all(i is j for i, j in zip(x.obj(v).items, items)))

        def created():
            o = x.new(Inst('Errors', {}))
            call('__init__', o, Sym(cap, 'int'))
            state(o, [])

        def some(full=None):
            s = Seg(c.fresh('errors', U))
            c.fact(And(blen(s.t) >= 0, blen(s.t) <= cap))
            o = x.new(Inst('Errors', {'cap': Sym(cap, 'int'),
                                      '_values': x.new(Lst([s]))}))
            return o, s, blen(s.t)

        def added():
            o, s, n = some()
            ref, message = Sym(const('ref'), 'json'), Sym(const('m'), 'json')
            call('add', o, ref, message)
            a = x.obj(o).attrs
            items = x.obj(a['_values']).items
            if len(items) == 1:
                x.obligation('an error is ignored only if full',
                             n == cap)
                state(o, [s])
                return
            x.obligation('an error is added only if not full', n < cap)
            state(o, [s, items[-1]])
            e = items[-1]
            good = isinstance(e, Ref) and isinstance(x.obj(e), Inst)
            attrs = x.obj(e).attrs if good else {}
            x.obligation('the reference of the error',
                         attrs.get('ref') is ref)
            x.obligation('the message of the error',
                         attrs.get('message') is message)

        def asked():
            o, s, n = some()
            x.obligation('full', boolean(th.truth(call('full', o))) ==
                         (n == cap))
            x.obligation('empty', boolean(th.truth(call('empty', o))) ==
                         (n == 0))
            k = call('count', o)
            x.obligation('count', isinstance(k, Sym) and k.t == n)
            v = call('values', o)
            v = v.v if isinstance(v, View) and v.what == 'iter' else v
            x.obligation('the values', isinstance(v, Ref) and
                         x.obj(v).items == (s, ))
            state(o, [s])

        for f in (created, added, asked):
            def run():
                try:
                    f()
                except PyRaise as e:
                    x.obligation('raises nothing ({})'.format(
                        e.cls.__name__), z3.BoolVal(False))
            c.explore(run, label=f.__name__)

    def verify_duration(self, x, th, kind, name, fname):
        c = x.c
        code = self.find(fname)
        c.store['n'] = z3.IntVal(0)
        text = Sym(const('text'), 'json')
        c.fact(tag(text.t) == T_STR)
        for g in UNITS:
            c.fact(gnum(g) >= 0)
        c.fact(And(FRAC_LEN >= 1, FRAC >= 0))
        # a fraction belongs to seconds
        c.fact(Implies(present('fraction'), present('seconds')))
        total = real(0)
        for g, u in UNITS.items():
            total = total + If(present(g), gnum(g) * z3.RealVal(u), real(0))
        part = real(0)
        for i in range(1, 7):
            part = If(FRAC_LEN == i, z3.ToReal(FRAC) / 10 ** i, part)
        total = total + If(present('fraction'), part, real(0))
        inside = z3.Bool('in the grammar')
        too_fine = And(present('fraction'), FRAC_LEN > 6)
        negative = And(present('sign'), z3.Bool('negative'))
        beyond = fn('beyond', R, B)

        def run():
            fr = x.enter(code, self.args(code, {'text': text}))
            try:
                x.exec_body(code.node.body, fr)
                r = None
            except ReturnX as e:
                r = e.v
            except PyRaise as e:
                if issubclass(e.cls, OverflowError):
                    t = c.fresh('t', R)
                    c.fact(t == total)
                    x.obligation('overflow only if beyond timedelta',
                                 And(inside, Not(too_fine), Or(
                                     beyond(total), beyond(-total))))
                elif issubclass(e.cls, ValueError):
                    x.obligation('an error only if not a duration',
                                 Or(Not(inside), too_fine))
                else:
                    x.obligation('raises nothing ({})'.format(
                        e.cls.__name__), z3.BoolVal(False))
                return
            x.obligation('a value only for a duration',
                         And(inside, Not(too_fine)))
            good = isinstance(r, Sym) and r.k == 'num'
            x.obligation('the number of seconds', good and
                         r.t == If(negative, -total, total))

        c.explore(run, label='duration')

    def verify_graph(self, x, th, kind, name, fname):
        c = x.c
        code = self.find(fname)
        ref = Str((('p', const('ref')), ))
        c.store['n'] = z3.IntVal(0)
        value = th.unfold('graph', None, ref)
        given = dict(value=value, ref=ref, errors=Errs())
        fr = x.enter(code, self.args(code, given))
        targets = []
        cls = th.name_of('graph', self.m['name'])

        def graph_ref():
            for k, v in c.store.items():
                if isinstance(k, str) and isinstance(v, Inst) and \
                        v.cls == cls:
                    return Ref(k)
            return None

        def on_exit(how, r):
            if how == 'raise':
                x.obligation('raises nothing ({})'.format(r.cls.__name__),
                             z3.BoolVal(False))
                return
            n = x.n()
            if r is None:
                x.obligation('None is returned only if there are errors',
                             boolean(n > 0))
                return
            x.obligation('a graph is returned only if there are no errors',
                         boolean(n == 0))
            if not isinstance(r, Ref) or not isinstance(x.obj(r), Inst) or \
                    x.obj(r).cls != cls:
                x.obligation('a graph is returned', z3.BoolVal(False))
                return
            for k, f in self.property_facts(x, th, r).items():
                x.obligation(k, f)

        def candidates():
            g = graph_ref()
            if g is None:
                return {'the value is an object': Or(
                    x.n() > 0, tag(value.t) == T_DICT)}
            if g not in targets:
                targets.append(g)
            return self.candidates(x, th, g)

        x.cut_body(code.node.body, fr, on_exit, candidates, targets)
