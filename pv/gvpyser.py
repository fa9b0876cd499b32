"""Contracts of the generated Python serialization, and the lemma that the
parsers invert it."""
import ast
import time

import z3

from pv import gv
from pv.engine import PyRaise, ReturnX, Unsupported
from pv.gv import (B, blen, boolean, const, Dct, DEAD, Dotted, elem, fn, get, has, I,
                   Inst, K, keyat, Lst, NONE, plain, R, Ref, rope, Seg, Str,
                   Sym, tag, T_DICT, T_LIST, T_NONE, T_REAL, T_STR, U, View)
from pv.gvpy import (allok, And, DEFAULT_FORMAT, den, FIXED, If, Implies,
                     inst, Node, Not, num, ok, Or, ParseCheck, reg, Theory)

CUT = ('boolean', 'integer', 'float', 'string')


def ser(node, t):
    return fn('ser_{}'.format(node.uid), U, U)(t)


class Part:
    """The serialization of a property, if there is one."""
    __slots__ = ('key', )

    def __init__(self, key):
        self.key = key


class SerTheory(Theory):
    """The values are those that a conforming JSON value denotes."""

    def __init__(self, spec, settings):
        super().__init__(spec, settings)
        self.parts = {}
        self.regs = {}

    # ------------------------------------------------------- specification
    def identity(self, node):
        """Is it serialized as it is?"""
        if node.kind in ('array', 'map'):
            return self.identity(node.values)
        return node.kind in CUT or \
            node.kind == 'path' and self.settings['path_as'] == 'str' or \
            node.kind == 'time_zone' and self.settings['timezone_as'] == 'str'

    def raw_format(self, t):
        return t.get('format', DEFAULT_FORMAT[t['type']])

    def serialized(self, node, t):
        """The definition of the serialization of t, or None."""
        if self.identity(node):
            return t
        if node.kind == 'path':
            return fn('str_path', U, U)(t)
        if node.kind == 'time_zone':
            return fn('str_zone', U, U)(t)
        if node.kind in ('date', 'time', 'datetime'):
            return fn('strftime ' + self.raw_format(node.t), U, U)(t)
        if node.kind == 'duration':
            return fn('duration_text', U, U)(t)
        if node.kind == 'class':
            return fn('idof', U, U)(t)
        return None

    def value(self, t, node, optional=False):
        """A value of a type."""
        c = self.c
        v = Sym(t, 'val', node=node)
        key = ('ser', t.get_id(), node.uid)
        if key in c.facts_done:
            return v
        c.facts_done.add(key)
        c.fact(blen(t) >= 0)
        if not optional:
            c.fact(t != NONE)
        d = self.serialized(node, t)
        if d is not None:
            c.fact(ser(node, t) == d)
        return v

    def instance(self, kind, name):
        """The object under contract: its attributes, and the keys wanted."""
        comp = self.sp.comp(kind, name)
        attrs = {}
        for n, p in self.sp.props(comp):
            pn = self.sp.node(p)
            t = const('attribute ' + n)
            opt = p.get('optional', False)
            attrs[self.attr_name(n)] = self.value(t, pn, opt)
            self.parts[p.get('json', n)] = (
                t != NONE if opt else z3.BoolVal(True), ser(pn, t))
        if kind == 'class':
            attrs['id'] = Sym(const('id'), 'val', node='any')
        if kind == 'graph':
            for n in self.sp.classes:
                t = const('registry ' + n)
                rn = self.sp.regnode[n]
                attrs[self.reg_attr(n)] = self.value(t, rn)
                self.regs[n] = t
                self.parts[self.sp.registry[n]] = (blen(t) > 0, ser(rn, t))
        return self.x.new(Inst(self.name_of(kind, name or self.sp.m['name']),
                               attrs))

    def matched(self, n):
        """Is every instance of the registry stored under its identifier?"""
        return fn('allmatch', U, B)(self.regs[n])

    # ---------------------------------------------------------------- hooks
    def exit_conditions(self):
        return [('mismatch ' + n, Not(self.matched(n))) for n in self.regs]

    def on_raise(self, cls):
        if issubclass(cls, ValueError) and self.regs:
            self.x.obligation(
                'an instance is refused only for its identifier',
                Or([Not(self.matched(n)) for n in self.regs]))

    def settle(self, items, prefix):
        """The parts that follow the prefix: {key: matches}, and the parts
        that are known to be absent."""
        c = self.c
        if items[:len(prefix)] != prefix:
            return None
        there = {}
        for it in items[len(prefix):]:
            if isinstance(it, Part):
                if it.key in there:
                    return None
                there[it.key] = True
                continue
            if not isinstance(it, tuple) or not isinstance(it[0], str) or \
                    it[0] in there or it[0] not in self.parts:
                return None
            present, want = self.parts[it[0]]
            try:
                u = self.to_u(it[1])
            except Unsupported:
                return None
            there[it[0]] = c.must(And(present, u == want))
        absent = {k for k, p in self.parts.items() if k not in there and
                  c.must(Not(p[0]))}
        return there, absent

    def describe(self, base):
        out = {}
        for k, v in self.c.store.items():
            if isinstance(k, str) and isinstance(v, Dct):
                b = base.get(k)
                prefix = b.items if isinstance(b, Dct) else ()
                if v.items != prefix:
                    out[k] = self.settle(v.items, prefix)
        return out

    def summarize(self, base, survivors):
        out = {}
        for oid in set().union(*[d for _, d in survivors]):
            b = base.get(oid)
            prefix = b.items if isinstance(b, Dct) else ()
            descs = []
            for store, d in survivors:
                if oid in d:
                    descs.append(d[oid])
                elif isinstance(store.get(oid), Dct):
                    descs.append(({}, None))
                else:
                    descs.append(None)
            if any(d is None for d in descs):
                continue
            keys = set().union(*[d[0] for d in descs])
            good = True
            for k in keys:
                for d in descs:
                    if k in d[0]:
                        good = good and d[0][k]
                    else:
                        good = good and d[1] is not None and k in d[1]
            if good:
                out[oid] = Dct(prefix + tuple(
                    Part(k) for k in self.parts if k in keys))
        return out

    # ------------------------------------------------------------ operations
    def val_none(self, v):
        return v.t == NONE

    def truth(self, v):
        if isinstance(v, Sym) and v.k == 'val' and isinstance(v.node, Node):
            k = v.node.kind
            if k in ('array', 'map', 'registry'):
                return And(v.t != NONE, blen(v.t) > 0)
            if k in ('class', 'embed', 'instance'):
                return v.t != NONE
            if k in ('integer', 'float'):
                return And(v.t != NONE, num(v.t) != 0)
            if k == 'boolean':
                return And(v.t != NONE, fn('b', U, B)(v.t))
            if k in ('string', 'path') and self.identity(v.node):
                return And(v.t != NONE, v.t != K(''))
            if k == 'duration':
                return And(v.t != NONE, fn('nonzero', U, B)(v.t))
            # a date, a time, a path
            return v.t != NONE
        return super().truth(v)

    def getattr(self, v, name):
        if isinstance(v, Sym) and v.k == 'val' and isinstance(v.node, Node):
            if self.c.decide(v.t == NONE):
                raise PyRaise(AttributeError)
            if name == 'id' and v.node.kind in ('class', 'instance'):
                return Sym(fn('idof', U, U)(v.t), 'val', node='any')
        return super().getattr(v, name)

    def eq(self, a, b):
        if isinstance(a, Sym) and isinstance(b, Sym) and \
                a.k in ('json', 'val') and b.k in ('json', 'val'):
            return a.t == b.t
        return super().eq(a, b)

    def copied(self, o, kinds):
        if isinstance(o, Sym) and o.k == 'val' and isinstance(
                o.node, Node) and o.node.kind in kinds:
            if self.c.decide(o.t == NONE):
                raise PyRaise(TypeError)
            return Sym(o.t, 'val', node=o.node)
        raise Unsupported('copy')

    def slice(self, o, lo, hi, step):
        if lo is None and hi is None and step is None:
            return self.copied(o, ('array', ))
        raise Unsupported('slice')

    def n_list(self, *args):
        if args:
            if isinstance(args[0], Ref) and isinstance(
                    self.x.obj(args[0]), Lst):
                return self.x.new(Lst(self.x.obj(args[0]).items))
            return self.copied(args[0], ('array', ))
        return super().n_list()

    def n_dict(self, *args, **kwargs):
        if len(args) == 1 and not kwargs:
            return self.copied(args[0], ('map', ))
        return super().n_dict(*args, **kwargs)

    n_collections_OrderedDict = n_dict

    def n_copy_copy(self, v):
        return self.copied(v, ('array', 'map'))

    def n_str(self, v=''):
        if isinstance(v, Sym) and v.k == 'val' and isinstance(v.node, Node):
            if self.c.decide(v.t == NONE):
                return 'None'
            k = v.node.kind
            if k in ('string', 'path', 'time_zone') and \
                    self.identity(v.node):
                return v
            if k == 'path':
                return Sym(fn('str_path', U, U)(v.t), 'val', node='any')
            if k == 'time_zone':
                return Sym(fn('str_zone', U, U)(v.t), 'val', node='any')
            return Sym(self.c.fresh('str', U), 'val', node='any')
        return super().n_str(v)

    def val_method(self, o, name, args, kwargs):
        k = o.node.kind if isinstance(o.node, Node) else None
        c = self.c
        if k is not None and c.decide(o.t == NONE):
            raise PyRaise(AttributeError)
        if k in ('date', 'time', 'datetime') and name == 'strftime' and \
                len(args) == 1 and isinstance(args[0], str) and not kwargs:
            return Sym(fn('strftime ' + args[0], U, U)(o.t), 'val',
                       node='any')
        if k in ('map', 'registry'):
            if name in ('items', 'keys', 'values') and not args:
                return View(o, name)
            if name == 'copy' and not args:
                return self.copied(o, ('map', ))
        if k == 'array' and name == 'copy' and not args:
            return self.copied(o, ('array', ))
        return super().val_method(o, name, args, kwargs)

    def n_len(self, v):
        if isinstance(v, Sym) and v.k == 'val' and isinstance(
                v.node, Node) and v.node.kind in ('array', 'map',
                                                  'registry'):
            if self.c.decide(v.t == NONE):
                raise PyRaise(TypeError)
            return Sym(blen(v.t), 'int', ('len', v))
        return super().n_len(v)

    def n_bool(self, v):
        r = self.truth(v)
        return r if isinstance(r, bool) else Sym(r, 'bool')

    def getitem(self, o, k):
        if isinstance(o, Sym) and o.k == 'val' and isinstance(o.node, Node):
            c = self.c
            n = o.node
            if c.decide(o.t == NONE):
                raise PyRaise(TypeError)
            if n.kind in ('map', 'registry'):
                ku = self.key_u(k)
                if not c.decide(has(o.t, ku)):
                    raise PyRaise(KeyError)
                return self.under(o, ku)
            if n.kind == 'array' and isinstance(k, Sym) and k.k == 'int':
                if not c.decide(And(k.t >= 0, k.t < blen(o.t))):
                    raise Unsupported('index')
                return self.value(elem(o.t, k.t), n.values)
        return super().getitem(o, k)

    def setitem(self, o, k, v):
        if isinstance(o, Ref) and isinstance(self.x.obj(o), Dct) and \
                isinstance(k, str):
            items = self.x.obj(o).items
            for i, it in enumerate(items):
                if isinstance(it, Part) and it.key == k:
                    raise Unsupported('a key is written again')
                if isinstance(it, tuple) and it[0] == k:
                    self.c.write(o.oid, Dct(items[:i] + ((k, v), ) +
                                            items[i + 1:]))
                    return
        super().setitem(o, k, v)

    def under(self, o, k):
        """The value under a key."""
        n = o.node
        if n.kind == 'registry':
            self.c.fact(Implies(And(has(o.t, k), fn('idof', U, U)(
                get(o.t, k)) != k), Not(fn('allmatch', U, B)(o.t))))
        return self.value(get(o.t, k), n.values)

    def isinstance_(self, v, cls, exact=False):
        if isinstance(v, Sym) and v.k == 'val' and isinstance(
                v.node, Node) and isinstance(cls, Dotted):
            k, p = v.node.kind, cls.path
            there = v.t != NONE
            ordered = fn('is_ordered', U, B)(v.t)
            if k in ('map', 'registry'):
                if p == 'collections.OrderedDict':
                    return And(there, ordered)
                if p == 'dict' and exact:
                    return And(there, Not(ordered))
                if p in ('dict', 'collections.abc.Mapping',
                         'typing.Mapping', 'collections.abc.MutableMapping',
                         'typing.MutableMapping'):
                    return there
            names = {'array': ('list', ), 'integer': ('int', ),
                     'boolean': ('bool', ), 'float': ('float', )}
            if k in names and p in ('list', 'dict', 'str') + names[k]:
                return there if p in names[k] else False
        return super().isinstance_(v, cls, exact)

    # ----------------------------------------------------------------- loops
    def val_source(self, it):
        c = self.c
        if isinstance(it.node, Node):
            if c.decide(it.t == NONE):
                raise PyRaise(TypeError)
            if it.node.kind == 'array':
                return ('list', it)
            if it.node.kind in ('map', 'registry'):
                return ('keys', it)
        raise Unsupported('iteration')

    def source(self, it):
        if isinstance(it, View) and it.what in (
                'items', 'keys', 'values', 'range') and \
                isinstance(it.v, Sym) and it.v.k == 'val':
            return (it.what, it.v)
        return super().source(it)

    def val_element(self, src, idx):
        kind, v = src
        c = self.c
        c.fact(And(idx >= 0, idx < blen(v.t)))
        if kind == 'range':
            return Sym(idx, 'int')
        if kind == 'list':
            return self.value(elem(v.t, idx), v.node.values)
        k = keyat(v.t, idx)
        c.fact(has(v.t, k))
        ks = Sym(k, 'val', node='any')
        x = self.under(v, k)
        return {'keys': ks, 'values': x, 'items': (ks, x)}[kind]

    def is_val(self, src):
        v = src[1]
        return v.k == 'val' and isinstance(v.node, Node)

    def loop_goals(self, src):
        if not self.is_val(src):
            return super().loop_goals(src)
        return ('match', ) if src[1].node.kind == 'registry' else ()

    def loop_goal(self, g, src, idx):
        k = keyat(src[1].t, idx)
        return fn('idof', U, U)(get(src[1].t, k)) == k

    def loop_conclusion(self, g, src):
        return fn('allmatch', U, B)(src[1].t)

    def empty_source(self, src):
        # nothing at all holds of no elements
        self.c.fact(Implies(blen(src[1].t) == 0, And(
            fn('allmatch', U, B)(src[1].t))))
        return blen(src[1].t) == 0

    def delta(self, src, idx, items, erred):
        if not self.is_val(src):
            return super().delta(src, idx, items, z3.BoolVal(False))
        c = self.c
        v = src[1]
        n = v.node
        if len(items) != 1 or isinstance(items[0], (Seg, Part)):
            return set()
        it = items[0]
        out = set()
        try:
            if n.kind == 'array':
                if isinstance(it, tuple):
                    return set()
                x, u = elem(v.t, idx), self.to_u(it)
            else:
                k = keyat(v.t, idx)
                if not isinstance(it, tuple) or not c.must(
                        self.to_u(it[0]) == k):
                    return set()
                x, u = get(v.t, k), self.to_u(it[1])
            if c.must(u == ser(n.values, x)):
                out.add('ser')
            if c.must(u == x):
                out.add('same')
        except Unsupported:
            pass
        return out

    def acc_facts(self, kind, src, s):
        v = src[1]
        if not self.is_val(src):
            return []
        if kind == 'ser':
            return [s == ser(v.node, v.t)]
        if kind == 'same' and v.node.kind != 'registry':
            return [s == v.t]
        return []

    # ------------------------------------------------------------- contracts
    def contract(self, mod, name):
        if mod != self.x.base + '.tojsonable':
            return None
        for kind, names in (('class', self.sp.classes),
                            ('embed', self.sp.embeds)):
            for n in names:
                if name == 'serialize_' + self.var(n):
                    return lambda a, k=kind, n=n: self.ser_contract(k, n, a)
        if name == '_duration_to_string':
            return self.text_contract
        return None

    def text_contract(self, args):
        v = args['duration']
        if isinstance(v, Sym) and v.k == 'val' and isinstance(
                v.node, Node) and v.node.kind == 'duration':
            if self.c.decide(v.t == NONE):
                raise PyRaise(TypeError)
            return Sym(fn('duration_text', U, U)(v.t), 'val', node='any')
        raise Unsupported('argument of _duration_to_string')

    def ser_contract(self, kind, name, a):
        v = a['instance']
        what = 'call of serialize_{}: '.format(self.var(name))
        node = (self.sp.instance if kind == 'class' else self.sp.embed)[name]
        if not isinstance(v, Sym) or v.k != 'val' or not isinstance(
                v.node, Node):
            raise Unsupported('argument of serialize_')
        self.x.obligation(what + 'an instance of the class',
                          v.node is node or v.node.kind == 'class' and
                          kind == 'class' and v.node.name == name)
        self.x.obligation(what + 'not None', v.t != NONE)
        return Sym(ser(node, v.t), 'val', node='any')


class SerCheck(ParseCheck):
    """Verifies the functions of a generated tojsonable module."""

    def executor(self, th=None):
        return super().executor(SerTheory(self.sp, self.m['py']))

    def functions(self):
        for kind, names in (('class', self.sp.classes),
                            ('embed', self.sp.embeds)):
            for n in names:
                yield 'serialize', kind, n
        yield 'serialize', 'graph', None
        for kind, names in (('class', self.sp.classes),
                            ('embed', self.sp.embeds)):
            for n in names:
                yield 'inverse', kind, n
        yield 'inverse', 'graph', None
        if '_duration_to_string' in self.modules[
                self.base + '.tojsonable'].names:
            yield 'duration', None, '_duration_to_string'

    def title(self, th, what, kind, name):
        var = th.var(name or self.m['name'])
        return 'serialize_' + var if what == 'serialize' else \
            'lemma: {} parses what is serialized'.format(var)

    def source(self, name):
        mod = self.modules[self.base + '.tojsonable']
        return tuple(ast.unparse(mod.names[n]) for n in (
            name, '_ZERO_TIMEDELTA') if isinstance(
                mod.names.get(n), ast.AST)) + tuple(
                    ast.unparse(st) for st in mod.tree.body
                    if isinstance(st, (ast.Import, ast.ImportFrom))
                    and self.base not in ast.unparse(st))

    def find(self, fname):
        mod = self.modules[self.base + '.tojsonable']
        d = mod.names.get(fname)
        if not isinstance(d, ast.FunctionDef):
            raise Unsupported('no function {}'.format(fname))
        return gv.Code(d, mod)

    # ------------------------------------------------------------ functions
    def verify_serialize(self, x, th, kind, name, fname):
        c = x.c
        code = self.find(fname)
        # there are no errors to collect
        c.store['n'] = c.store['cap'] = z3.IntVal(0)
        obj = th.instance(kind, name)
        for t in th.regs.values():
            # nothing at all holds of no instances
            c.fact(Implies(blen(t) == 0, fn('allmatch', U, B)(t)))
        content = x.obj(obj)
        fr = x.enter(code, self.args(code, {
            'instance': obj, 'ordered': Sym(z3.Bool('ordered'), 'bool')}))

        def on_exit(how, r):
            x.obligation('the object is not changed',
                         x.obj(obj) is content)
            if how == 'raise':
                if not (issubclass(r.cls, ValueError) and th.regs):
                    x.obligation('raises nothing ({})'.format(
                        r.cls.__name__), z3.BoolVal(False))
                else:
                    x.obligation(
                        'an instance is refused only for its identifier',
                        Or([Not(th.matched(n)) for n in th.regs]))
                return
            for n in th.regs:
                x.obligation('identifiers in the registry of ' + n,
                             th.matched(n))
            if not isinstance(r, Ref) or not isinstance(x.obj(r), Dct):
                x.obligation('a dictionary is returned', z3.BoolVal(False))
                return
            there = {}
            for it in x.obj(r).items:
                if isinstance(it, Part):
                    there.setdefault(it.key, []).append(None)
                elif isinstance(it, tuple) and isinstance(it[0], str):
                    there.setdefault(it[0], []).append(it[1])
                else:
                    raise Unsupported('keys of the result')
            for k in there:
                x.obligation('key ' + k, k in th.parts and
                             len(there[k]) == 1)
            for k, (present, want) in th.parts.items():
                if k not in there:
                    x.obligation('the value of ' + k, Not(present))
                elif there[k][0] is not None:
                    x.obligation('the value of ' + k, And(
                        present, th.to_u(there[k][0]) == want))
                else:
                    x.obligation('the value of ' + k, True)

        x.cut_body(code.node.body, fr, on_exit,
                   lambda: {n: th.matched(n) for n in th.regs}, [])

    def verify_duration(self, x, th, kind, name, fname):
        """The text of a duration is in the grammar, and denotes it."""
        c = x.c
        code = self.find(fname)
        c.store['n'] = z3.IntVal(0)
        days, seconds, micro = z3.Ints('days seconds microseconds')
        c.fact(And(seconds >= 0, seconds < 86400, micro >= 0,
                   micro < 1000000))
        x.th.__class__ = DurationTheory
        d = Delta(days, seconds, micro)

        def run():
            fr = x.enter(code, self.args(code, {'duration': d}))
            try:
                x.exec_body(code.node.body, fr)
                r = None
            except ReturnX as e:
                r = e.v
            except PyRaise as e:
                x.obligation('raises nothing ({})'.format(e.cls.__name__),
                             z3.BoolVal(False))
                return
            total, conds = denoted(r)
            x.obligation('the text is a duration', And(conds))
            x.obligation('the text denotes the duration',
                         total == d.micros())

        c.explore(run, label='duration')

    # ---------------------------------------------------------------- lemmas
    def theories(self):
        return (Theory(self.sp, self.m['py']),
                SerTheory(self.sp, self.m['py']))

    def verify_inverse(self, x, th, kind, name, fname):
        """Parsing what is serialized gives what was serialized."""
        c = x.c
        sp = self.sp
        c.store['n'] = z3.IntVal(0)
        th, st = self.theories()
        th.x = st.x = x
        th.unfold(kind, name, Str((('p', const('ref')), )))
        t = th.root_sym.t
        comp = sp.comp(kind, name)
        c.fact(tag(t) == T_DICT)
        for n, p in sp.props(comp):
            pn = sp.node(p)
            a = const('attribute ' + n)
            k = K(p.get('json', n))
            opt = p.get('optional', False)
            st.value(a, pn, opt)
            # the contract of the serialization
            c.fact(has(t, k) == (a != NONE if opt else z3.BoolVal(True)))
            c.fact(Implies(has(t, k), get(t, k) == ser(pn, a)))
            v = const('parsed from ' + n)
            self.inverse(x, th, st, pn, a, v, a != NONE, p.get('json', n))
            x.obligation('property ' + n, And(
                th.okp[n], th.denp(n) == a))
        if kind == 'graph':
            for n in sp.classes:
                k = K(sp.registry[n])
                a = const('registry ' + n)
                rn = sp.regnode[n]
                v = get(t, k)
                c.fact(blen(a) >= 0)
                c.fact(has(t, k) == (blen(a) > 0))
                c.fact(Implies(has(t, k), v == ser(rn, a)))
                # identifiers as in the registry that was parsed
                i = c.fresh('id', U)
                c.fact(Implies(has(a, i), blen(a) > 0))
                c.fact(Implies(has(a, i), And(tag(i) == T_STR,
                                              th.id_ok(n, i))))
                s = ser(rn, a)
                c.fact(And(tag(s) == T_DICT, has(s, i) == has(a, i)))
                c.fact(Implies(has(a, i), get(s, i) == ser(
                    sp.instance[n], get(a, i))))
                # the lemma of the class
                c.fact(Implies(has(a, i), ok(sp.instance[n], ser(
                    sp.instance[n], get(a, i)))))
                x.obligation('registry of ' + n, Implies(And(
                    has(t, k), has(v, i)), And(
                        tag(v) == T_DICT, th.id_ok(n, i),
                        ok(sp.instance[n], get(v, i)))))
                x.obligation('instances of ' + n, Implies(
                    has(a, i), And(has(t, k), has(v, i))))
        x.obligation('a mapping is serialized', tag(t) == T_DICT)
        if c.check(z3.BoolVal(True), 10000) == 'unsat':
            raise Unsupported('the assumptions contradict each other')

    def inverse(self, x, th, st, node, a, v, guard, what):
        """If a is denoted by a conforming value v (under a condition), then
        so is it by ser(a): the facts are derived, part by part."""
        c = x.c
        s = ser(node, a)
        k = node.kind
        conforms = And(ok(node, v), den(node, v) == a)
        if k in ('array', 'map'):
            th.typed(v, node, None)
            th.typed(s, node, None)
            j = c.fresh('j', I if k == 'array' else U)
            if k == 'array':
                at = lambda y: elem(y, j)
                inside = lambda y: And(j >= 0, j < blen(y))
                kind = T_LIST
            else:
                at = lambda y: get(y, j)
                inside = lambda y: has(y, j)
                kind = T_DICT
            c.fact(Implies(guard, conforms))
            same = (lambda y, z: inside(y) == inside(z))
            d = den(node, s)
            # what arrays and maps denote, and how they are serialized
            c.fact(Implies(And(guard, inside(a)), And(
                at(a) == den(node.values, at(v)), inside(v))))
            c.fact(Implies(guard, And(blen(a) == blen(v), blen(a) >= 0)))
            c.fact(And(tag(s) == kind, blen(s) == blen(a), same(s, a)))
            c.fact(Implies(inside(a), at(s) == ser(node.values, at(a))))
            c.fact(Implies(And(guard, allok(v), inside(v)),
                           ok(node.values, at(v))))
            g2 = And(guard, inside(a))
            st.value(at(a), node.values)
            self.inverse(x, th, st, node.values, at(a), at(v), g2,
                         what + ' item')
            sub = And(ok(node.values, at(s)),
                      den(node.values, at(s)) == at(a))
            x.obligation(what + ': items', Implies(g2, sub))
            # (j is arbitrary)
            c.fact(Implies(guard, allok(s)))
            c.fact(Implies(guard, And(tag(d) == tag(a), blen(d) == blen(s),
                                      same(d, s))))
            c.fact(Implies(And(guard, inside(s)),
                           at(d) == den(node.values, at(s))))
            x.obligation(what + ': the same items', Implies(guard, And(
                blen(d) == blen(a), same(d, a),
                Implies(inside(a), at(d) == at(a)))))
            # extensionality
            c.fact(Implies(guard, d == a))
            x.obligation(what, Implies(guard, And(
                ok(node, s), den(node, s) == a)))
            return
        if k in ('embed', 'instance'):
            # the lemma of the composite
            c.fact(Implies(guard, And(ok(node, s), den(node, s) == a,
                                      tag(s) == T_DICT)))
            return
        th.typed(v, node, None)
        th.typed(s, node, None)
        c.fact(Implies(guard, conforms))
        for f in self.axioms(th, node, a, v, s):
            c.fact(Implies(guard, f))
        x.obligation(what, Implies(guard, And(
            ok(node, s), den(node, s) == a, tag(s) != T_NONE)))

    def axioms(self, th, node, a, v, s):
        """What is assumed of natives about the values they return."""
        k = node.kind
        if k == 'float':
            f = fn('float', U, U)
            return [tag(a) == T_REAL, f(f(v)) == f(v)]
        if k == 'path' and th.settings['path_as'] != 'str':
            p, q = fn('path', U, U), fn('str_path', U, U)
            out = [p(q(p(v))) == p(v), tag(q(p(v))) == T_STR]
            if 'pattern' in node.t:
                # paths with patterns are given in normal form
                out.append(q(p(v)) == v)
            return out
        if k == 'time_zone' and th.settings['timezone_as'] != 'str':
            p, q = fn('zone', U, U), fn('str_zone', U, U)
            return [p(q(p(v))) == p(v), tag(q(p(v))) == T_STR,
                    fn('is_zone', U, B)(q(p(v)))]
        if k in ('date', 'time', 'datetime'):
            f = th.format(node.t)
            raw = node.t.get('format', DEFAULT_FORMAT[k])
            p = fn('strptime ' + f, U, U)
            q = fn('strftime ' + raw, U, U)

            def of(y):
                return y if k == 'datetime' else fn(k + '_of', U, U)(y)
            return [of(p(q(of(p(v))))) == of(p(v)),
                    fn('is ' + f, U, B)(q(of(p(v)))),
                    tag(q(of(p(v)))) == T_STR]
        if k == 'duration':
            # proved of _duration_to_string and _duration_from_string
            p, q = fn('duration', U, U), fn('duration_text', U, U)
            return [p(q(p(v))) == p(v), fn('is_duration', U, B)(q(p(v))),
                    tag(q(p(v))) == T_STR]
        if k == 'class':
            return [fn('idof', U, U)(inst(node.name, v)) == v,
                    tag(v) == T_STR]
        return []


class Delta:
    """A timedelta in normal form."""
    __slots__ = ('d', 's', 'u')

    def __init__(self, d, s, u):
        self.d = d
        self.s = s
        self.u = u

    def micros(self):
        return (self.d * 86400 + self.s) * 1000000 + self.u


class DurationTheory(SerTheory):
    def as_delta(self, v):
        if isinstance(v, Delta):
            return v
        if isinstance(v, Sym) and v.node == 'timedelta' and \
                z3.is_true(z3.simplify(v.t == 0)):
            z = z3.IntVal(0)
            return Delta(z, z, z)
        raise Unsupported('timedelta')

    def compare(self, op, a, b):
        if isinstance(a, Delta) or isinstance(b, Delta):
            x, y = self.as_delta(a).micros(), self.as_delta(b).micros()
            r = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                 ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y,
                 ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y}
            if type(op) not in r:
                raise Unsupported('comparison')
            return Sym(r[type(op)](), 'bool')
        return super().compare(op, a, b)

    def normal(self, micros):
        c = self.c
        d, s, u = [c.fresh(x, I) for x in ('days', 'seconds', 'micros')]
        c.fact(And(s >= 0, s < 86400, u >= 0, u < 1000000))
        r = Delta(d, s, u)
        c.fact(r.micros() == micros)
        return r

    def unary(self, op, v):
        if isinstance(v, Delta):
            return self.normal(-v.micros())
        return super().unary(op, v)

    def n_abs(self, v):
        m = self.as_delta(v).micros()
        return self.normal(If(m < 0, -m, m))

    def truth(self, v):
        if isinstance(v, Delta):
            return v.micros() != 0
        return super().truth(v)

    def getattr(self, v, name):
        if isinstance(v, Delta):
            if name in ('days', 'seconds', 'microseconds'):
                return Sym({'days': v.d, 'seconds': v.s,
                            'microseconds': v.u}[name], 'int')
            raise Unsupported('timedelta.' + name)
        return super().getattr(v, name)

    def binop(self, op, a, b):
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and isinstance(
                a, Sym) and a.k == 'int' and isinstance(b, int) and b > 0:
            return Sym(a.t / b if isinstance(op, ast.FloorDiv)
                       else a.t % b, 'int')
        return super().binop(op, a, b)

    def n_divmod(self, a, b):
        return (self.binop(ast.FloorDiv(), a, b),
                self.binop(ast.Mod(), a, b))

    def spec_text(self, v, spec):
        if isinstance(v, Sym) and v.k == 'int' and spec in ('06', '06d'):
            return Str((('six', v.t), ))
        return super().spec_text(v, spec)

    def method(self, o, name, args, kwargs):
        if isinstance(o, Str) and name == 'rstrip' and args == ['0'] and \
                len(o.parts) == 1 and o.parts[0][0] == 'six':
            return Str((('fraction', o.parts[0][1]), ))
        return super().method(o, name, args, kwargs)


def denoted(r, unit=1000000):
    """(microseconds, conditions) denoted by a text in the grammar.

    unit: of what is counted, per second
    """
    parts = [r] if isinstance(r, str) else list(r.parts) if isinstance(
        r, Str) else None
    if parts is None:
        raise Unsupported('the text of a duration')
    toks = []
    for p in parts:
        if isinstance(p, str):
            i = 0
            while i < len(p):
                j = i
                while j < len(p) and p[j].isdigit():
                    j += 1
                if j > i:
                    if p[i] == '0' and j > i + 1:
                        return z3.IntVal(0), [z3.BoolVal(False)]
                    toks.append(('i', z3.IntVal(int(p[i:j]))))
                    i = j
                else:
                    toks.append(p[i])
                    i += 1
        else:
            toks.append(p)
    bad = z3.IntVal(0), [z3.BoolVal(False)]
    conds = [z3.BoolVal(True)]
    total = z3.IntVal(0)
    sign = 1
    if toks and toks[0] in ('+', '-'):
        sign = -1 if toks.pop(0) == '-' else 1
    if not toks or toks.pop(0) != 'P':
        return bad
    order = [('D', 86400), ('T', None), ('H', 3600), ('M', 60), ('S', 1)]
    while toks:
        x = toks.pop(0)
        if x == 'T':
            names = [o[0] for o in order]
            if 'T' not in names:
                return bad
            order = order[names.index('T') + 1:]
            continue
        if not isinstance(x, tuple) or x[0] != 'i' or not toks:
            return bad
        conds.append(x[1] >= 0)
        y = toks.pop(0)
        frac = None
        if y == '.' and len(toks) >= 2 and isinstance(toks[0], tuple) and \
                toks[0][0] == 'fraction':
            frac = toks.pop(0)[1]
            conds += [frac > 0, frac < unit]
            y = toks.pop(0)
            if y != 'S':
                return bad
        names = [o[0] for o in order]
        if y not in names or y == 'T':
            return bad
        if y in 'HMS' and 'T' in names:
            return bad
        total = total + x[1] * dict(order)[y] * unit
        if frac is not None:
            total = total + frac
        order = order[names.index(y) + 1:]
    return sign * total, conds
