"""Contracts of the generated Go serialization, and the lemma that the
parsers invert it."""
import ast

import z3

from pv import gvgo, gvpy, gvpyser
from pv.engine import PyRaise, Unsupported
from pv.gv import (B, blen, const, Dct, DEAD, fn, get, has, I, Inst, K, NONE,
                   Ptr, Ref, Sym, T_STR, tag, U, View)
from pv.gvgo import (At, closure, exits_of, GoErr, GoParseCheck, GoTheory,
                     Made, panic)
from pv.gvpy import And, If, Implies, inst, Node, Not, ok, Or
from pv.gvpyser import CUT, Part, ser, SerCheck, SerTheory

POINTERS = ('class', 'instance', 'time_zone')


class GoSerTheory(SerTheory, GoTheory):
    """The values are those that a conforming JSON value denotes."""

    def __init__(self, spec, settings, pkg):
        GoTheory.__init__(self, spec, settings, pkg)
        self.parts = {}
        self.regs = {}
        # are only parsed values considered?
        self.parsed = False

    # ------------------------------------------------------- specification
    def identity(self, node):
        return node.kind in CUT or node.kind == 'path'

    def serialized(self, node, t):
        if self.identity(node):
            return t
        if node.kind in ('date', 'time', 'datetime'):
            return fn('format ' + self.layout(node.t), U, U)(t)
        return SerTheory.serialized(self, node, t)

    def value(self, t, node, optional=False):
        # slices and maps are nil before anything is assigned
        return SerTheory.value(
            self, t, node, optional or
            node.kind in ('array', 'map', 'registry') and not self.parsed)

    def instance(self, kind, name):
        comp = self.sp.comp(kind, name)
        cls = self.name_of(kind, name or self.sp.m['name'])
        d = self.pkg.types.get(cls)
        if d is None or d[0] != 'struct':
            raise Unsupported('no struct {}'.format(cls))
        types = dict(d[1])
        attrs = {}
        self.c.fact(blen(NONE) == 0)
        for n, p in self.sp.props(comp):
            pn = self.sp.node(p)
            t = const('attribute ' + n)
            opt = p.get('optional', False)
            v = self.value(t, pn, opt)
            f = self.attr_name(n)
            if f not in types:
                raise Unsupported('no field {}'.format(f))
            if types[f][0] == 'ptr' and pn.kind not in POINTERS:
                v = Sym(t, 'ptr', node=pn)
            attrs[f] = v
            self.parts[p.get('json', n)] = (
                t != NONE if opt else z3.BoolVal(True), ser(pn, t))
        if kind == 'class':
            attrs['ID'] = Sym(const('id'), 'val', node='any')
        if kind == 'graph':
            for n in self.sp.classes:
                t = const('registry ' + n)
                rn = self.sp.regnode[n]
                attrs[self.reg_attr(n)] = self.value(t, rn)
                self.regs[n] = t
                self.parts[self.sp.registry[n]] = (blen(t) > 0, ser(rn, t))
        return self.x.new(Inst(cls, attrs))

    # ------------------------------------------------------------ operations
    def deref(self, v):
        if isinstance(v, Ref) and self.x.obj(v) is DEAD:
            raise Unsupported('object after a cut point')
        return v

    def opaque(self, v):
        return isinstance(v, Sym) and v.k in ('val', 'ptr') and \
            isinstance(v.node, Node)

    def is_none(self, v):
        if isinstance(v, Sym) and v.k == 'ptr':
            return v.t == NONE
        return SerTheory.is_none(self, v)

    def deref_val(self, p):
        if self.opaque(p):
            if self.c.decide(p.t == NONE):
                panic()
            return Sym(p.t, 'val', node=p.node)
        return GoTheory.deref_val(self, p)

    def n_go_addr(self, r):
        if self.opaque(r) and r.k == 'val':
            return r
        return GoTheory.n_go_addr(self, r)

    def truth(self, v):
        if self.opaque(v):
            if v.k == 'val' and v.node.kind == 'boolean':
                return fn('b', U, B)(v.t)
            raise Unsupported('truth')
        return SerTheory.truth(self, v)

    def number(self, v):
        if self.opaque(v) and v.k == 'val' and \
                v.node.kind in ('integer', 'float'):
            return gvgo.num(v.t)
        return GoTheory.number(self, v)

    def compare(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if self.opaque(x) and x.k == 'val' and isinstance(
                    op, (ast.Eq, ast.NotEq)) and isinstance(y, str) and \
                    x.node.kind in ('string', 'path'):
                r = x.t == K(y)
                return Sym(r if isinstance(op, ast.Eq) else Not(r), 'bool')
        return GoTheory.compare(self, op, a, b)

    def getattr(self, v, name):
        if self.opaque(v):
            if v.k == 'ptr' or v.node.kind in POINTERS:
                if self.c.decide(v.t == NONE):
                    panic()
            if name == 'ID' and v.node.kind in ('class', 'instance'):
                return Sym(fn('idof', U, U)(v.t), 'val', node='any')
            return gvgo.Method(Sym(v.t, 'val', node=v.node), name)
        return GoTheory.getattr(self, v, name)

    def other_method(self, o, name, args):
        if self.opaque(o) and o.k == 'val':
            k = o.node.kind
            if k == 'time_zone' and name == 'String' and not args:
                return Sym(fn('str_zone', U, U)(o.t), 'val', node='any')
            if k in ('date', 'time', 'datetime') and name == 'Format' and \
                    len(args) == 1 and isinstance(args[0], str):
                return Sym(fn('format ' + args[0], U, U)(o.t), 'val',
                           node='any')
        return GoTheory.other_method(self, o, name, args)

    def n_go_conv(self, t, v):
        if self.opaque(v) and v.k == 'val' and t[0] == 'name':
            if t[1] in {'integer': ('int64', ), 'float': ('float64', ),
                        'string': ('string', ), 'path': ('string', ),
                        'boolean': ('bool', )}.get(v.node.kind, ()) + (
                            'any', ):
                return v
            raise Unsupported('conversion to {}'.format(t[1]))
        if self.opaque(v) and tuple(t) == gvgo.IFACE:
            return v
        return GoTheory.n_go_conv(self, t, v)

    def n_go_len(self, v):
        if self.opaque(v) and v.k == 'val' and v.node.kind not in (
                'array', 'map', 'registry'):
            n = fn('strlen', U, I)(v.t)
            self.c.fact(And(n >= 0, (n == 0) == (v.t == K(''))))
            return Sym(n, 'int')
        return GoTheory.n_go_len(self, v)

    def getitem(self, o, k):
        if self.opaque(o) and o.k == 'val':
            c = self.c
            n = o.node
            if n.kind in ('map', 'registry'):
                ku = self.key_u(k)
                if not c.decide(has(o.t, ku)):
                    # the zero value
                    raise Unsupported('a missing key')
                return self.under(o, ku)
            if n.kind == 'array':
                i = self.number(k)
                if not c.decide(And(i >= 0, i < blen(o.t))):
                    panic()
                return self.value(gvgo.elem(o.t, i), n.values)
        return GoTheory.getitem(self, o, k)

    def n_go_index2(self, o, k):
        if self.opaque(o) and o.k == 'val' and o.node.kind in (
                'map', 'registry'):
            ku = self.key_u(k)
            if not self.c.decide(has(o.t, ku)):
                raise Unsupported('a missing key')
            return (self.under(o, ku), True)
        return GoTheory.n_go_index2(self, o, k)

    def setitem(self, o, k, v):
        if isinstance(o, Ref) and isinstance(self.x.obj(o), Dct) and \
                isinstance(k, str):
            for it in self.x.obj(o).items:
                if isinstance(it, tuple) and it[0] == k:
                    SerTheory.setitem(self, o, k, self.copied(v))
                    return
        SerTheory.setitem(self, o, k, v)

    def copied(self, v, kinds=None):
        if kinds is not None:
            return SerTheory.copied(self, v, kinds)
        return GoTheory.copied(self, v)

    # ----------------------------------------------------------------- loops
    def range_val(self, v, n):
        if self.opaque(v) and v.k == 'val':
            if v.node.kind == 'array':
                return View(v, 'range' if n == 1 else 'enum')
            if v.node.kind in ('map', 'registry'):
                return View(v, 'keys' if n == 1 else 'items')
        return GoTheory.range_val(self, v, n)

    def source(self, it):
        if isinstance(it, View) and it.what == 'enum':
            return ('enum-list', it.v)
        return SerTheory.source(self, it)

    def element(self, src, idx):
        return GoTheory.element(self, src, idx)

    def delta(self, src, idx, items, erred):
        if items and all(isinstance(i, At) for i in items):
            if not all(isinstance(i.k, Sym) and i.k.t.eq(idx)
                       for i in items):
                return set()
            items = (items[-1].v, )
        elif any(isinstance(i, (At, Made)) for i in items):
            return set()
        if not self.is_val(src):
            return set()
        return SerTheory.delta(self, src, idx, items, erred)

    def n_go_count(self, n):
        if isinstance(n, Sym) and isinstance(n.node, tuple) and \
                n.node[0] == 'len' and self.opaque(n.node[1]) and \
                n.node[1].node.kind != 'array':
            raise Unsupported('counting a map')
        return GoTheory.n_go_count(self, n)

    # ------------------------------------------------------------- contracts
    def contract(self, mod, name):
        for kind, names in (('class', self.sp.classes),
                            ('embed', self.sp.embeds)):
            for n in names:
                if name == '{}ToJSONable'.format(self.var(n)):
                    return lambda a, k=kind, n=n: self.go_ser_contract(
                        k, n, a)
        if name == 'durationToString':
            return lambda a: self.text_contract(
                {'duration': list(a.values())[0]})
        return None

    def go_ser_contract(self, kind, name, a):
        (v, ) = a.values()
        if isinstance(v, Ptr):
            o = self.content(v)
            if o.cls == 'cell':
                v = o.attrs['v']
        if self.opaque(v):
            v = Sym(v.t, 'val', node=v.node)
        return self.ser_contract(kind, name, {'instance': v})


class GoSerCheck(SerCheck, GoParseCheck):
    """Verifies the serializing functions of a generated Go package."""

    def __init__(self, m, files, limit=60, pkg=None):
        GoParseCheck.__init__(self, m, files, limit, pkg)

    def executor(self, th=None):
        return GoParseCheck.executor(self, th or GoSerTheory(
            self.sp, self.m.get('go', {}), self.pkg))

    def functions(self):
        for what in ('serialize', 'inverse'):
            for kind, names in (('class', self.sp.classes),
                                ('embed', self.sp.embeds)):
                for n in names:
                    yield what, kind, n
            yield what, 'graph', None
        if 'durationToString' in self.pkg.names:
            yield 'duration', None, 'durationToString'

    def title(self, th, what, kind, name):
        var = th.var(name or self.m['name'])
        return '{}ToJSONable'.format(var) if what == 'serialize' else \
            'lemma: {0}FromJSONable parses what {0}ToJSONable gives'.format(
                var)

    def source(self, name):
        return closure(self.pkg.names, (name, )) + ('text', )

    def find(self, fname):
        return GoParseCheck.find(self, fname)

    # ------------------------------------------------------------ functions
    def verify_serialize(self, x, th, kind, name, fname):
        c = x.c
        code = self.find(fname)
        # there are no errors to collect
        c.store['n'] = c.store['cap'] = z3.IntVal(0)
        obj = th.instance(kind, name)
        for t in th.regs.values():
            # nothing at all holds of no instances
            c.fact(Implies(blen(t) == 0, fn('allmatch', U, B)(t)))
        content = x.obj(obj)
        if len(code.node.order) != 1:
            raise Unsupported('parameters')
        fr = x.enter(code, {code.node.args.args[0].arg: Ptr(obj)})

        def on_exit(how, r):
            x.obligation('the object is not changed', x.obj(obj) is content)
            if how == 'raise':
                x.obligation('no panic ({})'.format(r.cls.__name__),
                             z3.BoolVal(False))
                return
            r = x.finish(code, fr, r)
            if kind == 'graph':
                if not isinstance(r, tuple) or len(r) != 2:
                    raise Unsupported('results')
                r, err = r
                if isinstance(err, GoErr):
                    x.obligation(
                        'an instance is refused only for its identifier',
                        Or([Not(th.matched(n)) for n in th.regs]))
                    x.obligation('nothing is returned with an error',
                                 r is None)
                    return
                if err is not None:
                    raise Unsupported('the error')
            for n in th.regs:
                x.obligation('identifiers in the registry of ' + n,
                             th.matched(n))
            if not isinstance(r, Ref) or not isinstance(x.obj(r), Dct):
                x.obligation('a map is returned', z3.BoolVal(False))
                return
            there = {}
            for it in x.obj(r).items:
                if isinstance(it, Part):
                    there.setdefault(it.key, []).append(None)
                elif isinstance(it, tuple) and isinstance(it[0], str):
                    there.setdefault(it[0], []).append(it[1])
                else:
                    raise Unsupported('keys of the result')
            for k in there:
                x.obligation('key ' + k, k in th.parts and
                             len(there[k]) == 1)
            for k, (present, want) in th.parts.items():
                if k not in there:
                    x.obligation('the value of ' + k, Not(present))
                elif there[k][0] is not None:
                    x.obligation('the value of ' + k, And(
                        present, th.to_u(there[k][0]) == want))
                else:
                    x.obligation('the value of ' + k, True)

        x.cut_body(code.node.body, fr, on_exit,
                   lambda: {n: th.matched(n) for n in th.regs}, [],
                   after=exits_of(code))

    def verify_duration(self, x, th, kind, name, fname):
        from pv import gvgodur
        gvgodur.verify_text(self, x, th, fname)

    # ---------------------------------------------------------------- lemmas
    def theories(self):
        st = GoSerTheory(self.sp, {}, self.pkg)
        st.parsed = True
        return GoTheory(self.sp, {}, self.pkg), st

    def axioms(self, th, node, a, v, s):
        """What is assumed of natives about the values they return."""
        k = node.kind
        if k == 'time_zone':
            p, q = fn('zone', U, U), fn('str_zone', U, U)
            return [p(q(p(v))) == p(v), tag(q(p(v))) == T_STR,
                    fn('is_zone', U, B)(q(p(v)))]
        if k in ('date', 'time', 'datetime'):
            f = th.layout(node.t)
            p, q = fn('time ' + f, U, U), fn('format ' + f, U, U)
            return [p(q(p(v))) == p(v), fn('is ' + f, U, B)(q(p(v))),
                    tag(q(p(v))) == T_STR]
        if k == 'duration':
            # follows from the contracts of the two functions
            p, q = fn('duration', U, U), fn('duration_text', U, U)
            return [p(q(p(v))) == p(v), fn('is_duration', U, B)(q(p(v))),
                    tag(q(p(v))) == T_STR]
        if k == 'class':
            return [fn('idof', U, U)(inst(node.name, v)) == v,
                    tag(v) == T_STR]
        return []
