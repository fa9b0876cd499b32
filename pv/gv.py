"""Deductive verification of generated code.

The functions of a generated module are executed symbolically, path by path,
on arbitrary JSON values (terms of an uninterpreted sort); calls are replaced
by the contracts of the callees, loops by an invariant that is proved for one
arbitrary iteration, and the statements of a long function are separated by
cut points whose assertions are proved on every path that reaches them.  No
bound on sizes, depths or values is involved.
"""
import ast
import builtins
import fractions
import importlib

import z3

from pv.engine import (BreakX, ContinueX, Ctx, Infeasible, PyRaise, ReturnX,
                       STATS, Unsupported)

U = z3.DeclareSort('U')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
T_NONE, T_BOOL, T_INT, T_REAL, T_STR, T_LIST, T_DICT = range(7)

_FN = {}


def fn(name, *sorts):
    key = (name, ) + tuple(s.name() for s in sorts)
    if key not in _FN:
        _FN[key] = z3.Function(name, *sorts)
    return _FN[key]


def const(name):
    return z3.Const(name, U)


tag = fn('tag', U, I)
num = fn('num', U, R)
blen = fn('len', U, I)
elem = fn('elem', U, I, U)
keyat = fn('keyat', U, I, U)
get = fn('get', U, U, U)
has = fn('has', U, U, B)
NONE = const('None')
NIL = const('[]')
NILD = const('{}')

_TEXT = {}


def K(text):
    """The term of a constant text."""
    if text not in _TEXT:
        _TEXT[text] = const('"{}"'.format(text))
    return _TEXT[text]


def real(x):
    if isinstance(x, bool):
        x = int(x)
    f = fractions.Fraction(repr(x) if isinstance(x, float) else x)
    return z3.RealVal('{}/{}'.format(f.numerator, f.denominator))


def and_(*xs):
    out = []
    for x in xs:
        if x is False:
            return z3.BoolVal(False)
        if x is not True:
            out.append(x)
    return z3.And(out) if len(out) != 1 else out[0]


def boolean(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ------------------------------------------------------------------- values
class Sym:
    """A symbolic value.

    k: json (a value of JSON), val (an opaque value), int, num, bool
    """
    __slots__ = ('t', 'k', 'node', 'ref')

    def __init__(self, t, k, node=None, ref=None):
        self.t = t
        self.k = k
        self.node = node
        self.ref = ref

    def __repr__(self):
        return '<{}:{}>'.format(self.t, self.k)


class Str:
    """A text made of constants and symbolic parts."""
    __slots__ = ('parts', )

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'Str{}'.format(self.parts)


def rope(*xs):
    """Concatenation of texts."""
    out = []
    for x in xs:
        for p in (x.parts if isinstance(x, Str) else (x, )):
            if p == '':
                continue
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Str(tuple(out))


class Opt:
    """Something or None; it is not None if cond."""
    __slots__ = ('cond', 'val')

    def __init__(self, cond, val=None):
        self.cond = cond
        self.val = val


class Ref:
    __slots__ = ('oid', )

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Ref({})'.format(self.oid)

    def __eq__(self, other):
        return isinstance(other, Ref) and other.oid == self.oid

    def __hash__(self):
        return hash(self.oid)


class Seg:
    """A run of elements of a list or dictionary."""
    __slots__ = ('t', )

    def __init__(self, t):
        self.t = t


class Lst:
    __slots__ = ('items', )

    def __init__(self, items=()):
        self.items = tuple(items)


class Dct:
    __slots__ = ('items', )

    def __init__(self, items=()):
        self.items = tuple(items)


class Inst:
    """An object with attributes; ident is what it denotes as a whole."""
    __slots__ = ('cls', 'attrs', 'ident')

    def __init__(self, cls, attrs, ident=None):
        self.cls = cls
        self.attrs = attrs
        self.ident = ident

    def set(self, name, v):
        a = dict(self.attrs)
        a[name] = v
        return Inst(self.cls, a)


class Ptr:
    """A pointer to a heap object (Go)."""
    __slots__ = ('ref', )

    def __init__(self, ref):
        self.ref = ref

    def __repr__(self):
        return 'Ptr({})'.format(self.ref.oid)


class SymInst:
    """An instance of a registry."""
    __slots__ = ('t', 'cls')

    def __init__(self, t, cls):
        self.t = t
        self.cls = cls


class Reg:
    """The registry of a class."""
    __slots__ = ('name', )

    def __init__(self, name):
        self.name = name


class Errs:
    pass


class Dotted:
    """Something with a qualified name."""
    __slots__ = ('path', )

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Dotted({})'.format(self.path)


class Method:
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class TypeOf:
    __slots__ = ('v', )

    def __init__(self, v):
        self.v = v


class View:
    """items(), keys() or values() of a dictionary, or its enumeration."""
    __slots__ = ('v', 'what')

    def __init__(self, v, what):
        self.v = v
        self.what = what


class Code:
    """A function of the generated code."""
    __slots__ = ('node', 'mod', 'frame')

    def __init__(self, node, mod, frame=None):
        self.node = node
        self.mod = mod
        self.frame = frame


class Dead:
    def __repr__(self):
        return 'DEAD'


DEAD = Dead()


def plain(x):
    """Is it a constant?"""
    if isinstance(x, (tuple, list)):
        return all(plain(y) for y in x)
    return x is None or isinstance(x, (bool, int, float, str,
                                       fractions.Fraction))


class Failed(Exception):
    """An obligation is not implied."""


# ------------------------------------------------------------------ context
class GCtx(Ctx):
    def __init__(self, deadline=None):
        super().__init__(deadline=deadline)
        self.facts_done = set()
        self.offenders = ()
        self.events = ()
        self.timeout_ms = 2000

    def snapshot(self):
        return (super().snapshot(), set(self.facts_done), self.offenders,
                self.events)

    def restore(self, snap):
        super().restore(snap[0])
        self.facts_done = set(snap[1])
        self.offenders = snap[2]
        self.events = snap[3]


class Module:
    def __init__(self, path, text):
        self.path = path
        self.tree = ast.parse(text)
        self.names = {}
        for st in self.tree.body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.names[a.asname] = Dotted(a.name)
                    else:
                        top = a.name.split('.')[0]
                        self.names[top] = Dotted(top)
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.names[a.asname or a.name] = Dotted(
                        '{}.{}'.format(st.module, a.name))
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.names[st.name] = st
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Name):
                self.names[st.targets[0].id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and \
                    isinstance(st.target, ast.Name):
                self.names[st.target.id] = st.value


class Frame:
    __slots__ = ('fid', 'mod', 'parent', 'locs')

    def __init__(self, fid, mod, parent, locs):
        self.fid = fid
        self.mod = mod
        self.parent = parent
        self.locs = locs


def assigned(nodes):
    """Names assigned by statements (comprehensions apart)."""
    out = set()
    stack = list(nodes)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp,
                          ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx,
                                                  (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out


def live_in(body, out):
    """Names whose values may be read by statements before they assign them,
    or by what follows (out)."""
    for st in reversed(body):
        out = live_st(st, out)
    return out


def live_st(st, out):
    if isinstance(st, ast.Assign):
        names = {t.id for t in st.targets if isinstance(t, ast.Name)}
        other = [t for t in st.targets if not isinstance(t, ast.Name)]
        return (out - names) | loaded([st.value] + other)
    if isinstance(st, ast.AnnAssign):
        names = {st.target.id} if isinstance(st.target, ast.Name) and \
            st.value is not None else set()
        return (out - names) | loaded([st.value] if st.value else []) | \
            loaded([st.target])
    if isinstance(st, ast.If):
        return live_in(st.body, out) | live_in(st.orelse, out) | \
            loaded([st.test])
    if isinstance(st, ast.For):
        names = assigned([st.target])
        inner = live_in(st.body, out | live_in(st.body, out))
        return out | (inner - names) | live_in(st.orelse, out) | \
            loaded([st.iter])
    if isinstance(st, ast.Try) and not st.finalbody:
        handlers = set()
        for h in st.handlers:
            handlers |= live_in(h.body, out) - {h.name}
            if h.type is not None:
                handlers |= loaded([h.type])
        return live_in(st.body, live_in(st.orelse, out)) | handlers
    if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
        return out | loaded([st]) | {st.target.id}
    if isinstance(st, ast.Return):
        return loaded([st])
    return out | loaded([st])


def loaded(nodes):
    return {n.id for s in nodes for n in ast.walk(s)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


class Gen:
    """The symbolic executor of generated Python code."""

    def __init__(self, ctx, modules, base, theory):
        self.c = ctx
        self.modules = modules
        self.base = base
        self.th = theory
        theory.x = self
        self.depth = 0
        self.done = set()
        self.failures = {}
        self.func = ''
        self.line = 0
        self.summaries = {}

    # ---------------------------------------------------------- obligations
    def obligation(self, what, cond):
        """An obligation of the function under contract."""
        key = (self.c.decided, self.c.counter, self.line, what)
        if key in self.done:
            return
        self.done.add(key)
        if cond is True or self.c.must(boolean(cond)):
            STATS.discharged += 1
            return
        if self.c.check(z3.BoolVal(True), 5000) == 'unsat':
            STATS.discharged += 1
            return
        r = self.c.check(z3.Not(boolean(cond)), 10000)
        self.failures[(self.func, what, self.line)] = \
            'refuted' if r == 'sat' else 'undecided'

    # ---------------------------------------------------------------- heap
    def new(self, content):
        return Ref(self.c.alloc(content).oid)

    def obj(self, r):
        return self.c.store[r.oid]

    def n(self):
        return self.c.store['n']

    def erred(self):
        """There are errors."""
        return self.n() > 0

    # ------------------------------------------------------------- functions
    def frame(self, mod, parent=None, locs=None):
        self.c.counter += 1
        return Frame('{}f{}'.format(self.c.prefix, self.c.counter), mod,
                     parent, locs)

    def bind(self, node, mod, args, kwargs, fr=None):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or a.kwarg:
            raise Unsupported('variadic function')
        out = dict(zip(names, args))
        if len(args) > len(names):
            raise PyRaise(TypeError)
        for k, v in kwargs.items():
            if k in out or k not in names + [x.arg for x in a.kwonlyargs]:
                raise PyRaise(TypeError)
            out[k] = v
        f = fr or self.frame(mod)
        for nm, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if nm not in out:
                out[nm] = self.eval(d, f)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.eval(d, f)
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in out:
                raise PyRaise(TypeError)
        return out

    def enter(self, code, args):
        """A frame of the function with its arguments."""
        node = code.node
        locs = set(args) | (assigned(node.body) if isinstance(
            node, ast.FunctionDef) else set())
        fr = self.frame(code.mod, code.frame, locs)
        for k, v in args.items():
            self.c.store[(fr.fid, k)] = v
        return fr

    def inline(self, code, args, kwargs):
        self.depth += 1
        try:
            if self.depth > 20:
                raise Unsupported('deep recursion')
            b = self.bind(code.node, code.mod, args, kwargs)
            fr = self.enter(code, b)
            if isinstance(code.node, ast.Lambda):
                return self.eval(code.node.body, fr)
            v = None
            try:
                self.exec_body(code.node.body, fr)
            except ReturnX as r:
                v = r.v
            return self.finish(code, fr, v)
        finally:
            self.depth -= 1

    def finish(self, code, fr, v):
        """Deferred statements and named results (Go)."""
        for st in reversed(getattr(code.node, 'go_defers', ())):
            self.exec(st, fr)
        res = getattr(code.node, 'go_results', None)
        if res:
            v = tuple(self.eval(e, fr) for e in res)
            return v[0] if len(v) == 1 else v
        return v

    # ------------------------------------------------------------ statements
    def exec_body(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        self.line = getattr(st, 'lineno', self.line)
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement {}'.format(type(st).__name__))
        m(st, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Expr(self, st, fr):
        if not isinstance(st.value, ast.Constant):
            self.eval(st.value, fr)

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        load = ast.parse(ast.unparse(st.target), mode='eval').body
        self.assign(st.target, self.th.binop(
            st.op, self.eval(load, fr), self.eval(st.value, fr)), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if fr.locs is not None:
                fr.locs.add(t.id)
            self.c.write((fr.fid, t.id), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, tuple) or len(v) != len(t.elts):
                raise Unsupported('unpacking')
            for e, x in zip(t.elts, v):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.th.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.th.setitem(self.eval(t.value, fr), self.eval(t.slice, fr),
                            v)
        else:
            raise Unsupported('assignment')

    def x_Return(self, st, fr):
        raise ReturnX(None if st.value is None else self.eval(st.value, fr))

    def alike(self, cond, left, right, value=None):
        """Run the one that both sides of a condition amount to, if so.

        value: where the sides write their value; two numbers are merged.
        """
        c = self.c
        if isinstance(cond, bool):
            return False
        key = ('if', c.decided, c.counter)
        if key not in c.cache:
            ends = []
            values = {}
            base = dict(c.store)

            def run():
                side = c.decide(cond)
                try:
                    if side:
                        left()
                    else:
                        right()
                except (PyRaise, Unsupported):
                    ends.append(None)
                    return
                ends.append(c.snapshot())
                if value is not None:
                    values[side] = c.store.pop(value)
                    ends[-1][0][0].pop(value)

            c.explore(run, label='if')
            c.cache[key] = None
            if len(ends) == 2 and None not in ends and \
                    self.same_store(ends[0][0][0], ends[1][0][0]):
                end = {k: v for k, v in ends[0][0][0].items()
                       if k not in base or base[k] is not v}
                good = True
                if value is not None:
                    good = len(values) == 2
                    if good:
                        end[value] = self.either(cond, values[True],
                                                 values[False])
                        good = end[value] is not DEAD
                if good:
                    c.cache[key] = (end, 1 + max(e[0][1] for e in ends))
        end = c.cache[key]
        if end is None:
            c.counter += 1
            return False
        c.store.update(end[0])
        c.counter = end[1]
        return True

    def either(self, cond, a, b):
        """A value that is a if cond else b, if there is one."""
        if self.identical(a, b):
            return a
        try:
            x, y = self.th.number(a), self.th.number(b)
        except (PyRaise, Unsupported):
            return DEAD
        for v in (a, b):
            if isinstance(v, bool) or isinstance(v, Sym) and \
                    v.k not in ('num', 'int'):
                return DEAD
        t = z3.If(cond, x, y)
        return Sym(t, 'num' if t.sort() == R else 'int')

    def same_store(self, a, b):
        if set(a) != set(b):
            return False
        for k, v in a.items():
            w = b[k]
            if v is w or self.identical(v, w):
                continue
            if type(v) is type(w) and isinstance(v, (Lst, Dct)) and \
                    not v.items and not w.items:
                continue
            return False
        return True

    def x_If(self, st, fr):
        if st.orelse and all(isinstance(x, (ast.Assign, ast.AnnAssign))
                             for x in st.body + st.orelse):
            t = self.th.truth(self.eval(st.test, fr))
            if self.alike(t, lambda: self.exec_body(st.body, fr),
                          lambda: self.exec_body(st.orelse, fr)):
                return
            self.exec_body(st.body if self.c.decide(t) else st.orelse, fr)
            return
        if self.cond(st.test, fr):
            self.exec_body(st.body, fr)
        else:
            self.exec_body(st.orelse, fr)

    def x_Break(self, st, fr):
        raise BreakX()

    def x_Continue(self, st, fr):
        raise ContinueX()

    def x_Assert(self, st, fr):
        if not self.cond(st.test, fr):
            raise PyRaise(AssertionError)

    def x_Raise(self, st, fr):
        if st.exc is None:
            raise Unsupported('bare raise')
        e = st.exc
        if isinstance(e, ast.Call):
            for a in e.args:
                self.eval(a, fr)
            e = e.func
        cls = self.real_class(self.eval(e, fr))
        self.th.on_raise(cls)
        raise PyRaise(cls)

    def real_class(self, v):
        if isinstance(v, tuple):
            return tuple(self.real_class(x) for x in v)
        if not isinstance(v, Dotted):
            raise Unsupported('exception {!r}'.format(v))
        if hasattr(builtins, v.path):
            return getattr(builtins, v.path)
        mod, _, name = v.path.rpartition('.')
        try:
            return getattr(importlib.import_module(mod), name)
        except (ImportError, AttributeError):
            raise Unsupported('exception {}'.format(v.path))

    def x_Try(self, st, fr):
        try:
            try:
                self.exec_body(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or issubclass(
                            e.cls, self.real_class(self.eval(h.type, fr))):
                        if h.name:
                            self.c.write((fr.fid, h.name), Sym(
                                self.c.fresh('exc', U), 'val'))
                        self.exec_body(h.body, fr)
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, fr)
        finally:
            if st.finalbody:
                self.exec_body(st.finalbody, fr)

    def x_FunctionDef(self, st, fr):
        self.c.write((fr.fid, st.name), Code(st, fr.mod, fr))

    def x_While(self, st, fr):
        for _ in range(200):
            t = self.th.truth(self.eval(st.test, fr))
            if not isinstance(t, bool):
                raise Unsupported('while')
            if not t:
                self.exec_body(st.orelse, fr)
                return
            try:
                self.exec_body(st.body, fr)
            except ContinueX:
                continue
            except BreakX:
                return
        raise Unsupported('while')

    def x_For(self, st, fr):
        def run(e):
            self.assign(st.target, e, fr)
            self.exec_body(st.body, fr)

        it = self.eval(st.iter, fr)
        names = {(fr.fid, x) for x in assigned([st])}
        if not self.loop(it, run, names, self.extended(st, fr)):
            self.exec_body(st.orelse, fr)

    # ----------------------------------------------------------------- loops
    def extended(self, st, fr):
        """The collections that the statement seems to extend.

        A guess: whatever else is extended is found out.
        """
        out = set()
        for n in ast.walk(st):
            e = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr == 'append':
                e = n.func.value
            elif isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], ast.Subscript):
                e = n.targets[0].value
            if isinstance(e, ast.Name):
                v = self.c.store.get((fr.fid, e.id))
            elif isinstance(e, ast.Attribute) and isinstance(
                    e.value, ast.Name):
                v = self.c.store.get((fr.fid, e.value.id))
                if isinstance(v, Ref) and isinstance(self.obj(v), Inst):
                    v = self.obj(v).attrs.get(e.attr)
            else:
                continue
            if isinstance(v, Ref) and isinstance(self.obj(v), (Lst, Dct)):
                out.add(v.oid)
        return out

    def loop(self, it, run, names, hint=()):
        """Run the loop; tells whether it was left by break."""
        els = self.th.elements(it)
        if els is not None:
            try:
                for e in els:
                    try:
                        run(e)
                    except ContinueX:
                        pass
            except BreakX:
                return True
            return False
        return self.sym_loop(self.th.source(it), run, names, hint)

    def start(self, src, names, n0, tagname, modified):
        """The state before an arbitrary iteration."""
        c = self.c
        for k in names:
            if k in c.store:
                c.store[k] = DEAD
        n = c.fresh('n_' + tagname, I)
        c.fact(n >= n0)
        c.fact(n <= c.store['cap'])
        c.write('n', n)
        base = {}
        for k, v in list(c.store.items()):
            if k in modified:
                c.store[k] = type(v)(v.items + (Seg(c.fresh('pre', U)), ))
        for k, v in c.store.items():
            if isinstance(k, str):
                base[k] = v
        c.events = ()
        return base

    def one(self, src, run, idx):
        e = self.th.element(src, idx)
        try:
            try:
                run(e)
            except ContinueX:
                pass
            return 'normal', None
        except BreakX:
            return 'break', None
        except ReturnX as r:
            return 'return', r
        except PyRaise as r:
            return 'raise', r

    def sym_loop(self, src, run, names, hint=()):
        c = self.c
        n0 = self.n()
        goals = self.th.loop_goals(src)
        key = (c.decided, c.counter)
        if key not in c.cache:
            # (executing the same prefix again finds the same)
            c.cache[key] = self.loop_facts(src, run, names, hint, n0, goals)
        ok, accs, exits, modified, written = c.cache[key]
        took = None
        for e in exits:
            if took is None and c.decide(c.fresh('exit', B)):
                took = e
        nf = c.fresh('n_end', I)
        c.fact(nf >= n0)
        c.fact(nf <= c.store['cap'])
        c.write('n', nf)
        for k in names:
            if k in c.store and (took is not None or k in written):
                c.write(k, DEAD)
        if took is not None:
            for f in self.exit_conditions():
                if f[0] in exits[took]:
                    c.fact(f[1])
            for k in sorted(modified):
                old = c.store[k]
                c.write(k, type(old)(old.items + (Seg(c.fresh('acc', U)), )))
            for k, v in took[2]:
                c.write(k, v)
            if took[0] == 'break':
                return True
            if took[0] == 'return':
                raise ReturnX(took[1])
            raise PyRaise(took[1])
        for g in goals:
            if ok[g]:
                c.fact(z3.Or(nf > 0, self.th.loop_conclusion(g, src)))
        if not accs['iterations']:
            c.fact(self.th.empty_source(src))
            return False
        for k in sorted(modified):
            old = c.store[k]
            s = c.fresh('acc', U)
            kinds = set.intersection(*accs[k]) if accs.get(k) else set()
            kept = self.th.acc_base(old, src)
            if kept == ():
                for kd in sorted(kinds, key=str):
                    for f in self.th.acc_facts(kd, src, s):
                        c.fact(z3.Or(nf > 0, f))
            c.write(k, type(old)(kept + (Seg(s), )))
        return False

    def exit_conditions(self):
        """What may be known when a loop is left by break or return."""
        n, cap = self.n(), self.c.store['cap']
        return [('erred', n > 0), ('full', n == cap), ('none', n == 0)] + \
            self.th.exit_conditions()

    def portable(self, names):
        """The variables with a value that does not depend on the iteration.
        """
        out = []
        for k in sorted(names):
            v = self.c.store.get(k, DEAD)
            if plain(v) or self.th.is_portable(v):
                out.append((k, v))
        return tuple(out)

    def loop_facts(self, src, run, names, hint, n0, goals):
        """What one arbitrary iteration does."""
        c = self.c
        ok, accs, exits, modified = {}, {}, {}, set(hint)
        written = set()
        outer = set(k for k in c.store if isinstance(k, str))

        def body():
            base = self.start(src, names, n0, 'it', modified)
            idx = c.fresh('i', I)
            for k, h in hyps.items():
                c.store[k] = self.th.assumed(h, idx)
            kind, r = self.one(src, run, idx)
            if c.check(z3.BoolVal(True)) == 'unsat':
                return
            for k in outer:
                if k in ('n', 'cap'):
                    continue
                a, b = base[k], c.store.get(k)
                if a is b:
                    continue
                if isinstance(a, (Lst, Dct)) and isinstance(b, type(a)) and \
                        b.items[:len(a.items)] == a.items:
                    modified.add(k)
                else:
                    raise Unsupported('loop modifies an object {} {} {}'.format(k, getattr(a,'items',a), getattr(b,'items',b)))
            if kind != 'normal':
                v = None
                if kind == 'return':
                    v = r.v
                    if not plain(v):
                        raise Unsupported('value returned from a loop')
                elif kind == 'raise':
                    v = r.cls
                known = {f[0] for f in self.exit_conditions()
                         if c.must(boolean(f[1]))}
                e = (kind, v, self.portable(names))
                exits[e] = exits.get(e, known) & known
                return
            accs['iterations'] = True
            for k, h in list(hyps.items()):
                if not self.th.preserved(h, idx, c.store.get(k, DEAD)):
                    wrong.add(k)
            # (variables are not tracked at the start of an iteration)
            written.update(k for k in names
                           if c.store.get(k, DEAD) is not DEAD)
            erred = self.n() > 0
            for g in goals:
                if ok[g] and not c.must(z3.Or(erred, self.th.loop_goal(
                        g, src, idx))):
                    ok[g] = False
            for k in outer:
                if k not in base or not isinstance(base[k], (Lst, Dct)):
                    continue
                m = len(base[k].items)
                delta = c.store[k].items[m:]
                accs.setdefault(k, []).append(
                    self.th.delta(src, idx, delta, erred))

        counter = c.counter
        hyps = {k: h for k, h in ((k, self.th.hypothesis(
            c.store.get(k, DEAD))) for k in sorted(names)) if h is not None}
        wrong = set()
        while True:
            # the collections that an iteration extends, and what is assumed
            # of the variables at the start of an iteration
            before = set(modified)
            for k in wrong:
                hyps.pop(k, None)
            wrong.clear()
            accs.clear()
            accs['iterations'] = False
            exits.clear()
            ok.update({g: True for g in goals})
            c.explore(body, label='loop{}'.format(c.counter))
            if modified == before and not wrong:
                break
            c.counter += 1
        c.counter = counter
        return ok, accs, exits, modified, written

    # ------------------------------------------------------------ cut points
    def cut_body(self, body, fr, on_exit, candidates, targets, after=()):
        """Execute a function body with cut points between its statements.

        on_exit(kind, value) checks the postcondition at every exit.
        candidates(): {name: formula} of assertions worth keeping.
        targets: the heap objects whose attributes are described by them.
        after: what is evaluated at the exits.
        """
        c = self.c
        i = 0
        while i < len(body):
            j = i + 1
            while True:
                surv = []
                good = {}

                def seg():
                    try:
                        self.exec_body(body[i:j], fr)
                    except ReturnX as r:
                        on_exit('return', r.v)
                        return
                    except PyRaise as r:
                        on_exit('raise', r)
                        return
                    if c.check(z3.BoolVal(True)) == 'unsat':
                        return
                    if j == len(body):
                        on_exit('return', None)
                        return
                    for k, f in candidates().items():
                        if good.get(k, True):
                            good[k] = c.must(boolean(f))
                    surv.append((c.snapshot(), {
                        t: self.obj(t) for t in targets},
                        self.th.describe(base[0][0]), self.known(fr)))
                base = c.snapshot()
                c.explore(seg, label='cut{}'.format(i))
                if len(surv) <= 1:
                    break
                live = live_in(body[j:], set()) | loaded(after)
                self.summaries = self.th.summarize(
                    base[0][0], [(s[0][0][0], s[2]) for s in surv])
                if not self.conflict(base, surv, live, fr):
                    break
                # a local that is still needed differs: take more statements
                j += 1
            if not surv:
                return
            if len(surv) == 1:
                counter = c.counter
                c.restore(surv[0][0])
                c.counter = max(counter, c.counter)
            else:
                self.merge(surv, fr, targets, good, candidates)
            i = j

    def conflict(self, base, surv, live, fr):
        keys = set()
        for s in surv:
            keys |= {k for k in s[0][0][0] if isinstance(k, tuple) and
                     k[0] == fr.fid and k[1] in live}
        for k in keys:
            vals = [s[0][0][0].get(k, DEAD) for s in surv]
            if any(not self.identical(vals[0], v) for v in vals[1:]):
                if self.agreed(k, surv):
                    continue
                return True
            if isinstance(vals[0], Ref):
                o = [s[0][0][0].get(vals[0].oid) for s in surv]
                if any(x is not o[0] for x in o[1:]) and \
                        vals[0] not in surv[0][1] and \
                        vals[0].oid not in self.summaries:
                    return True
        return False

    def identical(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Sym):
            return a.k == b.k and a.t.eq(b.t)
        if isinstance(a, Ref):
            return a == b
        if isinstance(a, Ptr):
            return a.ref == b.ref
        if isinstance(a, Str):
            return repr(a.parts) == repr(b.parts)
        if isinstance(a, Reg):
            return a.name == b.name
        if isinstance(a, Dotted):
            return a.path == b.path
        if isinstance(a, SymInst):
            return a.t.eq(b.t)
        if plain(a):
            return a == b
        return False

    def known(self, fr):
        """The terms that local variables are equal to."""
        terms = self.th.local_terms()
        out = {}
        if terms:
            for k, v in self.c.store.items():
                if not isinstance(k, tuple) or k[0] != fr.fid or \
                        isinstance(v, bool) or not (
                            isinstance(v, (int, fractions.Fraction)) or
                            isinstance(v, Sym) and v.k in ('int', 'num')):
                    continue
                x = self.th.number(v)
                out[k] = {n for n, t in terms.items()
                          if self.c.must(t == x)}
        return out

    def agreed(self, k, surv):
        """A term that the variable is equal to at all the ends."""
        names = sorted(set.intersection(*[s[3].get(k, set())
                                          for s in surv]))
        return names[0] if names else None

    def merge(self, surv, fr, targets, good, candidates):
        c = self.c
        # explore() has restored the state before the segment
        n0 = self.n()
        first = surv[0][0][0][0]
        c.counter = max([c.counter] + [s[0][0][1] for s in surv])
        same_n = all(self.same_term(s[0][0][0]['n'], n0) for s in surv)
        if not same_n:
            n = c.fresh('n_cut', I)
            c.fact(n >= n0)
            c.fact(n <= c.store['cap'])
            c.store['n'] = n
        for k, v in first.items():
            if isinstance(k, tuple) and k[0] == fr.fid:
                vals = [s[0][0][0].get(k, DEAD) for s in surv]
                ok = all(self.identical(v, x) for x in vals)
                c.store[k] = v if ok else DEAD
                if not ok and self.agreed(k, surv):
                    t = self.th.local_terms()[self.agreed(k, surv)]
                    c.store[k] = Sym(t, 'num' if t.sort() == R else 'int')
        for k, v in list(c.store.items()):
            if isinstance(k, tuple) and k[0] == fr.fid and isinstance(
                    v, Ref) and v.oid not in c.store:
                objs = [s[0][0][0].get(v.oid) for s in surv]
                if v.oid in self.summaries:
                    c.store[v.oid] = self.summaries[v.oid]
                elif all(o is objs[0] or isinstance(o, (Lst, Dct)) and
                         type(o) is type(objs[0]) and not o.items and
                         not objs[0].items for o in objs):
                    c.store[v.oid] = objs[0]
                else:
                    c.store[v.oid] = DEAD
        # objects that an attribute described anew may refer to
        lost = set()
        for t in targets:
            objs = [s[1][t] for s in surv]
            names = set().union(*[o.attrs for o in objs])
            attrs = {}
            for nm in sorted(names):
                vals = [o.attrs.get(nm, DEAD) for o in objs]
                if all(self.identical(vals[0], v) for v in vals) and \
                        not self.volatile(vals[0], surv):
                    attrs[nm] = vals[0]
                else:
                    lost |= {v.oid for v in map(self.pointee, vals)
                             if v is not None}
                    attrs[nm] = Sym(c.fresh('attr_' + nm, U), 'val',
                                    node='any')
            c.store[t.oid] = Inst(objs[0].cls, attrs)
        # heap objects that exist before and after, changed by the segment
        for k in list(c.store):
            if isinstance(k, str) and isinstance(c.store[k],
                                                 (Lst, Dct, Inst)):
                if any(k == t.oid for t in targets):
                    continue
                if k in lost:
                    c.store[k] = DEAD
                elif any(s[0][0][0].get(k) is not c.store[k] for s in surv):
                    c.store[k] = self.summaries.get(k, DEAD)
        now = candidates()
        for k, f in now.items():
            if good.get(k):
                c.fact(boolean(f))

    def pointee(self, v):
        if isinstance(v, Ptr):
            return v.ref
        return v if isinstance(v, Ref) else None

    def volatile(self, v, surv):
        """Does a value refer to an object that a segment made or changed?
        """
        r = self.pointee(v)
        if r is None:
            return False
        if r.oid not in self.c.store:
            return True
        return r.oid not in self.summaries and any(
            s[0][0][0].get(r.oid) is not self.c.store[r.oid] for s in surv)

    def same_term(self, a, b):
        if isinstance(a, int) or isinstance(b, int):
            return type(a) is type(b) and a == b
        return a.eq(b)

    # ----------------------------------------------------------- expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression {}'.format(type(e).__name__))
        return m(e, fr)

    def cond(self, e, fr):
        return self.c.decide(self.th.truth(self.eval(e, fr)))

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        f = fr
        while f is not None:
            k = (f.fid, e.id)
            if k in self.c.store:
                v = self.c.store[k]
                if v is DEAD:
                    raise Unsupported('variable {} is not tracked'.format(
                        e.id))
                return v
            if f is fr and f.locs is not None and e.id in f.locs:
                raise PyRaise(UnboundLocalError)
            f = f.parent
        return self.global_name(e.id, fr.mod)

    def global_name(self, name, mod):
        if name in mod.names:
            return self.of_def(mod.names[name], mod, name)
        if hasattr(builtins, name):
            return Dotted(name)
        raise PyRaise(NameError)

    def of_def(self, d, mod, name):
        if isinstance(d, Dotted):
            return d
        if isinstance(d, ast.FunctionDef):
            return Dotted('{}.{}'.format(mod.path, name))
        if isinstance(d, ast.ClassDef):
            return Dotted('{}.{}'.format(mod.path, name))
        return self.eval(d, self.frame(mod))

    def e_Attribute(self, e, fr):
        v = self.eval(e.value, fr)
        if isinstance(v, Dotted):
            path = '{}.{}'.format(v.path, e.attr)
            if v.path in self.modules:
                if path in self.modules:
                    return Dotted(path)
                mod = self.modules[v.path]
                if e.attr not in mod.names:
                    raise PyRaise(AttributeError)
                return self.of_def(mod.names[e.attr], mod, e.attr)
            return Dotted(path)
        return self.th.getattr(v, e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            return self.th.slice(o, *[None if x is None else self.eval(x, fr)
                                      for x in (s.lower, s.upper, s.step)])
        return self.th.getitem(o, self.eval(e.slice, fr))

    def e_Tuple(self, e, fr):
        return tuple(self.eval(x, fr) for x in e.elts)

    def e_List(self, e, fr):
        return self.new(Lst([self.eval(x, fr) for x in e.elts]))

    def e_Dict(self, e, fr):
        if None in e.keys:
            raise Unsupported('** in a dictionary')
        return self.new(Dct([(self.eval(k, fr), self.eval(v, fr))
                             for k, v in zip(e.keys, e.values)]))

    def e_IfExp(self, e, fr):
        t = self.th.truth(self.eval(e.test, fr))
        tmp = (fr.fid, ' if')

        def side(x):
            self.c.store[tmp] = self.eval(x, fr)
        if self.alike(t, lambda: side(e.body), lambda: side(e.orelse), tmp):
            return self.c.store.pop(tmp)
        return self.eval(e.body if self.c.decide(t) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, fr)
            if x is e.values[-1]:
                return v
            if self.c.decide(self.th.truth(v)) != is_and:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.th.truth(v)
            return not t if isinstance(t, bool) else Sym(z3.Not(t), 'bool')
        if isinstance(e.op, ast.USub) and plain(v):
            return -v
        return self.th.unary(e.op, v)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            res = self.th.compare(op, left, right)
            if i < len(e.ops) - 1 and not self.c.decide(
                    self.th.truth(res)):
                return False
            left = right
        return res

    def e_BinOp(self, e, fr):
        return self.th.binop(e.op, self.eval(e.left, fr),
                             self.eval(e.right, fr))

    def e_JoinedStr(self, e, fr):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.eval(p.value, fr)
                spec = p.format_spec
                if spec is not None and p.conversion == -1 and len(
                        spec.values) == 1 and isinstance(
                            spec.values[0], ast.Constant):
                    out.append(self.th.spec_text(v, spec.values[0].value))
                elif spec is not None or p.conversion == ord('a'):
                    out.append(self.th.opaque_text())
                elif p.conversion == ord('r'):
                    out.append(self.th.text_repr(v))
                else:
                    out.append(self.th.text(v))
        return rope(*out)

    def e_Lambda(self, e, fr):
        return Code(e, fr.mod, fr)

    def e_ListComp(self, e, fr):
        acc = self.new(Lst())
        self.comp(e.generators, fr, lambda f: self.th.method(
            acc, 'append', [self.eval(e.elt, f)], {}))
        return acc

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_DictComp(self, e, fr):
        acc = self.new(Dct())
        self.comp(e.generators, fr, lambda f: self.th.setitem(
            acc, self.eval(e.key, f), self.eval(e.value, f)))
        return acc

    def comp(self, gens, fr, emit):
        f2 = self.frame(fr.mod, fr, set())

        def go(k):
            if k == len(gens):
                emit(f2)
                return
            g = gens[k]

            def run(v):
                self.assign(g.target, v, f2)
                for cnd in g.ifs:
                    if not self.cond(cnd, f2):
                        return
                go(k + 1)
            names = {(f2.fid, x.id) for x in ast.walk(g.target)
                     if isinstance(x, ast.Name)}
            self.loop(self.eval(g.iter, f2 if k else fr), run, names)
        go(0)

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if not isinstance(v, tuple):
                    raise Unsupported('starred argument')
                args.extend(v)
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('** argument')
            kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        if isinstance(f, Method):
            return self.th.method(f.obj, f.name, args, kwargs)
        if isinstance(f, Code):
            return self.inline(f, args, kwargs)
        if isinstance(f, Dotted):
            mod, _, name = f.path.rpartition('.')
            if mod in self.modules:
                d = self.modules[mod].names.get(name)
                if isinstance(d, ast.FunctionDef):
                    ct = self.th.contract(mod, name)
                    code = Code(d, self.modules[mod])
                    if ct is not None:
                        return ct(self.bind(d, self.modules[mod], args,
                                            kwargs))
                    return self.inline(code, args, kwargs)
                if isinstance(d, ast.ClassDef):
                    return self.instantiate(d, self.modules[mod], args,
                                            kwargs)
            return self.th.native(f.path, args, kwargs)
        raise Unsupported('call of {!r}'.format(f))

    def instantiate(self, d, mod, args, kwargs):
        o = self.new(Inst(d.name, {}))
        for st in d.body:
            if isinstance(st, ast.FunctionDef) and st.name == '__init__':
                self.inline(Code(st, mod), [o] + list(args), kwargs)
                return o
        if args or kwargs:
            raise PyRaise(TypeError)
        return o
