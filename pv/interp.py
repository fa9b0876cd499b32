"""Statements, expressions and calls of the interpreted Python subset."""
import ast
import builtins
import collections
import inspect
import os
import sys
import types

import z3

from pv.engine import *  # noqa
from pv.engine import Interp as _Base, StopPair

_AST_CACHE = {}


def module_ast(mod):
    fn = mod.__file__
    st = os.stat(fn)
    key = (fn, st.st_mtime_ns, st.st_size)
    if key not in _AST_CACHE:
        with open(fn) as f:
            _AST_CACHE[key] = ast.parse(f.read(), fn)
    return _AST_CACHE[key]


def unwrap(f):
    while hasattr(f, '__wrapped__'):
        f = f.__wrapped__
    return f


def find_def(tree, qualname):
    parts = [p for p in qualname.split('.') if p != '<locals>']
    body = tree.body
    node = None
    for p in parts:
        node = None
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p:
                node = n
        if node is None:
            return None
        body = node.body
    return node


def has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Interp(_Base):

    # ------------------------------------------------------------- functions
    def func_of(self, f):
        """FuncVal of a real Python function from its source file."""
        g = unwrap(f)
        mod = sys.modules.get(g.__module__)
        if mod is None or not getattr(mod, '__file__', None):
            raise Unsupported('no source of {}'.format(g))
        node = None
        if g.__name__ == '<lambda>':
            tree = module_ast(mod)
            for n in ast.walk(tree):
                if isinstance(n, ast.Lambda) and \
                        n.lineno == g.__code__.co_firstlineno:
                    node = n
        else:
            node = find_def(module_ast(mod), g.__qualname__)
        if node is None:
            raise Unsupported('no definition of {}'.format(g))
        globs = g.__globals__
        a = node.args
        defaults = list(g.__defaults__ or ())
        kwd = dict(g.__kwdefaults__ or {})
        fv = FuncVal(node, globs, None, g.__name__, defaults, kwd,
                     qual='{}:{}'.format(g.__module__, g.__qualname__))
        if isinstance(node, ast.FunctionDef):
            req, ens = [], []
            for d in node.decorator_list:
                if isinstance(d, ast.Call):
                    nm = d.func.attr if isinstance(d.func, ast.Attribute) \
                        else getattr(d.func, 'id', '')
                    off = any(k.arg == 'enabled' and
                              isinstance(k.value, ast.Attribute) and
                              k.value.attr == 'SLOW' for k in d.keywords)
                    lam = d.args[0] if d.args else next(
                        (k.value for k in d.keywords if k.arg == 'condition'),
                        None)
                    if off or not isinstance(lam, ast.Lambda):
                        continue
                    err = next((k.value for k in d.keywords
                                if k.arg == 'error'), None)
                    if nm == 'require':
                        req.append((lam, err))
                    elif nm == 'ensure':
                        ens.append((lam, err))
            fv.requires, fv.ensures = tuple(reversed(req)), tuple(ens)
        return fv

    def bind(self, fv, args, kwargs):
        a = fv.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise(TypeError)
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(names):])
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwo:
                if k in out:
                    raise PyRaise(TypeError)
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise(TypeError)
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.c.alloc(DictC(list(extra.items())))
        d = fv.defaults
        for n, v in zip(names[len(names) - len(d):], d):
            out.setdefault(n, v)
        for k in kwo:
            if k not in out:
                if k not in fv.kwdefaults:
                    raise PyRaise(TypeError)
                out[k] = fv.kwdefaults[k]
        for n in names:
            if n not in out:
                raise PyRaise(TypeError)
        return out

    def new_frame(self, globs, parent=None):
        self.c.counter += 1
        return Frame('{}f{}'.format(self.c.prefix, self.c.counter), globs,
                     parent)

    def call_func(self, fv, args, kwargs, self_cls=None):
        c = self.c
        self.stack_depth = getattr(self, 'stack_depth', 0)
        if self.stack_depth > 60:
            raise Unsupported('recursion too deep')
        b = self.bind(fv, args, kwargs)
        fr = self.new_frame(fv.globs, fv.frame)
        fr.cls = self_cls
        for n, v in b.items():
            c.store[(fr.fid, n)] = v
        fr.locs = set(b) | self.locals_of(fv.node)
        if args:
            fr.self_ = args[0]
        for lam, err in fv.requires:
            if not self.cond(self.call_lambda(lam, fr, b, None)):
                raise PyRaise(self.M.violation(self, err, fr))
        self.stack_depth += 1
        try:
            if isinstance(fv.node, ast.Lambda):
                return self.eval(fv.node.body, fr)
            if has_yield(fv.node):
                acc = c.new_list()
                c.store[(fr.fid, '<yield>')] = acc
                try:
                    self.exec_body(fv.node.body, fr)
                except ReturnX:
                    pass
                return acc
            try:
                self.exec_body(fv.node.body, fr)
                res = None
            except ReturnX as r:
                res = r.v
        finally:
            self.stack_depth -= 1
        # `@ensure` of the code is not used as an assumption nor checked here:
        # the contract's postcondition (result == specification) replaces it;
        # the bounded runs execute the decorators for real.
        return res

    def call_lambda(self, lam, fr, b, res):
        f2 = self.new_frame(fr.globs, None)
        f2.locs = set()
        for x in lam.args.args:
            f2.locs.add(x.arg)
            self.c.store[(f2.fid, x.arg)] = res if x.arg == 'result' \
                and 'result' not in b else b[x.arg]
        return self.eval(lam.body, f2)

    _LOCS = {}

    def locals_of(self, node):
        k = id(node)
        if k in self._LOCS and self._LOCS[k][0] is node:
            return self._LOCS[k][1]
        out = set()
        if isinstance(node, ast.FunctionDef):
            stack = list(node.body)
            glob = set()
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                    continue
                if isinstance(n, ast.Lambda):
                    continue
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                                  ast.GeneratorExp)):
                    continue
                if isinstance(n, ast.Name) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                if isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob.update(n.names)
                stack.extend(ast.iter_child_nodes(n))
            out -= glob
        self._LOCS[k] = (node, out)
        return out

    # ------------------------------------------------------------- statements
    def exec_body(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def setvar(self, fr, name, val):
        f = fr
        if f.locs is not None and name not in f.locs:
            # comprehension frames bind their own targets only
            f.locs.add(name)
        self.c.write((f.fid, name), val)

    def exec(self, st, fr):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement {}'.format(type(st).__name__))
        return m(st, fr)

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Import(self, st, fr):
        for al in st.names:
            m = __import__(al.name)
            self.setvar(fr, (al.asname or al.name).split('.')[0], m)

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        load = ast.copy_location(
            ast.parse(ast.unparse(st.target), mode='eval').body, st)
        cur = self.eval(load, fr)
        v = self.eval(st.value, fr)
        if isinstance(cur, Ref) and isinstance(st.op, ast.Add) and \
                isinstance(self.c.store[cur.oid], ListC):
            self.M.call_method(self, cur, 'extend', [v], {})
            return
        if isinstance(cur, Ref) and isinstance(st.op, ast.BitOr) and \
                isinstance(self.c.store[cur.oid], (SetC, DictC)):
            self.M.call_method(self, cur, 'update', [v], {})
            return
        self.assign(st.target, self.M.binop(self, st.op, cur, v), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.M.unpack(self, v, len(t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.M.setattr_(self, self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.M.setitem(self, self.eval(t.value, fr),
                           self.eval(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.c.write((fr.fid, t.id), UNDEF)
            else:
                raise Unsupported('del')

    def x_Return(self, st, fr):
        raise ReturnX(None if st.value is None else self.eval(st.value, fr))

    def x_If(self, st, fr):
        if self.cond(self.eval(st.test, fr)):
            self.exec_body(st.body, fr)
        else:
            self.exec_body(st.orelse, fr)

    def x_For(self, st, fr):
        it = self.eval(st.iter, fr)

        def run_iter(e):
            self.assign(st.target, e, fr)
            self.exec_body(st.body, fr)

        broke = self.run_for(it, run_iter)
        if not broke and st.orelse:
            self.exec_body(st.orelse, fr)

    def x_While(self, st, fr):
        # concrete loops run; symbolic ones become a lockstep loop
        n = 0
        while True:
            c = self.truth(self.eval(st.test, fr))
            if not isinstance(c, bool):
                break
            if not c:
                self.exec_body(st.orelse, fr)
                return
            n += 1
            if n > 500:
                raise Unsupported('long concrete while')
            try:
                self.exec_body(st.body, fr)
            except ContinueX:
                continue
            except BreakX:
                return

        def run_iter(_e):
            if not self.cond(self.eval(st.test, fr)):
                raise BreakX()
            self.exec_body(st.body, fr)

        try:
            self.sym_loop(('while',), run_iter)
        except BreakX:
            return
        raise Infeasible()  # partial correctness: it ends by its condition

    def x_Break(self, st, fr):
        raise BreakX()

    def x_Continue(self, st, fr):
        raise ContinueX()

    def x_Assert(self, st, fr):
        if not self.cond(self.eval(st.test, fr)):
            raise PyRaise(AssertionError)

    def x_Raise(self, st, fr):
        if st.exc is None:
            cur = getattr(self, 'cur_exc', None)
            if cur is None:
                raise Unsupported('bare raise')
            raise PyRaise(*cur)
        v = self.eval(st.exc, fr)
        if isinstance(v, type):
            raise PyRaise(v, None)
        if isinstance(v, Ref):
            raise PyRaise(self.c.store[v.oid].cls, v)
        if isinstance(v, Sym) and isinstance(v.ty, tuple) and \
                v.ty[0] == 'obj':
            raise PyRaise(v.ty[1], v)
        if isinstance(v, BaseException):
            raise PyRaise(type(v), v)
        raise Unsupported('raise {!r}'.format(v))

    def x_Try(self, st, fr):
        try:
            try:
                self.exec_body(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None:
                        match = True
                    else:
                        cls = self.eval(h.type, fr)
                        match = self.M.exc_match(self, e.cls, cls)
                    if match:
                        if h.name:
                            val = e.val
                            if val is None:
                                val = self.c.alloc(InstC(e.cls, {}))
                            self.setvar(fr, h.name, val)
                        saved = getattr(self, 'cur_exc', None)
                        self.cur_exc = (e.cls, e.val)
                        try:
                            self.exec_body(h.body, fr)
                        finally:
                            self.cur_exc = saved
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, fr)
        finally:
            if st.finalbody:
                self.exec_body(st.finalbody, fr)

    def x_With(self, st, fr):
        for it in st.items:
            v = self.M.enter(self, self.eval(it.context_expr, fr))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.exec_body(st.body, fr)

    def x_FunctionDef(self, st, fr):
        self.setvar(fr, st.name, self.make_func(st, fr))

    def make_func(self, node, fr):
        a = node.args
        return FuncVal(node, fr.globs, fr, getattr(node, 'name', '<lambda>'),
                       [self.eval(d, fr) for d in a.defaults],
                       {x.arg: self.eval(d, fr)
                        for x, d in zip(a.kwonlyargs, a.kw_defaults)
                        if d is not None})

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression {}'.format(type(e).__name__))
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            k = (f.fid, name)
            if k in self.c.store:
                v = self.c.store[k]
                if v is UNDEF:
                    raise Unsupported('variable {} after a loop'.format(name))
                return v
            if f.locs is not None and name in f.locs and f is fr and \
                    f.parent is None:
                raise PyRaise(UnboundLocalError)
            f = f.parent
        if name in fr.globs:
            return fr.globs[name]
        b = fr.globs.get('__builtins__', builtins)
        if isinstance(b, dict):
            if name in b:
                return b[name]
        elif hasattr(b, name):
            return getattr(b, name)
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def elts(self, xs, fr):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                for p in self.source_of(self.eval(x.value, fr)):
                    if p[0] != 'elems':
                        raise Unsupported('star of symbolic list')
                    out.extend(p[1])
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        acc = self.c.new_list()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.M.call_method(self, acc, 'extend',
                                   [self.eval(x.value, fr)], {})
            else:
                self.M.call_method(self, acc, 'append', [self.eval(x, fr)], {})
        return acc

    def e_Set(self, e, fr):
        return self.c.alloc(SetC(self.elts(e.elts, fr)))

    def e_Dict(self, e, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict unpacking')
            items.append((self.eval(k, fr), self.eval(v, fr)))
        return self.c.alloc(DictC(items))

    def e_IfExp(self, e, fr):
        if self.cond(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            # pure boolean operands: build one formula, no path split
            if isinstance(v, Sym) and v.ty == 'bool':
                rest = self._pure_bools(e.values[i + 1:], fr, v.t, is_and)
                if rest is not None:
                    return rest
            b = self.c.decide(t)
            if b != is_and:
                return v
        return v

    def _pure_bools(self, xs, fr, first, is_and):
        return None

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if isinstance(t, bool):
                return not t
            return Sym(z3.Not(t), 'bool')
        if concrete(v):
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return +v
            if isinstance(e.op, ast.Invert):
                return ~v
        if isinstance(e.op, ast.USub):
            n = self.M.num(self, v)
            return Sym(-n, 'int' if n.sort() == I else 'real')
        raise Unsupported('unary op')

    def e_BinOp(self, e, fr):
        return self.M.binop(self, e.op, self.eval(e.left, fr),
                            self.eval(e.right, fr))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            res = self.M.compare(self, op, left, right)
            if i < len(e.ops) - 1:
                if not self.cond(res):
                    return False
            left = right
        return res

    def e_Attribute(self, e, fr):
        return self.M.getattr_(self, self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            g = lambda x: None if x is None else self.eval(x, fr)
            return self.M.getslice(self, o, g(s.lower), g(s.upper), g(s.step))
        return self.M.getitem(self, o, self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        raise Unsupported('slice')

    def e_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, fr)
                spec = ''
                if p.format_spec is not None:
                    spec = self.eval(p.format_spec, fr)
                parts.append(self.M.fmt_one(self, v, p.conversion, spec))
        return self.M.concat(self, parts)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_Yield(self, e, fr):
        acc = self.lookup('<yield>', fr)
        v = None if e.value is None else self.eval(e.value, fr)
        self.M.call_method(self, acc, 'append', [v], {})
        return None

    def e_YieldFrom(self, e, fr):
        acc = self.lookup('<yield>', fr)
        self.M.call_method(self, acc, 'extend', [self.eval(e.value, fr)], {})
        return None

    # comprehensions
    def comp(self, gens, fr, emit, is_comp):
        f2 = self.new_frame(fr.globs, fr)
        f2.locs = set()
        f2.cls = fr.cls

        def go(k):
            if k == len(gens):
                emit(f2)
                return
            g = gens[k]
            it = self.eval(g.iter, f2 if k else fr)

            def run_iter(e):
                self.assign(g.target, e, f2)
                for cnd in g.ifs:
                    if not self.cond(self.eval(cnd, f2)):
                        return
                go(k + 1)

            kind = is_comp
            if is_comp and len(gens) == 1 and not g.ifs:
                kind = 'map'
            self.run_for(it, run_iter, kind)
        go(0)

    def e_ListComp(self, e, fr):
        acc = self.c.new_list()
        self.comp(e.generators, fr, lambda f2: self.M.call_method(
            self, acc, 'append', [self.eval(e.elt, f2)], {}), True)
        return acc

    def e_GeneratorExp(self, e, fr):
        # evaluated eagerly except under any()/all() (see call)
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        acc = self.c.alloc(SetC(()))
        self.comp(e.generators, fr, lambda f2: self.M.call_method(
            self, acc, 'add', [self.eval(e.elt, f2)], {}), False)
        return acc

    def e_DictComp(self, e, fr):
        acc = self.c.alloc(DictC(()))

        def emit(f2):
            k = self.eval(e.key, f2)
            self.M.setitem(self, acc, k, self.eval(e.value, f2))
        self.comp(e.generators, fr, emit, False)
        return acc

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                not e.args:
            f = fr
            while f is not None and f.cls is None:
                f = f.parent
            return SuperVal(f.cls, f.self_)
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and \
                len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp) \
                and self.lookup(e.func.id, fr) in (any, all):
            want = e.func.id == 'any'
            g = e.args[0]

            class Hit(Exception):
                pass

            def emit(f2):
                if self.cond(self.eval(g.elt, f2)) == want:
                    raise ReturnX('<hit>')
            try:
                self.comp(g.generators, fr, emit, False)
            except ReturnX as r:
                if r.v == '<hit>':
                    return want
                raise
            return not want
        f = self.eval(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                for p in self.source_of(self.eval(x.value, fr)):
                    if p[0] != 'elems':
                        raise Unsupported('star of symbolic list')
                    args.extend(p[1])
            else:
                args.append(self.eval(x, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                d = self.to_py(d) if isinstance(d, Ref) else d
                if not isinstance(d, dict):
                    raise Unsupported('** of a symbolic mapping')
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        return self.M.call(self, f, args, kwargs)
