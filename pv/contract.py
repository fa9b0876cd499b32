"""Contracts and the obligations they generate."""
import collections
import importlib
import inspect
import time
import traceback

import z3

from pv.engine import *  # noqa
from pv.engine import STATS
import pv.models as M
from pv.interp import Interp, unwrap


class Contract:
    """A contract of a real function.

    spec: executable specification (a Python function with the parameters of
    the real function); post: result == spec(args), raises the same.
    """

    def __init__(self, target, spec, params, ret, pre=None, raises=(),
                 modular=True, mutates=(), shape=None, requires=None,
                 ensures=None, unfold=None, each=None, writes=False,
                 split=()):
        self.writes = writes
        # conditions whose combinations are checked separately
        self.split = tuple(split)
        self.each = each or {}
        self.ensures = ensures
        self.unfold = unfold
        self.shape = shape or {}
        self.requires = requires
        self.target = target
        self.name = target
        self.spec = spec
        self.params = collections.OrderedDict(params)
        self.ret = ret
        self.pre = pre
        self.raises = raises
        self.modular = modular
        self.mutates = mutates

    def resolve(self):
        mod, q = self.target.split(':')
        m = importlib.import_module(mod)
        o = m
        for p in q.split('.'):
            if not hasattr(o, p):
                return None
            o = getattr(o, p)
        return o

    def real_names(self):
        """The names of the real parameters, None if not usable as such."""
        if not hasattr(self, '_names'):
            self._names = list(self.params)
            if ':' in self.target and not isinstance(self, Lemma):
                try:
                    real = self.resolve()
                except ImportError:
                    real = None
                if real is not None:
                    ps = inspect.signature(unwrap(real)).parameters
                    self._names = list(ps)
                    if len(ps) != len(self.params) or any(
                            p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD)
                            for p in ps.values()):
                        self._names = None
        return self._names

    # -- at a call site: the result is known by the contract only
    def apply(self, itp, args, kwargs, spec=False):
        c = itp.c
        names = list(self.params)
        vals = {}
        real = names if spec else self.real_names() or names
        for n, a in zip(real if set(real) == set(names) else names, args):
            vals[n] = a
        for k, v in kwargs.items():
            if k not in names and k in real:
                k = names[real.index(k)]
            vals[k] = v
        sig = inspect.signature(unwrap(self.spec))
        for n in names:
            if n not in vals:
                d = sig.parameters[n].default
                if d is inspect.Parameter.empty:
                    raise PyRaise(TypeError)
                vals[n] = d
        if set(vals) != set(names):
            raise PyRaise(TypeError)
        for n, shape in self.shape.items():
            if not M.has_shape(itp, vals[n], shape):
                raise Unsupported('precondition of {} not met: {} = {}'.format(
                    self.target, n, show(itp, vals[n])))
        for n, pred in self.each.items():
            # of an arbitrary entry of the mapping
            d = itp.norm(vals[n])
            if not isinstance(d, Sym):
                raise Unsupported('precondition on a constructed mapping')
            key = c.fresh('key', S)
            el = get(d.t, key)
            M.on_get(itp, d.t, None, el)
            rest = {k: v for k, v in vals.items() if k in sig_of(pred)}
            t = itp.truth(M.call_real(itp, pred, [], dict(rest, value=itp.from_v(el, 'json'))))
            if not c.must(itp.or_([itp.not_(has(d.t, key)), t])):
                raise Unsupported('precondition of {} not met: an entry of '
                                  '{}'.format(self.target, n))
        if self.requires is not None:
            t = itp.truth(M.call_real(itp, self.requires, [], vals))
            if not c.must(t):
                raise Unsupported('precondition of {} not met'.format(
                    self.target))
        vs = []
        for n in names:
            if self.params[n] == 'ignored':
                continue
            vs.append(itp.to_v(itp.norm(vals[n])))
        uname = 'f_' + self.target
        for exc in self.raises:
            flag = uf('{}_raises_{}'.format(uname, exc.__name__),
                      *([V] * len(vs) + [B]))(*vs) if vs else \
                z3.Const(uname + '_r', B)
            if c.decide(flag):
                raise PyRaise(exc)
        for n in self.mutates:
            r = itp.norm(vals[n])
            o = c.store[r.oid]
            m = uf('{}_mut_{}'.format(uname, n), *([V] * (len(vs) + 1)))(*vs)
            c.write(r.oid, type(o)(o.items + (Seg(m, None),)))
        t = uf(uname, *([V] * (len(vs) + 1)))(*vs)
        res = materialise(itp, t, self.ret)
        if self.ensures is not None:
            b = itp.truth(itp.call_func(itp.func_of(self.ensures), [],
                                        dict(vals, result=res)))
            c.fact(b)
        return res


def sig_of(f):
    return set(inspect.signature(f).parameters)


def materialise(itp, t, ty):
    c = itp.c
    if isinstance(ty, tuple):
        if ty[0] == 'list':
            c.fact(llen(t) >= 0)
            return c.new_list((Seg(t, ty[1]),))
        if ty[0] == 'dict':
            c.fact(dlen(t) >= 0)
            return c.alloc(DictC((Seg(t, ty[1]),)))
        if ty[0] == 'set':
            return c.alloc(SetC((Seg(t, ty[1]),)))
        if ty[0] == 'tuple':
            c.fact(tag(t) == TUP)
            return tuple(materialise(itp, lelem(t, z3.IntVal(i)), e)
                         for i, e in enumerate(ty[1:]))
    return itp.from_v(t, ty)


def contract(target, params, ret, **kw):
    def deco(f):
        ct = Contract(target, f, params, ret, **kw)
        M.CONTRACTS[target] = ct
        M.SPEC_OF[id(f)] = ct
        f.contract = ct
        return f
    return deco


class Lemma(Contract):
    """A statement over specifications: the function returns True always."""

    def resolve(self):
        return self.spec


def lemma(name, params, **kw):
    def deco(f):
        ct = Lemma('lemma:' + name, f, params, 'bool', modular=False, **kw)
        M.CONTRACTS[ct.target] = ct
        f.contract = ct
        return f
    return deco


def always_true():
    return True


class Obligation:
    def __init__(self, name, status, detail='', paths=0, obls=0, secs=0.0,
                 model=None, contract=None):
        self.name = name
        self.status = status  # proved, refuted, undecided
        self.detail = detail
        self.paths = paths
        self.obls = obls
        self.secs = secs
        self.model = model
        self.contract = contract

    def __repr__(self):
        return '{}: {} ({} paths, {} obligations, {:.1f}s) {}'.format(
            self.name, self.status, self.paths, self.obls, self.secs,
            self.detail)


def sym_arg(itp, name, ty):
    t = {'str': lambda: Sym(z3.Const(name, S), 'str'),
         'int': lambda: Sym(z3.Const(name, I), 'int'),
         'bool': lambda: Sym(z3.Const(name, B), 'bool'),
         'real': lambda: Sym(z3.Const(name, R), 'real')}
    if ty in t:
        return t[ty]()
    if ty == 'set':
        return itp.c.alloc(SetC((Seg(z3.Const(name, V), None),)))
    return itp.from_v(z3.Const(name, V), ty)


def outcome(itp, fv, args):
    try:
        return ('return', itp.call_func(fv, [], dict(args)))
    except PyRaise as e:
        return ('raise', e.cls, e.val)


def verify(ct, inline=(), time_limit=120, timeout_ms=3000, case=None):
    """Discharge result(real function) == result(spec) for all inputs."""
    t0 = time.time()
    real = ct.resolve()
    if real is None:
        return Obligation(ct.name, 'absent', 'no such function', contract=ct)
    if ct.real_names() is None:
        return Obligation(ct.name, 'absent', 'its parameters have changed: '
                          'its callers are checked with its body',
                          contract=ct)
    ctx = Ctx(deadline=t0 + time_limit)
    ctx.timeout_ms = timeout_ms
    ctx.inline = set(inline)
    itp = Interp(ctx)
    n = {'obls': 0, 'paths': 0, 'covered': 0}
    bad = []
    q0 = STATS.lemmas

    def path():
        args = collections.OrderedDict()
        for name, ty in ct.params.items():
            if callable(ty):
                args[name] = ty(itp, name)
            else:
                args[name] = sym_arg(itp, 'arg_' + name, ty)
        if ct.pre is not None:
            ct.pre(itp, args)
        for name, shape in ct.shape.items():
            M.assume_schema(itp, args[name].t, shape['schema'],
                            shape['root'])
        for name, pred in ct.each.items():
            d = args[name].t

            def hook(t, pred=pred, args=args):
                rest = {k: v for k, v in args.items() if k in sig_of(pred)}
                ctx.fact(itp.truth(M.call_real(itp, pred, [],
                    dict(rest, value=Sym(t, 'json')))))
            ctx.elem_hook[d.get_id()] = (d, hook)
        if ct.requires is not None:
            if not itp.cond(M.call_real(itp, ct.requires, [],
                                          dict(args))):
                raise Infeasible()
        if case is not None:
            for k, pred in enumerate(ct.split):
                if itp.cond(itp.call_func(itp.func_of(pred), [], dict(
                        args))) != bool(case >> k & 1):
                    raise Infeasible()
        if ct.unfold is not None:
            # the definition of what the precondition names
            if not itp.cond(itp.call_func(itp.func_of(ct.unfold), [],
                                          dict(args))):
                raise Infeasible()
        ctx.side = 'impl'
        ctx.ghosts = {}
        if ct.writes:
            ctx.ghosts = {'impl': ctx.new_list(()), 'spec': ctx.new_list(())}
            ctx.spec_keys.add(ctx.ghosts['spec'].oid)
        sargs = dict(args)
        for name in ct.mutates:
            o = ctx.store[args[name].oid]
            sargs[name] = ctx.alloc(type(o)(o.items))
            ctx.spec_keys.add(sargs[name].oid)
            ctx.store0 = getattr(ctx, 'store0', {})
            ctx.store0[name] = o.items
        fv = itp.func_of(real)
        sv_ = itp.func_of(ct.spec)
        if isinstance(ct, Lemma):
            ctx.side = 'spec'
            ri = outcome(itp, sv_, sargs)
            rs = ('return', True)
            if ri[0] == 'return':
                ri = ('return', itp.cond(ri[1]))
        else:
            ri = outcome(itp, fv, map_names(fv, args))
            ctx.side = 'spec'
            rs = outcome(itp, sv_, sargs)
        n['paths'] += 1
        n['obls'] += 1
        ok = False
        if ri[0] != rs[0]:
            ok = ctx.must(False)
            why = 'outcome: code {} / spec {}'.format(ri, rs)
        elif ri[0] == 'raise':
            ok = issubclass(ri[1], rs[1]) or rs[1] is Exception
            if ok and ct.modular and not issubclass(
                    ri[1], tuple(ct.raises) or ()):
                # the callers rely on the declared exceptions
                raise Unsupported('undeclared exception {}'.format(
                    ri[1].__name__)) if not ctx.must(False) else Infeasible()
            if not ok:
                ok = ctx.must(False)
            if ok and ct.writes:
                ok = ctx.must(itp.same(ctx.ghosts['impl'],
                                       ctx.ghosts['spec']))
            why = 'exception: code {} / spec {}'.format(ri[1], rs[1])
        else:
            try:
                e = itp.same(ri[1], rs[1])
            except Unsupported as ex:
                raise
            ok = ctx.must(e)
            for name in ct.mutates:
                if ok:
                    # only additions: the frame of the callers
                    old = ctx.store0[name]
                    ok = ctx.store[args[name].oid].items[:len(old)] == old
                if ok:
                    e = itp.same(args[name], sargs[name])
                    ok = ctx.must(e)
            if ok and ct.writes:
                n['obls'] += 1
                e = itp.same(ctx.ghosts['impl'], ctx.ghosts['spec'])
                ok = ctx.must(e)
            if ok and ct.ensures is not None:
                n['obls'] += 1
                e = itp.truth(itp.call_func(
                    itp.func_of(ct.ensures), [], dict(sargs, result=rs[1])))
                ok = ctx.must(e)
            why = 'result: code {!r} / spec {!r}'.format(
                show(itp, ri[1]), show(itp, rs[1]))
            if not ok and not isinstance(e, bool):
                ctx.fact(z3.Not(e))
        if not ok:
            s = ctx._solver()
            r = s.check()
            m = None
            if str(r) == 'sat':
                m = s.model()
            bad.append((why, str(r), m, [str(f)[:200] for f in ctx.pc[-12:]]))
            raise StopIteration()
    detail = ''
    try:
        ctx.explore(path, label='top')
        status = 'proved' if not bad and n['obls'] else 'undecided'
    except StopIteration:
        status = 'refuted' if bad[-1][1] == 'sat' else 'undecided'
        detail = bad[-1][0]
        if ctx.failures:
            detail += ' | pairing: ' + str(ctx.failures[-1])[:300]
    except Unsupported as e:
        status = 'undecided'
        detail = 'unsupported: {}'.format(e)
    except z3.Z3Exception as e:
        status = 'undecided'
        detail = 'z3: {}'.format(e)
    except RecursionError:
        status = 'undecided'
        detail = 'recursion'
    o = Obligation(ct.name, status, detail, n['paths'],
                   n['obls'] + STATS.lemmas - q0, time.time() - t0,
                   bad[-1][2] if bad else None, ct)
    o.bad = bad
    return o


def map_names(fv, args):
    """Real parameter names may have been renamed: bind by position."""
    a = fv.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if all(k in names for k in args):
        return dict(args)
    if len(names) == len(args):
        return dict(zip(names, args.values()))
    return dict(args)


def show(itp, v, depth=0):
    if depth > 4:
        return '...'
    if isinstance(v, Ref):
        o = itp.c.store.get(v.oid)
        if isinstance(o, InstC):
            return '{}({})'.format(o.cls.__name__, ', '.join(
                '{}={}'.format(k, show(itp, x, depth + 1))
                for k, x in o.attrs.items()))
        if o is not None:
            return '{}{}'.format(o.kind, [
                (show(itp, i[0], depth + 1), show(itp, i[1], depth + 1))
                if isinstance(i, tuple) and isinstance(o, DictC)
                else show(itp, i, depth + 1) for i in o.items])
    if isinstance(v, tuple):
        return tuple(show(itp, x, depth + 1) for x in v)
    return str(v)[:300]
