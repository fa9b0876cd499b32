"""Models of Python built-ins and of the trusted external functions."""
import ast
import builtins
import collections
import pathlib
import re
import string
import sys
import types

import z3

from pv.engine import *  # noqa
from pv import rex

IGNORED_ATTRS = {'SchemaError': ('args', )}
EXC_IGNORE = ('args', )
CONTRACTS = {}  # qualified name of the real function -> Contract
SPEC_OF = {}  # id of the spec function -> Contract
MODELS = {}  # qualified name -> python callable(itp, args, kwargs)
INTERPRETED = ['mapry', 'contracts']  # modules whose functions are interpreted


def model(name):
    def deco(f):
        MODELS[name] = f
        return f
    return deco


# ------------------------------------------------------------------ numbers
def num(itp, x):
    """Numeric z3 term, deciding the tag of dynamic values."""
    x = itp.norm(x)
    if isinstance(x, Sym) and x.ty == 'json':
        if (tag(x.t) == INT).get_id() in itp.c.pcset:
            return v_i(x.t)
        if itp.c.decide(z3.Or(tag(x.t) == INT, tag(x.t) == REAL)):
            return v_n(x.t)
        if itp.c.decide(tag(x.t) == BOOL):
            return z3.If(v_b(x.t), z3.RealVal(1), z3.RealVal(0))
        raise PyRaise(TypeError)
    if isinstance(x, Sym) and x.ty in ('int', 'real', 'bool'):
        return itp.as_num(x)
    if isinstance(x, (int, float)) and not is_sym(x):
        return itp.as_num(x)
    raise PyRaise(TypeError)


def add(itp, a, b):
    if concrete(a) and concrete(b):
        return a + b
    n = itp.as_num(a) + itp.as_num(b)
    return Sym(z3.simplify(n), 'int' if n.sort() == I else 'real')


# ------------------------------------------------------------------ strings
def is_str(x):
    return isinstance(x, str) and not is_sym(x) or \
        isinstance(x, Sym) and x.ty == 'str'


def st(x):
    return sv(x) if isinstance(x, str) else x.t


def concat(itp, parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if p == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        elif isinstance(p, Sym) and p.ty == 'str':
            if p.t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                for ch in p.t.children():
                    if z3.is_string_value(ch) and out and \
                            isinstance(out[-1], str):
                        out[-1] += py_str(ch)
                    elif z3.is_string_value(ch):
                        out.append(py_str(ch))
                    else:
                        out.append(ch)
            elif z3.is_string_value(p.t):
                out.append(py_str(p.t))
            else:
                out.append(p.t)
        elif p is ANY:
            out.append(itp.c.fresh('anystr', S))
        else:
            raise Unsupported('concat of {!r}'.format(p))
    # merge neighbouring constants
    mer = []
    for p in out:
        if isinstance(p, str) and mer and isinstance(mer[-1], str):
            mer[-1] += p
        else:
            mer.append(p)
    if not mer:
        return ''
    if len(mer) == 1:
        return mer[0] if isinstance(mer[0], str) else Sym(mer[0], 'str')
    return Sym(z3.Concat(*[sv(p) if isinstance(p, str) else p for p in mer]),
               'str')


_UNI = re.compile(r'\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})')


def py_str(t):
    return _UNI.sub(lambda m: chr(int(m.group(1) or m.group(2), 16)),
                    t.as_string())


def to_str(itp, x):
    """str(x) as a str value."""
    x = itp.norm(x)
    if is_str(x):
        return x
    if x is ANY:
        return Sym(itp.c.fresh('anystr', S), 'str')
    if concrete(x):
        return str(x)
    if isinstance(x, Sym):
        if x.ty == 'int':
            return Sym(int_str(x.t), 'str')
        if x.ty == 'json':
            t = x.t
            itp.c.fact(z3.Implies(tag(t) == STR, v_str(t) == v_s(t)))
            itp.c.fact(z3.Implies(tag(t) == INT, v_str(t) == int_str(v_i(t))))
            return Sym(v_str(t), 'str')
        return Sym(v_str(itp.to_v(x)), 'str')
    if isinstance(x, Ref):
        o = itp.c.store[x.oid]
        if isinstance(o, InstC):
            m = find_method(o.cls, '__str__')
            if m is not None:
                return call_real(itp, m, [x], {})
            if issubclass(o.cls, BaseException):
                return Sym(itp.c.fresh('excstr', S), 'str')
        return Sym(v_str(itp.to_v(x)), 'str')
    if isinstance(x, tuple):
        return Sym(v_str(itp.to_v(x)), 'str')
    return Sym(itp.c.fresh('anystr', S), 'str')


def fmt_one(itp, x, conv, spec):
    if isinstance(spec, Sym):
        return Sym(itp.c.fresh('anystr', S), 'str')
    if conv in (-1, None, 's', ord('s')):
        if not spec:
            return to_str(itp, x)
        x = itp.norm(x)
        if concrete(x):
            return format(x, spec)
        return Sym(uf('fmt', V, S, S)(itp.to_v(x), sv(spec)), 'str')
    if concrete(x):
        return format(repr(x), spec or '')
    if x is ANY:
        return Sym(itp.c.fresh('anystr', S), 'str')
    return Sym(v_repr(itp.to_v(x)), 'str')


def str_format(itp, s, args, kwargs):
    if not isinstance(s, str):
        raise Unsupported('format of symbolic template')
    if all(concrete(a) for a in args) and \
            all(concrete(a) for a in kwargs.values()):
        return call_py(s.format, args, kwargs)
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        parts.append(lit)
        if field is None:
            continue
        m = re.match(r'^([A-Za-z_0-9]*)(.*)$', field)
        name, rest = m.group(1), m.group(2)
        if name == '':
            if auto >= len(args):
                raise PyRaise(IndexError)
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            if name not in kwargs:
                raise PyRaise(KeyError)
            v = kwargs[name]
        if rest:
            for a in rest.lstrip('.').split('.'):
                v = getattr_(itp, v, a)
        parts.append(fmt_one(itp, v, conv, spec))
    return concat(itp, parts)


def call_py(f, args, kwargs):
    """Call real Python code on concrete arguments."""
    try:
        return f(*args, **kwargs)
    except Exception as e:  # pylint: disable=broad-except
        raise PyRaise(type(e), e)


def str_uf(itp, name, args, ret='str'):
    ts = [st(a) for a in args]
    if ret == 'str':
        return Sym(uf(name, *([S] * len(ts) + [S]))(*ts), 'str')
    if ret == 'bool':
        return Sym(uf(name, *([S] * len(ts) + [B]))(*ts), 'bool')
    if ret == 'list':
        t = uf(name, *([S] * len(ts) + [V]))(*ts)
        r = itp.from_v(t, ('list', 'str'))
        return r
    raise Unsupported(ret)


def str_method(itp, s, name, args, kwargs):
    c = itp.c
    args = [itp.norm(a) for a in args]
    args = [a for a in args]
    if name == 'format':
        return str_format(itp, s, args, kwargs)
    if name == 'join':
        return str_join(itp, s, args[0])
    if concrete(s) and all(concrete(a) for a in args) and \
            all(concrete(a) for a in kwargs.values()):
        return call_py(getattr(s, name), args, kwargs)
    if name in ('startswith', 'endswith'):
        opts = args[0] if isinstance(args[0], tuple) else (args[0],)
        f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
        return Sym(z3.Or([f(st(o), st(s)) for o in opts]), 'bool')
    if name in ('lower', 'upper', 'capitalize', 'title', 'swapcase',
                'casefold', 'strip', 'lstrip', 'rstrip') and not kwargs:
        return str_uf(itp, 'str_' + name, [s] + args)
    if name == 'split' and len(args) == 1 and not kwargs:
        r = str_uf(itp, 'str_split', [s, args[0]], 'list')
        c.fact(llen(r.t) >= 1)
        c.fact(z3.SuffixOf(v_s(lelem(r.t, llen(r.t) - 1)), st(s)))
        c.fact(z3.PrefixOf(v_s(lelem(r.t, z3.IntVal(0))), st(s)))
        return r
    if name == 'splitlines':
        ke = args[0] if args else kwargs.get('keepends', False)
        if not isinstance(ke, bool):
            raise Unsupported('keepends')
        return str_uf(itp, 'str_splitlines' + ('_k' if ke else ''), [s],
                      'list')
    if name == 'replace' and len(args) == 2:
        return str_uf(itp, 'str_replace', [s] + args)
    if name in ('isdigit', 'isupper', 'islower', 'isalpha', 'isalnum',
                'isidentifier', 'isspace', 'isprintable') and not args:
        return str_uf(itp, 'str_' + name, [s], 'bool')
    if name in ('find', 'index', 'count', 'rfind') and len(args) == 1:
        return Sym(uf('str_' + name, S, S, I)(st(s), st(args[0])), 'int')
    if name == 'encode' and args == ['utf-8'] and not kwargs:
        return itp.from_v(uf('str_encode_utf8', S, V)(st(s)), ('list', 'int'))
    if name in ('partition', 'rpartition') and len(args) == 1:
        return tuple(str_uf(itp, 'str_{}{}'.format(name, i), [s, args[0]])
                     for i in range(3))
    raise Unsupported('str.{}'.format(name))


def str_join(itp, sep, it):
    parts = itp.source_of(it)
    if all(p[0] == 'elems' for p in parts):
        els = [e for p in parts for e in p[1]]
        out = []
        for i, e in enumerate(els):
            if i:
                out.append(sep)
            if not is_str(e):
                e = itp.norm(e)
                if isinstance(e, Sym) and e.ty == 'json':
                    if not itp.c.decide(tag(e.t) == STR):
                        raise PyRaise(TypeError)
                    e = Sym(v_s(e.t), 'str')
                elif not is_str(e):
                    raise PyRaise(TypeError)
            out.append(e)
        return concat(itp, out)
    n = itp.norm(it)
    if isinstance(n, Ref) and isinstance(itp.c.store[n.oid], ListC):
        items = itp.c.store[n.oid].items
        if sep == '' or not isinstance(items[0], Seg):
            # join distributes over the pieces of the list
            out = []
            for i, x in enumerate(items):
                if isinstance(x, Seg):
                    out.append(Sym(uf('str_pjoin', S, V, S)(st(sep), x.v),
                                   'str'))
                    itp.c.fact(z3.Implies(llen(x.v) == 0,
                                          out[-1].t == sv('')))
                else:
                    if i and sep != '':
                        out.append(sep)
                    out.append(join_item(itp, x))
            return concat(itp, out)
    t = seq_term(itp, it)
    return Sym(uf('str_join', S, V, S)(st(sep), t), 'str')


def join_item(itp, e):
    if is_str(e):
        return e
    e = itp.norm(e)
    if isinstance(e, Sym) and e.ty == 'json':
        if not itp.c.decide(tag(e.t) == STR):
            raise PyRaise(TypeError)
        return Sym(v_s(e.t), 'str')
    if not is_str(e):
        raise PyRaise(TypeError)
    return e


def seq_term(itp, it):
    it = itp.norm(it)
    if isinstance(it, Ref):
        o = itp.c.store[it.oid]
        if isinstance(o, ListC):
            return itp.to_v(it)
        if isinstance(o, DictC) and len(o.items) == 1 and \
                isinstance(o.items[0], Seg):
            return uf('dict_keys', V, V)(o.items[0].v)
        if isinstance(o, DictC):
            return uf('dict_keys', V, V)(itp.to_v(it))
    if isinstance(it, DictView):
        d = it.d
        return uf('dict_{}{}'.format(it.what, '_s' if it.sort else ''), V, V)(
            itp.to_v(d) if not (isinstance(d, Ref) and len(
                itp.c.store[d.oid].items) == 1 and isinstance(
                    itp.c.store[d.oid].items[0], Seg))
            else itp.c.store[d.oid].items[0].v)
    if isinstance(it, Sym) and it.t.sort() == V:
        return it.t
    raise Unsupported('sequence term of {!r}'.format(it))


def regex_in(itp, pat, mode, s):
    """Is pattern.<mode>(s) not None, as a z3 formula."""
    if pat.flags & ~re.UNICODE.value:
        return uf('re_{}_{}_{}'.format(mode, pat.pattern, pat.flags), S, B)(s)
    try:
        r = rex.to_z3(pat.pattern, mode)
    except (rex.NoRe, z3.Z3Exception):
        return uf('re_{}_{}'.format(mode, pat.pattern), S, B)(s)
    return z3.InRe(s, r)


def regex_method(itp, pat, name, args, kwargs):
    if name in ('match', 'fullmatch', 'search') and len(args) + len(
            kwargs) == 1:
        s = args[0] if args else list(kwargs.values())[0]
        s = itp.norm(s)
        if isinstance(s, Sym) and s.ty == 'json':
            if not itp.c.decide(tag(s.t) == STR):
                raise PyRaise(TypeError)
            s = Sym(v_s(s.t), 'str')
        if not is_str(s):
            raise PyRaise(TypeError)
        t = uf('m_{}_{}'.format(name, pat.pattern), S, V)(st(s))
        itp.c.fact((tag(t) == NONE) == z3.Not(regex_in(itp, pat, name, st(s))))
        itp.c.fact(z3.Or(tag(t) == NONE, tag(t) == OBJ))
        return Sym(t, ('opt', ('obj', re.Match)))
    if name == 'sub' and len(args) == 2 and not kwargs:
        repl, s = args[0], itp.norm(args[1])
        if not is_str(s):
            raise PyRaise(TypeError)
        fv = itp.norm(repl)
        if is_str(fv):
            return Sym(uf('re_sub_{}'.format(pat.pattern), S, S, S)(
                st(fv), st(s)), 'str')
        key = code_key(fv)
        if key is None:
            raise Unsupported('regex.sub with a closure')
        return Sym(uf('re_sub_{}_{}'.format(pat.pattern, key), S, S)(st(s)),
                   'str')
    if name in ('finditer', 'findall', 'split') and len(args) == 1 and \
            not kwargs:
        s = itp.norm(args[0])
        if not is_str(s):
            raise PyRaise(TypeError)
        if name != 'finditer' and pat.groups:
            raise Unsupported('regex.{} with groups'.format(name))
        t = uf('re_{}_{}_{}'.format(name, pat.pattern, pat.flags), S, V)(st(s))
        return itp.from_v(t, ('list', ('obj', re.Match)
                               if name == 'finditer' else 'str'))
    raise Unsupported('regex.{}'.format(name))


def code_key(fv):
    """A name of a function without free local variables: what it computes."""
    import ast
    import copy
    import hashlib
    node = getattr(fv, 'node', None)
    if node is None:
        return None
    node = copy.deepcopy(node)
    names = {a.arg: 'a{}'.format(i) for i, a in enumerate(node.args.args)}
    body = node.body
    if isinstance(body, list):
        if len(body) != 1 or not isinstance(body[0], ast.Return):
            return None
        body = body[0].value
    for n in ast.walk(body):
        if isinstance(n, ast.Name):
            if n.id in names:
                n.id = names[n.id]
            elif not hasattr(builtins, n.id):
                return None
    return hashlib.md5(ast.dump(body).encode()).hexdigest()[:10]


SPAN_FACT = {}


# ------------------------------------------------------------------ operators
OPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b,
    ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b,
    ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
    ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b,
    ast.Pow: lambda a, b: a**b, ast.BitXor: lambda a, b: a ^ b,
    ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
}


def binop(itp, op, a, b):
    a, b = itp.norm(a), itp.norm(b)
    f = OPS.get(type(op))
    if f is None:
        raise Unsupported('operator')
    if concrete(a) and concrete(b):
        return call_py(f, [a, b], {})
    if isinstance(op, ast.Add):
        if is_str(a) and is_str(b):
            return concat(itp, [a, b])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        la, lb = as_rope(itp, a), as_rope(itp, b)
        if la is not None and lb is not None:
            return itp.c.new_list(la + lb)
        if is_str(a) or is_str(b):
            a2 = coerce_str(itp, a)
            b2 = coerce_str(itp, b)
            if a2 is None or b2 is None:
                raise PyRaise(TypeError)
            return concat(itp, [a2, b2])
        x, y = num(itp, a), num(itp, b)
        return mknum(x + y, a, b)
    if isinstance(op, ast.Sub):
        if isinstance(a, Ref) or isinstance(b, Ref):
            raise Unsupported('set difference')
        return mknum(num(itp, a) - num(itp, b), a, b)
    if isinstance(op, ast.Mult):
        if is_str(a) or is_str(b):
            if is_str(b):
                a, b = b, a
            return Sym(uf('str_mul', S, I, S)(st(a), num(itp, b)), 'str')
        return mknum(num(itp, a) * num(itp, b), a, b)
    if isinstance(op, ast.Mod) and isinstance(a, str):
        vals = b if isinstance(b, tuple) else (b,)
        return Sym(uf('str_mod', S, V, S)(sv(a), itp.to_v(tuple(vals))), 'str')
    if isinstance(op, (ast.Mod, ast.FloorDiv)):
        x, y = num(itp, a), num(itp, b)
        if x.sort() == I and isinstance(b, int) and b > 0:
            return Sym(x % y if isinstance(op, ast.Mod) else x / y, 'int')
        raise Unsupported('mod/div')
    if isinstance(op, ast.Div) and isinstance(a, Sym) and \
            a.ty == ('obj', pathlib.Path):
        return Sym(path_join(a.t, itp.to_v(b)), ('obj', pathlib.Path))
    if isinstance(op, ast.Div):
        x, y = num(itp, a), num(itp, b)
        if itp.c.decide(y == 0):
            raise PyRaise(ZeroDivisionError)
        tr = lambda t: z3.ToReal(t) if t.sort() == I else t
        return Sym(tr(x) / tr(y), 'real')
    if isinstance(op, ast.BitOr):
        oa, ob = as_set(itp, a), as_set(itp, b)
        if oa is not None and ob is not None:
            return itp.c.alloc(SetC(oa + ob))
    raise Unsupported('operator {} on {!r}, {!r}'.format(
        type(op).__name__, a, b))


path_join = z3.Function('path_join', V, V, V)
path_exists = z3.Function('path_exists', V, B)


def is_path(o):
    return isinstance(o, Sym) and o.ty == ('obj', pathlib.Path)


def m_exists(itp, o, args, kwargs):
    if not is_path(o):
        raise Unsupported('exists')
    return Sym(path_exists(o.t), 'bool')


def m_mkdir(itp, o, args, kwargs):
    if not is_path(o):
        raise Unsupported('mkdir')
    return None


def m_write_text(itp, o, args, kwargs):
    """The trace of the files written, in order: (path, text)."""
    c = itp.c
    files = c.ghosts.get(c.side)
    if not is_path(o) or files is None:
        raise Unsupported('write_text')
    data = kwargs.get('data', args[0] if args else None)
    itp.M.call_method(itp, files, 'append', [(o, data)], {})
    return None


def mknum(t, *xs):
    return Sym(z3.simplify(t), 'int' if t.sort() == I else 'real')


def coerce_str(itp, x):
    if is_str(x):
        return x
    if isinstance(x, Sym) and x.ty == 'json':
        if itp.c.decide(tag(x.t) == STR):
            return Sym(v_s(x.t), 'str')
    return None


def as_rope(itp, x):
    x = itp.norm(x)
    if isinstance(x, Ref):
        o = itp.c.store[x.oid]
        return o.items if isinstance(o, ListC) else None
    if isinstance(x, list):
        return tuple(x)
    if isinstance(x, Sym) and isinstance(x.ty, tuple) and x.ty[0] == 'list':
        return (Seg(x.t, x.ty[1]),)
    return None


def as_set(itp, x):
    x = itp.norm(x)
    if isinstance(x, Ref):
        o = itp.c.store[x.oid]
        return o.items if isinstance(o, SetC) else None
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(x, key=repr))
    if isinstance(x, Sym) and isinstance(x.ty, tuple) and x.ty[0] == 'set':
        return (Seg(x.t, x.ty[1]),)
    return None


def compare(itp, op, a, b):
    c = itp.c
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = is_(itp, a, b)
        if isinstance(op, ast.IsNot):
            r = itp.not_(r)
        return r if isinstance(r, bool) else Sym(r, 'bool')
    if isinstance(op, (ast.Eq, ast.NotEq)):
        r = itp.py_eq(a, b)
        if isinstance(op, ast.NotEq):
            r = itp.not_(r)
        return r if isinstance(r, bool) else Sym(r, 'bool')
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(itp, b, a)
        if isinstance(op, ast.NotIn):
            r = itp.not_(r)
        return r if isinstance(r, bool) else Sym(r, 'bool')
    a, b = itp.norm(a), itp.norm(b)
    f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
         ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
    if concrete(a) and concrete(b):
        return call_py(f, [a, b], {})
    if is_str(a) or is_str(b):
        a2, b2 = coerce_str(itp, a), coerce_str(itp, b)
        if a2 is None or b2 is None:
            raise PyRaise(TypeError)
        lt = lambda x, y: st(x) < st(y)
        le = lambda x, y: st(x) <= st(y)
        r = {ast.Lt: lambda: lt(a2, b2), ast.LtE: lambda: le(a2, b2),
             ast.Gt: lambda: lt(b2, a2), ast.GtE: lambda: le(b2, a2)}[
                 type(op)]()
        return Sym(r, 'bool')
    if isinstance(a, Sym) and a.ty == 'json' and isinstance(b, Sym) and \
            b.ty == 'json':
        if c.decide(z3.And(tag(a.t) == STR, tag(b.t) == STR)):
            return compare(itp, op, Sym(v_s(a.t), 'str'), Sym(v_s(b.t), 'str'))
    x, y = num(itp, a), num(itp, b)
    if x.sort() != y.sort():
        x = z3.ToReal(x) if x.sort() == I else x
        y = z3.ToReal(y) if y.sort() == I else y
    return Sym(f(x, y), 'bool')


def is_(itp, a, b):
    if b is None or a is None:
        x = a if b is None else b
        x = itp.norm(x)
        if x is None:
            return True
        if isinstance(x, Sym) and x.ty == 'json':
            return tag(x.t) == NONE
        if x is ANY:
            raise Unsupported('ANY is None')
        return False
    a, b = itp.norm(a), itp.norm(b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.oid == b.oid
    if concrete(a) and concrete(b):
        return a is b
    for x, y in ((a, b), (b, a)):
        if isinstance(y, bool) and isinstance(x, Sym):
            if x.ty == 'bool':
                return x.t if y else z3.Not(x.t)
            if x.ty == 'json':
                return z3.And(tag(x.t) == BOOL, v_b(x.t) == y)
            return False
    if isinstance(a, Sym) and isinstance(b, Sym) and a.t.sort() == V and \
            b.t.sort() == V:
        return a.t == b.t
    raise Unsupported('is of {!r} {!r}'.format(a, b))


def contains(itp, cont, x):
    c = itp.c
    cont = itp.norm(cont)
    x = itp.norm(x)
    if isinstance(cont, Ref):
        o = c.store[cont.oid]
        out = []
        if isinstance(o, DictC):
            for it in o.items:
                if isinstance(it, Seg):
                    k = coerce_str(itp, x)
                    if k is None:
                        raise Unsupported('non-string key')
                    out.append(has(it.v, st(k)))
                else:
                    out.append(itp.py_eq(it[0], x))
            return itp.or_(out)
        if isinstance(o, (SetC, ListC)):
            for it in o.items:
                if isinstance(it, Seg):
                    out.append(in_set(it.v, itp.to_v(x)))
                else:
                    out.append(itp.py_eq(it, x))
            return itp.or_(out)
        raise PyRaise(TypeError)
    if isinstance(cont, DictView):
        if cont.what == 'keys':
            return contains(itp, cont.d, x)
        raise Unsupported('in view')
    if isinstance(cont, Sym):
        if cont.ty == 'str':
            k = coerce_str(itp, x)
            if k is None:
                raise PyRaise(TypeError)
            return z3.Contains(cont.t, st(k))
        if isinstance(cont.ty, tuple) and cont.ty[0] == 'dict':
            return dict_has(itp, cont.t, x)
        if isinstance(cont.ty, tuple) and cont.ty[0] in ('set', 'list'):
            return in_set(cont.t, itp.to_v(x))
        if cont.ty == 'json':
            if c.decide(tag(cont.t) == DICT):
                return dict_has(itp, cont.t, x)
            if c.decide(tag(cont.t) == LIST):
                return in_set(cont.t, itp.to_v(x))
            if c.decide(tag(cont.t) == STR):
                k = coerce_str(itp, x)
                if k is None:
                    raise PyRaise(TypeError)
                return z3.Contains(v_s(cont.t), st(k))
            raise PyRaise(TypeError)
    if isinstance(cont, str) and not is_sym(cont):
        k = coerce_str(itp, x)
        if k is None:
            raise PyRaise(TypeError)
        if isinstance(k, str):
            return k in cont
        return in_const(cont, st(k))
    if concrete(cont) or isinstance(cont, tuple):
        if concrete(x):
            try:
                return x in cont
            except TypeError:
                raise PyRaise(TypeError)
        els = list(cont)
        if all(isinstance(e, str) for e in els):
            els = sorted(els)
        return itp.or_([itp.py_eq(x, e) for e in els])
    raise Unsupported('in {!r}'.format(cont))


def in_const(cont, k):
    """k in cont, as a membership in a language if k is a character."""
    if z3.is_app_of(k, z3.Z3_OP_SEQ_EXTRACT) and cont:
        t, i, n = k.children()
        if z3.is_int_value(n) and n.as_long() == 1:
            codes = sorted({ord(ch) for ch in cont})
            spans = []
            for o in codes:
                if spans and spans[-1][1] == o - 1:
                    spans[-1][1] = o
                else:
                    spans.append([o, o])
            one = rex._union([rex.rng(a, b) for a, b in spans])
            if z3.is_int_value(i) and i.as_long() == 0:
                return z3.InRe(t, z3.Option(z3.Concat(one, z3.Full(rex.RS))))
            return z3.InRe(k, z3.Option(one))
    return z3.Contains(sv(cont), k)


def dict_has(itp, d, x):
    k = coerce_str(itp, x)
    if k is None:
        return False
    if isinstance(k, str):
        itp.c.note_key(d, k)
    return has(d, st(k))


def getitem(itp, o, k):
    c = itp.c
    o, k = itp.norm(o), itp.norm(k)
    if isinstance(o, Ref):
        h = c.store[o.oid]
        if isinstance(h, ListC):
            return list_index(itp, h.items, k)
        if isinstance(h, DictC):
            r = dict_lookup(itp, h, k)
            if r is None:
                raise PyRaise(KeyError)
            return r[0]
        raise PyRaise(TypeError)
    if isinstance(o, Sym):
        if o.ty == 'json':
            if is_str(k) or isinstance(k, Sym) and k.ty == 'json':
                if c.decide(tag(o.t) == DICT):
                    return sym_dict_get(itp, o.t, 'json', k)
                if is_str(k):
                    raise PyRaise(TypeError)
            if c.decide(tag(o.t) == LIST):
                return list_index(itp, (Seg(o.t, 'json'),), k)
            if c.decide(tag(o.t) == STR):
                return getitem(itp, Sym(v_s(o.t), 'str'), k)
            if c.decide(tag(o.t) == DICT):
                raise PyRaise(KeyError)
            raise PyRaise(TypeError)
        if isinstance(o.ty, tuple) and o.ty[0] == 'dict':
            return sym_dict_get(itp, o.t, o.ty[1], k)
        if isinstance(o.ty, tuple) and o.ty[0] == 'list':
            return list_index(itp, (Seg(o.t, o.ty[1]),), k)
        if o.ty == 'str':
            n = num(itp, k)
            ln = z3.Length(o.t)
            if isinstance(k, int) and k < 0:
                if not c.decide(ln >= -k):
                    raise PyRaise(IndexError)
                return Sym(z3.SubString(o.t, ln + k, 1), 'str')
            if not c.decide(z3.And(n >= 0, n < ln)):
                if isinstance(k, int):
                    raise PyRaise(IndexError)
                raise Unsupported('symbolic string index')
            return Sym(z3.SubString(o.t, n, 1), 'str')
        raise PyRaise(TypeError)
    if isinstance(o, DictView):
        if isinstance(k, int) and k >= 0 and isinstance(o.d, Sym):
            if not c.decide(dlen(o.d.t) > k):
                raise PyRaise(IndexError)
            return itp.elem_at(('dict', o.d, o.what, o.sort), z3.IntVal(k))[0]
        p = itp.source_of(o)
        if all(x[0] == 'elems' for x in p):
            return list_index(itp, tuple(e for x in p for e in x[1]), k)
        raise Unsupported('index of view')
    if isinstance(o, dict) and not concrete(k):
        if not isinstance(k, Sym):
            raise Unsupported('dict key')
        if k.ty == 'json':
            s = coerce_str(itp, k)
            if s is None:
                raise PyRaise(KeyError)
            k = s
        vals = list(o.values())
        if not c.decide(z3.Or([itp.py_eq(k, x) for x in o])):
            raise PyRaise(KeyError)
        if all(isinstance(x, str) for x in vals):
            r = sv(vals[-1])
            for kk, x in list(o.items())[-2::-1]:
                r = z3.If(itp.py_eq(k, kk), sv(x), r)
            return Sym(r, 'str')
        for kk, x in o.items():
            if c.decide(itp.py_eq(k, kk)):
                return x
        raise Infeasible()
    if concrete(o) and concrete(k):
        return call_py(lambda: o[k], [], {})
    if isinstance(o, (tuple, list)):
        return list_index(itp, tuple(o), k)
    raise Unsupported('getitem {!r} {!r}'.format(o, k))


def sym_dict_get(itp, d, vt, k):
    c = itp.c
    if not c.decide(dict_has(itp, d, k)):
        raise PyRaise(KeyError)
    k2 = coerce_str(itp, k)
    t = get(d, st(k2))
    on_get(itp, d, k2 if isinstance(k2, str) else None, t)
    return itp.from_v(t, vt)


def list_index(itp, items, k):
    c = itp.c
    if isinstance(k, bool) or not (isinstance(k, int) or
                                   isinstance(k, Sym) and k.ty == 'int'):
        raise PyRaise(TypeError)
    if not any(isinstance(i, Seg) for i in items):
        if isinstance(k, int):
            if not -len(items) <= k < len(items):
                raise PyRaise(IndexError)
            return items[k]
        raise Unsupported('symbolic index')
    if len(items) == 1:
        g = items[0]
        c.fact(llen(g.v) >= 0)
        n = itp.as_num(k)
        if isinstance(k, int) and k < 0:
            n = llen(g.v) + k
        if not c.decide(z3.And(n >= 0, n < llen(g.v))):
            if not isinstance(k, int):
                raise Unsupported('symbolic negative index')
            raise PyRaise(IndexError)
        if g.producer is not None:
            r = itp.elem_at(('fused', g.producer), n)
            if len(r) == 1:
                return r[0]
            raise Unsupported('index of filtered list')
        t = lelem(g.v, n)
        on_elem(itp, g.v, t)
        return itp.from_v(t, g.ty)
    if isinstance(k, int) and k >= 0:
        for i, x in enumerate(items):
            if isinstance(x, Seg):
                break
            if i == k:
                return x
    if isinstance(k, int) and k < 0:
        for i, x in enumerate(reversed(items)):
            if isinstance(x, Seg):
                break
            if i == -k - 1:
                return x
    raise Unsupported('index into a rope')


def dict_lookup(itp, h, k):
    """(value,) or None."""
    c = itp.c
    for it in reversed(h.items):
        if isinstance(it, Seg):
            k2 = coerce_str(itp, k)
            if k2 is None:
                raise Unsupported('non-string key')
            if c.decide(has(it.v, st(k2))):
                return (itp.from_v(get(it.v, st(k2)), it.ty),)
        else:
            e = itp.py_eq(it[0], k)
            if c.decide(e):
                return (it[1],)
    return None


def getslice(itp, o, lo, hi, step):
    o = itp.norm(o)
    if all(concrete(x) for x in (o, lo, hi, step)):
        return call_py(lambda: o[lo:hi:step], [], {})
    if step is not None:
        raise Unsupported('slice step')
    if isinstance(o, Sym) and o.ty == 'json':
        if itp.c.decide(tag(o.t) == STR):
            o = Sym(v_s(o.t), 'str')
        else:
            raise Unsupported('slice of json')
    if isinstance(o, Sym) and o.ty == 'str':
        ln = z3.Length(o.t)

        def pos(x, dflt):
            if x is None:
                return dflt
            n = itp.as_num(x)
            if isinstance(x, int) and x < 0:
                n = ln + x
                return z3.If(n < 0, z3.IntVal(0), n)
            if not isinstance(x, int):
                if itp.c.decide(n < 0):
                    n = ln + n
                    if itp.c.must(n >= 0):
                        return n
                    return z3.If(n < 0, z3.IntVal(0), n)
                if itp.c.must(n <= ln):
                    return n
            return z3.If(n > ln, ln, n)
        a, b = pos(lo, z3.IntVal(0)), pos(hi, ln)
        if lo in (None, 0) and isinstance(hi, int) and hi >= 0:
            return Sym(z3.SubString(o.t, 0, hi), 'str')
        if hi is None and isinstance(lo, int) and lo >= 0:
            return Sym(z3.SubString(o.t, lo, ln), 'str')
        if lo in (None, 0) and isinstance(hi, int) and hi < 0:
            return Sym(z3.SubString(o.t, 0, ln + hi), 'str')
        return Sym(z3.SubString(o.t, a, z3.If(b > a, b - a, z3.IntVal(0))),
                   'str')
    r = as_rope(itp, o)
    if r is None and isinstance(o, (tuple, list)):
        r = tuple(o)
        return r[lo:hi] if isinstance(o, tuple) else itp.c.new_list(r[lo:hi])
    if r is not None:
        if not any(isinstance(x, Seg) for x in r):
            if concrete(lo) and concrete(hi):
                return itp.c.new_list(r[lo:hi])
        if len(r) == 1 and concrete(lo) and concrete(hi):
            g = r[0]
            t = uf('lslice_{}_{}'.format(lo, hi), V, V)(g.v)
            res = itp.from_v(t, ('list', g.ty))
            if hi is None and isinstance(lo, int) and lo >= 0:
                itp.c.fact(llen(t) == z3.If(llen(g.v) >= lo,
                                            llen(g.v) - lo, 0))
            return res
    raise Unsupported('slice of {!r}'.format(o))


def setitem(itp, o, k, v):
    c = itp.c
    o = itp.norm(o)
    if isinstance(o, Ref):
        h = c.store[o.oid]
        if isinstance(h, DictC):
            k = itp.norm(k)
            its = h.items
            if concrete(k):
                # overwrite a constant key in place when no Seg interferes
                for i, it in enumerate(its):
                    if isinstance(it, Seg) or not concrete(it[0]):
                        break
                    if it[0] == k and not any(
                            isinstance(x, Seg) for x in its):
                        c.write(o.oid, DictC(its[:i] + ((k, v),) +
                                             its[i + 1:], h.cls))
                        return
            c.write(o.oid, DictC(its + ((k, v),), h.cls))
            return
        if isinstance(h, ListC) and isinstance(k, int) and not any(
                isinstance(x, Seg) for x in h.items):
            if not -len(h.items) <= k < len(h.items):
                raise PyRaise(IndexError)
            l = list(h.items)
            l[k] = v
            c.write(o.oid, ListC(l))
            return
    raise Unsupported('setitem on {!r}'.format(o))


def unpack(itp, v, n):
    v = itp.norm(v)
    if isinstance(v, tuple):
        if len(v) != n:
            raise PyRaise(ValueError)
        return v
    if isinstance(v, Ref):
        o = itp.c.store[v.oid]
        if isinstance(o, ListC) and not any(
                isinstance(x, Seg) for x in o.items):
            if len(o.items) != n:
                raise PyRaise(ValueError)
            return o.items
    if concrete(v):
        vs = list(v)
        if len(vs) != n:
            raise PyRaise(ValueError)
        return vs
    raise Unsupported('unpack {!r}'.format(v))


# ------------------------------------------------------------------ attributes
def find_method(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            f = k.__dict__[name]
            if k.__module__.split('.')[0] in INTERPRETED and \
                    isinstance(f, types.FunctionType):
                return f
            return None
    return None


def getattr_(itp, o, name):
    c = itp.c
    o = itp.norm(o)
    if isinstance(o, Ref):
        h = c.store[o.oid]
        if isinstance(h, InstC):
            if name in h.attrs:
                return h.attrs[name]
            for k in h.cls.__mro__:
                if name in k.__dict__:
                    f = k.__dict__[name]
                    if isinstance(f, types.FunctionType):
                        return BoundVal(o, name, (f, k))
                    if isinstance(f, (staticmethod, classmethod, property)):
                        if isinstance(f, property):
                            return call_real(itp, f.fget, [o], {})
                        raise Unsupported('descriptor')
                    if not callable(f):
                        return f
            if issubclass(h.cls, BaseException):
                return ANY
            raise PyRaise(AttributeError)
        return BoundVal(o, name)
    if isinstance(o, Sym):
        if isinstance(o.ty, tuple) and o.ty[0] == 'obj':
            return obj_attr(itp, o, name)
        return BoundVal(o, name)
    if isinstance(o, SuperVal):
        return BoundVal(o, name)
    if isinstance(o, (DictView, EnumView)):
        return BoundVal(o, name)
    if o is ANY:
        return ANY
    if isinstance(o, tuple) and not concrete(o):
        return BoundVal(o, name)
    if is_sym(o):
        raise Unsupported('attribute {} of {!r}'.format(name, o))
    if o is None:
        raise PyRaise(AttributeError)
    if not hasattr(o, name):
        raise PyRaise(AttributeError)
    v = getattr(o, name)
    if isinstance(v, (types.BuiltinMethodType, types.MethodType)) and \
            not isinstance(o, types.ModuleType) and not isinstance(o, type):
        return BoundVal(o, name)
    return v


def obj_attr(itp, o, name):
    c = itp.c
    cls = o.ty[1]
    subs = SUBCLASSES.get(cls, [cls] if cls is not None else None)
    if subs:
        withit = [s for s in subs
                  if s not in CLASS_ATTRS or name in CLASS_ATTRS[s]]
        if not withit:
            m = getattr(cls, name, None)
            if m is not None:
                return BoundVal(o, name, (m, cls))
            raise PyRaise(AttributeError)
        if len(withit) < len(subs):
            if not c.decide(z3.Or([clsid(o.t) == cls_number(s)
                                   for s in withit])):
                raise PyRaise(AttributeError)
    if (cls, name) in ATTR_TY:
        ty = ATTR_TY[(cls, name)]
    elif name in ATTR_TY:
        ty = ATTR_TY[name]
    elif cls is not None and isinstance(getattr(cls, name, None),
                                        types.FunctionType):
        return BoundVal(o, name, (getattr(cls, name), cls))
    else:
        return BoundVal(o, name)
    at = uf('attr_' + name, V, V)(o.t)
    if (cls, name) in ATTR_FACT:
        c.fact(ATTR_FACT[(cls, name)](o.t, at))
    return itp.from_v(at, ty)


def setattr_(itp, o, name, v):
    c = itp.c
    o = itp.norm(o)
    if isinstance(o, Ref):
        h = c.store[o.oid]
        if isinstance(h, InstC):
            a = dict(h.attrs)
            a[name] = v
            c.write(o.oid, InstC(h.cls, a))
            return
    if isinstance(o, Sym):
        cur = getattr_(itp, o, name)
        if c.must(itp.same(cur, v)):
            return
    raise Unsupported('setattr {} on {!r}'.format(name, o))


# ------------------------------------------------------------------ methods
def call_method(itp, o, name, args, kwargs):
    c = itp.c
    o = itp.norm(o)
    if isinstance(o, Ref):
        h = c.store[o.oid]
        if isinstance(h, ListC):
            return list_method(itp, o, h, name, args, kwargs)
        if isinstance(h, DictC):
            return dict_method(itp, o, h, name, args, kwargs)
        if isinstance(h, SetC):
            return set_method(itp, o, h, name, args, kwargs)
        raise Unsupported('method {} of instance'.format(name))
    if is_str(o):
        return str_method(itp, o, name, args, kwargs)
    if isinstance(o, Sym):
        if isinstance(o.ty, tuple) and o.ty[0] == 'dict' or o.ty == 'json':
            if o.ty == 'json':
                if name in STR_METHODS and name not in DICT_METHODS:
                    if not c.decide(tag(o.t) == STR):
                        raise PyRaise(AttributeError)
                    return str_method(itp, Sym(v_s(o.t), 'str'), name, args,
                                      kwargs)
                if not c.decide(tag(o.t) == DICT):
                    raise PyRaise(AttributeError)
            vt = o.ty[1] if isinstance(o.ty, tuple) else 'json'
            if name in ('keys', 'values', 'items'):
                return DictView(o, name)
            if name == 'get':
                k = args[0]
                d = args[1] if len(args) > 1 else kwargs.get('default')
                if c.decide(dict_has(itp, o.t, k)):
                    return sym_dict_get(itp, o.t, vt, k)
                return d
            raise Unsupported('dict.{}'.format(name))
        m = MODELS.get('method:' + name)
        if m is not None:
            return m(itp, o, args, kwargs)
        raise Unsupported('method {} of {!r}'.format(name, o))
    if isinstance(o, re.Pattern):
        if all(concrete(a) for a in args):
            return call_py(getattr(o, name), args, kwargs)
        return regex_method(itp, o, name, args, kwargs)
    if isinstance(o, DictView):
        if name == 'index':
            raise Unsupported('view.index')
        raise Unsupported('view.{}'.format(name))
    if isinstance(o, SuperVal):
        return call_super(itp, o, name, args, kwargs)
    if isinstance(o, dict):
        if name == 'get' and not concrete(args[0]):
            k = itp.norm(args[0])
            if not itp.cond(lift(contains(itp, o, k))):
                return args[1] if len(args) > 1 else None
            return getitem(itp, o, k)
    if isinstance(o, (set, frozenset)) and name in ('union', 'copy'):
        s = c.alloc(SetC(as_set(itp, o)))
        for a in args:
            call_method(itp, s, 'update', [a], {})
        return s
    if isinstance(o, (list, dict, set)) and name in (
            'append', 'extend', 'add', 'update', 'pop', 'clear', 'insert',
            'remove', 'sort', 'reverse', 'setdefault', 'popitem', 'discard'):
        raise Unsupported('mutation of a module-level object')
    mod = type(o).__module__
    key = '{}.{}.{}'.format(mod, type(o).__name__, name)
    if key in MODELS:
        return MODELS[key](itp, o, args, kwargs)
    if not is_sym(o) and all(concrete(a) for a in args) and all(
            concrete(a) for a in kwargs.values()):
        return call_py(getattr(o, name), args, kwargs)
    if isinstance(o, tuple) and name in ('index', 'count'):
        raise Unsupported('tuple.' + name)
    raise Unsupported('method {} of {!r}'.format(name, o))


def lift(x):
    return x if isinstance(x, bool) else Sym(x, 'bool')


STR_METHODS = set(dir(str))
DICT_METHODS = set(dir(dict))


def list_method(itp, o, h, name, args, kwargs):
    c = itp.c
    if name == 'append':
        c.write(o.oid, ListC(h.items + (args[0],)))
        return None
    if name == 'extend':
        add_ = []
        a = itp.norm(args[0])
        r = as_rope(itp, a)
        if r is not None:
            add_ = list(r)
        elif isinstance(a, (DictView, EnumView)) or not concrete(a):
            acc = c.new_list()
            itp.run_for(a, lambda e: call_method(itp, acc, 'append', [e], {}),
                        'map')
            add_ = list(c.store[acc.oid].items)
        else:
            add_ = list(a)
        c.write(o.oid, ListC(c.store[o.oid].items + tuple(add_)))
        return None
    if name == 'copy':
        return c.new_list(h.items)
    if name == 'insert' and args[0] == 0:
        c.write(o.oid, ListC((args[1],) + h.items))
        return None
    if name == 'pop' and not any(isinstance(x, Seg) for x in h.items):
        i = args[0] if args else -1
        if not h.items:
            raise PyRaise(IndexError)
        l = list(h.items)
        r = l.pop(i)
        c.write(o.oid, ListC(l))
        return r
    if name == 'sort':
        r = sort_rope(itp, o, kwargs.get('key'), kwargs.get('reverse', False))
        c.write(o.oid, ListC(c.store[r.oid].items))
        return None
    if name == 'reverse' and not any(isinstance(x, Seg) for x in h.items):
        c.write(o.oid, ListC(tuple(reversed(h.items))))
        return None
    raise Unsupported('list.{}'.format(name))


def dict_method(itp, o, h, name, args, kwargs):
    c = itp.c
    if name in ('keys', 'values', 'items'):
        return DictView(o, name)
    if name == 'get':
        r = dict_lookup(itp, h, itp.norm(args[0]))
        if r is None:
            return args[1] if len(args) > 1 else None
        return r[0]
    if name == 'setdefault':
        r = dict_lookup(itp, h, itp.norm(args[0]))
        if r is None:
            v = args[1] if len(args) > 1 else None
            setitem(itp, o, args[0], v)
            return v
        return r[0]
    if name == 'update':
        a = itp.norm(args[0])
        if isinstance(a, Ref) and isinstance(c.store[a.oid], DictC):
            for it in c.store[a.oid].items:
                if isinstance(it, Seg):
                    hh = c.store[o.oid]
                    c.write(o.oid, DictC(hh.items + (it,), hh.cls))
                else:
                    setitem(itp, o, it[0], it[1])
            return None
        if isinstance(a, dict):
            for k, v in a.items():
                setitem(itp, o, k, v)
            return None
    if name == 'copy':
        return c.alloc(DictC(h.items, h.cls))
    raise Unsupported('dict.{}'.format(name))


def set_method(itp, o, h, name, args, kwargs):
    c = itp.c
    if name == 'add':
        c.write(o.oid, SetC(h.items + (args[0],)))
        return None
    if name in ('update', 'union'):
        if name == 'union':
            o = c.alloc(SetC(h.items))
        for a in args:
            r = as_set(itp, a)
            if r is None:
                r = as_rope(itp, a)
            if r is None:
                a = itp.norm(a)
                if concrete(a):
                    r = tuple(a)
                else:
                    p = itp.source_of(a)
                    if all(x[0] == 'elems' for x in p):
                        r = tuple(e for x in p for e in x[1])
                    else:
                        itp.run_for(a, lambda e: call_method(
                            itp, o, 'add', [e], {}))
                        r = ()
            hh = c.store[o.oid]
            c.write(o.oid, SetC(hh.items + tuple(r)))
        return o if name == 'union' else None
    if name == 'copy':
        return c.alloc(SetC(h.items))
    if name == 'discard':
        if all(concrete(x) for x in h.items) and concrete(args[0]):
            c.write(o.oid, SetC([x for x in h.items if x != args[0]]))
            return None
        if c.trackers and any(True for _ in c.trackers):
            raise Unsupported('discard in a loop')
        t = uf('s_disc', V, V, V)(itp.to_v(o), itp.to_v(itp.norm(args[0])))
        c.write(o.oid, SetC((Seg(t, None),)))
        return None
    raise Unsupported('set.{}'.format(name))


def in_set(s, x):
    """Membership in the set of a term built by add, union and discard."""
    n = s.decl().name()
    if n == 's_disc':
        return z3.And(in_set(s.arg(0), x), s.arg(1) != x)
    if n == 's_add':
        return z3.Or(in_set(s.arg(0), x), s.arg(1) == x)
    if n == 's_seg':
        return z3.Or(in_set(s.arg(0), x), in_set(s.arg(1), x))
    if n == 'nilset':
        return z3.BoolVal(False)
    return inset(s, x)


def sort_rope(itp, it, key, reverse):
    c = itp.c
    p = itp.source_of(it)
    if all(x[0] == 'elems' for x in p):
        els = [e for x in p for e in x[1]]
        if all(concrete(e) for e in els) and key is None:
            return c.new_list(sorted(els, reverse=bool(reverse)))
    kn = 'none'
    if isinstance(key, FuncVal):
        kn = code_key(key)
        if kn is None:
            raise Unsupported('sort key with a closure')
    elif key is not None:
        kn = getattr(key, '__name__', str(key))
    if isinstance(it, Ref) and isinstance(c.store[it.oid], ListC) and len(
            c.store[it.oid].items) == 1 and isinstance(
                c.store[it.oid].items[0], Seg) and \
            c.store[it.oid].items[0].v.get_id() in c.set_order:
        # a list of the elements of a set: sorting it forgets their order
        # (assumption: the keys of distinct elements are distinct)
        t = c.set_order[c.store[it.oid].items[0].v.get_id()]
    elif isinstance(it, Ref) and isinstance(c.store[it.oid], SetC):
        t = itp.to_v(it)
        if len(c.store[it.oid].items) == 1 and isinstance(
                c.store[it.oid].items[0], Seg):
            t = c.store[it.oid].items[0].v
    else:
        t = seq_term(itp, it)
    r = uf('sorted_{}_{}'.format(kn, reverse), V, V)(t)
    ety = None
    if isinstance(it, Ref):
        ety = itp.join_types([x.ty if isinstance(x, Seg) else itp.type_of(x)
                              for x in c.store[it.oid].items])
    elif isinstance(it, DictView) and isinstance(it.d, Sym):
        vt = it.d.ty[1] if isinstance(it.d.ty, tuple) else 'json'
        ety = {'keys': 'str', 'values': vt,
               'items': ('tuple', 'str', vt)}[it.what]
    elif isinstance(it, Sym) and isinstance(it.ty, tuple):
        ety = it.ty[1]
    return c.new_list((Seg(r, ety),))


# ------------------------------------------------------------------ calls
def call_super(itp, o, name, args, kwargs):
    mro = list(itp.c.store[o.obj.oid].cls.__mro__)
    i = mro.index(o.cls)
    for k in mro[i + 1:]:
        if name in k.__dict__:
            f = k.__dict__[name]
            if isinstance(f, types.FunctionType) and \
                    k.__module__.split('.')[0] in INTERPRETED:
                return itp.call_func(itp.func_of(f), [o.obj] + args, kwargs, k)
            if name == '__init__':
                if issubclass(k, BaseException):
                    setattr_(itp, o.obj, 'args', ANY)
                return None
            raise Unsupported('super().{}'.format(name))
    raise PyRaise(AttributeError)


def instantiate(itp, cls, args, kwargs):
    c = itp.c
    r = c.alloc(InstC(cls, {}))
    for k in cls.__mro__:
        if '__init__' in k.__dict__:
            f = k.__dict__['__init__']
            if isinstance(unwrap_(f), types.FunctionType) and \
                    k.__module__.split('.')[0] in INTERPRETED:
                itp.call_func(itp.func_of(f), [r] + list(args), kwargs, k)
                return r
            if issubclass(cls, BaseException):
                setattr_(itp, r, 'args', ANY)
                return r
            if k is object and not args and not kwargs:
                return r
            raise Unsupported('constructor of {}'.format(cls))
    return r


def unwrap_(f):
    while hasattr(f, '__wrapped__'):
        f = f.__wrapped__
    return f


def qual(f):
    g = unwrap_(f)
    return '{}:{}'.format(getattr(g, '__module__', ''),
                          getattr(g, '__qualname__', ''))


def call_real(itp, f, args, kwargs):
    """Call a function that exists in the real program."""
    c = itp.c
    ct = SPEC_OF.get(id(f))
    if ct is None:
        ct = CONTRACTS.get(qual(f))
    if ct is not None and ct.name not in c.inline and ct.modular and (
            f is ct.spec or ct.real_names() is not None):
        return ct.apply(itp, args, kwargs, f is ct.spec)
    if ct is not None and ct.name in c.inline and f is ct.spec:
        return itp.call_func(itp.func_of(ct.spec), args, kwargs)
    q = qual(f)
    if q in MODELS:
        return MODELS[q](itp, args, kwargs)
    mod = q.split(':')[0]
    if mod.split('.')[0] in INTERPRETED:
        if all(concrete(a) for a in args) and all(
                concrete(a) for a in kwargs.values()) and args + list(
                    kwargs.values()):
            if getattr(f, '__pv_pure__', False):
                return call_py(f, args, kwargs)
        fv = itp.func_of(f)
        cls = None
        if '.' in q.split(':')[1]:
            m = sys.modules[mod]
            cls = getattr(m, q.split(':')[1].split('.')[0], None)
        return itp.call_func(fv, args, kwargs, cls)
    if all(concrete(a) for a in args) and all(
            concrete(a) for a in kwargs.values()):
        return call_py(f, args, kwargs)
    raise Unsupported('external function {}'.format(q))


def call(itp, f, args, kwargs):
    c = itp.c
    if isinstance(f, FuncVal):
        return itp.call_func(f, args, kwargs)
    if isinstance(f, BoundVal):
        if f.func is not None:
            fn, cls = f.func
            if isinstance(unwrap_(fn), types.FunctionType):
                q = qual(fn)
                if q in CONTRACTS and CONTRACTS[q].name not in c.inline and \
                        CONTRACTS[q].real_names() is not None:
                    return CONTRACTS[q].apply(itp, [f.obj] + args, kwargs)
                if q in MODELS:
                    return MODELS[q](itp, [f.obj] + args, kwargs)
                return itp.call_func(itp.func_of(fn), [f.obj] + args, kwargs,
                                     cls)
            raise Unsupported('bound {}'.format(fn))
        return call_method(itp, f.obj, f.name, args, kwargs)
    if f is ANY:
        return ANY
    if is_sym(f):
        raise Unsupported('call of {!r}'.format(f))
    if isinstance(f, type):
        return call_type(itp, f, args, kwargs)
    q = None
    try:
        if f in BUILTINS:
            return BUILTINS[f](itp, args, kwargs)
    except TypeError:
        pass
    if isinstance(f, types.FunctionType):
        return call_real(itp, f, args, kwargs)
    if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType,
                      types.MethodType)) or callable(f):
        q = qual(f)
        if q in MODELS:
            return MODELS[q](itp, args, kwargs)
        if isinstance(f, types.MethodType) and hasattr(f, '__self__'):
            return call_method(itp, f.__self__, f.__name__, args, kwargs)
        if all(concrete(a) for a in args) and all(
                concrete(a) for a in kwargs.values()):
            return call_py(f, args, kwargs)
    raise Unsupported('call of {!r}'.format(f))


def call_type(itp, f, args, kwargs):
    c = itp.c
    h = TYPES.get(f)
    if h is not None:
        return h(itp, args, kwargs)
    key = '{}:{}'.format(f.__module__, f.__qualname__)
    if key in MODELS:
        return MODELS[key](itp, args, kwargs)
    if f.__module__.split('.')[0] in INTERPRETED or issubclass(
            f, BaseException):
        return instantiate(itp, f, args, kwargs)
    if all(concrete(a) for a in args) and all(
            concrete(a) for a in kwargs.values()):
        return call_py(f, args, kwargs)
    raise Unsupported('constructor {}'.format(key))


def t_list(itp, args, kwargs):
    c = itp.c
    if not args:
        return c.new_list()
    a = itp.norm(args[0])
    if isinstance(a, DictView) and isinstance(a.d, Sym):
        return a
    if isinstance(a, Sym) and isinstance(a.ty, tuple) and a.ty[0] == 'dict':
        return DictView(a, 'keys')
    if isinstance(a, Ref) and isinstance(c.store[a.oid], SetC):
        its = c.store[a.oid].items
        if len(its) <= 1 and not any(isinstance(x, Seg) for x in its):
            return c.new_list(its)
        p = itp.source_of(a)
        if len(p) == 1 and p[0][0] == 'loop':
            return c.new_list((Seg(p[0][1][1], p[0][1][2]),))
    r = c.new_list()
    call_method(itp, r, 'extend', [a], {})
    return r


def t_set(itp, args, kwargs):
    r = itp.c.alloc(SetC(()))
    if args:
        call_method(itp, r, 'update', [args[0]], {})
    return r


def t_dict(cls):
    def f(itp, args, kwargs):
        c = itp.c
        r = c.alloc(DictC((), cls))
        if args:
            a = itp.norm(args[0])
            if isinstance(a, (dict,)) or isinstance(a, Ref) and isinstance(
                    c.store[a.oid], DictC):
                call_method(itp, r, 'update', [a], {})
            else:
                itp.run_for(a, lambda e: (lambda kv: setitem(
                    itp, r, kv[0], kv[1]))(unpack(itp, e, 2)))
        for k, v in kwargs.items():
            setitem(itp, r, k, v)
        return r
    return f


def t_int(itp, args, kwargs):
    if not args:
        return 0
    a = itp.norm(args[0])
    if concrete(a):
        return call_py(int, args, kwargs)
    if isinstance(a, Sym):
        if a.ty == 'int':
            return a
        if a.ty == 'bool':
            return Sym(z3.If(a.t, 1, 0), 'int')
        if a.ty == 'real':
            return Sym(z3.If(a.t >= 0, z3.ToInt(a.t), -z3.ToInt(-a.t)), 'int')
        if a.ty == 'json':
            if itp.c.decide(tag(a.t) == INT):
                itp.c.fact(v_n(a.t) == z3.ToReal(v_i(a.t)))
                return Sym(v_i(a.t), 'int')
            if itp.c.decide(tag(a.t) == REAL):
                n = v_n(a.t)
                return Sym(z3.If(n >= 0, z3.ToInt(n), -z3.ToInt(-n)), 'int')
            if itp.c.decide(tag(a.t) == BOOL):
                return Sym(z3.If(v_b(a.t), 1, 0), 'int')
        if a.ty == 'str':
            raise Unsupported('int of str')
    raise PyRaise(TypeError)


def t_float(itp, args, kwargs):
    a = itp.norm(args[0])
    if concrete(a):
        return call_py(float, args, kwargs)
    n = num(itp, a)
    return Sym(z3.ToReal(n) if n.sort() == I else n, 'real')


def t_bool(itp, args, kwargs):
    if not args:
        return False
    t = itp.truth(args[0])
    return t if isinstance(t, bool) else Sym(t, 'bool')


def t_tuple(itp, args, kwargs):
    if not args:
        return ()
    p = itp.source_of(args[0])
    if all(x[0] == 'elems' for x in p):
        return tuple(e for x in p for e in x[1])
    return t_list(itp, args, kwargs)


def t_type(itp, args, kwargs):
    a = itp.norm(args[0])
    if concrete(a):
        return type(a)
    if isinstance(a, Ref):
        o = itp.c.store[a.oid]
        return {'list': list, 'dict': dict, 'set': set}.get(
            o.kind, getattr(o, 'cls', None))
    if isinstance(a, Sym):
        m = {'str': str, 'int': int, 'bool': bool, 'real': float}
        if a.ty in m:
            return m[a.ty]
        if isinstance(a.ty, tuple) and a.ty[0] == 'obj':
            for s in SUBCLASSES.get(a.ty[1], [a.ty[1]])[:-1]:
                if itp.c.decide(clsid(a.t) == cls_number(s)):
                    return s
            return SUBCLASSES.get(a.ty[1], [a.ty[1]])[-1]
    return ANY


def t_str(itp, args, kwargs):
    if not args:
        return ''
    return to_str(itp, args[0])


def t_range(itp, args, kwargs):
    args = [itp.norm(a) for a in args]
    if all(concrete(a) for a in args):
        return call_py(range, args, {})
    if len(args) == 1:
        return SymRange(0, args[0])
    if len(args) == 2:
        return SymRange(args[0], args[1])
    raise Unsupported('range step')


TYPES = {
    list: t_list, set: t_set, frozenset: t_set, dict: t_dict(dict),
    collections.OrderedDict: t_dict(collections.OrderedDict),
    int: t_int, float: t_float, bool: t_bool, str: t_str, tuple: t_tuple,
    type: t_type, range: t_range,
    enumerate: lambda itp, a, k: EnumView(
        a[0], a[1] if len(a) > 1 else k.get('start', 0)),
    zip: lambda itp, a, k: t_zip(itp, a),
    reversed: lambda itp, a, k: t_reversed(itp, a),
}


def t_zip(itp, args):
    ls = []
    for a in args:
        p = itp.source_of(a)
        if not all(x[0] == 'elems' for x in p):
            raise Unsupported('zip')
        ls.append([e for x in p for e in x[1]])
    return itp.c.new_list(tuple(zip(*ls)))


def t_reversed(itp, args):
    p = itp.source_of(args[0])
    if not all(x[0] == 'elems' for x in p):
        raise Unsupported('reversed')
    return itp.c.new_list(tuple(reversed([e for x in p for e in x[1]])))


def b_len(itp, args, kwargs):
    c = itp.c
    a = itp.norm(args[0])
    if isinstance(a, Sym):
        if a.ty == 'str':
            return Sym(z3.Length(a.t), 'int')
        if isinstance(a.ty, tuple) and a.ty[0] == 'list':
            c.fact(llen(a.t) >= 0)
            return Sym(llen(a.t), 'int')
        if isinstance(a.ty, tuple) and a.ty[0] == 'dict':
            c.fact(dlen(a.t) >= 0)
            return Sym(dlen(a.t), 'int')
        if a.ty == 'json':
            if c.decide(tag(a.t) == LIST):
                c.fact(llen(a.t) >= 0)
                return Sym(llen(a.t), 'int')
            if c.decide(tag(a.t) == DICT):
                c.fact(dlen(a.t) >= 0)
                return Sym(dlen(a.t), 'int')
            if c.decide(tag(a.t) == STR):
                return Sym(z3.Length(v_s(a.t)), 'int')
        raise PyRaise(TypeError)
    if isinstance(a, Ref):
        o = c.store[a.oid]
        if isinstance(o, ListC):
            n = z3.IntVal(0)
            k = 0
            segs = False
            for it in o.items:
                if isinstance(it, Seg):
                    segs = True
                    c.fact(llen(it.v) >= 0)
                    n = n + llen(it.v)
                else:
                    k += 1
            return Sym(z3.simplify(n + k), 'int') if segs else k
        if isinstance(o, DictC):
            if all((not isinstance(i, Seg)) and concrete(i[0])
                   for i in o.items):
                return len({i[0] for i in o.items})
        if isinstance(o, SetC):
            if not any(isinstance(i, Seg) for i in o.items) and all(
                    concrete(i) for i in o.items):
                return len(set(o.items))
            if not o.items:
                return 0
            r = uf('setlen', V, I)(itp.to_v(a))
            c.fact(r >= 0)
            c.fact((r > 0) == itp.truth(a)) if not isinstance(
                itp.truth(a), bool) else c.fact(r > 0)
            return Sym(r, 'int')
        raise Unsupported('len of {!r}'.format(o))
    if isinstance(a, DictView):
        return b_len(itp, [a.d], {})
    if isinstance(a, tuple):
        return len(a)
    if concrete(a):
        return call_py(len, [a], {})
    raise Unsupported('len of {!r}'.format(a))


def b_isinstance(itp, args, kwargs):
    x = itp.norm(args[0])
    cl = args[1]
    if not isinstance(cl, tuple):
        if isinstance(cl, Ref):
            cl = tuple(itp.to_py(cl))
        else:
            cl = (cl,)
    if any(is_sym(k) for k in cl):
        if len(cl) == 1 and isinstance(cl[0], Sym):
            return Sym(uf('isinst', V, V, B)(itp.to_v(x), cl[0].t), 'bool')
        raise Unsupported('isinstance of symbolic class')
    if concrete(x):
        return isinstance(x, cl)
    if isinstance(x, Ref):
        o = itp.c.store[x.oid]
        k = {'list': list, 'set': set}.get(o.kind)
        if o.kind in ('dict', 'inst'):
            k = o.cls
        return issubclass(k, cl)
    if isinstance(x, tuple):
        return issubclass(tuple, cl)
    if isinstance(x, DictView):
        return issubclass(list, cl)
    if isinstance(x, Sym):
        m = {'str': str, 'int': int, 'bool': bool, 'real': float}
        if x.ty in m:
            return issubclass(m[x.ty], cl)
        if x.ty == 'json':
            out = []
            for k in cl:
                if k is dict:
                    out.append(tag(x.t) == DICT)
                elif k is collections.OrderedDict:
                    out.append(z3.And(tag(x.t) == DICT, is_od(x.t)))
                elif k is list:
                    out.append(tag(x.t) == LIST)
                elif k is str:
                    out.append(tag(x.t) == STR)
                elif k is bool:
                    out.append(tag(x.t) == BOOL)
                elif k is int:
                    out.append(z3.Or(tag(x.t) == INT, tag(x.t) == BOOL))
                elif k is float:
                    out.append(tag(x.t) == REAL)
                elif k is type(None):
                    out.append(tag(x.t) == NONE)
                elif k is object:
                    return True
            return lift(itp.or_(out))
        if isinstance(x.ty, tuple):
            if x.ty[0] == 'obj':
                cls = x.ty[1]
                subs = SUBCLASSES.get(cls, [cls] if cls is not None else None)
                if subs is None:
                    subs = list(CLS_ID)
                hit = [s for s in subs if issubclass(s, cl)]
                if len(hit) == len(subs) and cls is not None:
                    return True
                return lift(itp.or_([clsid(x.t) == cls_number(s)
                                     for s in hit]))
            k = {'list': list, 'dict': dict, 'set': set}.get(x.ty[0])
            if k is dict and collections.OrderedDict in cl and \
                    dict not in cl:
                return Sym(is_od(x.t), 'bool')
            if k is not None:
                return issubclass(k, cl)
    raise Unsupported('isinstance of {!r}'.format(x))


def b_sorted(itp, args, kwargs):
    a = itp.norm(args[0])
    key = kwargs.get('key')
    if concrete(a) and concrete(key):
        return itp.c.new_list(call_py(sorted, [a], kwargs))
    if isinstance(a, DictView) and key is None and isinstance(a.d, Sym) and \
            a.what in ('keys', 'items') and not kwargs:
        return DictView(a.d, a.what, True)
    if isinstance(a, Sym) and isinstance(a.ty, tuple) and \
            a.ty[0] == 'dict' and not kwargs:
        return DictView(a, 'keys', True)
    small = sort_few(itp, a, key, kwargs)
    if small is not None:
        return small
    return sort_rope(itp, a, key, kwargs.get('reverse', False))


def sort_few(itp, a, key, kwargs):
    """A set of a few texts: decide how they compare."""
    c = itp.c
    o = c.store[a.oid] if isinstance(a, Ref) else None
    if not isinstance(o, SetC) or key is not None or kwargs or \
            len(o.items) > 4 or any(isinstance(x, Seg) or not (
                isinstance(x, str) or isinstance(x, Sym) and x.ty == 'str')
                for x in o.items):
        return None
    term = {}
    els = []
    for x in o.items:
        t = z3.simplify(z3.StringVal(x) if isinstance(x, str) else x.t)
        for y in els:
            if c.decide(t == term[id(y)]):
                break
        else:
            term[id(x)] = t
            n = 0
            while n < len(els) and c.decide(text_less(term[id(els[n])], t)):
                n += 1
            els.insert(n, x)
    return c.new_list(els)


def text_less(a, b):
    """a < b for texts known to differ."""
    pa, pb = parts(a), parts(b)
    while pa and pb and pa[0].eq(pb[0]):
        pa, pb = pa[1:], pb[1:]
    if not pa:
        return z3.BoolVal(True)
    if not pb:
        return z3.BoolVal(False)
    if z3.is_string_value(pa[0]) and z3.is_string_value(pb[0]):
        x, y = pa[0].as_string(), pb[0].as_string()
        if not x.startswith(y) and not y.startswith(x) and '\\' not in x + y:
            return z3.BoolVal(x < y)
    return a < b


def parts(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for i in range(t.num_args()) for x in parts(t.arg(i))]
    return [t]


def b_any(want):
    def f(itp, args, kwargs):
        hit = [False]

        def it(e):
            if itp.cond(e) == want:
                raise ReturnX('<hit>')
        try:
            itp.run_for(args[0], it)
        except ReturnX as r:
            if r.v == '<hit>':
                return want
            raise
        return not want
    return f


def b_sum(itp, args, kwargs):
    p = itp.source_of(args[0])
    if all(x[0] == 'elems' for x in p):
        r = args[1] if len(args) > 1 else 0
        for x in p:
            for e in x[1]:
                r = binop(itp, ast.Add(), r, e)
        return r
    acc = itp.c.alloc(InstC(object, {}))
    # an accumulating loop
    fr = itp.new_frame({})
    k = (fr.fid, 'acc')
    itp.c.store[k] = args[1] if len(args) > 1 else 0

    def it(e):
        itp.c.write(k, binop(itp, ast.Add(), itp.c.store[k], e))
    itp.run_for(args[0], it)
    return itp.c.store[k]


def b_minmax(f):
    def g(itp, args, kwargs):
        if all(concrete(a) for a in args):
            return call_py(f, args, kwargs)
        if len(args) == 2 and not kwargs:
            x, y = num(itp, args[0]), num(itp, args[1])
            c = x <= y if f is min else x >= y
            return args[0] if itp.c.decide(c) else args[1]
        raise Unsupported('min/max')
    return g


def b_print(itp, args, kwargs):
    log = getattr(itp.c, 'effects', None)
    if log is not None:
        itp.c.effects.append(('print', tuple(args), dict(kwargs)))
    return None


def b_getattr(itp, args, kwargs):
    if not isinstance(args[1], str):
        raise Unsupported('getattr with symbolic name')
    try:
        return getattr_(itp, args[0], args[1])
    except PyRaise as e:
        if e.cls is AttributeError and len(args) > 2:
            return args[2]
        raise


def b_hasattr(itp, args, kwargs):
    try:
        getattr_(itp, args[0], args[1])
        return True
    except PyRaise as e:
        if e.cls is AttributeError:
            return False
        raise


def b_next(itp, args, kwargs):
    raise Unsupported('next')


def b_map(itp, args, kwargs):
    acc = itp.c.new_list()
    itp.run_for(args[1], lambda e: call_method(
        itp, acc, 'append', [call(itp, args[0], [e], {})], {}), 'map')
    return acc


TYPES[map] = b_map

BUILTINS = {
    len: b_len, isinstance: b_isinstance, sorted: b_sorted,
    any: b_any(True), all: b_any(False), sum: b_sum,
    min: b_minmax(min), max: b_minmax(max), print: b_print,
    repr: lambda itp, a, k: fmt_one(itp, a[0], 'r', ''),
    getattr: b_getattr, hasattr: b_hasattr, next: b_next,
    iter: lambda itp, a, k: a[0],
    callable: lambda itp, a, k: isinstance(a[0], (FuncVal, BoundVal)) or
    callable(a[0]),
    abs: lambda itp, a, k: abs(a[0]) if concrete(a[0]) else
    Sym(z3.If(num(itp, a[0]) >= 0, num(itp, a[0]), -num(itp, a[0])),
        a[0].ty),
    chr: lambda itp, a, k: call_py(chr, a, k),
    ord: lambda itp, a, k: call_py(ord, a, k) if concrete(a[0]) else
    Sym(z3.StrToCode(a[0].t), 'int'),
    id: lambda itp, a, k: Sym(uf('py_id', V, I)(itp.to_v(a[0])), 'int'),
}


def exc_match(itp, cls, pat):
    if isinstance(pat, Ref):
        pat = tuple(itp.to_py(pat))
    if isinstance(pat, tuple):
        return any(exc_match(itp, cls, p) for p in pat)
    return issubclass(cls, pat)


def violation(itp, err, fr):
    import icontract
    if err is None:
        return icontract.ViolationError
    try:
        v = itp.eval(err, fr)
    except Unsupported:
        return Exception
    if isinstance(v, type):
        return v
    if isinstance(v, FuncVal):
        r = itp.call_func(v, [], {})
        if isinstance(r, Ref):
            return itp.c.store[r.oid].cls
        return type(r)
    return Exception


def enter(itp, v):
    return v


# ------------------------------------------------------------------ schemas
def resolve(schema, root):
    while '$ref' in schema:
        p = schema['$ref']
        if not p.startswith('#/'):
            raise Unsupported('$ref')
        s = root
        for k in p[2:].split('/'):
            s = s[k]
        schema = s
    return schema


def meaning(schema):
    """The schema without the parts that do not restrict anything."""
    if isinstance(schema, dict):
        out = {}
        for k, v in schema.items():
            if k in ('description', '$schema') and isinstance(v, str):
                continue
            if k in ('properties', 'definitions') and isinstance(v, dict):
                out[k] = {n: meaning(x) for n, x in v.items()}
            elif k in ('required', 'enum') and isinstance(v, list):
                out[k] = sorted(v)
            elif k == 'additionalProperties' and v is True:
                continue
            else:
                out[k] = meaning(v)
        return out
    if isinstance(schema, list):
        return [meaning(x) for x in schema]
    return schema


def implied(known, kroot, need, nroot, depth=0):
    """Does conforming to one schema imply conforming to the other?"""
    if depth > 8:
        return True
    known, need = resolve(known, kroot), resolve(need, nroot)
    for k in ('type', 'pattern', 'enum', 'minimum'):
        if k in need and need[k] != known.get(k):
            return False
    if not set(need.get('required', ())) <= set(known.get('required', ())):
        return False
    for k, sub in need.get('properties', {}).items():
        if k not in known.get('properties', {}) or not implied(
                known['properties'][k], kroot, sub, nroot, depth + 1):
            return False
    if need.get('additionalProperties', True) is not True:
        a, b = known.get('additionalProperties', True), \
            need['additionalProperties']
        if b is False:
            return a is False and set(known.get('properties', ())) <= \
                set(need.get('properties', ()))
        if a is True or (a is not False and not implied(
                a, kroot, b, nroot, depth + 1)):
            return False
        for k, sub in known.get('properties', {}).items():
            if k not in need.get('properties', {}) and not implied(
                    sub, kroot, b, nroot, depth + 1):
                return False
    if 'items' in need:
        if 'items' not in known or not implied(
                known['items'], kroot, need['items'], nroot, depth + 1):
            return False
    return True


def has_shape(itp, v, shape):
    """Is the value known to conform to the schema at this point?"""
    v = itp.norm(v)
    if not isinstance(v, Sym) or v.ty != 'json':
        return False
    if set(shape['schema']) == {'type'} and shape['schema']['type'] == \
            'object':
        return itp.c.must(tag(v.t) == DICT)
    e = itp.c.schema_of.get(v.t.get_id())
    if e is None:
        return False
    return implied(e[1], e[2], shape['schema'], shape['root'])


def assume_schema(itp, t, schema, root=None):
    """Assert the consequences of t conforming to the schema."""
    c = itp.c
    root = root if root is not None else schema
    schema = resolve(schema, root)
    c.schema_of[t.get_id()] = (t, schema, root)
    ty = schema.get('type')
    tags = {'object': [DICT], 'string': [STR], 'array': [LIST],
            'integer': [INT], 'number': [INT, REAL], 'boolean': [BOOL]}
    if ty in tags:
        c.fact(itp.or_([tag(t) == g for g in tags[ty]]))
        if ty == 'integer':
            c.fact(v_n(t) == z3.ToReal(v_i(t)))
        if ty == 'object':
            c.fact(dlen(t) >= 0)
            for k in schema.get('required', ()):
                c.note_key(t, k)
                c.fact(has(t, sv(k)))
        if ty == 'string':
            if 'enum' in schema:
                c.fact(z3.Or([v_s(t) == sv(e) for e in schema['enum']]))
            if 'pattern' in schema:
                c.fact(regex_in(itp, re.compile(schema['pattern']), 'search',
                                v_s(t)))


def on_get(itp, d, key, t):
    h = itp.c.elem_hook.get(d.get_id())
    if h is not None:
        h[1](t)
    e = itp.c.schema_of.get(d.get_id())
    if e is None:
        return
    _, schema, root = e
    props = schema.get('properties', {})
    if key is not None and key in props:
        assume_schema(itp, t, props[key], root)
    elif key is None and not props or key is not None:
        ap = schema.get('additionalProperties')
        if isinstance(ap, dict):
            assume_schema(itp, t, ap, root)


def on_elem(itp, l, t):
    e = itp.c.schema_of.get(l.get_id())
    if e is None:
        return
    _, schema, root = e
    if isinstance(schema.get('items'), dict):
        assume_schema(itp, t, schema['items'], root)


@model('jsonschema.validators:validate')
def m_validate(itp, args, kwargs):
    import json
    import jsonschema
    inst = kwargs.get('instance', args[0] if args else None)
    schema = kwargs.get('schema', args[1] if len(args) > 1 else None)
    inst = itp.norm(inst)
    if concrete(inst):
        return call_py(jsonschema.validate, [inst, schema], {})
    if not isinstance(schema, dict):
        raise Unsupported('validate against a symbolic schema')
    import hashlib
    h = hashlib.sha1(json.dumps(meaning(schema),
                                sort_keys=True).encode()).hexdigest()
    t = itp.to_v(inst)
    if itp.c.decide(uf('conforms_' + h[:10], V, B)(t)):
        assume_schema(itp, t, schema)
        return None
    e = uf('verr_' + h[:10], V, V)(t)
    o = itp.c.alloc(InstC(jsonschema.ValidationError, {
        'path': Sym(uf('attr_path', V, V)(e), ('list', 'json')),
        'message': ANY}))
    raise PyRaise(jsonschema.ValidationError, o)


@model('re:compile')
def m_compile(itp, args, kwargs):
    a = itp.norm(args[0] if args else kwargs['pattern'])
    if concrete(a):
        return call_py(re.compile, [a], {})
    s = coerce_str(itp, a)
    if s is None:
        raise PyRaise(TypeError)
    if not itp.c.decide(uf('re_valid', S, B)(st(s))):
        raise PyRaise(re.error)
    t = uf('re_compiled', S, V)(st(s))
    itp.c.fact(tag(t) == OBJ)
    return Sym(t, ('obj', re.Pattern))


# ------------------------------------------------------------------- lexery
try:
    import lexery as _lexery
    ATTR_TY[(_lexery.Token, 'identifier')] = 'str'
    ATTR_TY[(_lexery.Token, 'content')] = 'str'
    ATTR_TY[(_lexery.Token, 'position')] = 'int'
    ATTR_TY[(_lexery.Token, 'lineno')] = 'int'
    ATTR_FACT[(_lexery.Token, 'identifier')] = lambda o, a: z3.Or(
        v_s(a) == sv('directive'), v_s(a) == sv('text'))

    @model('lexery.Lexer.lex')
    def m_lex(itp, lexer, args, kwargs):
        """The lexer is trusted: its result depends on its rules and the text."""
        text = itp.norm(args[0] if args else kwargs['text'])
        if concrete(text):
            return call_py(lexer.lex, [text], {})
        text = coerce_str(itp, text)
        if text is None:
            raise PyRaise(AttributeError)
        key = repr([(r.identifier, r.pattern.pattern, r.pattern.flags)
                    for r in lexer.rules]) + repr(
                        (lexer.skip_whitespace, lexer.unmatched_identifier))
        if itp.c.decide(uf('lex_err_' + key, S, B)(st(text))):
            raise PyRaise(_lexery.Error)
        return itp.from_v(uf('lex_' + key, S, V)(st(text)),
                          ('list', ('list', ('obj', _lexery.Token))))
except ImportError:
    pass


def _re_function(mode):
    def m(itp, args, kwargs):
        names = ['pattern', 'repl', 'string'] if mode == 'sub' else [
            'pattern', 'string']
        vals = dict(zip(names, args))
        vals.update(kwargs)
        if set(vals) != set(names):
            raise Unsupported('re.{} with flags'.format(mode))
        pat = vals['pattern']
        if isinstance(itp.norm(pat), Sym):
            pat = call_real(itp, re.compile, [pat], {})
        elif isinstance(itp.norm(pat), str):
            pat = call_py(re.compile, [itp.norm(pat)], {})
        return call_method(itp, pat, mode, [vals[n] for n in names[1:]], {})
    return m


for _mode in ('match', 'fullmatch', 'search', 'sub'):
    MODELS['re:' + _mode] = _re_function(_mode)


def _span(itp, o):
    start = Sym(uf('m_start', V, I)(o.t), 'int')
    end = Sym(uf('m_end', V, I)(o.t), 'int')
    c = itp.c
    c.fact(z3.And(0 <= start.t, start.t <= end.t))
    n = o.t.decl().name()
    if o.t.num_args() == 1 and o.t.arg(0).sort() == S:
        c.fact(end.t <= z3.Length(o.t.arg(0)))
        for mode in ('match', 'fullmatch'):
            if n.startswith('m_{}_'.format(mode)):
                c.fact(start.t == 0)
                if mode == 'fullmatch':
                    c.fact(end.t == z3.Length(o.t.arg(0)))
        for pat, f in SPAN_FACT.items():
            if n == 'm_match_' + pat:
                c.fact(f(end.t))
    return start, end


def _is_match(o):
    return isinstance(o, Sym) and o.ty == ('obj', re.Match)


def _match_method(name):
    def m(itp, o, args, kwargs):
        if not _is_match(o) or args or kwargs:
            raise Unsupported('method {} of {!r}'.format(name, o))
        if name == 'group':
            return Sym(uf('m_group', V, S)(o.t), 'str')
        start, end = _span(itp, o)
        return {'span': (start, end), 'start': start, 'end': end}[name]
    return m


for _n in ('span', 'start', 'end', 'group'):
    MODELS['method:' + _n] = _match_method(_n)


@model('textwrap:dedent')
def m_dedent(itp, args, kwargs):
    s = itp.norm(args[0] if args else kwargs['text'])
    if concrete(s):
        import textwrap
        return call_py(textwrap.dedent, [s], {})
    return str_uf(itp, 'textwrap_dedent', [s])


for _n, _f in (('exists', m_exists), ('mkdir', m_mkdir),
               ('write_text', m_write_text)):
    MODELS['pathlib:Path.' + _n] = (
        lambda itp, args, kwargs, _f=_f: _f(itp, args[0], args[1:], kwargs))
