"""Durations in generated Go code."""
import ast
import fractions
import re

import z3

from pv import gvpyser
from pv.engine import PyRaise, ReturnX, Unsupported
from pv.gv import B, DEAD, Dotted, fn, I, plain, R, real, Str, Sym, U
from pv.gvgo import exits_of, GoErr, GOERR, GoTheory, panic, Regex
from pv.gvpy import (And, DURATION, FRAC, FRAC_LEN, gnum, If, Implies, Not,
                     Or, present, regex_tree, UNITS)

CONSTANTS = {'time.Nanosecond': 1, 'time.Microsecond': 10**3,
             'time.Millisecond': 10**6, 'time.Second': 10**9,
             'time.Minute': 60 * 10**9, 'time.Hour': 3600 * 10**9,
             'math.MaxInt64': 2**63 - 1, 'math.MinInt64': -2**63,
             'math.MaxInt32': 2**31 - 1, 'math.MaxInt': 2**63 - 1}
LO, HI = -2**63, 2**63
NEGATIVE = z3.Bool('negative')
NANOS = z3.Int('nanoseconds in the fraction')
# finite floats are less than this
FLOATS = 2**1024
FLOATED = ('years', 'months', 'weeks', 'days', 'hours', 'minutes')


class Match:
    """A match of the grammar of durations."""
    __slots__ = ('names', 'count')

    def __init__(self, names, count):
        self.names = names
        self.count = count


class Group:
    """The text of a group."""
    __slots__ = ('name', )

    def __init__(self, name):
        self.name = name


PROBE = ('-', '1.5', '2.5', '3.5', '4.5', '5.5', '6.5', '7', '25')
TEXT = '-P1.5Y2.5M3.5W4.5DT5.5H6.5M7.25S'
NAMES = ('sign', 'years', 'months', 'weeks', 'days', 'hours', 'minutes',
         'seconds', 'fraction')


def without_groups(pattern):
    """The tree of a pattern apart from what is captured."""
    import re._parser as sre
    import re._constants as sc

    def norm(x):
        if isinstance(x, sre.SubPattern):
            out = []
            for op, av in x:
                if op is sc.SUBPATTERN and not av[1] and not av[2]:
                    out.extend(norm(av[3]))
                elif op is sc.IN:
                    items = sorted(norm(y) for y in av)
                    if len(av) == 1 and av[0][0] is sc.LITERAL:
                        out.append(('LITERAL', av[0][1]))
                    else:
                        out.append(('IN', tuple(items)))
                elif op is sc.AT and av in (sc.AT_BEGINNING_STRING,
                                            sc.AT_BEGINNING):
                    out.append(('AT', 'begin'))
                elif op is sc.AT and av in (sc.AT_END_STRING, sc.AT_END):
                    out.append(('AT', 'end'))
                elif op is sc.LITERAL:
                    out.append(('LITERAL', av))
                else:
                    out.append((str(op), norm(av)))
            return tuple(out)
        if isinstance(x, (tuple, list)):
            return tuple(norm(y) for y in x)
        return str(x)

    return norm(sre.parse(pattern))


def subtrees(pattern):
    """{number of a group: its tree}"""
    import re._parser as sre
    import re._constants as sc
    out = {}

    def walk(x):
        if isinstance(x, sre.SubPattern):
            for op, av in x:
                if op is sc.SUBPATTERN and av[0] is not None:
                    out[av[0]] = av[3]
                walk(av)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
    tree = sre.parse(pattern)
    walk(tree)
    return {k: str(regex_tree_of(v)) for k, v in out.items()}


def regex_tree_of(sub):
    import re._parser as sre
    import re._constants as sc

    def norm(x):
        if isinstance(x, sre.SubPattern):
            out = []
            for op, av in x:
                if op is sc.SUBPATTERN and not av[1] and not av[2]:
                    out.extend(norm(av[3]))
                elif op is sc.IN:
                    out.append(('IN', tuple(sorted(map(str, map(norm, av))))))
                else:
                    out.append((str(op), norm(av)))
            return tuple(out)
        if isinstance(x, (tuple, list)):
            return tuple(norm(y) for y in x)
        return str(x)
    return norm(sub)


def grammar(pattern):
    """{number of a group: name}, or None if it is another grammar."""
    if without_groups(pattern) != without_groups(DURATION):
        return None
    mine, ref = subtrees(pattern), subtrees(DURATION)
    m = re.match(pattern, TEXT)
    named = re.compile(DURATION).groupindex
    out = {}
    for i, tree in mine.items():
        for n, text in zip(NAMES, PROBE):
            if m.group(i) == text and tree == ref[named[n]]:
                out[i] = n
    return out, len(mine)


class DurationTheory:
    """Mixed in: arithmetic of durations."""

    def local_terms(self):
        out = {n: If(present(n), gnum(n), real(0)) for n in FLOATED}
        out['seconds'] = SECONDS
        out['nanoseconds'] = NANOS
        out['sign'] = If(NEGATIVE, z3.IntVal(-1), z3.IntVal(1))
        return out

    def resolved(self, v):
        if isinstance(v, Dotted) and v.path in CONSTANTS:
            return CONSTANTS[v.path]
        return v

    def number(self, v):
        return super().number(self.resolved(v))

    def compare(self, op, a, b):
        return super().compare(op, self.resolved(a), self.resolved(b))

    def in_int64(self, t):
        self.x.obligation('no overflow', And(t >= LO, t < HI))
        return Sym(t, 'int')

    def binop(self, op, a, b):
        a, b = self.resolved(a), self.resolved(b)
        if isinstance(a, (Str, str)) or plain(a) and plain(b):
            return super().binop(op, a, b)
        x, y = self.number(a), self.number(b)
        if x.sort() == I and y.sort() == I:
            if isinstance(op, ast.Add):
                return self.in_int64(x + y)
            if isinstance(op, ast.Sub):
                return self.in_int64(x - y)
            if isinstance(op, ast.Mult):
                if not plain(a) and not plain(b):
                    for p, q in ((x, y), (y, x)):
                        if self.c.must(Or(p == 1, p == -1)):
                            return self.in_int64(If(p == 1, q, -q))
                    raise Unsupported('product')
                return self.in_int64(x * y)
            if isinstance(op, (ast.Div, ast.Mod)) and isinstance(b, int) \
                    and b > 0:
                q = If(x >= 0, x / y, -((-x) / y))
                return Sym(q if isinstance(op, ast.Div) else x - y * q,
                           'int')
            raise Unsupported('operator')
        x = z3.ToReal(x) if x.sort() == I else x
        y = z3.ToReal(y) if y.sort() == I else y
        if isinstance(op, ast.Add):
            return Sym(x + y, 'num')
        if isinstance(op, ast.Sub):
            return Sym(x - y, 'num')
        if isinstance(op, ast.Mult) and (plain(a) or plain(b)):
            return Sym(x * y, 'num')
        if isinstance(op, ast.Div) and plain(b) and b != 0:
            return Sym(x / y, 'num')
        raise Unsupported('operator')

    def unary(self, op, v):
        v = self.resolved(v)
        if isinstance(op, ast.USub) and isinstance(v, Sym) and v.k == 'int':
            return self.in_int64(-v.t)
        return super().unary(op, v)

    def n_go_conv(self, t, v):
        v = self.resolved(v)
        if isinstance(v, Sym) and v.k == 'int' and t[0] == 'name' and \
                t[1] not in ('int64', 'int', 'float64', 'time.Duration'):
            raise Unsupported('conversion')
        return super().n_go_conv(t, v)

    def truncated(self, x, lo, hi):
        c = self.c
        r = c.fresh('truncated', I)
        c.fact(And(r >= lo, r < hi))
        xr = z3.ToReal(r)
        c.fact(Implies(And(x > lo - 1, x < hi), If(
            x >= 0, And(xr <= x, x < xr + 1), And(xr >= x, x > xr - 1))))
        for n in FLOATED:
            ns = fractions.Fraction(UNITS[n]) * 10**9
            if ns.denominator == 1 and c.must(x == If(
                    present(n), gnum(n), real(0)) * real(ns)):
                # a consequence that solvers hardly find
                c.fact(Implies(And(ALL_WHOLE, x < hi), r == If(
                    present(n), WHOLE[n], z3.IntVal(0)) * int(ns)))
                break
        return Sym(r, 'int')

    # ------------------------------------------------------------- the parts
    def regex_method(self, o, name, args):
        if name == 'FindStringSubmatch':
            g = grammar(o.pattern)
            if g is None:
                raise Unsupported('grammar of durations')
            if not self.c.decide(z3.Bool('in the grammar')):
                return None
            return Match(*g)
        return super().regex_method(o, name, args)

    def group_length(self, g):
        if g.name == 'fraction':
            return If(present('fraction'), FRAC_LEN, z3.IntVal(0))
        n = z3.Int('length of the ' + g.name)
        self.c.fact(n >= 0)
        self.c.fact((n > 0) == (And(present('fraction'), FRAC > 0)
                                if g.name == 'stripped'
                                else present(g.name)))
        if g.name == 'sign':
            self.c.fact(n <= 1)
        return n

    def n_go_len(self, v):
        if isinstance(v, Match):
            return v.count + 1
        if isinstance(v, Group):
            return Sym(self.group_length(v), 'int')
        return super().n_go_len(v)

    def getitem(self, o, k):
        if isinstance(o, Match):
            if not isinstance(k, int):
                raise Unsupported('group')
            if not 0 <= k <= o.count:
                panic()
            if k not in o.names:
                raise Unsupported('group {}'.format(k))
            return Group(o.names[k])
        if isinstance(o, Group) and o.name == 'sign' and k == 0:
            if not self.c.decide(present('sign')):
                panic()
            return Sym(If(NEGATIVE, z3.IntVal(45), z3.IntVal(43)), 'int')
        return super().getitem(o, k)

    def compare_text(self, g, s):
        if g.name == 'sign' and s in ('-', '+'):
            return And(present('sign'), NEGATIVE if s == '-'
                       else Not(NEGATIVE))
        if s == '':
            return Not(self.group_length(g) > 0)
        raise Unsupported('text of a group')

    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Group) and isinstance(y, str):
                return self.compare_text(x, y)
        return super().eq(a, b)

    def n_strings_HasPrefix(self, g, s):
        if isinstance(g, Group) and g.name == 'sign' and s in '+-':
            return Sym(self.compare_text(g, s), 'bool')
        raise Unsupported('HasPrefix')

    def n_strings_TrimLeft(self, g, cut):
        if isinstance(g, Group) and g.name == 'fraction' and cut == '0':
            return Group('stripped')
        raise Unsupported('TrimLeft')

    def n_strings_TrimRight(self, s, cut):
        if isinstance(s, Str) and cut == '0' and len(s.parts) > 1 and \
                s.parts[-1][0] == 'nine' and isinstance(
                    s.parts[-2], str) and s.parts[-2].endswith('.'):
            return Str(s.parts[:-1] + (('fraction', s.parts[-1][1]), ))
        raise Unsupported('TrimRight')

    def n_strconv_ParseFloat(self, g, bits):
        if not isinstance(g, Group) or g.name not in UNITS or bits != 64:
            raise Unsupported('ParseFloat')
        if not self.c.decide(present(g.name)):
            return (0, GOERR)
        if self.c.decide(gnum(g.name) >= FLOATS):
            return (0, GOERR)
        return (Sym(gnum(g.name), 'num'), None)

    def n_strconv_ParseInt(self, g, base, bits):
        if not isinstance(g, Group) or base != 10 or bits != 64:
            raise Unsupported('ParseInt')
        if g.name == 'seconds':
            there, n = present('seconds'), WHOLE['seconds']
        elif g.name == 'fraction':
            there, n = present('fraction'), FRAC
        elif g.name == 'stripped':
            there, n = And(present('fraction'), FRAC > 0), FRAC
        else:
            raise Unsupported('ParseInt of {}'.format(g.name))
        if not self.c.decide(there):
            return (0, GOERR)
        if not self.c.decide(n < HI):
            return (0, GOERR)
        return (Sym(n, 'int'), None)


WHOLE = {n: z3.Int('whole number of ' + n) for n in UNITS}
SECONDS = If(present('seconds'), WHOLE['seconds'], z3.IntVal(0))
ALL_WHOLE = z3.Bool('all numbers are whole')
TOLERANCE = 8


def mixed(th):
    """The class of the theory with the arithmetic of durations."""
    cls = th.__class__
    return type('Duration' + cls.__name__, (DurationTheory, cls), {
        'contract': lambda self, mod, name: None})


def facts(c):
    """About the numbers in a text."""
    for n in UNITS:
        c.fact(gnum(n) >= 0)
        c.fact(WHOLE[n] >= 0)
        c.fact(Implies(ALL_WHOLE, gnum(n) == z3.ToReal(WHOLE[n])))
    c.fact(gnum('seconds') == z3.ToReal(WHOLE['seconds']))
    c.fact(Implies(NEGATIVE, present('sign')))
    c.fact(Implies(present('fraction'), present('seconds')))
    c.fact(And(FRAC_LEN >= 1, FRAC >= 0))
    for i in range(1, 10):
        c.fact(Implies(FRAC_LEN == i, FRAC < 10**i))
        c.fact(Implies(And(present('fraction'), FRAC_LEN == i),
                       NANOS == FRAC * 10**(9 - i)))
    c.fact(Implies(Not(present('fraction')), NANOS == 0))
    c.fact(Implies(Not(z3.Bool('in the grammar')), And(
        [Not(present(n)) for n in NAMES])))


def verify_parse(check, x, th, fname):
    """The duration is what the text denotes, truncated to nanoseconds.

    Numbers are mathematical; each of the units is truncated.
    """
    c = x.c
    code = check.find(fname)
    x.th.__class__ = mixed(th)
    c.store['n'] = z3.IntVal(0)
    facts(c)
    total = z3.ToReal(NANOS)
    whole = NANOS
    for n, s in UNITS.items():
        unit = fractions.Fraction(s) * 10**9
        total = total + If(present(n), gnum(n), real(0)) * real(unit)
        whole = whole + If(present(n), WHOLE[n], z3.IntVal(0)) * int(unit)
    long = And(present('fraction'), FRAC_LEN > 9)
    if len(code.node.order) != 1:
        raise Unsupported('parameters')
    fr = x.enter(code, {code.node.args.args[0].arg: Sym(
        z3.Const('text', U), 'json')})

    def on_exit(how, r):
        if how == 'raise':
            x.obligation('no panic ({})'.format(r.cls.__name__),
                         z3.BoolVal(False))
            return
        r = x.finish(code, fr, r)
        if not isinstance(r, tuple) or len(r) != 2:
            raise Unsupported('results')
        d, err = r
        if isinstance(err, GoErr):
            x.obligation(
                'refused only if not in the grammar, too precise or too long',
                Or(Not(z3.Bool('in the grammar')), long,
                   total + TOLERANCE >= HI))
            return
        if err is not None:
            raise Unsupported('the error')
        x.obligation('in the grammar', And(z3.Bool('in the grammar'),
                                           Not(long)))
        t = x.th.number(d)
        t = t if t.sort() == I else z3.ToInt(t)
        mag = If(NEGATIVE, -t, t)
        x.obligation('the duration', And(
            z3.ToReal(mag) <= total + TOLERANCE,
            z3.ToReal(mag) >= total - TOLERANCE))
        x.obligation('the duration in whole numbers', Implies(
            ALL_WHOLE, mag == whole))

    x.cut_body(code.node.body, fr, on_exit, lambda: {
        'in the grammar': z3.Bool('in the grammar'),
        'not too precise': Not(long),
        'seconds': SECONDS < HI}, [], after=exits_of(code))


def verify_text(check, x, th, fname):
    """The text of a duration is in the grammar, and denotes it."""
    c = x.c
    code = check.find(fname)
    x.th.__class__ = mixed(th)
    c.store['n'] = z3.IntVal(0)
    d = z3.Int('nanoseconds')
    # what parsing gives
    c.fact(And(d > LO, d < HI))

    def run():
        try:
            r = x.inline(code, [Sym(d, 'int')], {})
        except PyRaise as e:
            x.obligation('no panic ({})'.format(e.cls.__name__),
                         z3.BoolVal(False))
            return
        total, conds = gvpyser.denoted(r, 10**9)
        x.obligation('the text is a duration', And(conds))
        x.obligation('the text denotes the duration', total == d)

    c.explore(run, label='duration')
