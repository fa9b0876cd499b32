"""duration_from_string in generated C++ code."""
import fractions

import z3

from pv import gvgodur
from pv.engine import PyRaise, Unsupported
from pv.gv import DEAD, I, Ptr, Ref, Inst, Str, Sym, U, plain, real
from pv.gvcpp import CppTheory, RANGES, Regex
from pv.gvgo import exits_of, panic
from pv.gvgodur import (FLOATS, FRAC, FRAC_LEN, Group, HI, LO, Match, NANOS,
                        NEGATIVE, SECONDS, WHOLE)
from pv.gvpy import And, Implies, Not, Or, If, UNITS, gnum, present
from pv.gvcppser import CppTextTheory


class OutOfRange(ValueError):
    """std::stol and std::stod refuse a number."""


TINY = {n: z3.Bool('std::stod refuses the number of ' + n) for n in UNITS}
MATCHED = z3.Bool('in the grammar')


class CppDurationTheory(CppTextTheory):
    """Matches of the regular expression, numbers and the error."""

    def contract(self, mod, name):
        return None

    def n_cpp_float(self, text):
        # what was written, not what a double makes of it
        x = float(text)
        return fractions.Fraction(x if x == int(x) else repr(x))

    def n_cpp_uninitialised(self, t):
        if t == ('name', 'bool'):
            # known finding: the flag of overflows is read before it is set
            return False
        return DEAD

    def n_cpp_construct(self, t, *args):
        if t[0] == 'name' and 'match_results' in t[1] and not args:
            return None
        if t == ('name', 'ns') and len(args) == 1:
            return Sym(self.number(args[0]), 'int')
        if t == ('name', 'ns') and not args:
            return 0
        return CppTextTheory.n_cpp_construct(self, t, *args)

    def n_cpp_limit(self, which, t):
        if t[1] not in RANGES:
            raise Unsupported('limits')
        lo, hi = RANGES[t[1]]
        return hi - 1 if which == 'max' else lo

    def n_cpp_x_regex_match(self, s, *args):
        if len(args) != 2 or not isinstance(args[1], Regex) or \
                not isinstance(args[0], Ptr) or not isinstance(s, Sym) or \
                not s.t.eq(z3.Const('text', U)):
            raise Unsupported('regex_match')
        g = gvgodur.grammar(args[1].pattern)
        if g is None:
            raise Unsupported('grammar of durations')
        if not self.c.decide(MATCHED):
            return False
        self.n_go_storep(args[0], Match(*g))
        return True

    def n_go_load(self, r):
        return CppTheory.n_go_load(self, r)

    def n_cpp_call(self, name, o, *args):
        if isinstance(o, Group):
            if name in ('operator basic_string', 'str') and not args:
                return o
            if name in ('size', 'length', 'empty') and not args:
                n = self.size(o)
                if name != 'empty':
                    return n
                return Sym(self.number(n) == 0, 'bool')
            if name in ('at', 'front') and len(args) <= 1:
                return self.getitem(o, *(args or (0, )))
            raise Unsupported('method {} of a group'.format(name))
        return CppTextTheory.n_cpp_call(self, name, o, *args)

    def size(self, g):
        if g.name != 'fraction':
            return Sym(self.group_length(g), 'int')
        if not self.c.decide(present('fraction')):
            return 0
        for i in range(1, 10):
            if self.c.decide(FRAC_LEN == i):
                return i
        return Sym(FRAC_LEN, 'int')

    def getitem(self, o, k):
        if isinstance(o, Group) and o.name == 'fraction':
            i = self.number(k)
            self.x.obligation('an index is in range', And(
                i >= 0, i < self.group_length(o)))
            d = self.c.fresh('digit', I)
            self.c.fact(And(d >= 48, d <= 57))
            return Sym(d, 'int')
        if isinstance(o, Match):
            return gvgodur.DurationTheory.getitem(self, o, k)
        return CppTextTheory.getitem(self, o, k)

    def n_cpp_text_from(self, s, i):
        if isinstance(s, Group) and plain(i) and i == 0:
            return s
        raise Unsupported('part of a text')

    def n_cpp_fits(self, t, e):
        lo, hi = RANGES[t]
        x = self.number(e)
        self.x.obligation('no overflow', And(x >= lo, x < hi))
        return e

    def n_cpp_cast(self, src, dst, v):
        if src[1] == 'float64' and dst[1] == 'int64':
            if plain(v):
                v = fractions.Fraction(v)
                self.x.obligation('a conversion is defined', LO <= v < HI)
                return int(v)
            self.x.obligation('a conversion is defined', And(
                v.t > LO - 1, v.t < HI))
            return self.truncated(v.t, LO, HI)
        if src[1] in RANGES and dst[1] == 'float64' and plain(v):
            return fractions.Fraction(v)
        return CppTextTheory.n_cpp_cast(self, src, dst, v)

    # -------------------------------------------------------------- numbers
    def whole(self, g):
        if not isinstance(g, Group):
            raise Unsupported('a number of another text')
        if g.name == 'seconds':
            return present('seconds'), WHOLE['seconds']
        if g.name == 'fraction':
            return present('fraction'), FRAC
        raise Unsupported('a whole number of {}'.format(g.name))

    def n_cpp_x_stol(self, g):
        there, n = self.whole(g)
        if not self.c.decide(there):
            panic()
        if not self.c.decide(n < HI):
            raise PyRaise(OutOfRange)
        return Sym(n, 'int')

    n_cpp_x_stoll = n_cpp_x_stol

    def n_cpp_x_atol(self, g):
        there, n = self.whole(g)
        if not self.c.decide(there):
            return 0
        self.x.obligation('a number is in range', n < HI)
        return Sym(n, 'int')

    n_cpp_x_atoll = n_cpp_x_atol

    def n_cpp_x_stod(self, g):
        if not isinstance(g, Group) or g.name not in UNITS:
            raise Unsupported('stod')
        if not self.c.decide(present(g.name)):
            panic()
        if self.c.decide(Or(gnum(g.name) >= FLOATS, TINY[g.name])):
            raise PyRaise(OutOfRange)
        return Sym(gnum(g.name), 'num')

    # ------------------------------------------------------------- messages
    def n_cpp_stream_out(self, s, v):
        if isinstance(v, Sym) and v.k == 'json':
            v = Str((('p', v.t), ))
        return CppTextTheory.n_cpp_stream_out(self, s, v)


def empty(text):
    """Is a text empty, for all that is known?"""
    if text == '':
        return True
    parts = text.parts if isinstance(text, Str) else (text, )
    if any(isinstance(p, str) and p for p in parts):
        return False
    raise Unsupported('the text of the error')


def verify(check, x, fname):
    """The duration is what the text denotes, truncated to nanoseconds.

    Doubles are real numbers; each of the units is truncated.
    """
    c = x.c
    code = check.find(fname)
    x.th.__class__ = CppDurationTheory
    c.store['n'] = z3.IntVal(0)
    gvgodur.facts(c)
    for n in UNITS:
        # the least normal double
        c.fact(Implies(TINY[n], And(gnum(n) > 0, gnum(n) * 10**300 < 1)))
    total = z3.ToReal(NANOS)
    whole = NANOS
    for n, s in UNITS.items():
        unit = fractions.Fraction(s) * 10**9
        total = total + If(present(n), gnum(n), real(0)) * real(unit)
        whole = whole + If(present(n), WHOLE[n], z3.IntVal(0)) * int(unit)
    long = And(present('fraction'), FRAC_LEN > 9)
    params = [a.arg for a in code.node.args.args]
    if len(params) != 2:
        raise Unsupported('parameters')
    error = x.new(Inst('cell', {'v': ''}))
    fr = x.enter(code, dict(zip(params, (
        Sym(z3.Const('text', U), 'json'), Ptr(error)))))

    def on_exit(how, r):
        if how == 'raise':
            x.obligation(
                'throws nothing but for a number out of range ({})'.format(
                    r.cls.__name__), r.cls is OutOfRange and Or(
                        [And(present(n), Or(gnum(n) >= FLOATS, TINY[n]))
                         for n in UNITS] + [And(present('seconds'),
                                                WHOLE['seconds'] >= HI)]))
            return
        if not empty(x.obj(error).attrs['v']):
            x.obligation(
                'refused only if not in the grammar, too precise or too long',
                Or(Not(MATCHED), long, total + gvgodur.TOLERANCE >= HI))
            return
        x.obligation('in the grammar', And(MATCHED, Not(long)))
        t = x.th.number(r)
        mag = If(NEGATIVE, -t, t)
        x.obligation('the duration', And(
            z3.ToReal(mag) <= total + gvgodur.TOLERANCE,
            z3.ToReal(mag) >= total - gvgodur.TOLERANCE))
        x.obligation('the duration in whole numbers', Implies(
            gvgodur.ALL_WHOLE, mag == whole))

    x.cut_body(code.node.body, fr, on_exit, lambda: {
        'in the grammar': MATCHED, 'not too precise': Not(long),
        'seconds': SECONDS < HI}, [error], after=exits_of(code))
