"""Translate Python regular expressions to z3 regular expressions (exact subset)."""
import re
try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

import z3


class NoRe(Exception):
    pass


def _chr(o):
    from pv.engine import sv
    return z3.Re(sv(chr(o)))


S = z3.StringSort()
RS = z3.ReSort(S)


def anychar():
    return z3.AllChar(RS)


def rng(a, b):
    from pv.engine import sv
    return z3.Range(sv(chr(a)), sv(chr(b)))


MAXCH = 0x2FFFF


def _union(rs):
    rs = list(rs)
    if not rs:
        return z3.Empty(RS)
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def _cat(cat):
    if cat == sre_c.CATEGORY_DIGIT:
        raise NoRe('unicode digit')
    raise NoRe(str(cat))


def _in(items):
    neg = False
    rs = []
    for op, av in items:
        if op == sre_c.NEGATE:
            neg = True
        elif op == sre_c.LITERAL:
            rs.append(_chr(av))
        elif op == sre_c.RANGE:
            rs.append(rng(av[0], av[1]))
        elif op == sre_c.CATEGORY:
            rs.append(_cat(av))
        else:
            raise NoRe(str(op))
    r = _union(rs)
    if neg:
        return z3.Intersect(anychar(), z3.Complement(r))
    return r


def _seq(parsed, flags):
    """Regex without anchors."""
    parts = []
    for op, av in parsed:
        parts.append(_one(op, av, flags))
    if not parts:
        return z3.Re(z3.StringVal(''))
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def _one(op, av, flags):
    if op == sre_c.LITERAL:
        return _chr(av)
    if op == sre_c.NOT_LITERAL:
        return z3.Intersect(anychar(), z3.Complement(_chr(av)))
    if op == sre_c.ANY:
        return z3.Intersect(anychar(), z3.Complement(_chr(10)))
    if op == sre_c.IN:
        return _in(av)
    if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
        lo, hi, sub = av
        r = _seq(sub, flags)
        if hi == sre_c.MAXREPEAT:
            if lo == 0:
                return z3.Star(r)
            if lo == 1:
                return z3.Plus(r)
            return z3.Concat(*([r] * lo + [z3.Star(r)]))
        if (lo, hi) == (0, 1):
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    if op == sre_c.SUBPATTERN:
        return _seq(av[3], flags)
    if op == sre_c.BRANCH:
        return _union(_seq(x, flags) for x in av[1])
    raise NoRe(str(op))


def to_z3(pattern, mode, flags=0):
    """Language of strings s with pattern.<mode>(s) not None.

    mode: match, fullmatch, search.
    """
    p = sre_parse.parse(pattern, flags)
    if p.state.flags & ~(re.UNICODE.value):
        raise NoRe('flags')
    items = list(p)
    full = z3.Full(RS)
    alts = None
    if len(items) == 1 and items[0][0] == sre_c.BRANCH:
        alts = [list(x) for x in items[0][1][1]]
    elif len(items) == 1 and items[0][0] == sre_c.SUBPATTERN and any(
            o == sre_c.AT for o, _ in items[0][1][3]):
        alts = [list(items[0][1][3])]
    else:
        alts = [items]
    res = []
    for its in alts:
        start = False
        end = None
        while its and its[0][0] == sre_c.AT and its[0][1] in (
                sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
            start = True
            its = its[1:]
        if its and its[-1][0] == sre_c.AT:
            if its[-1][1] == sre_c.AT_END:
                end = 'dollar'
                if len(its) > 1 and its[-2][0] == sre_c.ASSERT_NOT and \
                        its[-2][1][0] == 1 and list(its[-2][1][1]) == [
                            (sre_c.LITERAL, 10)]:
                    # (?!\n)$ is the very end of the text
                    end = 'z'
                    its = its[:-2] + its[-1:]
            elif its[-1][1] == sre_c.AT_END_STRING:
                end = 'z'
            else:
                raise NoRe('anchor')
            its = its[:-1]
        r = _seq(its, flags)
        if end == 'dollar' and mode != 'fullmatch':
            r = z3.Concat(r, z3.Option(_chr(10)))
        elif end is None and mode != 'fullmatch':
            r = z3.Concat(r, full)
        if mode == 'search' and not start:
            r = z3.Concat(full, r)
        res.append(r)
    return _union(res)
