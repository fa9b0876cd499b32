"""Specifications of date/time formats (C05, C06)."""
import re

import lexery

from pv.contract import contract

SUPPORTED = ['%a', '%A', '%b', '%B', '%d', '%e', '%m', '%y', '%Y', '%H', '%I',
             '%l', '%M', '%P', '%p', '%S', '%z', '%Z', '%%']
DATE = ['%a', '%A', '%b', '%B', '%d', '%e', '%m', '%y', '%Y', '%z', '%Z',
        '%%']
TIME = ['%H', '%I', '%l', '%M', '%P', '%p', '%S', '%z', '%Z', '%%']
GO = {
    '%a': 'Mon', '%A': 'Monday', '%b': 'Jan', '%B': 'January', '%d': '02',
    '%e': '_2', '%m': '01', '%y': '06', '%Y': '2006', '%H': '15', '%I': '03',
    '%l': '3', '%M': '04', '%P': 'pm', '%p': 'PM', '%S': '05', '%z': '-0700',
    '%Z': 'MST', '%%': '%'
}
LEXER = lexery.Lexer(
    rules=[
        lexery.Rule(identifier='directive', pattern=re.compile(r'%[a-zA-Z%]')),
        lexery.Rule(identifier='text', pattern=re.compile(r'[^%]+')),
    ],
    skip_whitespace=False)
TOKENS = ('list', ('list', ('obj', lexery.Token)))


@contract('mapry.strftime:tokenize', {'format': 'str'}, TOKENS,
          raises=(lexery.Error, NotImplementedError))
def tokenize(format):  # pylint: disable=redefined-builtin
    lines = LEXER.lex(text=format)
    unsupported = {}
    for line in lines:
        for t in line:
            if t.identifier == 'directive' and t.content not in SUPPORTED:
                unsupported[t.content] = True
    if unsupported:
        raise NotImplementedError()
    return lines


@contract('mapry.strftime:validate_date_tokens', {'token_lines': TOKENS},
          ('opt', ('obj', ValueError)))
def validate_date_tokens(token_lines):
    if sum([len(line) for line in token_lines]) == 0:
        return ValueError()
    for line in token_lines:
        for t in line:
            if t.identifier == 'directive' and t.content not in DATE:
                return ValueError()
    return None


@contract('mapry.strftime:validate_time_tokens', {'token_lines': TOKENS},
          ('opt', ('obj', ValueError)))
def validate_time_tokens(token_lines):
    if sum([len(line) for line in token_lines]) == 0:
        return ValueError()
    for line in token_lines:
        for t in line:
            if t.identifier == 'directive' and t.content not in TIME:
                return ValueError()
    return None


@contract('mapry.go.timeformat:convert', {'a_format': 'str'}, 'str',
          raises=(lexery.Error, NotImplementedError, AssertionError))
def go_convert(a_format):
    parts = []
    for i, line in enumerate(tokenize(a_format)):
        if i > 0:
            parts.append('\n')
        for t in line:
            if t.identifier == 'directive':
                assert t.content in GO
                parts.append(GO[t.content])
            elif t.identifier == 'text':
                parts.append(t.content)
    return ''.join(parts)


# what Go reads as a directive (time.nextStdChunk), longest first
GO_DIRECTIVE = re.compile(
    r'January|Jan(?![a-z])|Monday|Mon(?![a-z])|MST|'
    r'0[1-6]|002|15|1|2006|2|_2(?!006)|__2|3|4|5|PM|pm|'
    r'[-Z]07(?:0000|:00:00|00|:00)?|'
    r'[.,](?:0+|9+)(?![0-9])')


@contract('mapry.go.timeformat:conflicting_directive', {'a_format': 'str'},
          ('opt', 'str'),
          raises=(lexery.Error, NotImplementedError, KeyError, AssertionError))
def conflicting_directive(a_format):
    intended = []
    position = 0
    for i, line in enumerate(tokenize(a_format)):
        if i > 0:
            position += 1
        for t in line:
            if t.identifier == 'directive':
                if t.content not in GO:
                    raise KeyError(t.content)
                if t.content != '%%':
                    intended.append((position, GO[t.content]))
                position += len(GO[t.content])
            else:
                position += len(t.content)
    understood = [
        (m.start(), m.group())
        for m in GO_DIRECTIVE.finditer(go_convert(a_format))]
    for item in [x for x in understood if x not in intended]:
        return item[1]
    for item in [x for x in intended if x not in understood]:
        return item[1]
    return None


# -- independent oracle of the bounded runs (no lexer)
def plain_tokens(text):
    """[[(kind, content)]] of a format, or the exception class."""
    out = []
    bad = []
    for line in text.splitlines() or ['']:
        toks = []
        i = 0
        while i < len(line):
            if line[i] == '%':
                if i + 1 < len(line) and (line[i + 1] == '%' or (
                        line[i + 1].isascii() and line[i + 1].isalpha())):
                    d = line[i:i + 2]
                    if d not in SUPPORTED:
                        bad.append(d)
                    toks.append(('directive', d))
                    i += 2
                    continue
                return lexery.Error
            j = line.find('%', i)
            j = len(line) if j < 0 else j
            toks.append(('text', line[i:j]))
            i = j
        out.append(toks)
    if bad:
        return NotImplementedError
    return out


def next_std_chunk(layout, i):
    """(start, end) of the first directive at or after i (Go: nextStdChunk)."""
    n = len(layout)
    while i < n:
        c = layout[i]
        s = layout[i:]
        lower = lambda k: i + k < n and 'a' <= layout[i + k] <= 'z'
        if c == 'J' and s.startswith('Jan'):
            if s.startswith('January'):
                return i, i + 7
            if not lower(3):
                return i, i + 3
        elif c == 'M':
            if s.startswith('Mon'):
                if s.startswith('Monday'):
                    return i, i + 6
                if not lower(3):
                    return i, i + 3
            if s.startswith('MST'):
                return i, i + 3
        elif c == '0':
            if len(s) >= 2 and '1' <= s[1] <= '6':
                return i, i + 2
            if s.startswith('002'):
                return i, i + 3
        elif c == '1':
            return i, i + (2 if s.startswith('15') else 1)
        elif c == '2':
            return i, i + (4 if s.startswith('2006') else 1)
        elif c == '_':
            if s.startswith('_2'):
                if s.startswith('_2006'):
                    return i + 1, i + 5
                return i, i + 2
            if s.startswith('__2'):
                return i, i + 3
        elif c in '345':
            return i, i + 1
        elif s.startswith('PM') or s.startswith('pm'):
            return i, i + 2
        elif c in '-Z':
            for z in ('070000', '07:00:00', '0700', '07:00', '07'):
                if s[1:].startswith(z):
                    return i, i + 1 + len(z)
        elif c in '.,' and len(s) > 1 and s[1] in '09':
            j = i + 1
            while j < n and layout[j] == s[1]:
                j += 1
            if not (j < n and '0' <= layout[j] <= '9'):
                return i, j
        i += 1
    return None


def misread(text):
    """Does Go see other directives in the layout than the format has?"""
    want, pos = [], 0
    out = []
    for li, line in enumerate(plain_tokens(text)):
        if li:
            pos += 1
            out.append('\n')
        for kind, content in line:
            piece = GO[content] if kind == 'directive' else content
            if kind == 'directive' and content != '%%':
                want.append((pos, pos + len(piece)))
            pos += len(piece)
            out.append(piece)
    layout = ''.join(out)
    got, i = [], 0
    while True:
        r = next_std_chunk(layout, i)
        if r is None:
            break
        got.append(r)
        i = r[1]
    return got != want
