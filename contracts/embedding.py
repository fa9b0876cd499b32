"""Specifications of the helpers that embed schema text in code (C08)."""
import re
import textwrap

from pv.contract import contract
from pv.models import SPAN_FACT


def commented(prefix, text):
    out = []
    for line in text.splitlines():
        if line.strip():
            out.append(prefix + ' ' + line)
        else:
            out.append(prefix)
    return '\n'.join(out)


@contract('mapry.py.generate:comment', {'text': 'str'}, 'str')
def py_comment(text):
    return commented('#', text)


@contract('mapry.go.generate:comment', {'text': 'str'}, 'str')
def go_comment(text):
    return commented('//', text)


@contract('mapry.cpp.generate:comment', {'text': 'str'}, 'str')
def cpp_comment(text):
    out = []
    for line in text.splitlines():
        if line.rstrip().endswith('\\'):
            out.append('// ' + line + ' //')
        elif line.strip():
            out.append('// ' + line)
        else:
            out.append('//')
    return '\n'.join(out)


NAMED = {
    '\\': '\\\\', '"': '\\"', '\a': '\\a', '\b': '\\b', '\t': '\\t',
    '\n': '\\n', '\v': '\\v', '\f': '\\f', '\r': '\\r'
}
CONTROL = re.compile('[\x00-\x1f\x7f-\x9f\u2028\u2029\ufeff]')


def go_char(char):
    if char in NAMED:
        return NAMED[char]
    if CONTROL.match(char):
        return '\\u{:04x}'.format(ord(char))
    return char




@contract('mapry.go.generate:escaped_str', {'text': 'str'}, 'str')
def go_escaped_str(text):
    return '"' + ''.join([go_char(char) for char in text]) + '"'


@contract('mapry.cpp.generate:escaped_str', {'text': 'str'}, 'str')
def cpp_escaped_str(text):
    parts = []
    for char in text:
        if char in NAMED:
            parts.append(NAMED[char])
        elif CONTROL.match(char):
            for b in char.encode('utf-8'):
                parts.append('\\{:03o}'.format(b))
        else:
            parts.append(char)
    return '"' + ''.join(parts) + '"'


@contract('mapry.go.generate:ticked_str', {'text': 'str'}, 'str')
def ticked_str(text):
    if CONTROL.search(text):
        return go_escaped_str(text)
    parts = []
    for i, part in enumerate(text.split('`')):
        if i == 0:
            parts.append('`' + part + '`')
        else:
            parts.append('+"`"+\n    `' + part + '`')
    return ''.join(parts)


DOC_QUOTES = re.compile(r'"""|"\Z')
DOC_CONTROL = re.compile(
    '[\x00-\x08\x0b-\x1f\x7f-\x9f\u2028\u2029\ufeff]')


@contract('mapry.py.generate:docstring', {'text': 'str'}, 'str',
          raises=(Exception, ))
def docstring(text):
    if text == '':
        raise Exception('no docstring')
    lines = text.splitlines()
    several = len(lines) > 1
    plain = not ('"""' in text or DOC_CONTROL.search(text) is not None or
                 (len(lines) == 1 and text.endswith(('"', '\\'))))
    if plain:
        body = text
    else:
        body = text.replace('\\', '\\\\')
        body = DOC_QUOTES.sub(
            lambda mtch: '\\"' * len(mtch.group()), body)
        body = DOC_CONTROL.sub(
            lambda mtch: '\\u{:04x}'.format(ord(mtch.group())), body)
    prefix = 'r' if plain and '\\' in text else ''
    if several:
        return prefix + '"""\n' + body + '\n"""'
    if len(lines) == 1:
        return prefix + '"""' + body + '"""'
    return prefix


def is_identifier(expr):
    return re.match(r'^[a-zA-Z_][a-zA-Z_0-9]*$', expr) is not None


@contract('mapry.py.expr:is_variable', {'expr': 'str'}, 'bool')
def py_is_variable(expr):
    return is_identifier(expr)


@contract('mapry.go.expr:is_variable', {'expr': 'str'}, 'bool')
def go_is_variable(expr):
    return is_identifier(expr)


@contract('mapry.cpp.expr:is_variable', {'expr': 'str'}, 'bool')
def cpp_is_variable(expr):
    return is_identifier(expr)


@contract('mapry.cpp.expr:append_strings', {'exprs': ('list', 'str')}, 'str',
          raises=(Exception, ))
def append_strings(exprs):
    if len(exprs) == 0:
        raise Exception('nothing to append')
    if len(exprs) == 1:
        return exprs[0]
    parts = ['std::string(' + exprs[0] + ')']
    for e in exprs[1:]:
        parts.append('\n    .append(' + e + ')')
    return ''.join(parts)


FOURS = re.compile('^([ ]{4})+')
SPAN_FACT[FOURS.pattern] = lambda end: end % 4 == 0


@contract('mapry.indention:reindent',
          {'text': 'str', 'level': 'int', 'indention': 'str'}, 'str')
def reindent(text, level=0, indention='    '):
    out = []
    for line in textwrap.dedent(text).splitlines(keepends=True):
        mtch = FOURS.match(line)
        n = mtch.end() if mtch is not None else 0
        out.append(indention * (n // 4 + level) + line[n:])
    return ''.join(out)


@contract('mapry.py.generate:raw_str', {'text': 'str'}, 'str')
def py_raw_str(text):
    if "'" in text or text.endswith('\\') or not text.isprintable():
        return repr(text)
    return "r'" + text + "'"


@contract('mapry.py.generate:escape_format', {'text': 'str'}, 'str')
def py_escape_format(text):
    return text.replace('{', '{{').replace('}', '}}')


@contract('mapry.go.generate:escape_format', {'text': 'str'}, 'str')
def go_escape_format(text):
    return text.replace('%', '%%')


@contract('mapry.cpp.generate:raw_str', {'text': 'str'}, 'str')
def cpp_raw_str(text):
    if CONTROL.search(text) or ')v0g0n"' in text:
        return cpp_escaped_str(text)
    return 'R"v0g0n(' + text + ')v0g0n"'
