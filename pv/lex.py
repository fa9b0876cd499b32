"""Small lexers of Go, C++ and Python: tokens with decoded literals.

A token is (kind, value): kind is 'str' (value: the decoded text), 'comment',
'word', 'num', 'char' or 'punct'.
"""
import ast
import io
import re
import tokenize


class LexError(Exception):
    pass


_GO_SIMPLE = {'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r',
              't': '\t', 'v': '\v', '\\': '\\', "'": "'", '"': '"'}


def go_string(code, i):
    """Decode an interpreted or raw Go string literal at i."""
    q = code[i]
    if q == '`':
        j = code.find('`', i + 1)
        if j < 0:
            raise LexError('raw string not terminated')
        s = code[i + 1:j]
        if '\0' in s or '\ufeff' in s:
            raise LexError('illegal character')
        return s.replace('\r', ''), j + 1
    out = []
    i += 1
    while True:
        if i >= len(code):
            raise LexError('string not terminated')
        c = code[i]
        if c == '"':
            break
        if c == '\n':
            raise LexError('newline in string')
        if c in '\0\ufeff':
            raise LexError('illegal character')
        if c != '\\':
            out.append(c.encode('utf-8', 'surrogatepass'))
            i += 1
            continue
        if i + 1 >= len(code):
            raise LexError('string not terminated')
        e = code[i + 1]
        if e in _GO_SIMPLE and e != "'":
            out.append(_GO_SIMPLE[e].encode())
            i += 2
            continue
        m = re.compile(r'x([0-9a-fA-F]{2})|u([0-9a-fA-F]{4})|'
                       r'U([0-9a-fA-F]{8})|([0-7]{3})').match(code, i + 1)
        if not m:
            raise LexError('unknown escape sequence \\' + e)
        if m.group(1):
            out.append(bytes([int(m.group(1), 16)]))
        elif m.group(4):
            v = int(m.group(4), 8)
            if v > 255:
                raise LexError('octal escape')
            out.append(bytes([v]))
        else:
            v = int(m.group(2) or m.group(3), 16)
            if v > 0x10ffff or 0xd800 <= v < 0xe000:
                raise LexError('invalid code point')
            out.append(chr(v).encode())
        i = m.end()
    return b''.join(out).decode('utf-8', 'surrogateescape'), i + 1


_CPP_SIMPLE = dict(_GO_SIMPLE)
_CPP_SIMPLE['?'] = '?'


def cpp_string(code, i):
    """Decode an ordinary or raw C++17 string literal at i."""
    if code.startswith('R"', i):
        m = re.compile(r'R"([^()\\\s]{0,16})\(').match(code, i)
        if not m:
            raise LexError('raw string delimiter')
        end = ')' + m.group(1) + '"'
        j = code.find(end, m.end())
        if j < 0:
            raise LexError('raw string not terminated')
        return code[m.end():j], j + len(end)
    out = []
    i += 1
    while True:
        if i >= len(code):
            raise LexError('string not terminated')
        c = code[i]
        if c == '"':
            break
        if c in '\n\r':
            raise LexError('newline in string')
        if c != '\\':
            out.append(c.encode('utf-8', 'surrogatepass'))
            i += 1
            continue
        if i + 1 >= len(code):
            raise LexError('string not terminated')
        e = code[i + 1]
        if e in _CPP_SIMPLE:
            out.append(_CPP_SIMPLE[e].encode())
            i += 2
            continue
        m = re.compile(r'x([0-9a-fA-F]+)|u([0-9a-fA-F]{4})|'
                       r'U([0-9a-fA-F]{8})|([0-7]{1,3})').match(code, i + 1)
        if not m:
            raise LexError('unknown escape sequence \\' + e)
        if m.group(1) or m.group(4):
            v = int(m.group(1), 16) if m.group(1) else int(m.group(4), 8)
            if v > 255:
                raise LexError('escape out of range')
            out.append(bytes([v]))
        else:
            out.append(chr(int(m.group(2) or m.group(3), 16)).encode())
        i = m.end()
    return b''.join(out).decode('utf-8', 'surrogateescape'), i + 1


_WORD = re.compile(r'[A-Za-z_\u0080-\U0010ffff][A-Za-z0-9_\u0080-\U0010ffff]*')
_NUM = re.compile(r'[0-9][0-9a-zA-Z_.]*(?:(?<=[eE])[+-][0-9]+)?')


def _c_like(code, is_cpp):
    out = []
    i = 0
    n = len(code)
    while i < n:
        c = code[i]
        if c in ' \t\n\r\v\f':
            i += 1
        elif code.startswith('//', i):
            j = i
            while True:
                k = code.find('\n', j)
                k = n if k < 0 else k
                line = code[j:k]
                if is_cpp and line.rstrip(' \t\r\v\f').endswith('\\') \
                        and k < n:
                    j = k + 1
                    continue
                break
            out.append(('comment', code[i + 2:k]))
            i = k
        elif code.startswith('/*', i):
            j = code.find('*/', i + 2)
            if j < 0:
                raise LexError('comment not terminated')
            out.append(('comment', code[i + 2:j]))
            i = j + 2
        elif c == '"' or (not is_cpp and c == '`') or (
                is_cpp and code.startswith('R"', i)):
            s, i = (cpp_string if is_cpp else go_string)(code, i)
            out.append(('str', s))
        elif c == "'":
            m = re.compile(r"'(\\.[^']*|[^'\\])'").match(code, i)
            if not m:
                raise LexError('character literal')
            out.append(('char', m.group(1)))
            i = m.end()
        else:
            m = _WORD.match(code, i)
            if m:
                out.append(('word', m.group()))
                i = m.end()
                continue
            m = _NUM.match(code, i)
            if m:
                out.append(('num', m.group()))
                i = m.end()
                continue
            if ord(c) < 0x20 or ord(c) >= 0x7f or c in '@`\\' and not (
                    is_cpp and c == '\\'):
                raise LexError('illegal character {!r}'.format(c))
            out.append(('punct', c))
            i += 1
    return out


def join_strings(toks, plus):
    """Merge the adjacent literals of one text."""
    out = []
    for t in toks:
        if t[0] == 'str' and out:
            if not plus and out[-1][0] == 'str':
                out[-1] = ('str', out[-1][1] + t[1])
                continue
            if plus and len(out) > 1 and out[-1] == ('punct', '+') and \
                    out[-2][0] == 'str':
                out.pop()
                out[-1] = ('str', out[-1][1] + t[1])
                continue
        out.append(t)
    return out


def go_tokens(code):
    return join_strings(_c_like(code, False), True)


def cpp_tokens(code):
    return join_strings(_c_like(code, True), False)


def py_tokens(code):
    compile(code, '<generated>', 'exec')
    out = []
    try:
        for t in tokenize.generate_tokens(io.StringIO(code,
                                                      newline='\n').readline):
            if t.type == tokenize.STRING:
                out.append(('str', ast.literal_eval(t.string)))
            elif t.type == tokenize.COMMENT:
                out.append(('comment', t.string[1:]))
            elif t.type == tokenize.NL:
                continue
            elif t.type in (tokenize.INDENT, tokenize.DEDENT,
                            tokenize.NEWLINE):
                out.append((tokenize.tok_name[t.type], ''))
            elif t.type == tokenize.NAME:
                out.append(('word', t.string))
            elif t.type == tokenize.NUMBER:
                out.append(('num', t.string))
            else:
                out.append(('punct', t.string))
    except tokenize.TokenError as e:
        raise LexError(str(e))
    return join_strings(out, False)


TOKENS = {'go': go_tokens, 'cpp': cpp_tokens, 'py': py_tokens}
