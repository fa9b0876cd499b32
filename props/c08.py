"""C08: schema text embedded in generated code keeps its meaning."""
import ast
import collections
import copy
import itertools

from pv import lex
from pv.harvest import literals
from props.common import graph, typ, prop, cls, generate, parse

RULE = ('bounded runs: every text of up to 3 pieces over quotes, backslashes, '
        'all control characters, line separators, comment and literal '
        'delimiters of the three languages, plus random texts, one text with '
        'every Unicode character, and complete schemas with such texts in '
        'every text field; non-trivial = a distinct (function, text)')
TRUSTED = ['z3', 'the contract engine pv/', 'the lexers of pv/lex.py',
           'str methods, textwrap.dedent and regular expressions that z3 '
           'cannot express, as uninterpreted functions shared by code and '
           'specification']
ASSUMPTIONS = ['texts are sequences of Unicode characters that can be '
               'encoded (no surrogates)',
               'C++17: no trigraphs',
               'the jinja2 templates are outside the verifier: which helper '
               'is applied to which text is checked by the bounded runs on '
               'complete generated files']
EXPLANATION = ('Every embedding helper is proved equal to a specification '
               'for every text; that the specified literals decode to the '
               'text, in generated code, is checked with lexers of the three '
               'languages.')


def load_contracts():
    import contracts.embedding as e
    return [f.contract.target for f in vars(e).values()
            if hasattr(f, 'contract')]


PIECES = ['a', ' ', '"', "'", '\\', '`', '\n', '\r', '\t', '\0', '\x07',
          '\x08', '\x0b', '\x0c', '\x1b', '\x1c', '\x1d', '\x1e', '\x7f',
          '\x85', '\xa0', '\u2028', '\u2029', '\ufeff', '\u00e9',
          '\U0001f600', '"""', "'''", '//', '/*', '*/', '#', ')v0g0n"', 'R"(',
          '?', '%', '{', '}', '\\n', '\\u', '1', '  ', '\r\n', 'n', 'x41']


def texts(run):
    strs, _ = literals('mapry/py/generate/__init__.py',
                       'mapry/go/generate/__init__.py',
                       'mapry/cpp/generate/__init__.py')
    pieces = PIECES + [s for s in strs if 0 < len(s) < 6]
    pieces = list(dict.fromkeys(pieces))
    out = ['']
    out += pieces
    out += [a + b for a in pieces for b in pieces]
    some = ['a', '"', '\\', '\n', '`', "'", ' ', '"""']
    out += [''.join(t) for t in itertools.product(some, repeat=3)]
    for _ in range(run.budget(3000, 60000)):
        out.append(''.join(run.rng.choice(pieces)
                           for _ in range(run.rng.randint(3, 9))))
    chars = ''.join(chr(i) for i in range(0x110000)
                    if not 0xd800 <= i < 0xe000)
    out.append(chars)
    out.append(chars[::-1])
    return list(dict.fromkeys(out))


def attempt(f):
    try:
        return f()
    except (lex.LexError, SyntaxError, ValueError) as e:
        return 'not readable: {}'.format(e)


def literal(lang, code):
    """The text of a literal expression (followed by other code)."""
    if lang == 'py':
        return attempt(lambda: ast.literal_eval(code))

    def f():
        toks = lex.TOKENS[lang](code + ';x')
        if len(toks) != 3 or toks[0][0] != 'str' or \
                toks[1:] != [('punct', ';'), ('word', 'x')]:
            return 'not one literal: {}'.format(toks[:6])
        return toks[0][1]

    return attempt(f)


def comment_lines(lang, code):
    def f():
        if lang == 'py' and code == '':
            return []
        toks = lex.TOKENS[lang](code + '\nx')
        toks = [t for t in toks if t[0] not in ('NEWLINE', 'NL') and
                t != ('punct', '')]
        if not toks or toks[-1] != ('word', 'x') or any(
                t[0] != 'comment' for t in toks[:-1]):
            return 'not all commented: {}'.format(toks[:6])
        return [t[1].strip() for t in toks[:-1]]

    return attempt(f)


def same_comment(got, text):
    lines = [ln.strip() for ln in text.splitlines()]
    if isinstance(got, str) or len(got) != len(lines):
        return got
    for g, w in zip(got, lines):
        if not g.startswith(w) or g[len(w):].strip() not in ('', '//'):
            return got
    return lines


def doc_value(text):
    return '\n' + text + '\n' if len(text.splitlines()) > 1 else text


def short(text):
    return {'text': text if len(text) < 200 else 'all characters'}


def code_texts(run):
    out = ['', '\n', 'a', 'a\n']
    lines = ['a', '    a', '        b', '  c', '', '   ', '     d', 'if {',
             '    "x  y"', '            e', 'b = "  ', '    c: \t',
             '# \u00e9']
    for n in (1, 2, 3):
        for t in itertools.product(lines if n < 3 else lines[:12], repeat=n):
            out.append('\n'.join(t))
            out.append('\n'.join(t) + '\n')
    for _ in range(run.budget(500, 8000)):
        out.append('\n'.join(run.rng.choice(lines) for _ in range(8)))
    return list(dict.fromkeys(out))


def unblank(text, indention):
    """Drop the indention of blank lines (nothing else)."""
    return '\n'.join(
        '' if ln.replace(indention, '') == '' else ln
        for ln in text.split('\n'))


def reindented(text, level, indention):
    lines = text.split('\n')
    last = lines.pop() if text.endswith('\n') else None
    if text == '':
        return ''
    inds = [len(ln) - len(ln.lstrip(' ')) for ln in lines if ln.strip()]
    common = min(inds) if inds else 0
    out = []
    for ln in lines:
        if not ln.strip():
            out.append(indention * level)
            continue
        n = len(ln) - len(ln.lstrip(' ')) - common
        out.append(indention * (level + n // 4) + ' ' * (n % 4) +
                   ln.lstrip(' '))
    res = '\n'.join(out)
    return res + ('\n' if last is not None else '')


def bounded(run):
    import mapry.cpp.expr
    import mapry.cpp.generate
    import mapry.go.expr
    import mapry.go.generate
    import mapry.indention
    import mapry.py.expr
    import mapry.py.generate
    py, go, cpp = mapry.py.generate, mapry.go.generate, mapry.cpp.generate
    for text in texts(run):
        inp = short(text)
        for lang, f, name in (('go', go.escaped_str, 'escaped_str'),
                              ('go', go.ticked_str, 'ticked_str'),
                              ('cpp', cpp.escaped_str, 'escaped_str'),
                              ('cpp', getattr(cpp, 'raw_str', None),
                               'raw_str'),
                              ('py', getattr(py, 'raw_str', None),
                               'raw_str')):
            if f is None:
                continue
            run.compare('mapry.{}.generate.{}'.format(lang, name), inp,
                        lambda: literal(lang, f(text)), lambda: text)
        for lang, m in (('go', go), ('cpp', cpp), ('py', py)):
            if '\0' in text or (lang == 'go' and '\ufeff' in text):
                continue
            run.compare('mapry.{}.generate.comment'.format(lang), inp,
                        lambda: same_comment(comment_lines(
                            lang, m.comment(text)), text),
                        lambda: [ln.strip() for ln in text.splitlines()])
        if text != '':
            run.compare('mapry.py.generate.docstring', inp,
                        lambda: literal('py', py.docstring(text)),
                        lambda: doc_value(text))
        if hasattr(py, 'escape_format'):
            run.compare('mapry.py.generate.escape_format', inp,
                        lambda: py.escape_format(text).format(),
                        lambda: text)
        if hasattr(go, 'escape_format'):
            run.compare('mapry.go.generate.escape_format', inp,
                        lambda: go_sprintf(go.escape_format(text)),
                        lambda: text)
        if not text.endswith('\n'):
            for lang, m in (('go', mapry.go.expr), ('cpp', mapry.cpp.expr),
                            ('py', mapry.py.expr)):
                run.compare('mapry.{}.expr.is_variable'.format(lang), inp,
                            lambda: m.is_variable(text),
                            lambda: text.isascii() and text.isidentifier())
    for text in ('a', 'a_1', 'A', '_', '__a9', 'a.b', 'a[0]', '9a', 'a b',
                 '"a"', '"', '', 'ref', 'Z9'):
        for lang, m in (('go', mapry.go.expr), ('cpp', mapry.cpp.expr),
                        ('py', mapry.py.expr)):
            run.compare('mapry.{}.expr.is_variable'.format(lang),
                        {'expr': text}, lambda: m.is_variable(text),
                        lambda: text.isascii() and text.isidentifier())
    for text in code_texts(run):
        for level, indention in ((0, '    '), (1, '    '), (2, '  '),
                                 (3, '\t'), (1, '|')):
            run.compare(
                'mapry.indention.reindent',
                {'text': text, 'level': level, 'indention': indention},
                lambda: unblank(mapry.indention.reindent(
                    text, level, indention), indention),
                lambda: unblank(reindented(text, level, indention),
                                indention))
    exprs = ['ref', '"/some"', 'std::to_string(i_0)', 'a', '"/"']
    for n in (1, 2, 3, 4):
        for t in itertools.product(exprs, repeat=n):
            run.compare('mapry.cpp.expr.append_strings', {'exprs': list(t)},
                        lambda: lex.cpp_tokens(
                            mapry.cpp.expr.append_strings(list(t))),
                        lambda: lex.cpp_tokens(appended(t)))
    whole(run)


def appended(exprs):
    if len(exprs) == 1:
        return exprs[0]
    return 'std::string({})'.format(exprs[0]) + ''.join(
        '.append({})'.format(e) for e in exprs[1:])


def go_sprintf(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == '%':
            out.append('%' if s[i:i + 2] == '%%' else '%!(BAD)')
            i += 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


# -- complete files: the tokens of a schema with plain texts and of the same
# schema with special texts differ in the decoded texts only
PLACES = ['graph', 'class', 'embed', 'gprop', 'cprop', 'eprop', 'string',
          'path', 'id', 'json', 'jsonc', 'jsone', 'date', 'time', 'datetime',
          'nested', 'jsonopt']
DESCRIBED = PLACES[:6]
PATTERNS = ['string', 'path', 'id', 'nested']
FORMATS = ['date', 'time', 'datetime']


def schema_of(t):
    m = graph(
        [('some_text', prop(typ('string', pattern=t['string']), t['gprop'])),
         ('some_json', prop(typ('integer'), json=t['json'])),
         ('some_opt', prop(typ('integer'), optional=True,
                           json=t['jsonopt'])),
         ('some_path', prop(typ('path', pattern=t['path']))),
         ('some_date', prop(typ('date', format=t['date']))),
         ('some_time', prop(typ('time', format=t['time']))),
         ('some_datetime', prop(typ('datetime', format=t['datetime']))),
         ('some_map', prop(typ('map', values=typ('array', values=typ(
             'string', pattern=t['nested']))))),
         ('some_embed', prop(typ('Some_embed'))),
         ('some_ref', prop(typ('Some_class')))],
        classes=[cls('Some_class', [
            ('some_text', prop(typ('float'), t['cprop'], json=t['jsonc']))],
            description=t['class'], id_pattern=t['id'])],
        embeds=[cls('Some_embed', [
            ('some_text', prop(typ('boolean'), t['eprop'], json=t['jsone']))],
            description=t['embed'])])
    m['description'] = t['graph']
    return m


def plain():
    t = {}
    for p in PLACES:
        if p in DESCRIBED:
            t[p] = 'describes zq{}qz.'.format(p)
        elif p in PATTERNS:
            t[p] = '^zq{}qz$'.format(p)
        elif p in FORMATS:
            t[p] = {'date': '%Y-%m-%d', 'time': '%H:%M:%S',
                    'datetime': '%Y-%m-%d %H:%M:%S'}[p] + \
                ' zq{}qz'.format(p)
        else:
            t[p] = 'zq{}qz'.format(p)
    return t


def norm_doc(s):
    return '\n'.join(x for x in (ln.strip() for ln in s.split('\n')) if x)


def insert(base, subs, lang):
    """All texts that the literal of the special schema may denote."""
    out = base
    found = False
    for k, v in subs.items():
        if k in out:
            found = True
            if lang == 'py' and '{' in base:
                v = v.replace('{', '{{').replace('}', '}}')
            elif lang == 'go' and '%' in base:
                v = v.replace('%', '%%')
            out = out.replace(k, v)
    return out, found


def check_file(lang, base, special, subs):
    try:
        b = lex.TOKENS[lang](base)
        s = lex.TOKENS[lang](special)
    except (lex.LexError, SyntaxError, ValueError) as e:
        return 'not readable: {}'.format(e)
    bc = [t[1] for t in b if t[0] == 'comment']
    sc = [t[1] for t in s if t[0] == 'comment']
    b = [t for t in b if t[0] != 'comment']
    s = [t for t in s if t[0] != 'comment']
    if len(b) != len(s):
        for x, y in zip(b, s):
            if x[0] != y[0]:
                return 'tokens differ at {} / {}'.format(x, y)
        return 'number of tokens differs'
    for x, y in zip(b, s):
        if x == y:
            continue
        if x[0] != 'str' or y[0] != 'str':
            if x[0] == y[0] == 'num':  # length of a text
                continue
            return 'token {} instead of {}'.format(y, x)
        want, _ = insert(x[1], subs, lang)
        if y[1] != want and not (
                lang == 'py' and '\n' in x[1] + y[1] and
                norm_doc(y[1]) == norm_doc(want)):
            return 'literal {!r} instead of {!r}'.format(y[1], want)
    i = 0
    for x in bc:
        want, found = insert(x, subs, '')
        if not found:
            if i >= len(sc) or sc[i] != x:
                return 'comment {!r} is missing'.format(x)
            i += 1
            continue
        for ln in want.splitlines() or ['']:
            if i >= len(sc):
                return 'comment {!r} is missing'.format(ln)
            got = sc[i].strip()
            i += 1
            if not got.startswith(ln.strip()) or \
                    got[len(ln.strip()):].strip() not in ('', '//'):
                return 'comment {!r} instead of {!r}'.format(got, ln)
    if i != len(sc):
        return 'additional comment {!r}'.format(sc[i])
    return None


def whole(run):
    import re
    base = plain()
    base_code = {}
    m = schema_of(base)
    for lang in ('py', 'go', 'cpp'):
        base_code[lang] = generate(m, lang)
    weird = ['"', "'", '\\', '`', '"""', "'''", '{}', '{0}', '{x}', '%s',
             '%%', '%d', '*/', '/*', '//', '#', 'a"b', "a'b", 'a\\', '\\n',
             ')v0g0n"', 'R"(', '\t', '\r', '\x0b', '\x0c', '\x1b', '\x85',
             '\u2028', '\u00e9', '\U0001f600', '  x', '? ?', '$', '{{', '{%',
             '#}', '{{ x }}', '\\\\', '\x07', '\x7f', 'a`b`c', '\n', 'x\ny',
             'a\n    b', '"\\"', "\\'", '\x00', '\x01', '%5.2f', '\ufeff']
    for w in weird:
        for places in ([PLACES] if run.tier == 'quick' else
                       [PLACES] + [[p] for p in PLACES]):
            t = dict(base)
            subs = {}
            for p in places:
                mark = 'zq{}qz'.format(p)
                v = 'x' + w
                if p not in DESCRIBED:
                    v += 'y' + 'abcdefghijklmnopqrstuvw'[PLACES.index(p)]
                if p in PATTERNS:
                    v = re.escape(v) if run.rng.random() < .3 else v
                    try:
                        re.compile(v)
                    except re.error:
                        v = ''.join('[' + c + ']' if c not in '\\^'
                                    else '\\' + c for c in v)
                if p in FORMATS:
                    if len(v.splitlines()) > 1:
                        continue
                    v = v.replace('%', '%%')
                if p in DESCRIBED and '\n' in w:
                    continue
                if p.startswith('json') and '\n' in w:
                    pass
                t[p] = t[p].replace(mark, v)
                subs[mark] = v
            try:
                schema = parse(schema_of(t))
            except Exception as e:  # not an accepted schema
                schema = None
            for lang in ('py', 'go', 'cpp'):
                if schema is None:
                    continue
                inp = {'lang': lang, 'text': w, 'places': len(places) > 1 or
                       places[0]}
                if lang == 'go' and '\0' in w or lang == 'py' and '\0' in w:
                    # only literals: no comment can contain NUL
                    continue
                if lang == 'go' and '\ufeff' in w:
                    continue
                lsubs = {k: v.replace('%%', '%')
                         if lang == 'go' and k[2:-2] in FORMATS else v
                         for k, v in subs.items()}
                run.compare(
                    'generated {} code'.format(lang), inp,
                    lambda: [(fn, check_file(lang, base_code[lang][fn], code,
                                             lsubs))
                             for fn, code in generate(None, lang,
                                                      schema).items()],
                    lambda: [(fn, None) for fn in base_code[lang]])
