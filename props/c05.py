"""C05: date/time formats are split losslessly and checked exactly."""
import itertools

import lexery

from pv.harvest import literals

RULE = ('bounded runs: every format of up to 3 tokens over all %-directives '
        '(supported or not) and text pieces, plus random formats and literals '
        'of the current source; non-trivial = a distinct (function, format)')
TRUSTED = ['z3', 'the contract engine pv/',
           'lexery.Lexer.lex (assumed contract: a function of the rules and '
           'the text that raises lexery.Error or returns tokens with the '
           'identifiers of the rules); its losslessness is checked bounded']
ASSUMPTIONS = ['losslessness of the third-party lexer is only checked on the '
               'bounded runs, against an independent splitter']
EXPLANATION = ('tokenize, validate_date_tokens and validate_time_tokens are '
               'proved equal to their specifications for every format and '
               'every token list.')
TARGETS = ['mapry.strftime:tokenize', 'mapry.strftime:validate_date_tokens',
           'mapry.strftime:validate_time_tokens']


def load_contracts():
    import contracts.strftime  # noqa
    return list(TARGETS)


def formats(run, deep):
    letters = 'aAbBcCdDeFgGhHIjklmMnpPrRsStTuUVwWxXyYzZfLQ%'
    dirs = ['%' + c for c in letters]
    texts = ['-', 'T', ' ', 'Sun', '2', '%', '% ', '%1', '\n', '\r\n', '\t',
             '\u2028', 'x\u00e9', '%\u00e9']
    strs, _ = literals('mapry/strftime.py', 'mapry/go/timeformat.py')
    texts += [s for s in strs if len(s) < 12]
    toks = dirs + texts
    out = ['']
    out += toks
    out += [a + b for a in toks for b in toks]
    for t in itertools.product(run.rng.sample(toks, 14), repeat=3):
        out.append(''.join(t))
    for _ in range(deep):
        out.append(''.join(run.rng.choice(toks)
                           for _ in range(run.rng.randint(3, 12))))
    return list(dict.fromkeys(out))


def bounded(run):
    import contracts.strftime as spec
    import mapry.strftime

    def real_tokens(text):
        return [[(t.identifier, t.content) for t in line]
                for line in mapry.strftime.tokenize(format=text)]

    def plain(text):
        r = spec.plain_tokens(text)
        if isinstance(r, type):
            raise (r('', 0, 0) if r is lexery.Error else r())
        return r

    def wants(text, ok):
        toks = plain(text)
        if sum(len(x) for x in toks) == 0:
            return 'empty'
        bad = [t[1] for line in toks for t in line
               if t[0] == 'directive' and t[1] not in ok]
        return bad[0] if bad else None

    def verdict(f, text, ok):
        r = f(token_lines=mapry.strftime.tokenize(format=text))
        if r is None:
            return None
        if not isinstance(r, ValueError):
            return 'not a ValueError: {!r}'.format(r)
        w = wants(text, ok)
        if w is None:
            return 'error {!r}'.format(str(r))
        if w != 'empty' and w not in str(r):
            return 'error without {}: {}'.format(w, r)
        return w

    for text in formats(run, run.budget(4000, 100000)):
        run.compare('mapry.strftime.tokenize', {'format': text},
                    lambda: real_tokens(text), lambda: plain(text))
        if isinstance(spec.plain_tokens(text), type):
            continue
        run.compare('mapry.strftime.validate_date_tokens', {'format': text},
                    lambda: verdict(mapry.strftime.validate_date_tokens, text,
                                    spec.DATE),
                    lambda: wants(text, spec.DATE))
        run.compare('mapry.strftime.validate_time_tokens', {'format': text},
                    lambda: verdict(mapry.strftime.validate_time_tokens, text,
                                    spec.TIME),
                    lambda: wants(text, spec.TIME))
    # token lists that do not come from the lexer
    pool = [lexery.Token('directive', d) for d in spec.SUPPORTED + ['%j']] + [
        lexery.Token('text', d) for d in ['%H', '%d', 'x', '']]
    for n in range(0, 3):
        for t in itertools.product(pool, repeat=n):
            for lines in ([list(t)], [[x] for x in t], [[]] + [list(t)]):
                for name, f, sp in (
                        ('date', mapry.strftime.validate_date_tokens,
                         spec.validate_date_tokens),
                        ('time', mapry.strftime.validate_time_tokens,
                         spec.validate_time_tokens)):
                    run.compare(
                        'mapry.strftime.validate_{}_tokens'.format(name),
                        {'token_lines': lines},
                        lambda: type(f(token_lines=lines)),
                        lambda: type(sp(lines)))
