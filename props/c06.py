"""C06: strftime formats and Go layouts."""
import re

import lexery

from props import c05, common

RULE = ('bounded runs: formats as for C05, and formats mixing directives with '
        'texts that resemble Go directives; the layout is split by a '
        'transcription of nextStdChunk of the Go package time; non-trivial = '
        'a distinct (function, format)')
TRUSTED = c05.TRUSTED + ['the table of Go directives and the transcription of '
                         'time.nextStdChunk in contracts/strftime.py']
ASSUMPTIONS = ['line separators of a format are carried over as "\\n"',
               'Go additionally accepts fractions of a second after the '
               'seconds when parsing; this leniency is not part of the layout']
EXPLANATION = ('mapry.go.timeformat.convert is proved to be the concatenation '
               'of the Go counterparts and the literal texts for every '
               'format, and the conflict detection to compare the directives '
               'intended with those that a regular expression finds; that '
               'this expression agrees with nextStdChunk of Go is bounded.')
BOUNDED = ['mapry.go.timeformat.conflicting_directive',
           'mapry.go.validation: refusal of misread formats']
TARGETS = ['mapry.go.timeformat:convert',
           'mapry.go.timeformat:conflicting_directive']


def load_contracts():
    import contracts.strftime  # noqa
    return list(TARGETS)


def bounded(run):
    import contracts.strftime as spec
    import mapry
    import mapry.go.timeformat
    import mapry.go.validation

    def plain(text):
        r = spec.plain_tokens(text)
        if isinstance(r, type):
            raise (r('', 0, 0) if r is lexery.Error else r())
        return r

    def layout(text):
        return '\n'.join(''.join(spec.GO[c] if k == 'directive' else c
                                 for k, c in line) for line in plain(text))

    fs = c05.formats(run, run.budget(3000, 60000))
    near = ['Mon', 'Monday', 'Jan', 'January', 'MST', '1', '2', '3', '4', '5',
            '0', '06', '002', '_', '__', '_2', 'PM', 'pm', '-07', 'Z07', ':00',
            '.0', ',99', '.', '0', 'uary', 'day', 'x', ' ', 'Z', 'T', ':', '-',
            '/', 'Sun', 'Sunday', '7', '8', '9', '000', '%%']
    dirs = spec.SUPPORTED
    for a in near:
        fs.append(a)
        for d in dirs:
            fs += [a + d, d + a]
    for a in dirs:
        for b in dirs:
            fs.append(a + b)
    for _ in range(run.budget(6000, 100000)):
        fs.append(''.join(run.rng.choice(near + dirs)
                          for _ in range(run.rng.randint(1, 7))))
    fs = list(dict.fromkeys(fs))
    for text in fs:
        run.compare('mapry.go.timeformat.convert', {'a_format': text},
                    lambda: mapry.go.timeformat.convert(a_format=text),
                    lambda: layout(text))
    # refusal, observed at the validation of the whole schema
    kinds = ['date', 'datetime', 'time']
    for i, text in enumerate(fs):
        toks = spec.plain_tokens(text)
        if isinstance(toks, type):
            continue
        kind = kinds[i % 3]
        ok = {'date': spec.DATE, 'time': spec.TIME,
              'datetime': spec.SUPPORTED}[kind]
        if any(k == 'directive' and c not in ok for l in toks for k, c in l):
            kind = 'datetime'
        if not any(toks):
            kind = 'datetime'
        nest = (i // 3) % 3
        t = common.typ(kind, format=text)
        if nest == 1:
            t = common.typ('array', values=t)
        elif nest == 2:
            t = common.typ('map', values=common.typ('array', values=t))
        run.compare('mapry.go.validation.validate_schema (format)',
                    {'type': kind, 'format': text, 'nesting': nest},
                    lambda: refused(mapry, t), lambda: spec.misread(text))


def refused(mapry, t):
    schema = common.parse(common.graph({'x': common.prop(t)}))
    return len(mapry.go.validation.validate_schema(schema=schema)) > 0
