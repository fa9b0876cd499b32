"""C13: generated C++ code parses exactly the conforming values, and
serializes back."""
import json
import random
import re

from props import c09, c10, c11, common, conform, cppgen, schemagen, tv

ID = 'C13'
RULE = ('bounded runs: generated C++ code of schemas that use every type in '
        'every position and of random schemas (all settings), compiled '
        'against a stand-in of Jsoncpp, on conforming JSON values and on '
        'values changed in one or more places; what conforms is serialized '
        'and parsed again; non-trivial = a distinct (schema, value)')
LANG = 'cpp'
LEVEL = 'translation_validation'
TECHNIQUE = (
    'deductive verification (symbolic execution with contracts and loop '
    'invariants, z3) of the parsing and serializing functions of the '
    'generated C++ code, for a family of schemas, and of the lemma that '
    'parsing inverts serializing; bounded runs of the compiled code for '
    'what the natives accept')
EXPLANATION = (
    'Contracts on every parsing function of the generated jsoncpp.cpp and on '
    'the class Errors of parse.cpp: x_from(value, registries, ref, target, '
    'errors) adds errors only at offending parts, adds none iff the value '
    'conforms, and then the target denotes the value; nothing is thrown, '
    'no integer overflows, no index is out of range and no uninitialised or '
    'moved value is read. serialize_x(y) gives an object with a key per '
    'present property and non-empty registry whose value is the '
    'serialization of the property, changes nothing and throws nothing but '
    'for an instance under another identifier; duration_to_string gives a '
    'text of the grammar that denotes the duration, duration_from_string sets '
    'its error iff a text is not in the grammar, too precise or too long, and '
    'gives what it denotes otherwise; and a lemma per '
    'composite: what is serialized conforms and is parsed as what was '
    'serialized. The functions are translated mechanically from the '
    'syntax tree of clang and executed symbolically on arbitrary JSON '
    'values, calls are replaced by contracts, loops by invariants proved for '
    'an arbitrary iteration (no bound), and z3 discharges every obligation, '
    'on the text that the generators of the current tree produce on every '
    'run. Bounded part: the generated code of these and of random schemas is '
    'compiled and run: parsing must give the graph that the value denotes '
    '(or errors that refer to offending parts), serializing must give a '
    'value that denotes the same graph and is parsed as the same graph, and '
    'nothing may throw, change its input or depend on uninitialised memory '
    '(valgrind).')
LEVEL_NOTE = (
    'parsing and serializing: every obligation discharged per schema of the '
    'family; tm_to_string: bounded')
TRUSTED = [
    'clang (its syntax tree), the C++ front end pv/cppsrc.py (translates it '
    'mechanically to the statements that pv/gv.py executes), the verifier '
    'pv/gv.py and z3',
    'the contracts of the schema types and of the natives in pv/gvpy.py, '
    'pv/gvgo.py, pv/gvcpp.py and pv/gvcppser.py',
    'the oracle props/conform.py (bounded runs)',
    'C++: compiler, standard library, Jsoncpp, date.h, strptime, strftime']
ASSUMPTIONS = [
    'the proofs are about the code generated for the schemas listed in the '
    'evidence (every type in every position under the settings, and random '
    'schemas), for all JSON values; not about all schemas at once',
    'Jsoncpp behaves as the contracts of pv/gvcpp.py (and the stand-in '
    'shim/harness, in bounded runs) say; Jsoncpp itself is not installed',
    'float64 is treated as a real number; machine integers with obligations '
    'that nothing overflows; texts have less than 2^40 bytes and arrays '
    'less than 2^31 items',
    'strptime, date::parse, locate_zone and regex matching are assumed '
    'contracts: uninterpreted functions of their text; what they accept is '
    'checked by the bounded runs',
    'duration_from_string: the regular expression is the documented grammar '
    '(compared structurally), each unit is truncated to nanoseconds (up to '
    '8 ns, exact for whole numbers); std::stod and std::stol may throw and an '
    'uninitialised bool is read as false there (known findings)',
    'date::format, tm_to_string, the names of zones and the texts of paths '
    'are assumed contracts: what they give is parsed as the same value; '
    'duration_to_string is given what parsing gives (not the least int64)',
    'what is serialized denotes a conforming value (pointers are not null)',
    'known findings: a composite without a present property (null or an '
    'empty object), text after a date or time with date.h, a NUL in one '
    'with ctime, and durations out of range are left out of these contracts',
    'messages of errors are opaque texts',
    'names of properties have no NUL, patterns are valid for ECMAScript, '
    'texts are short enough for std::regex to recurse on',
    'parsing gets freshly constructed targets',
    '%z and %Z are not used with date.h']
BOUNDED = [
    'tm_to_string; what strptime, date::parse, locate_zone and the '
    ' patterns accept; that the code compiles; uninitialised memory in '
    'what is not under contract']

AFTER = 'text after a date or time is ignored with date.h'
LONG_DURATION = 'a number in a duration beyond the range of numbers'
HOLLOW = 'a composite without a present property'
LONG_DATE = 'a date or time whose text is empty or long'
OVERFLOWS = 'durations depend on uninitialised memory'
NUL = 'text after a NUL is ignored with ctime'


class Conform(conform.Conform):
    """What C++ accepts as a date, zone or pattern is asked beforehand."""

    def __init__(self, m, table, **kw):
        conform.Conform.__init__(self, m, 'cpp', **kw)
        self.table = table
        self.asked = []
        self.ctime = m['cpp']['datetime_library'] == 'ctime'
        self.long_date = False

    def ask(self, k, pattern, text):
        q = (k, pattern, text)
        if q not in self.table:
            self.asked.append(q)
            return {'Ok': True, 'T': None, 'Rest': 0, 'Len': 1}
        return self.table[q]

    def match(self, pattern, text):
        return self.ask('r', pattern, text)['Ok']

    def strptime(self, t, v):
        if not isinstance(v, str):
            raise conform.Bad
        fmt = t.get('format', conform.DEFAULT_FORMAT[t['type']])
        given = fmt
        same = conform.SAME_TEXT if self.ctime else dict(
            conform.SAME_TEXT, **{'%e': ' %d', '%l': ' %I'})
        fmt = re.sub('%.', lambda x: same.get(x.group(), x.group()), fmt)
        if self.ctime and '\0' in v and self.quirk(NUL):
            v = v.split('\0')[0]
        k = 'c' if self.ctime else {
            'date': 'dd', 'datetime': 'ds', 'time': 'dt'}[t['type']]
        a = self.ask(k, fmt, v)
        if not a['Ok']:
            raise conform.Bad
        if a['Rest'] != 0 and (self.ctime or not self.quirk(AFTER)):
            raise conform.Bad
        if self.ctime and given and not 0 < a['Len'] < 4 * len(
                given.encode()):
            self.long_date = True
        t = a['T']
        return tuple(t) if isinstance(t, list) else (t, )

    def v_date(self, t, v, ref):
        return ('date', ) + self.strptime(t, v)

    def v_time(self, t, v, ref):
        return ('time', ) + self.strptime(t, v)

    def v_datetime(self, t, v, ref):
        return ('datetime', ) + self.strptime(t, v)

    def v_time_zone(self, t, v, ref):
        if not isinstance(v, str):
            raise conform.Bad
        if self.ctime:
            return ('tz', v)
        a = self.ask('z', '', v)
        if not a['Ok']:
            raise conform.Bad
        return ('tz', a['T'])

    def v_duration(self, t, v, ref):
        if isinstance(v, str) and too_long(v) and self.quirk(LONG_DURATION):
            self.crashes.append('out_of_range')
        return conform.Conform.v_duration(self, t, v, ref)


def too_long(text):
    """Has the duration a number that std::stol or std::stod refuses?"""
    m = conform.DURATION.match(text)
    if not m:
        return False
    if m.group(8) and int(m.group(8)) >= 2 ** 63:
        return True
    return any(x and float(x) == float('inf') for x in m.groups()[1:7])


def as_json(v):
    return json.loads(json.dumps(v))


def valid(m):
    return c09.valid_for(m, 'cpp')


def schema(rng, **kw):
    while True:
        m = schemagen.Gen(rng, langs=['cpp'], patterns=c09.PATTERNS,
                          bias=rng.choice(c09.BIAS), **kw).schema()
        if valid(m) and usable(m):
            return m


def usable(m):
    """Not one of the formats of the known findings."""
    ctime = m['cpp']['datetime_library'] == 'ctime'
    for _, x in schemagen.nodes(m):
        if isinstance(x, dict) and isinstance(x.get('format'), str) and \
                not ctime and ('%z' in x['format'].lower() or
                               not x['format']):
            return False
    return True


def formats(rng):
    """Formats that C++ supports."""
    return conform.formats(rng, rng.random() < .5, texts=(
        ' ', '-', '/', ': ', ' on ', 'h', "'", ',', '"', '\\'))


Case = c11.Case


# --------------------------------------------------------------- denotation
def denotation(con, answer, key='Dump'):
    """Canonical object graph of a dumped graph (see props.conform)."""
    top = answer[key]['top']
    regs = answer[key]['regs']

    def val(t, x):
        k = t['type']
        if k == 'boolean':
            assert isinstance(x, bool), x
            return ('bool', x)
        if k == 'integer':
            return ('int', int(x['i']))
        if k == 'float':
            return ('float', float(x['f']))
        if k in ('string', 'path'):
            return ('str' if k == 'string' else 'path', x['s'])
        if k in ('date', 'time', 'datetime'):
            return (k, ) + (tuple(x['t']) if isinstance(x['t'], list)
                            else (x['t'], ))
        if k == 'time_zone':
            return ('tz', x['s'])
        if k == 'duration':
            return ('duration', int(x['d']) * 1e-9)
        if k == 'array':
            return ('array', [val(t['values'], y) for y in x['a']])
        if k == 'map':
            return ('map', {i: val(t['values'], y)
                            for i, y in x['m'].items()})
        if k in con.classes:
            found = [i for i, e in regs[k].items() if e.get('a') == x['r']]
            assert found, 'reference not in the registry'
            return ('ref', k, found[0])
        return ('embed', props(con.embeds[k], x))

    def props(c, x):
        out = {}
        for n, p in c.get('properties', {}).items():
            y = x[n]
            if p.get('optional', False):
                if y is None:
                    continue
                y = y['p']
            assert y is not None, 'null: ' + n
            out[n] = val(p, y)
        return out

    rr = {}
    for n, c in con.classes.items():
        rr[n] = {}
        for i, e in regs[n].items():
            assert e['id'] == i, 'id'
            rr[n][i] = props(c, e['x'])
    return ('graph', props(con.m, top), rr)


def hollow(g):
    """Has the graph a composite without a present property?"""
    _, top, regs = g

    def walk(x):
        if isinstance(x, tuple):
            if x[0] == 'embed':
                return not x[1] or any(map(walk, x[1].values()))
            return any(map(walk, x[1:]))
        if isinstance(x, list):
            return any(map(walk, x))
        if isinstance(x, dict):
            return any(map(walk, x.values()))
        return False

    if not top and not any(regs.values()):
        return True
    return walk(top) or any(not i or walk(i)
                            for r in regs.values() for i in r.values())


def judge(con, case, a):
    """What is wrong with the answer, or None."""
    bad, denoted = con.graph(case.value, case.ref)
    if con.asked:
        raise RuntimeError('not asked before: {}'.format(con.asked))
    if con.crashes:
        if 'throws' in a['Panic']:
            return None
    if a['Panic']:
        return a['Panic']
    if a['Changed']:
        return 'the value was changed'
    refs = a['Errors']
    if len(refs) > case.cap:
        return 'more than {} errors'.format(case.cap)
    if bad:
        if not refs:
            return 'no error, but offending: {}'.format(sorted(bad))
        for r in refs:
            if r not in bad:
                return 'error at {}, but offending: {}'.format(
                    r, sorted(bad))
        return None
    if refs:
        return 'conforms, but errors at {}'.format(refs)
    got = denotation(con, a)
    if not c11.same(denoted, got):
        return 'denotes {}, but parsed {}'.format(denoted, got)
    return None


def judge_back(con, table, case, a):
    """What is wrong with the serialization of a conforming value."""
    _, denoted = con.graph(case.value, case.ref)
    if a['OutErr']:
        return 'not serialized: ' + a['OutErr']
    if a['Altered']:
        return 'the graph was changed'
    out = a['Out']
    con = Conform(case.m, table, quirks=con.quirks)
    bad, got = con.graph(out, '#')
    if con.asked:
        raise RuntimeError('not asked before: {}'.format(con.asked))
    if bad:
        return 'serialized as {}, which does not conform: {}'.format(
            out, sorted(bad))
    if not c11.same(denoted, got):
        return 'serialized as {}, which denotes another graph'.format(out)
    probs = c10.keys(con, got, out)
    if probs:
        return probs[0]
    if a['Errors2']:
        return 'serialized as {}, which is not parsed: {}'.format(
            out, a['Errors2'])
    first = denotation(con, a)
    second = denotation(con, a, 'Dump2')
    if c11.sort(first) != c11.sort(second):
        return 'serialized as {}, which is parsed as another graph'.format(
            out)
    if case.tamper and not a['Refused']:
        return 'an instance stored under {!r} with the identifier {!r} was ' \
            'serialized'.format(case.tamper['ID'], case.tamper['New'])
    return None


QUIRKS = (AFTER, LONG_DURATION, NUL)
PARSING = 'generated C++ parsing'
WRITING = 'generated C++ serialization'


def compare(run, table, case, a):
    inp = case.inp()

    def real():
        r = judge(Conform(case.m, table), case, a)
        if r is None:
            return None
        con = Conform(case.m, table, quirks=QUIRKS)
        if judge(con, case, a) is None and con.used:
            for q in sorted(con.used):
                run.fail(PARSING + ': ' + q, repr(inp), 'None', r, PARSING)
            return None
        return r

    run.compare(PARSING, inp, real, lambda: None)
    con = Conform(case.m, table, quirks=QUIRKS)
    if a['Panic'] or a['Errors'] or con.graph(case.value, case.ref)[0]:
        return

    def back():
        con = Conform(case.m, table, quirks=QUIRKS)
        _, denoted = con.graph(case.value, case.ref)
        r = judge_back(con, table, case, a)
        if r is None:
            return None
        for q, x in [(HOLLOW, hollow(denoted)), (LONG_DATE, con.long_date)]:
            if x:
                run.fail(WRITING + ': ' + q, repr(inp), 'None', r, WRITING)
                return None
        return r

    run.compare(WRITING, inp, back, lambda: None)


def answers(prog, cases):
    """Ask C++ about the texts, run the cases, ask about what they give."""
    table = {}

    def ask(values):
        asked = set()
        for m, v, ref in values:
            con = Conform(m, table)
            con.graph(v, ref)
            asked |= set(con.asked)
        asked = sorted(asked)
        for q, a in zip(asked, prog.run([dict(K=k, Pattern=p, Text=t)
                                         for k, p, t in asked])):
            table[q] = a

    ask([(c.m, c.value, c.ref) for c in cases])
    requests = []
    for c in cases:
        q = c.request()
        con = Conform(c.m, table)
        con.graph(c.value, c.ref)
        # takes all the memory
        if con.long_date and not getattr(c, 'probe', False):
            q['Parse'] = True
        requests.append(q)
    out = prog.run(requests)
    ask([(c.m, a['Out'], '#') for c, a in zip(cases, out)
         if a.get('Out') is not None])
    for q, a in zip(requests, out):
        a['Parse'] = 'Parse' in q
    return table, out


# ------------------------------------------------------------------- inputs
def probes():
    """Inputs of the known findings."""
    t, p = common.typ, common.prop

    def g(props, library='ctime', **kw):
        m = common.graph(props, go=False, py=False, **kw)
        m['cpp']['datetime_library'] = library
        return m
    yield g([('d', p(t('date')))], 'date.h'), {'d': '2019-01-01 and more'}
    yield g([('d', p(t('duration')))]), {'d': 'PT9999999999999999999S'}
    yield g([('e', p(t('Emb')))], embeds=[common.cls('Emb', [
        ('x', p(t('integer'), optional=True))])]), {'e': {}}
    yield g([('d', p(t('date', format='%A')))]), {'d': 'Wednesday'}
    yield g([('s', p(t('date')))]), {'s': '2019-01-01\0 and more'}


def compiled(run, prog, schemas):
    """Add the schemas and compile."""
    idx = []
    for m in schemas:
        def real(m=m):
            idx.append((prog.add(m), m))
        run.compare('generation of C++ code', json.dumps(m), real,
                    lambda: None)
    bad = prog.build()
    for i, m in idx:
        run.compare('compilation of generated C++ code', json.dumps(m),
                    lambda i=i: bad.get(i), lambda: None)
    return [(i, m) for i, m in idx if i not in bad]


def values(rng, m, n):
    """Values to be parsed: (value, ref, cap, what to change)"""
    import contracts.naming as nm
    vals = conform.Values(rng, m, 'cpp')
    con = conform.Conform(m, 'cpp')
    for _ in range(n):
        vals.defect = rng.choice([0, 0, 0, .05, .2])
        v = vals.graph()
        for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2, 3])):
            v = vals.mutate(v)
        if not c11.decodable(v):
            continue
        tamper = None
        if isinstance(v, dict):
            stored = [(c, i) for c in con.classes
                      if isinstance(v.get(con.registry_name[c]), dict)
                      for i in v[con.registry_name[c]]]
            if stored and rng.random() < .3:
                c, ident = rng.choice(stored)
                tamper = dict(Class=c, ID=ident, New=rng.choice(
                    ['other ' + ident, ident + ' ', 'x' + ident]))
        yield as_json(v), rng.choice(
            ['#', 'some/path.json#', '']), rng.choice(
                [1, 1, 1, 2, 100]), tamper


def tried(run, prog, good, n, fixed=()):
    cases = [Case(i, m, v, '#', 10) for (i, m), v in zip(good, fixed)]
    for c in cases:
        c.probe = True
    for i, m in good[len(fixed):]:
        for v, ref, cap, tamper in values(run.rng, m, n):
            cases.append(Case(i, m, v, ref, cap, tamper))
    table, out = answers(prog, cases)
    for c, a in zip(cases, out):
        compare(run, table, c, a)


def settings(ms):
    """All settings of C++ on the schemas."""
    lib = ['ctime', 'date.h']
    opt = ['std::optional', 'boost::optional', 'std::experimental::optional']
    path = ['std::filesystem::path', 'boost::filesystem::path']
    for i, m in enumerate(ms):
        m['cpp'] = dict(m['cpp'], datetime_library=lib[i % 2],
                        optional_as=opt[i % 3], path_as=path[i // 2 % 2])
        if i % 4 == 3:
            m['cpp']['indention'] = '    '
    return ms


def uninitialised(run):
    """Runs that must not depend on uninitialised memory (valgrind)."""
    t, p = common.typ, common.prop
    fixed = [(common.graph([('d', p(t('duration')))], go=False, py=False),
              {'d': 'PT1M'})]
    ms = settings(tv.cover('cpp')[:4])
    with cppgen.Program(init=None) as prog:
        good = compiled(run, prog, [m for m, _ in fixed] + ms)
        cases = []
        for (i, m), (_, v) in zip(good, fixed):
            cases.append(Case(i, m, v, '#', 10))
        for i, m in good[len(fixed):]:
            for v, ref, cap, tamper in values(run.rng, m, 8):
                cases.append(Case(i, m, v, ref, cap, tamper))
        cases = [c for c in cases if c is cases[0] or not durations(c.value)]
        for c, where in zip(cases, prog.valgrind(
                [dict(c.request(), Parse=True) for c in cases])):
            if where and 'duration_from_string' in where:
                run.fail(PARSING + ': ' + OVERFLOWS, repr(c.inp()), 'None',
                         where, PARSING)
                where = None
            run.compare('uninitialised memory in generated C++ code',
                        c.inp(), lambda: where, lambda: None)


def durations(v):
    return any(isinstance(x, str) and 'P' in x
               for _, x in schemagen.nodes(v))


def bounded(run):
    rng = run.rng
    fixed = list(probes())
    schemas = [m for m, _ in fixed] + settings(tv.cover('cpp'))
    for _ in range(run.budget(80, 500)):
        schemas.append(schema(rng, formats=formats(rng)
                              if rng.random() < .5 else None))
    with cppgen.Program() as prog:
        good = compiled(run, prog, schemas)
        tried(run, prog, good, run.budget(120, 400), [v for _, v in fixed])
    uninitialised(run)


def checker(m, limit):
    from pv import gvcpp, gvcppser
    m = json.loads(json.dumps(m))
    m['cpp']['namespace'] = 'pvgen::s'
    check = gvcpp.CppParseCheck(m, common.generate(m, 'cpp'), limit)
    return check.verify_all() + gvcppser.CppSerCheck(
        m, None, limit, check.pkg).verify_all()


def directed(run, ms):
    """Look for values that the code of these schemas treats wrongly."""
    with cppgen.Program() as prog:
        good = compiled(run, prog, ms)
        for _ in range(3):
            n = len(run.failures)
            tried(run, prog, good, 300)
            if any(not known(f) for f in run.failures[n:]):
                break


def known(f):
    return ': ' in f.key


def proved_schemas(run):
    rng = random.Random(run.seed)
    ms = settings(tv.cover('cpp'))
    while len(ms) < run.budget(80, 1500):
        ms.append(schema(rng, formats=formats(rng)
                         if rng.random() < .5 else None))
    return ms


def extra_proofs(run):
    return tv.prove(run, 'jsoncpp.cpp', checker, proved_schemas(run),
                    directed, run.budget(300, 3000),
                    ('Errors', 'duration_to_string',
                     'duration_from_string'))
