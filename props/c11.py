"""C11: generated Go code parses exactly the conforming JSON values."""
import json
import random

from props import c09, common, conform, gogen, schemagen, tv

RULE = ('bounded runs: generated Go code of schemas that use every type in '
        'every position and of random schemas, compiled, on conforming JSON '
        'values and on values changed in one or more places; non-trivial = a '
        'distinct (schema, value)')
TRUSTED = ['the Go front end pv/gosrc.py (go/ast, translated mechanically to '
           'the statements that pv/gv.py executes), the verifier pv/gv.py and '
           'z3', 'the contracts of the schema types and of the natives in '
           'pv/gvpy.py, pv/gvgo.py and pv/gvgodur.py',
           'the oracle props/conform.py (bounded runs)',
           'Go: compiler, time.Parse, time.LoadLocation, regexp, '
           'encoding/json']
ASSUMPTIONS = [
    'the proofs are about the code generated for the schemas listed in the '
    'evidence (every type in every position, and random schemas), for all '
    'JSON values; not about all schemas at once',
    'a JSON value is decoded by encoding/json: nil, bool, float64 (finite), '
    'string, []interface{} and map[string]interface{}, not nil inside',
    'the target and what is allocated for it is zero-initialised',
    'float64 is treated as a real number and int64 as an integer, with '
    'obligations that nothing overflows; parsing a duration is proved up to '
    '8 ns, and exactly for whole numbers of units, hence apart from the '
    'rounding of float64',
    'time.Parse, time.LoadLocation and regexp matching are assumed '
    'contracts: uninterpreted functions of their text; what they accept is '
    'checked by the bounded runs',
    'known finding as a precondition of calls: no embedded structure or '
    'instance is parsed after an error unless the capacity is 1',
    'patterns match as by regexp.MatchString']
BOUNDED = ['what time.Parse, time.LoadLocation and the patterns accept; that '
           'the code compiles; rounding of durations']
EXPLANATION = (
    'Contracts on every function of the generated from_jsonable.go and '
    'parse.go: XFromJSONable(value, registries, ref, target, errors) adds '
    'errors only at offending parts, adds none iff the value conforms, and '
    'then the target denotes the value; nothing panics. The functions are '
    'translated mechanically from the syntax tree of go/ast and executed '
    'symbolically on arbitrary JSON values, calls are replaced by contracts, '
    'loops by invariants proved for an arbitrary iteration (no bound), and '
    'z3 discharges every obligation, on the text that the generators of the '
    'current tree produce on every run. The type Errors and '
    'durationFromString are verified too. Where an obligation fails, a '
    'failing input is searched with the compiled generated code.')
TECHNIQUE = ('deductive verification (symbolic execution with contracts and '
             'loop invariants, z3) of the generated Go code, for a family of '
             'schemas; bounded runs of the compiled code for what the '
             'natives accept')
LEVEL = "translation_validation"

FORMATS = ['b', 'B', 'd', 'e', 'm', 'y', 'Y']


class Conform(conform.Conform):
    """The oracle with the answers of the Go library."""

    def __init__(self, m, table, **kw):
        conform.Conform.__init__(self, m, 'go', **kw)
        self.table = table
        self.asked = []

    def ask(self, k, pattern, text):
        q = (k, pattern, text)
        if q not in self.table:
            self.asked.append(q)
            return {'Ok': True, 'T': None}
        return self.table[q]

    def match(self, pattern, text):
        return self.ask('r', pattern, text)['Ok']

    def strptime(self, t, v):
        import contracts.strftime as st
        if not isinstance(v, str):
            raise conform.Bad
        fmt = t.get('format', conform.DEFAULT_FORMAT[t['type']])
        a = self.ask('t', st.go_convert(fmt), v)
        if not a['Ok']:
            raise conform.Bad
        return a['T']

    def v_date(self, t, v, ref):
        return ('date', tuple(self.strptime(t, v) or ()))

    def v_time(self, t, v, ref):
        return ('time', tuple(self.strptime(t, v) or ()))

    def v_datetime(self, t, v, ref):
        return ('datetime', tuple(self.strptime(t, v) or ()))

    def v_time_zone(self, t, v, ref):
        if not isinstance(v, str):
            raise conform.Bad
        a = self.ask('z', '', v)
        if not a['Ok']:
            raise conform.Bad
        return ('tz', a['T'])


def decodable(v):
    """Does encoding/json decode the value as the oracle assumes?"""
    for _, x in schemagen.nodes(v):
        if isinstance(x, (int, float)) and not isinstance(x, bool) and \
                abs(x) > 1e308:
            return False
    return True


def as_json(v):
    return json.loads(json.dumps(v))


def valid(m):
    return c09.valid_for(m, 'go')


def schema(rng, **kw):
    while True:
        m = schemagen.Gen(rng, langs=['go'], patterns=c09.PATTERNS,
                          bias=rng.choice(c09.BIAS), **kw).schema()
        if valid(m):
            return m


def formats(rng):
    """Formats that Go supports."""
    import contracts.strftime as st
    out = ([], [], [])
    while min(map(len, out)) < 4:
        for fs, x in zip(out, conform.formats(
                rng, True, texts=(' ', '-', '/', ': ', ' on ', 'h', "'", ','))):
            for f in x:
                try:
                    ok = st.conflicting_directive(f) is None
                except Exception:  # pylint: disable=broad-except
                    ok = False
                if ok:
                    fs.append(f)
    return out


class Case:
    def __init__(self, i, m, value, ref, cap, tamper=None):
        self.i = i
        self.m = m
        self.value = value
        self.ref = ref
        self.cap = cap
        self.tamper = tamper

    def request(self):
        return dict(K='v', S=self.i, Value=self.value, Ref=self.ref,
                    Cap=self.cap, Tamper=self.tamper)

    def inp(self):
        return (json.dumps(self.m), json.dumps(self.value), self.ref,
                self.cap)


def judge(con, case, a):
    """What is wrong with the answer, or None."""
    bad, denoted = con.graph(case.value, case.ref)
    if con.asked:
        raise RuntimeError('not asked before: {}'.format(con.asked))
    if a['Panic']:
        if bad and case.cap != 1 and \
                'unexpected non-empty errors' in a['Panic']:
            return 'FINDING nested'
        return 'panics: ' + a['Panic']
    if a['Changed']:
        return 'the value was changed'
    refs = a['Errors']
    if case.cap and len(refs) > case.cap:
        return 'more than {} errors'.format(case.cap)
    if not bad:
        if refs:
            return 'conforms, but errors at {}'.format(refs)
        got = gogen.denotation(con, a)
        if not same(denoted, got):
            return 'denotes {}, but parsed {}'.format(denoted, got)
        return None
    if not refs:
        return 'no error, but offending: {}'.format(sorted(bad))
    for r in refs:
        if r not in bad:
            return 'error at {}, but offending: {}'.format(r, sorted(bad))
    return None


def same(a, b):
    """As conform.same, regardless of the order of keys."""
    return conform.same(sort(a), sort(b))


def sort(x):
    if isinstance(x, dict):
        return {k: sort(x[k]) for k in sorted(x)}
    if isinstance(x, (list, tuple)):
        return type(x)(map(sort, x))
    return x


def answers(prog, cases, again=()):
    """Ask Go about the texts, then run the cases."""
    table = {}
    asked = set()
    for c in cases:
        con = Conform(c.m, {})
        con.graph(c.value, c.ref)
        asked |= set(con.asked)
        for f in again:
            asked |= set(f(c))
    asked = sorted(asked)
    for q, a in zip(asked, prog.run([dict(K=k, Pattern=p, Text=t)
                                     for k, p, t in asked])):
        table[q] = a
    return table, prog.run([c.request() for c in cases])


NESTED = 'an embedded structure or an instance after an error'


def compare(run, table, case, a):
    inp = case.inp()

    def real():
        r = judge(Conform(case.m, table), case, a)
        if r == 'FINDING nested':
            run.fail('generated Go parsing: ' + NESTED, repr(inp), 'None',
                     a['Panic'], 'generated Go parsing')
            return None
        return r

    run.compare('generated Go parsing', inp, real, lambda: None)


def probes():
    """Inputs of the known findings."""
    t, p = common.typ, common.prop
    e = common.cls('Emb', [('x', p(t('integer')))])
    yield common.graph([('es', p(t('array', values=t('Emb'))))], embeds=[e],
                       cpp=False, py=False), {'es': [{}, {}]}


def compiled(run, prog, schemas):
    """Add the schemas and compile."""
    idx = []
    for m in schemas:
        def real(m=m):
            idx.append((prog.add(m), m))
        run.compare('generation of Go code', json.dumps(m), real,
                    lambda: None)
    bad = prog.build()
    for i, m in idx:
        run.compare('compilation of generated Go code', json.dumps(m),
                    lambda i=i: bad.get(i), lambda: None)
    return [(i, m) for i, m in idx if i not in bad]


def values(rng, m, n):
    """Values to be parsed: (value, ref, cap)"""
    vals = conform.Values(rng, m, 'go')
    for _ in range(n):
        vals.defect = rng.choice([0, 0, .05, .2])
        v = vals.graph()
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
            v = vals.mutate(v)
        if decodable(v):
            yield as_json(v), rng.choice(
                ['#', 'some/path.json#', '']), rng.choice([1, 1, 1, 2, 0, 100])


def parsed(run, prog, good, n, fixed=()):
    """Parse fixed values, and n values of each of the schemas."""
    cases = [Case(i, m, v, '#', 10) for (i, m), v in zip(good, fixed)]
    for i, m in good[len(fixed):]:
        for v, ref, cap in values(run.rng, m, n):
            cases.append(Case(i, m, v, ref, cap))
    table, out = answers(prog, cases)
    for c, a in zip(cases, out):
        compare(run, table, c, a)


def bounded(run):
    rng = run.rng
    fixed = list(probes())
    schemas = [m for m, _ in fixed] + tv.cover('go')
    for _ in range(run.budget(60, 400)):
        schemas.append(schema(rng, formats=formats(rng)
                              if rng.random() < .5 else None))
    with gogen.Program(tests=False) as prog:
        good = compiled(run, prog, schemas)
        parsed(run, prog, good, run.budget(120, 400), [v for _, v in fixed])


def checker(m, limit):
    from pv import gvgo
    return gvgo.GoParseCheck(m, common.generate(m, 'go'),
                             limit).verify_all()


def directed(run, ms):
    """Look for values that the parsers of these schemas treat wrongly."""
    with gogen.Program(tests=False) as prog:
        good = compiled(run, prog, ms)
        for _ in range(4):
            parsed(run, prog, good, 400)
            if any(not f.key.endswith(NESTED) for f in run.failures):
                break


def proved_schemas(run):
    rng = random.Random(run.seed)
    ms = tv.cover('go')
    while len(ms) < run.budget(160, 3000):
        ms.append(schema(rng, formats=formats(rng)
                         if rng.random() < .5 else None))
    return ms


def extra_proofs(run):
    from pv import gosrc
    gosrc.tool()
    return tv.prove(run, 'from_jsonable.go', checker, proved_schemas(run),
                    directed, run.budget(300, 3000),
                    ('Errors', 'durationFromString'))
