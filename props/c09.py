"""C09: generated Python code parses exactly the conforming JSON values."""
import collections
import copy
import json
import random

from props import c15, common, conform, pygen, schemagen, tv

RULE = ('bounded runs: generated Python code of random schemas (all types, '
        'constraints, nesting, settings) on conforming JSON values and on '
        'values changed in one or more places; non-trivial = a distinct '
        '(schema, value)')
TRUSTED = ['the verifier pv/gv.py (symbolic execution of the generated '
           'Python) and z3', 'the contracts of the schema types and of the '
           'natives in pv/gvpy.py', 'the oracle props/conform.py (bounded '
           'runs)', 'CPython: datetime.strptime, re, pytz, pathlib']
ASSUMPTIONS = [
    'the proofs are about the code generated for the schemas listed in the '
    'evidence (every type in every position, and random schemas), for all '
    'JSON values; not about all schemas at once',
    'a JSON value is made of dict, list, str, int, float, bool and None, '
    'with string keys and finite numbers',
    'strptime, re.match, pytz.timezone and pathlib.Path are assumed '
    'contracts: uninterpreted functions of their text; they raise what their '
    'documentation says; what they accept is checked by the bounded runs',
    'floats and durations are treated as mathematical numbers in the proofs',
    'known findings are preconditions of the proofs: no booleans as numbers, '
    'no null registries, no newline after a duration, no integers beyond the '
    'range of floats, no format that repeats a directive',
    'patterns match as by re.match', 'the cap of the errors is positive']
BOUNDED = ['what strptime, pytz, pathlib and float accept; texts of patterns']
EXPLANATION = (
    'Contracts on every function of the generated fromjsonable modules: '
    '_X_from(value, registries, ref, target, errors) adds errors only at '
    'offending parts, adds none iff the value conforms, and then the target '
    'denotes the value; X_from and the graph function return the denotation '
    'iff there are no errors; nothing is raised. The functions are executed '
    'symbolically on arbitrary JSON values, calls are replaced by contracts, '
    'loops by invariants proved for an arbitrary iteration (no bound), and z3 '
    'discharges every obligation, on the text that the generators of the '
    'current tree produce on every run. The class Errors and '
    '_duration_from_string are verified too. Where an obligation fails, a '
    'failing input is searched with the generated code itself.')
TECHNIQUE = ('deductive verification (symbolic execution with contracts and '
             'loop invariants, z3) of the generated Python code, for a family '
             'of schemas; bounded runs for what the natives accept')
LEVEL = "translation_validation"


def ordered(x):
    if isinstance(x, dict):
        return collections.OrderedDict((k, ordered(v)) for k, v in x.items())
    if isinstance(x, list):
        return [ordered(v) for v in x]
    return x


def valid_for(m, lang):
    from props import c01
    structural, parts = c01.problems(m)
    return lang in m and not structural and not parts and \
        not c15.clashes(m, lang)


PATTERNS = list(conform.Values.MATCH)
BIAS = [None, None, 'refs', 'patterns', 'arrays']


def schema(rng, lang='py', **kw):
    while True:
        m = schemagen.Gen(rng, langs=[lang], patterns=PATTERNS,
                          bias=rng.choice(BIAS), **kw).schema()
        if valid_for(m, lang):
            return m


def parse(pkg, value, ref, cap):
    """(references of the errors, graph or None)"""
    import mapry.py.naming as pn
    errors = pkg.parse.Errors(cap=cap)
    f = getattr(pkg.fromjsonable, pn.as_variable(pkg.m['name']) + '_from')
    g = f(value=value, ref=ref, errors=errors)
    return [e.ref for e in errors.values()], g


def judge(con, pkg, value, ref, cap):
    """What is wrong with parsing this value, or None."""
    bad, denoted = con.graph(value, ref)
    before = copy.deepcopy(value)
    refs, g = parse(pkg, value, ref, cap)
    if value != before:
        return 'the value was changed'
    if len(refs) > cap:
        return 'more than {} errors'.format(cap)
    if not bad:
        if refs:
            return 'conforms, but errors at {}'.format(refs)
        if g is None:
            return 'conforms, but no graph'
        got = pygen.denotation(con, pkg, g)
        if not conform.same(denoted, got):
            return 'denotes {}, but parsed {}'.format(denoted, got)
        return None
    if not refs:
        return 'no error, but offending: {}'.format(sorted(bad))
    if g is not None:
        return 'errors, but a graph was returned'
    for r in refs:
        if r not in bad:
            return 'error at {}, but offending: {}'.format(r, sorted(bad))
    return None


QUIRKS = ['a boolean as a number', 'null as a registry',
          'a newline after a duration',
          'an integer beyond the range of floats',
          'a format that repeats a directive']


def probes():
    """Inputs of the known findings."""
    t, p = common.typ, common.prop

    def one(a_type, value, **kw):
        return common.graph([('x', p(a_type))], cpp=False, go=False,
                            **kw), value

    yield one(t('integer'), {'x': True})
    yield one(t('float'), {'x': False})
    yield one(t('integer'), {'x': 1, 'persons': None},
              classes=[common.cls('Person')])
    yield one(t('duration'), {'x': 'P1D\n'})
    yield one(t('float'), {'x': 10 ** 400})
    yield one(t('date', format='%Y %Y'), {'x': '2000 2001'})


def check(run, m, pkg, value, ref, cap):
    """Compare; a failure that is a known finding gets a key of its own."""
    con = conform.Conform(m, 'py')
    inp = (json.dumps(m), json.dumps(value), ref, cap)

    def real():
        try:
            r = judge(con, pkg, value, ref, cap)
        except Exception as e:  # pylint: disable=broad-except
            r = 'raises {}: {}'.format(type(e).__name__, e)
        if r is None:
            return None
        quirky = conform.Conform(m, 'py', quirks=QUIRKS)
        try:
            r2 = judge(quirky, pkg, value, ref, cap)
        except Exception as e:  # pylint: disable=broad-except
            r2 = None if type(e).__name__ in quirky.crashes else 'raises'
        if r2 is None and quirky.used:
            run.fail('generated fromjsonable: ' + sorted(quirky.used)[0],
                     repr(inp), 'None', r, 'generated fromjsonable')
            return None
        return r

    run.compare('generated fromjsonable', inp, real, lambda: None)


def bounded(run):
    rng = run.rng
    for m, v in probes():
        check(run, m, pygen.load(run, m), v, '#', 10)
    for _ in range(run.budget(250, 4000)):
        m = schema(rng, formats=conform.formats(rng, True)
                   if rng.random() < .5 else None)
        pkg = pygen.load(run, m)
        if pkg is None:
            continue
        vals = conform.Values(rng, m, 'py')
        for _ in range(run.budget(24, 60)):
            vals.defect = rng.choice([0, 0, .05, .2])
            v = vals.graph()
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
                v = vals.mutate(v)
            if rng.random() < .3:
                v = ordered(v)
            ref = rng.choice(['#', 'some/path.json#', ''])
            cap = rng.choice([1, 2, 100, 100])
            check(run, m, pkg, v, ref, cap)


def checker(m, limit):
    from pv import gvpy
    return gvpy.ParseCheck(m, common.generate(m, 'py'), limit).verify_all()


def directed(run, ms):
    """Look for a value that the parsers of these schemas treat wrongly."""
    for m in ms:
        directed_at(run, m)


def directed_at(run, m):
    rng = run.rng
    pkg = pygen.load(run, m)
    if pkg is None:
        return
    vals = conform.Values(rng, m, 'py')
    n = len(run.failures)
    for k in range(1500):
        vals.defect = rng.choice([0, 0, .05, .2])
        v = vals.graph()
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
            v = vals.mutate(v)
        check(run, m, pkg, v, rng.choice(['#', 'a/b.json#']),
              rng.choice([1, 2, 100]))
        if len(run.failures) > n + 20:
            break


def proved_schemas(run):
    rng = random.Random(run.seed)
    ms = tv.cover('py')
    while len(ms) < run.budget(240, 3000):
        ms.append(schema(rng, formats=conform.formats(rng, True)
                         if rng.random() < .5 else None))
    return ms


def extra_proofs(run):
    return tv.prove(run, 'fromjsonable', checker, proved_schemas(run),
                    directed, run.budget(300, 3000),
                    ('Errors', '_duration_from_string'))
