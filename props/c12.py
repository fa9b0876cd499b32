"""C12: generated Go serialization inverts generated Go parsing."""
import json

from props import c10, c11, common, conform, gogen, tv

RULE = ('bounded runs: generated Go code of schemas that use every type in '
        'every position and of random schemas, compiled: random conforming '
        'JSON values are parsed, serialized and parsed again; non-trivial = '
        'a distinct (schema, value)')
TRUSTED = c11.TRUSTED
ASSUMPTIONS = [
    c11.ASSUMPTIONS[0].replace('JSON values', 'object graphs'),
    'the graph is what parsing gives: slices and maps of required properties '
    'may be nil or not, pointers of required properties are not nil',
    'time.Parse inverts Time.Format, and time.LoadLocation inverts '
    'Location.String, on what they gave (checked by the bounded runs)',
    'encoding/json decodes what it encodes: an int64 as the float64 of that '
    'value, slices as []interface{}, maps as map[string]interface{}',
    'int64 is treated as an integer with obligations that nothing '
    'overflows; |durations| < 2^63 ns']
BOUNDED = ['time.Format and time.Parse; encoding/json; that the code '
           'compiles']
EXPLANATION = (
    'Contracts on every function of the generated to_jsonable.go: '
    'XToJSONable(instance) gives a map with exactly the keys of the present '
    'properties (and non-empty registries), each with the serialization of '
    'its value, does not change the instance, and does not panic; the graph '
    'is refused iff an instance is stored under another identifier. Lemmas '
    'over the contracts, per composite: what is serialized conforms to the '
    'schema and denotes the same object for the parser. durationToString is '
    'proved to give a text of the grammar that denotes the duration exactly. '
    'Functions are executed symbolically on arbitrary object graphs, loops '
    'are replaced by invariants proved for an arbitrary iteration (no '
    'bound), and z3 discharges every obligation, on the text that the '
    'generators of the current tree produce on every run. Where an '
    'obligation fails, a failing input is searched with the compiled code.')
TECHNIQUE = c11.TECHNIQUE
LEVEL = "translation_validation"


def judge(make, case, a):
    """What is wrong with the answer, or None."""
    con = make()
    bad, denoted = con.graph(case.value, case.ref)
    assert not bad, bad
    if a['Panic']:
        return 'panics: ' + a['Panic']
    if a['Errors']:
        return 'conforming value not parsed: {}'.format(a['Errors'])
    if a['OutErr']:
        return 'not serialized: ' + a['OutErr']
    if a['Altered']:
        return 'the graph was changed'
    out = a['Out']
    con = make()
    bad, got = con.graph(out, '#')
    if bad:
        return 'serialized as {}, which does not conform: {}'.format(
            out, sorted(bad))
    # zones of times are compared below
    if not con.asked and not c11.same(short(denoted), short(got)):
        return 'serialized as {}, which denotes another graph'.format(out)
    probs = c10.keys(con, got, out)
    if probs:
        return probs[0]
    if a['Errors2']:
        return 'serialized as {}, which is not parsed: {}'.format(
            out, a['Errors2'])
    first = gogen.denotation(con, a)
    second = gogen.denotation(con, a, 'Dump2')
    if not exactly(c11.sort(first), c11.sort(second)):
        return 'serialized as {}, which is parsed as another graph'.format(
            out)
    if case.tamper and not a['Refused']:
        return 'an instance stored under {!r} with the identifier {!r} was ' \
            'serialized'.format(case.tamper['ID'], case.tamper['New'])
    return None


def short(x):
    return x


def exactly(a, b):
    return a == b


def values(rng, m, n):
    """Values to be parsed, and what to change before a serialization."""
    import mapry.naming as mn
    import contracts.naming as nm
    vals = conform.Values(rng, m, 'go')
    con = conform.Conform(m, 'go')
    for _ in range(n):
        v = vals.graph()
        if rng.random() < .3:
            v = vals.mutate(v)
        if not c11.decodable(v) or not isinstance(v, dict):
            continue
        tamper = None
        stored = [(c, i) for c in con.classes
                  if isinstance(v.get(con.registry_name[c]), dict)
                  for i in v[con.registry_name[c]]]
        if stored and rng.random() < .5:
            n, ident = rng.choice(stored)
            c = con.classes[n]
            plural = c['plural'] if 'plural' in c else nm.plural(n)
            tamper = dict(Registry=mn.ucamel_case(plural), ID=ident,
                          New=rng.choice(['other ' + ident,
                                          ident + ' ', 'x' + ident]))
        yield c11.as_json(v), tamper


def serialized(run, prog, good, n):
    cases = [c11.Case(i, m, v, '#', 10, tamper) for i, m in good
             for v, tamper in values(run.rng, m, n)]
    # those that conform
    table, out = c11.answers(prog, cases)
    keep = []
    for c, a in zip(cases, out):
        if not c11.Conform(c.m, table).graph(c.value, c.ref)[0]:
            keep.append((c, a))
    more = set()
    for c, a in keep:
        if a['Out'] is not None:
            con = c11.Conform(c.m, table)
            con.graph(a['Out'], '#')
            more |= set(con.asked)
    more = sorted(more)
    for q, x in zip(more, prog.run([dict(K=k, Pattern=p, Text=t)
                                    for k, p, t in more])):
        table[q] = x
    for c, a in keep:
        run.compare('generated Go serialization', c.inp(),
                    lambda c=c, a=a: judge(
                        lambda: c11.Conform(c.m, table), c, a),
                    lambda: None)


def bounded(run):
    rng = run.rng
    schemas = tv.cover('go')
    for _ in range(run.budget(60, 400)):
        schemas.append(c11.schema(rng, formats=c11.formats(rng)
                                  if rng.random() < .5 else None))
    with gogen.Program(tests=False) as prog:
        good = c11.compiled(run, prog, schemas)
        serialized(run, prog, good, run.budget(80, 300))


def checker(m, limit):
    from pv import gvgoser
    return gvgoser.GoSerCheck(m, common.generate(m, 'go'),
                              limit).verify_all()


def directed(run, ms):
    """Look for graphs that the code of these schemas serializes wrongly."""
    with gogen.Program(tests=False) as prog:
        good = c11.compiled(run, prog, ms)
        for _ in range(4):
            serialized(run, prog, good, 400)
            if run.failures:
                break


def extra_proofs(run):
    from pv import gosrc
    gosrc.tool()
    return tv.prove(run, 'to_jsonable.go', checker, c11.proved_schemas(run),
                    directed, run.budget(300, 3000),
                    ('durationToString', ))
