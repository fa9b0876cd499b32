"""C10: generated Python serialization inverts generated Python parsing."""
import collections
import copy
import json

from props import c09, common, conform, pygen, schemagen, tv

RULE = ('bounded runs: generated Python code of random schemas (all types, '
        'constraints, nesting, settings): random conforming JSON values are '
        'parsed, serialized and parsed again; non-trivial = a distinct '
        '(schema, value)')
TRUSTED = ['the verifier pv/gv.py (symbolic execution of the generated '
           'Python) and z3', 'the contracts of the schema types and of the '
           'natives in pv/gvpy.py and pv/gvpyser.py', 'the oracle '
           'props/conform.py (bounded runs)',
           'CPython: datetime, re, pytz, pathlib']
ASSUMPTIONS = [
    'the proofs are about the code generated for the schemas listed in the '
    'evidence (every type in every position, and random schemas), for all '
    'object graphs that conforming values denote; not about all schemas at '
    'once',
    'natives invert each other on what they parse: strptime(strftime(x)) = x '
    'and is accepted, pathlib.Path(str(p)) = p, pytz.timezone(str(z)) = z '
    '(assumed in the lemmas, checked by the bounded runs); known findings '
    '(years before 1000, %z and %Z) are exceptions to it',
    'patterns match as by re.match',
    'with pathlib.Path, paths with patterns are given in normal form']
BOUNDED = ['the inverse natives: strftime, pathlib, pytz, float']
EXPLANATION = (
    'Contracts on every function of the generated tojsonable modules: '
    'serialize_X returns a mapping with exactly the properties that are set, '
    'under their JSON names and with the serialization of their type, plus '
    'the non-empty registries with every instance under its identifier, '
    'leaves the object unchanged, and raises (ValueError) only if an '
    'identifier differs, and then always; _duration_to_string returns a text '
    'of the grammar that denotes the duration. Lemmas per composite, over '
    'these contracts and those of the parsers (C09), show that what is '
    'serialized conforms and denotes the graph again. The functions are '
    'executed symbolically (loops by invariants, no bound) on the text that '
    'the generators of the current tree produce on every run, and z3 '
    'discharges every obligation. Where an obligation fails, a failing graph '
    'is searched with the generated code itself.')
TECHNIQUE = ('deductive verification (symbolic execution with contracts, loop '
             'invariants and lemmas, z3) of the generated Python code, for a '
             'family of schemas; bounded runs for what the natives do')
LEVEL = "translation_validation"


def serialize(pkg, g, ordered):
    import mapry.py.naming as pn
    f = getattr(pkg.tojsonable, 'serialize_' + pn.as_variable(pkg.m['name']))
    return f(g, ordered=ordered)


def keys(con, canon, out, ref='#'):
    """Differences between the expected and the actual keys."""
    probs = []

    def comp(c, x, y, at, more=()):
        want = {p.get('json', n) for n, p in c.get('properties', {}).items()
                if n in x} | set(more)
        if set(y) != want:
            probs.append('keys at {}: {} instead of {}'.format(
                at, sorted(y), sorted(want)))
            return
        for n, p in c.get('properties', {}).items():
            if n in x:
                val(p, x[n], y[p.get('json', n)], at + '/' + n)

    def val(t, x, y, at):
        if t['type'] == 'array':
            for i, z in enumerate(x[1]):
                val(t['values'], z, y[i], '{}/{}'.format(at, i))
        elif t['type'] == 'map':
            for k in x[1]:
                val(t['values'], x[1][k], y[k], '{}/{}'.format(at, k))
        elif t['type'] in con.embeds:
            comp(con.embeds[t['type']], x[1], y, at)

    _, props, regs = canon
    comp(con.m, props, out, ref,
         [con.registry_name[n] for n in regs if regs[n]])
    if not probs:
        for n, instances in regs.items():
            for i, x in instances.items():
                comp(con.classes[n], x, out[con.registry_name[n]][i],
                     '{}/{}/{}'.format(ref, n, i))
    return probs


def judge(con, pkg, value, ordered, tamper):
    refs, g = c09.parse(pkg, value, '#', 10)
    if g is None:
        return 'conforming value not parsed: {}'.format(refs)
    denoted = pygen.denotation(con, pkg, g)
    exact = pygen.denotation(con, pkg, g, exact=True)
    out = serialize(pkg, g, ordered)
    want = collections.OrderedDict if ordered else dict
    if type(out) is not want:
        return 'a {} instead of a {}'.format(type(out), want)
    if pygen.denotation(con, pkg, g, exact=True) != exact:
        return 'the graph was changed'
    bad, got = con.graph(out, '#')
    if bad:
        return 'serialized as {}, which does not conform: {}'.format(
            out, sorted(bad))
    if not conform.same(denoted, got):
        return 'serialized as {}, which denotes another graph'.format(out)
    probs = keys(con, denoted, out)
    if probs:
        return probs[0]
    text = json.dumps(out)
    for again in (out, json.loads(text)):
        refs, g2 = c09.parse(pkg, again, '#', 10)
        if g2 is None:
            return 'serialized as {}, which is not parsed: {}'.format(
                again, refs)
        if pygen.denotation(con, pkg, g2, exact=True) != exact:
            return 'serialized as {}, which is parsed as another ' \
                'graph'.format(again)
    if tamper:
        import mapry.py.naming as pn
        n, i = tamper
        x = registry(con, g, n)[i]
        for other in ('other ' + i, '', i + ' '):
            x.id = other
            if other == i:
                continue
            try:
                serialize(pkg, g, ordered)
            except ValueError:
                continue
            return 'an instance stored under {!r} with the identifier ' \
                '{!r} was serialized'.format(i, other)
    return None


def registry(con, g, n):
    import contracts.naming as nm
    import mapry.py.naming as pn
    c = con.classes[n]
    plural = c['plural'] if 'plural' in c else nm.plural(n)
    return getattr(g, pn.as_attribute(plural))


def probes():
    """Inputs of the known findings."""
    t, p = common.typ, common.prop
    zone = 'a time zone in the format of a date or time'
    for key, a_type, text in [
            ('a year before 1000', t('date'), '0999-12-31'),
            ('a year before 1000', t('datetime'), '0001-01-01T00:00:00Z'),
            (zone, t('date', format='%Y-%m-%d %z'), '2000-01-01 +0100'),
            (zone, t('time', format='%H:%M %z'), '12:30 +0100'),
            (zone, t('date', format='%Y-%m-%d %Z'), '2000-01-01 UTC'),
            (zone, t('time', format='%H:%M %Z'), '12:30 UTC'),
            (zone, t('datetime', format='%Y-%m-%d %H:%M %Z'),
             '2000-01-01 12:30 UTC')]:
        yield key, common.graph([('x', p(a_type))], cpp=False,
                                go=False), {'x': text}


def probe(run, key, m, value):
    """A known finding."""
    run.count('generated tojsonable', (json.dumps(m), value))
    pkg = pygen.load(run, m)
    try:
        r = judge(conform.Conform(m, 'py'), pkg, value, False, None)
    except Exception as e:  # pylint: disable=broad-except
        r = 'raises {}: {}'.format(type(e).__name__, e)
    if r is not None:
        run.fail('generated tojsonable: ' + key,
                 repr((json.dumps(m), value)), 'None', r,
                 'generated tojsonable')


def check(run, m, pkg, value, ordered, tamper):
    con = conform.Conform(m, 'py')
    inp = (json.dumps(m), json.dumps(value), ordered)
    run.compare('generated tojsonable', inp,
                lambda: judge(con, pkg, value, ordered, tamper),
                lambda: None)


def path_pattern(m):
    """Does a path have a pattern?"""
    return any(isinstance(x, dict) and x.get('type') == 'path' and
               'pattern' in x for _, x in schemagen.nodes(m))


def bounded(run):
    rng = run.rng
    for key, m, v in probes():
        probe(run, key, m, v)
    for _ in range(run.budget(300, 4000)):
        m = c09.schema(rng, formats=conform.formats(rng)
                       if rng.random() < .5 else None)
        pkg = pygen.load(run, m)
        if pkg is None:
            continue
        for _ in range(run.budget(16, 60)):
            tries(run, m, pkg, rng)


def tries(run, m, pkg, rng):
    """A random conforming value."""
    vals = conform.Values(rng, m, 'py')
    con = conform.Conform(m, 'py')
    v = vals.graph()
    if rng.random() < .3:
        v = vals.mutate(v)
    if rng.random() < .3:
        v = c09.ordered(v)
    bad, _ = con.graph(v, '#')
    if bad or con.denormal and path_pattern(m):
        return
    stored = [(n, i) for n in con.classes
              for i in v.get(con.registry_name[n], ())]
    tamper = rng.choice(stored) if stored and rng.random() < .5 else None
    check(run, m, pkg, v, rng.random() < .5, tamper)


def checker(m, limit):
    from pv import gvpyser
    return gvpyser.SerCheck(m, common.generate(m, 'py'), limit).verify_all()


def directed(run, ms):
    """Look for a graph that the code of these schemas serializes wrongly."""
    for m in ms:
        directed_at(run, m)


def directed_at(run, m):
    rng = run.rng
    pkg = pygen.load(run, m)
    if pkg is None:
        return
    n = len(run.failures)
    for _ in range(400):
        tries(run, m, pkg, rng)
        if len(run.failures) > n + 20:
            break


def extra_proofs(run):
    return tv.prove(run, 'tojsonable', checker, c09.proved_schemas(run),
                    directed, run.budget(300, 3000),
                    ('_duration_to_string', ))
