"""C02: an accepted schema is parsed into the object graph it describes."""
import collections
import copy
import json
import os
import pathlib
import re
import shutil
import tempfile

from props import c01, schemagen

RULE = ('bounded runs: random well-formed schemas, mutations of them at any '
        'position, grids over the constraints of every type, texts of schema '
        'files (broken at any place); non-trivial = a distinct mapping')
TRUSTED = ['z3', 'the contract engine pv/', 're.compile gives the pattern',
           'jsonschema.validate accepts exactly the conforming values',
           'json.load decodes JSON texts']
ASSUMPTIONS = ['numeric bounds are finite',
               'the nesting of the schema is small enough for the call stack',
               'files are encoded in the encoding of the locale',
               'the contracts of the helpers assume of a definition what '
               'validation guarantees (C01)']
BOUNDED = ['mapry.parse.schema_from_mapping (assembly of the helpers and the '
           'back references)', 'mapry.parse.schema_from_json_file']
EXPLANATION = ('The helpers that turn a definition into a type, a property '
               'table, a composite or the settings of a language are proved '
               'equal to their specification for every definition that '
               'validation accepts, at any nesting depth. The assembly of '
               'the graph and reading from files are bounded runs against an '
               'independent description of the graph.')


def load_contracts():
    import contracts.parse as e
    return [f.contract.target for f in vars(e).values()
            if hasattr(getattr(f, 'contract', None), 'target') and
            f.__module__ == 'contracts.parse' and
            not f.contract.target.startswith('spec:')]


OD = collections.OrderedDict


# ----------------------------------------------- what the mapping describes
def exact(x):
    """Numbers with their type of JSON number dropped, but not their value."""
    return x


def type_of(m, kinds):
    t = m['type']
    if t in ('integer', 'float'):
        return (t, m.get('minimum'), bool(m.get('exclusive_minimum', False)),
                m.get('maximum'), bool(m.get('exclusive_maximum', False)))
    if t in ('string', 'path'):
        return (t, m.get('pattern'))
    if t in ('date', 'time', 'datetime'):
        return (t, m.get('format', {
            'date': '%Y-%m-%d', 'time': '%H:%M:%S',
            'datetime': '%Y-%m-%dT%H:%M:%SZ'}[t]))
    if t == 'array':
        return (t, type_of(m['values'], kinds), m.get('minimum_size'),
                m.get('maximum_size'))
    if t == 'map':
        return (t, type_of(m['values'], kinds))
    if t in ('boolean', 'time_zone', 'duration'):
        return (t, )
    return (kinds[t], t)


def props_of(ms, ref, owner, kinds):
    items = list(ms.items())
    if not isinstance(ms, OD):
        items = sorted(items, key=lambda kv: kv[0])
    return [(n, dict(ref='{}/{}'.format(ref, n), name=n,
                     description=m['description'], json=m.get('json', n),
                     optional=m.get('optional', False), owner=owner,
                     type=type_of(m, kinds))) for n, m in items]


def describe(m, ref):
    import contracts.naming as nm
    kinds = {}
    for kind, key in (('embed', 'embeds'), ('class', 'classes')):
        for c in m.get(key, ()):
            kinds[c['name']] = kind
    out = dict(name=m['name'], description=m['description'], ref=ref,
               classes=[], embeds=[],
               properties=props_of(m.get('properties', OD()), ref,
                                   ('graph', m['name']), kinds))
    for i, c in enumerate(m.get('classes', ())):
        r = '{}/classes/{}'.format(ref, i)
        out['classes'].append((c['name'], dict(
            name=c['name'], plural=c.get('plural', nm.plural(c['name'])),
            description=c['description'], ref=r,
            id_pattern=c.get('id_pattern'),
            properties=props_of(c.get('properties', OD()), r,
                                ('class', c['name']), kinds))))
    for i, c in enumerate(m.get('embeds', ())):
        r = '{}/embeds/{}'.format(ref, i)
        out['embeds'].append((c['name'], dict(
            name=c['name'], description=c['description'], ref=r,
            properties=props_of(c.get('properties', OD()), r,
                                ('embed', c['name']), kinds))))
    for lang, keys in (
            ('cpp', ('namespace', 'path_as', 'optional_as',
                     'datetime_library', 'indention')),
            ('go', ('package', )),
            ('py', ('module_name', 'path_as', 'timezone_as', 'indention'))):
        if lang not in m:
            out[lang] = None
            continue
        default = {'cpp': '  ', 'py': '    '}.get(lang)
        out[lang] = {k: m[lang].get(k, default) for k in keys}
    return out


# --------------------------------------------------- what the object graph is
def pattern(p):
    if p is None:
        return None
    if not isinstance(p, re.Pattern) or p.flags & ~re.UNICODE:
        return 'no plain pattern'
    return p.pattern


def seen_type(t, graph):
    import mapry
    k = type(t)
    if k is mapry.Integer or k is mapry.Float:
        return ('integer' if k is mapry.Integer else 'float', t.minimum,
                t.exclusive_minimum, t.maximum, t.exclusive_maximum)
    if k is mapry.String or k is mapry.Path:
        return ('string' if k is mapry.String else 'path', pattern(t.pattern))
    for cls, name in ((mapry.Date, 'date'), (mapry.Time, 'time'),
                      (mapry.Datetime, 'datetime')):
        if k is cls:
            return (name, t.format)
    if k is mapry.Array:
        return ('array', seen_type(t.values, graph), t.minimum_size,
                t.maximum_size)
    if k is mapry.Map:
        return ('map', seen_type(t.values, graph))
    for cls, name in ((mapry.Boolean, 'boolean'), (mapry.TimeZone,
                                                   'time_zone'),
                      (mapry.Duration, 'duration')):
        if k is cls:
            return (name, )
    # the very class or embed of the graph
    for name, c in graph.classes.items():
        if c is t:
            return ('class', name)
    for name, c in graph.embeds.items():
        if c is t:
            return ('embed', name)
    return ('not in the graph', repr(t))


def seen_props(comp, graph, kind):
    out = []
    for n, p in comp.properties.items():
        out.append((n, dict(
            ref=p.ref, name=p.name, description=p.description, json=p.json,
            optional=p.optional,
            owner=(kind, comp.name) if p.composite is comp else 'other',
            type=seen_type(p.type, graph))))
    return out


def seen(schema):
    g = schema.graph
    out = dict(name=g.name, description=g.description, ref=g.ref,
               classes=[(n, dict(name=c.name, plural=c.plural,
                                 description=c.description, ref=c.ref,
                                 id_pattern=pattern(c.id_pattern),
                                 properties=seen_props(c, g, 'class')))
                        for n, c in g.classes.items()],
               embeds=[(n, dict(name=c.name, description=c.description,
                                ref=c.ref,
                                properties=seen_props(c, g, 'embed')))
                       for n, c in g.embeds.items()],
               properties=seen_props(g, g, 'graph'))
    for lang, keys in (
            ('cpp', ('namespace', 'path_as', 'optional_as',
                     'datetime_library', 'indention')),
            ('go', ('package', )),
            ('py', ('module_name', 'path_as', 'timezone_as', 'indention'))):
        s = getattr(schema, lang)
        out[lang] = None if s is None else {k: getattr(s, k) for k in keys}
    return out


def same(a, b):
    """Equality; numbers by value, truth values only equal themselves."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


class Refused(Exception):
    """The errors of the validation."""


def check(run, m, valid=None):
    import mapry.parse
    import mapry.validation
    structural, parts = c01.problems(m)
    ok = not structural and not parts

    def real():
        n = copy.deepcopy(m)
        try:
            s = mapry.parse.schema_from_mapping(mapping=n, ref='x#')
        except mapry.validation.SchemaError as err:
            errs = mapry.validation.validate(mapping=m, ref='x#')
            lines = str(err)
            for e in errs:
                assert e.ref in lines, 'an error was lost'
            raise Refused()
        assert n == m, 'the mapping was changed'
        return seen(s)

    def spec():
        if not ok:
            raise Refused()
        return describe(m, 'x#')

    run.compare('mapry.parse.schema_from_mapping', m, real, spec, same=same)


def check_file(run, scratch, text):
    import mapry.parse
    import mapry.validation
    path = pathlib.Path(scratch) / 'schema.json'
    path.write_text(text)

    def real():
        try:
            s = mapry.parse.schema_from_json_file(path)
        except (mapry.validation.SchemaError, RuntimeError) as err:
            if isinstance(err, RecursionError):
                raise
            if str(path) not in str(err):
                return 'an error without the file'
            raise Refused()
        return seen(s)

    def spec():
        try:
            m = json.loads(text, object_pairs_hook=OD)
        except json.JSONDecodeError:
            raise Refused()
        if c01.problems(m)[0] or c01.problems(m)[1]:
            raise Refused()
        return describe(m, '{}#'.format(path))

    run.compare('mapry.parse.schema_from_json_file', text, real, spec,
                same=same)


def bounded(run):
    rng = run.rng
    for x in c01.JUNK:
        check(run, x)
    nums = [None, -1, 0, 2, 0.0, 0.5, 3.0, -0.5, 10**20, 1e300]
    for t in ('integer', 'float'):
        for lo in nums:
            for hi in nums:
                for xl, xh in ((None, None), (True, None), (False, True),
                               (True, False), (True, True)):
                    p = {'type': t}
                    for k, v in (('minimum', lo), ('maximum', hi),
                                 ('exclusive_minimum', xl),
                                 ('exclusive_maximum', xh)):
                        if v is not None:
                            p[k] = v
                    if run.thorough or lo is None or hi is None or \
                            rng.random() < .4:
                        check(run, c01.with_prop(p))
    for t in schemagen.PRIMITIVE + ['array', 'map', 'Foo']:
        for where in ('graph', 'classes', 'embeds'):
            for more in ({}, {'optional': True}, {'optional': False},
                         {'json': 'x y'}, {'pattern': '^(a|b)\\d$'},
                         {'format': '%d.%m.%Y'}, {'format': '%H:%M'},
                         {'format': '%Y-%m-%d %H:%M:%S'}, {'format': ''},
                         {'minimum_size': 0}, {'maximum_size': 3},
                         {'minimum_size': 2, 'maximum_size': 2},
                         {'description': 'x'}):
                for wrap in (0, 1, 2):
                    p = {'type': t}
                    if t in ('array', 'map'):
                        p['values'] = {'type': 'date', 'format': '%Y'}
                    if wrap:
                        p.update({k: v for k, v in more.items()
                                  if k not in ('optional', 'json')})
                    else:
                        p.update(more)
                    for _ in range(wrap):
                        p = {'type': rng.choice(['array', 'map']),
                             'values': p}
                    check(run, c01.with_prop(
                        p, ordered=rng.random() < .7, where=where,
                        names=('Foo', )))
    n = 0
    while n < run.budget(2500, 50000):
        g = schemagen.Gen(rng, ordered=rng.random() < .8,
                          langs=rng.sample(['cpp', 'go', 'py'],
                                           rng.randint(0, 3)))
        m = g.schema()
        check(run, m)
        n += 1
        spots = list(schemagen.nodes(m))
        for _ in range(2):
            c = copy.deepcopy(m)
            c01.mutate(rng, c, spots)
            check(run, c)
            n += 1
    scratch = tempfile.mkdtemp(prefix='mapry-c02-')
    try:
        for t in ('', '\n', '\n\n', '{', '{\n', '{"a": 1}\n}', '[1,\n', 'x',
                  ' ', '{"name": "A",\n', '"', '[' + '1,' * 90, '{}\n\n',
                  '{"name": "A", "description": "is.",\n\n\n', '\r\n',
                  '{\r', '{\n\x0b\n', '\u2028', '{\u2028"a"\n', '{"a"\x0c'):
            check_file(run, scratch, t)
        for _ in range(run.budget(120, 3000)):
            m = schemagen.Gen(rng).schema()
            text = json.dumps(m, indent=rng.choice([None, 1, 2]))
            check_file(run, scratch, text)
            for _ in range(3):
                i = rng.randint(0, len(text))
                act = rng.randint(0, 2)
                if act == 0:
                    t = text[:i]
                elif act == 1:
                    t = text[:i] + rng.choice('{}[],:"\n 1x') + text[i:]
                else:
                    t = text[:i] + text[i + 1:]
                check_file(run, scratch, t + rng.choice(['', '\n', '\n\n']))
    finally:
        shutil.rmtree(os.path.abspath(scratch))
