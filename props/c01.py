"""C01: schema validation rejects exactly the ill-formed schemas."""
import collections
import copy
import json
import re

from props import schemagen

RULE = ('bounded runs: well-formed random schemas, every mutation of a '
        'position of some of them with values of every JSON type, grids over '
        'the constraints of every type; non-trivial = a distinct mapping')
TRUSTED = ['z3', 'the contract engine pv/',
           'jsonschema.validate accepts exactly the values that conform to '
           'the given JSON schema (the documented structure)',
           're.compile accepts exactly the valid patterns',
           'the lexer library splits a text as its rules say']
ASSUMPTIONS = ['numeric bounds are finite; infinite values and NaN are no '
               'JSON values',
               'the nesting of the schema is small enough for the call stack',
               'the order of the keys matters only for ordered mappings '
               '(schemas read from a file)',
               'messages of errors are not specified, only their references']
EXPLANATION = ('Every validation function is proved equal to its '
               'specification for every JSON value. validate() itself starts '
               'from an arbitrary JSON value; the helpers assume only the '
               'documented structure, which is discharged at their calls.')


def load_contracts():
    import contracts.validation as e
    return [f.contract.target for f in vars(e).values()
            if hasattr(getattr(f, 'contract', None), 'target') and
            f.__module__ == 'contracts.validation']


# ------------------------------------------- an oracle of its own, no library
def structure(x, schema, root, path=()):
    """Paths of the parts of x that lack the structure."""
    out = []
    if '$ref' in schema:
        s = root
        for part in schema['$ref'].split('/')[1:]:
            s = s[part]
        return structure(x, s, root, path)
    kinds = {'object': lambda: isinstance(x, dict),
             'array': lambda: isinstance(x, list),
             'string': lambda: isinstance(x, str),
             'boolean': lambda: isinstance(x, bool),
             'number': lambda: isinstance(x, (int, float)) and
             not isinstance(x, bool),
             'integer': lambda: not isinstance(x, bool) and
             isinstance(x, int)}
    if 'type' in schema and not kinds[schema['type']]():
        return [path]
    if 'pattern' in schema and isinstance(x, str):
        if re.search(schema['pattern'], x) is None:
            out.append(path)
    if 'enum' in schema and x not in schema['enum']:
        out.append(path)
    if 'minimum' in schema and isinstance(x, (int, float)):
        if x < schema['minimum']:
            out.append(path)
    if isinstance(x, dict):
        props = schema.get('properties', {})
        for k in schema.get('required', ()):
            if k not in x:
                out.append(path)
        for k, v in x.items():
            more = schema.get('additionalProperties', True)
            if k in props:
                out += structure(v, props[k], root, path + (k, ))
            elif more is False:
                out.append(path)
            elif more is not True:
                out += structure(v, more, root, path + (k, ))
    if isinstance(x, list) and 'items' in schema:
        for i, v in enumerate(x):
            out += structure(v, schema['items'], root, path + (i, ))
    return out


CONSTRAINTS = {
    'integer': ['minimum', 'maximum', 'exclusive_minimum',
                'exclusive_maximum'],
    'float': ['minimum', 'maximum', 'exclusive_minimum', 'exclusive_maximum'],
    'string': ['pattern'], 'path': ['pattern'], 'date': ['format'],
    'time': ['format'], 'datetime': ['format'],
    'array': ['values', 'minimum_size', 'maximum_size'], 'map': ['values']}

DATE_ONLY = set('aAwdbBmyYUjWxeuVGF')


def compiles(p):
    try:
        re.compile(p)
        return True
    except Exception:  # pylint: disable=broad-except
        return False


def bad_type(m, path, types, top):
    """Paths of the offending (nested) definitions."""
    from contracts.documented import TYPES
    name = m.get('type')
    if top and isinstance(m, collections.OrderedDict):
        keys = list(m)
        if keys[0] != 'type' or keys[1] != 'description':
            return [path]
    if not isinstance(name, str) or name not in types:
        return [path]
    out = []
    if name in TYPES:
        out += structure(m, TYPES[name], TYPES[name], path)
        if out:
            return out
    known = ['type', 'description'] + CONSTRAINTS.get(name, [])
    if top:
        known += ['json', 'optional']
    if set(m) - set(known):
        return [path]
    lo, hi = m.get('minimum'), m.get('maximum')
    if lo is not None and hi is not None:
        xl, xh = m.get('exclusive_minimum'), m.get('exclusive_maximum')
        if name == 'integer':
            # is there an integer within the bounds?
            lo, hi = lo + bool(xl), hi - bool(xh)
            bad = lo > hi
        else:
            bad = lo > hi or lo == hi and bool(xl or xh)
        if bad:
            out.append(path)
    if 'pattern' in m and not compiles(m['pattern']):
        out.append(path)
    if 'format' in m:
        import contracts.strftime as sf
        import contracts.validation as cv
        lines = cv.lines_of(m['format'])
        if lines is None:
            out.append(path)
        elif name == 'date' and sf.validate_date_tokens(lines) is not None:
            out.append(path)
        elif name == 'time' and sf.validate_time_tokens(lines) is not None:
            out.append(path)
    if name == 'array' and m.get('minimum_size', 0) > m.get(
            'maximum_size', float('inf')):
        out.append(path)
    if name in ('array', 'map') and not out:
        out += bad_type(m['values'], path + ('values', ), types, False)
    return out


LEGAL = re.compile(r'[a-zA-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?')


def problems(m):
    """(structural, {reference of an offending part})."""
    from contracts.documented import GRAPH
    import contracts.naming as nm
    out = structure(m, GRAPH, GRAPH)
    if out:
        return True, {text(p) for p in out}
    refs = set()
    if isinstance(m, collections.OrderedDict):
        keys = list(m)
        if keys[0] != 'name':
            refs.add('#/name')
        if keys[1] != 'description':
            refs.add('#/description')
    prim = set(schemagen.PRIMITIVE) | {'array', 'map'}
    names = []
    comps = [('#', m)]
    for kind in ('classes', 'embeds'):
        for i, c in enumerate(m.get(kind, ())):
            path = '#/{}/{}'.format(kind, i)
            if c['name'] in names + [m['name']]:
                refs.add(path + '/name')
            names.append(c['name'])
            comps.append((path, c))
            if kind == 'classes':
                if not compiles(c.get('id_pattern', '')):
                    refs.add(path + '/id_pattern')
                if 'id' in c.get('properties', ()):
                    refs.add(path + '/properties')
    # the object graph is not a type of a value
    types = (prim | set(names)) - {m['name']}
    for path, c in comps:
        for n, p in c.get('properties', {}).items():
            if LEGAL.fullmatch(n) is None:
                refs.add(path + '/properties')
            for q in bad_type(p, ('properties', n), types, True):
                refs.add(path + text(q)[1:])
    regs = {nm.plural(c['name']).lower() if 'plural' not in c else
            c['plural'].lower() for c in m.get('classes', ())}
    for n, p in m.get('properties', {}).items():
        if n in regs or p.get('json', n) in regs:
            refs.add('#/' + n)
    return False, refs


def text(path):
    return '/'.join(['#'] + [str(p) for p in path])


def under(ref, part):
    """The reference starts with the path of the part."""
    return ref == part or ref.startswith(part + '/')


def judge(m, errs):
    structural, parts = problems(m)
    refs = [e.ref for e in errs]
    out = []
    for r in refs:
        if not any(under(r, p) for p in parts):
            out.append('error without an offending part: {!r}'.format(r))
    if structural:
        if not refs:
            out.append('no error, offending: {}'.format(sorted(parts)))
        return out
    # one error for every offending name, class field and property
    items = {}
    for p in parts:
        items.setdefault(item(p), []).append(p)
    for i, ps in sorted(items.items()):
        if not any(under(r, p) for r in refs for p in ps):
            out.append('no error for {}'.format(i))
    return out


def item(part):
    """The property (or the field) a part belongs to."""
    bits = part.split('/')
    if 'properties' in bits:
        return '/'.join(bits[:bits.index('properties') + 2])
    return part


def check(run, m, note=''):
    import mapry.validation

    def real():
        before = json.dumps(m)
        errs = mapry.validation.validate(mapping=m, ref='#')
        assert json.dumps(m) == before, 'the mapping was changed'
        return judge(m, errs)

    run.compare('mapry.validation.validate', m, real, lambda: [])


OD = collections.OrderedDict


def with_prop(p, ordered=True, name='some_prop', where='graph', names=()):
    mk = OD if ordered else dict
    q = mk()
    if isinstance(p, dict):
        if 'type' in p:
            q['type'] = p['type']
        q['description'] = 'is a property.'
        for k, v in p.items():
            q[k] = v
    else:
        q = p
    ps = mk()
    ps[name] = q
    m = mk()
    m['name'] = 'Some_graph'
    m['description'] = 'defines it.'
    if where == 'graph':
        m['properties'] = ps
    else:
        c = mk()
        c['name'] = 'Holder'
        c['description'] = 'is a composite.'
        c['properties'] = ps
        m[where] = [c]
    for n in names:
        c = mk()
        c['name'] = n
        c['description'] = 'is a composite.'
        m.setdefault('embeds', []).append(c)
    return m


JUNK = [None, True, False, 0, -1, 1, 2, 1.5, 2.0, '', 'x', 'array', 'Foo',
        'Some_graph', [], [1], {}, {'type': 'integer'}, 'integer', '%Y', '%H',
        '%Q', '(', 'a\n', ['x'], {'a': 1}, '%', 'boolean', 'graph']
KEYS = ['type', 'description', 'optional', 'json', 'minimum', 'maximum',
        'exclusive_minimum', 'exclusive_maximum', 'pattern', 'format',
        'values', 'minimum_size', 'maximum_size', 'name', 'plural',
        'id_pattern', 'properties', 'classes', 'embeds', 'id', 'cpp', 'go',
        'py', 'unknown', '']
NAMES = ['a', 'A', 'a_', '_a', 'a b', 'a-b', '1a', 'a1', '', 'a\n', 'é', 'id',
         'ID', 'a__b', 'foos', 'Foos', 'FOOS', 'x' * 50, 'a.b', 'thing',
         'buses', 'a_1', '\u0130x']


def bounded(run):
    for x in JUNK:
        check(run, x)
    # constraints of the types
    nums = [None, -1, 0, 1, 2, 0.0, 0.5, 1.0, -0.5, 10**20]
    for t in ('integer', 'float'):
        for lo in nums:
            for hi in nums:
                for xl in (None, False, True):
                    for xh in (None, False, True):
                        p = {'type': t}
                        for k, v in (('minimum', lo), ('maximum', hi),
                                     ('exclusive_minimum', xl),
                                     ('exclusive_maximum', xh)):
                            if v is not None:
                                p[k] = v
                        near = lo is not None and hi is not None and \
                            abs(hi - lo) <= 1
                        if run.thorough or near or run.rng.random() < \
                                .3 or (xl is None and xh is None):
                            check(run, with_prop(p))
    for lo in (None, -1, 0, 1, 2, 1.0, 1.5):
        for hi in (None, -1, 0, 1, 2, 1.0, 0.5):
            for vals in ({'type': 'integer'}, {'type': 'Foo'}, {},
                         {'type': 'map', 'values': {'type': 'Some_graph'}}):
                p = {'type': 'array', 'values': vals}
                if lo is not None:
                    p['minimum_size'] = lo
                if hi is not None:
                    p['maximum_size'] = hi
                check(run, with_prop(p, names=('Foo', )))
    every = schemagen.PRIMITIVE + ['array', 'map', 'Foo', 'Bar', 'Some_graph']
    for t in every:
        for k in KEYS:
            for v in JUNK:
                p = {'type': t, k: v}
                if t in ('array', 'map'):
                    p.setdefault('values', {'type': 'date'})
                own = k in CONSTRAINTS.get(t, []) and isinstance(v, str)
                if run.thorough or own or run.rng.random() < .35:
                    m = with_prop(p, where=run.rng.choice(
                        ['graph', 'classes', 'embeds']), names=('Foo', ))
                    check(run, m)
                if run.thorough or run.rng.random() < .15:
                    q = {'type': 'map', 'values': {'type': 'array',
                                                   'values': p}}
                    check(run, with_prop(q, names=('Foo', )))
    for n in NAMES:
        for where in ('graph', 'classes', 'embeds'):
            check(run, with_prop({'type': 'integer'}, name=n, where=where))
            check(run, with_prop({'type': 'Zzz'}, name=n, where=where))
    for n in NAMES:
        for pl in (None, 'Foos', 'FOOS', 'A', n):
            c = OD([('name', 'Foo'), ('description', 'is a class.')])
            if pl is not None:
                c['plural'] = pl
            for j in (None, 'foos', 'x', 'a'):
                p = {'type': 'integer'}
                if j is not None:
                    p['json'] = j
                m = with_prop(p, name=n)
                m['classes'] = [c]
                check(run, m)
                if run.thorough:
                    check(run, schemagen.plain(m))
    # names of the composites
    comps = ['Foo', 'foo', 'Foo_', 'Foo Bar', 'Some_graph', 'FOO', 'Foo\n']
    for a in comps:
        for b in comps:
            for ka, kb in (('classes', 'classes'), ('classes', 'embeds'),
                           ('embeds', 'embeds')):
                m = with_prop({'type': 'integer'})
                for k, n in ((ka, a), (kb, b)):
                    m.setdefault(k, []).append(OD(
                        [('name', n), ('description', 'is it.')]))
                check(run, m)
    # a well-formed schema, mutated at every position
    n = 0
    while n < run.budget(2500, 60000):
        g = schemagen.Gen(run.rng, ordered=run.rng.random() < .7)
        m = g.schema()
        check(run, m)
        n += 1
        spots = list(schemagen.nodes(m))
        for _ in range(8):
            c = copy.deepcopy(m)
            for _ in range(run.rng.choice([1, 1, 1, 2, 3])):
                mutate(run.rng, c, spots)
            check(run, c)
            n += 1


def mutate(rng, m, spots):
    path, _ = rng.choice(spots)
    try:
        parent = schemagen.at(m, path[:-1]) if path else None
        node = schemagen.at(m, path)
    except (KeyError, IndexError, TypeError):
        return
    act = rng.randint(0, 5)
    if parent is not None and not isinstance(parent, (dict, list)):
        return
    if act == 0 and isinstance(node, dict):
        node[rng.choice(KEYS + NAMES)] = copy.deepcopy(rng.choice(JUNK))
    elif act == 1 and isinstance(node, collections.OrderedDict) and node:
        node.move_to_end(rng.choice(list(node)), rng.random() < .5)
    elif parent is None:
        return
    elif act == 2:
        if isinstance(parent, dict) and path[-1] in parent:
            del parent[path[-1]]
        elif isinstance(parent, list) and path[-1] < len(parent):
            del parent[path[-1]]
    elif act == 3 and isinstance(parent, list):
        parent.append(copy.deepcopy(node))
    elif act == 4:
        other, v = rng.choice(spots)
        if other and other[-1] == path[-1]:
            parent[path[-1]] = copy.deepcopy(v)
    else:
        parent[path[-1]] = copy.deepcopy(rng.choice(JUNK))
