"""C04: language validation reports exactly the clashing identifiers."""
import collections
import itertools

RULE = ('bounded runs: every keyword of every language as the name of every '
        'kind of item, every pair of names that coincide after translation in '
        'every pair of places, random object graphs over such names; '
        'non-trivial = a distinct (language, object graph)')
TRUSTED = ['z3', 'the contract engine pv/']
ASSUMPTIONS = ['messages of the errors are not specified, only their '
               'references and their order',
               'the keywords of the specification (Python 3.12, Go 1, C++17 '
               'and the technical specifications listed by mapry) are those '
               'of the languages',
               'the names are the legal identifiers of a parsed schema; the '
               'contracts also cover names that the translation refuses']
EXPLANATION = ('The validation of every language and each of its helpers is '
               'proved equal to its specification for every object graph.')


def load_contracts():
    import contracts.langval as e
    return [f.contract.target for f in vars(e).values()
            if hasattr(getattr(f, 'contract', None), 'target') and
            f.__module__ == 'contracts.langval']


Spec = collections.namedtuple('Spec', 'graph classes embeds props plurals')


def build(spec):
    import mapry
    g = mapry.Graph()
    g.name = spec.graph
    g.description = 'd'
    g.ref = '#'
    g.classes = collections.OrderedDict()
    g.embeds = collections.OrderedDict()
    for i, n in enumerate(spec.classes):
        g.classes[n] = mapry.Class(n, spec.plurals.get(n, n + 's'), 'd',
                                   '#/classes/{}'.format(i))
    for i, n in enumerate(spec.embeds):
        g.embeds[n] = mapry.Embed(n, 'd', '#/embeds/{}'.format(i))
    for comp in [g] + list(g.classes.values()) + list(g.embeds.values()):
        key = '' if comp is g else comp.name
        for pn in spec.props.get(key, ()):
            comp.properties[pn] = mapry.Property(
                ref='{}/properties/{}'.format(comp.ref, pn), name=pn,
                a_type=mapry.Boolean(), description='d', json=pn,
                optional=False, composite=comp)
    return mapry.Schema(
        graph=g, cpp=mapry.Cpp(), go=mapry.Go(), py=mapry.Py())


def expected(spec, lang):
    """References of the items that must be reported."""
    import contracts.langval as lv
    import contracts.naming as nm
    kw = {'py': lv.PY_KEYWORDS, 'go': lv.GO_KEYWORDS,
          'cpp': lv.CPP_KEYWORDS}[lang]
    member = {'py': nm.py_as_attribute, 'cpp': nm.cpp_as_field,
              'go': nm.ucamel_case}[lang]
    comp = nm.ucamel_case
    refs = set()
    # one scope of the type names
    items = [(comp(spec.graph), '#')]
    items += [(comp(n), '#/classes/{}'.format(i))
              for i, n in enumerate(spec.classes)]
    items += [(comp(n), '#/embeds/{}'.format(i))
              for i, n in enumerate(spec.embeds)]
    reserved = set(kw)
    if lang == 'go':
        reserved |= {'Error', 'Errors', 'NewErrors'}
        for n, _ in items:
            reserved |= {n + 'FromJSONable', n + 'ToJSONable'}
    for i, (n, ref) in enumerate(items):
        if n in reserved or n in [x for x, _ in items[:i]]:
            refs.add(ref)
    # members
    scopes = [('', '#', ())]
    scopes += [(n, '#/classes/{}'.format(i), ('ID', ) if lang == 'go' else
                ('id', )) for i, n in enumerate(spec.classes)]
    scopes += [(n, '#/embeds/{}'.format(i), ())
               for i, n in enumerate(spec.embeds)]
    for key, ref, more in scopes:
        names = [member(p) for p in spec.props.get(key, ())]
        for i, p in enumerate(spec.props.get(key, ())):
            if names[i] in kw or names[i] in more or names[i] in names[:i]:
                refs.add('{}/properties/{}'.format(ref, p))
    # registries share the scope of the properties of the graph
    taken = [member(p) for p in spec.props.get('', ())]
    for i, n in enumerate(spec.classes):
        name = member(spec.plurals.get(n, n + 's'))
        if name in kw or name in taken:
            refs.add('#/classes/{}'.format(i))
        taken.append(name)
    return sorted(refs)


def check(run, spec):
    import importlib
    for lang in ('py', 'go', 'cpp'):
        mod = importlib.import_module('mapry.{}.validation'.format(lang))
        run.compare(
            'mapry.{}.validation.validate_schema'.format(lang),
            dict(spec._asdict()),
            lambda: sorted({e.ref for e in mod.validate_schema(
                schema=build(spec))}),
            lambda: expected(spec, lang))


def S(graph='Some_graph', classes=(), embeds=(), props=None, plurals=None):
    return Spec(graph, list(classes), list(embeds), props or {},
                plurals or {})


def upper(w):
    return w[0].upper() + w[1:]


def bounded(run):
    import contracts.langval as lv
    words = sorted(lv.PY_KEYWORDS | lv.GO_KEYWORDS | lv.CPP_KEYWORDS)
    words += ['id', 'ID', 'Id', 'iD', 'self', 'none', 'true', 'error',
              'errors', 'new_errors', 'newErrors', 'NewErrors', 'New_Errors',
              'x', 'ids', 'some_id', 'match', 'type_', '_if', 'str', 'print',
              'string', 'exec', 'any', 'i_d', 'I_D', 'alignas_', 'len', 'nil']
    for w in words:
        for v in dict.fromkeys([w, upper(w), w.upper(), w.lower()]):
            check(run, S(props={'': [v]}))
            check(run, S(classes=['Foo'], props={'Foo': ['a', v]}))
            check(run, S(embeds=['Foo'], props={'Foo': ['a', v]}))
            check(run, S(classes=['Foo'], plurals={'Foo': upper(v)}))
            check(run, S(classes=['Foo', 'Bar'], props={'': ['a', v]},
                         plurals={'Bar': upper(v)}))
            if v[0].isupper():
                check(run, S(graph=v))
                check(run, S(classes=['Foo', v]))
                check(run, S(embeds=['Foo', v]))
                check(run, S(classes=[v], embeds=['Foo']))
    # names that coincide after a translation, in every pair of places
    groups = [['Some_var', 'SomeVar', 'Some_Var', 'SOME_VAR', 'Some__var'],
              ['Foo', 'Foo_'], ['A_B', 'AB', 'A_b', 'Ab'],
              ['Foo_from_JSONable', 'FooFromJSONable', 'Foo', 'Foo_fromJSONable'],
              ['Foo_to_JSONable', 'FooToJSONable', 'Foo', 'Foo_to_jsonable'],
              ['Foos', 'Foo', 'foos', 'FOOS']]
    for group in groups:
        for a, b in itertools.permutations(group, 2):
            la, lb = a.lower(), b[0].lower() + b[1:]
            if b[0].isupper() and a[0].isupper():
                check(run, S(graph=a, classes=[b]))
                check(run, S(graph=a, embeds=[b]))
                check(run, S(classes=[a, b]))
                check(run, S(classes=[a], embeds=[b]))
                check(run, S(classes=['X', a], embeds=['Y', b]))
                check(run, S(embeds=[a, b]))
                check(run, S(classes=['X', 'Y'], plurals={'X': a, 'Y': b}))
                check(run, S(classes=['X', 'Z', 'Y'],
                             plurals={'X': a, 'Y': b}))
            for p, q in ((a, b), (la, lb), (a, lb), (la, b)):
                if p == q:
                    continue
                check(run, S(props={'': [p, 'x', q]}))
                check(run, S(classes=['F'], props={'F': [p, q, 'x']}))
                check(run, S(embeds=['F'], props={'F': [p, q]}))
                check(run, S(classes=['F'], props={'F': [p], '': [q]}))
                if q[0].isupper():
                    check(run, S(classes=['F'], props={'': [p]},
                                 plurals={'F': q}))
    pool = ['some_var', 'someVar', 'Some_var', 'SOME_VAR', 'id', 'ID', 'if',
            'a', 'b', 'a_b', 'aB', 'A_B', 'foo', 'foos', 'Foos', 'bars',
            'class', 'range', 'None', 'type', 'Errors']
    comps = ['Foo', 'FOO', 'Foo_', 'Bar', 'B_ar', 'BAr', 'None', 'Errors',
             'New_errors', 'Foo_to_JSONable', 'Bar_from_JSONable', 'Some',
             'Graph', 'A_B', 'AB', 'Some_graph', 'SomeGraph']
    for _ in range(run.budget(3000, 60000)):
        names = run.rng.sample(comps, run.rng.randint(1, 5))
        k = run.rng.randint(0, len(names) - 1)
        g, names = names[0], names[1:]
        props = {n: run.rng.sample(pool, run.rng.randint(0, 4))
                 for n in [''] + names}
        plurals = {n: upper(run.rng.choice(pool)) for n in names[:k]
                   if run.rng.random() < .6}
        check(run, S(g, names[:k], names[k:], props, plurals))
