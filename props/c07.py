"""C07: type queries see every type, at any nesting depth."""
import collections
import itertools

RULE = ('bounded runs: every chain of containers up to depth 4 around every '
        'type, every graph of 3 composites with every choice of one property '
        'type, random object graphs with cycles through classes and embeds; '
        'non-trivial = a distinct (query, graph)')
TRUSTED = ['z3', 'the contract engine pv/']
ASSUMPTIONS = ['the object graph is built of the classes of mapry and its '
               'attributes have the documented types (established by C02)',
               'types are compared by identity (no __eq__ is defined)',
               'iteration over a set is in some order; a sorted list of a '
               'set does not depend on it if the keys differ',
               'that the specified search with a set of visited types '
               'coincides with reachability is a graph argument outside the '
               'relational engine: it is checked by the bounded runs']
EXPLANATION = ('Every query is proved equal to its specification for every '
               'object graph; the specified search is compared with plain '
               'reachability over exhaustive small and random graphs.')
BOUNDED = ['needs_type/references == reachability']


def load_contracts():
    import contracts.types as e
    return [f.contract.target for f in vars(e).values()
            if hasattr(f, 'contract')]


def make_graph(classes, embeds, props):
    """Object graph; types are given as nested tuples."""
    import mapry
    g = mapry.Graph()
    g.name = 'Some_graph'
    g.description = 'd'
    g.ref = '#'
    g.classes = collections.OrderedDict()
    g.embeds = collections.OrderedDict()
    for i, name in enumerate(classes):
        g.classes[name] = mapry.Class(name, name + 's', 'd',
                                      '#/classes/{}'.format(i))
    for i, name in enumerate(embeds):
        g.embeds[name] = mapry.Embed(name, 'd', '#/embeds/{}'.format(i))

    def typ(t):
        if isinstance(t, str):
            if t in g.classes:
                return g.classes[t]
            if t in g.embeds:
                return g.embeds[t]
            if t in ('Date', 'Time', 'Datetime'):
                return getattr(mapry, t)('%H')
            return getattr(mapry, t)()
        if t[0] == 'Array':
            return mapry.Array(typ(t[1]))
        return mapry.Map(typ(t[1]))

    for name, ts in props.items():
        comp = g if name == '' else g.classes.get(name) or g.embeds[name]
        for i, t in enumerate(ts):
            pn = 'prop_{}'.format(i)
            comp.properties[pn] = mapry.Property(
                ref='{}/properties/{}'.format(comp.ref, pn), name=pn,
                a_type=typ(t), description='d', json=pn, optional=False,
                composite=comp)
    return g


PRIMS = ['Boolean', 'Integer', 'Float', 'String', 'Path', 'Date', 'Time',
         'Datetime', 'TimeZone', 'Duration']


def describe(t):
    if isinstance(t, str):
        return t
    return '{}({})'.format(t[0], describe(t[1]))


def children(t):
    import mapry
    if isinstance(t, mapry.Graph):
        return list(t.classes.values()) + list(t.embeds.values()) + [
            p.type for p in t.properties.values()]
    if isinstance(t, (mapry.Class, mapry.Embed)):
        return [p.type for p in t.properties.values()]
    if isinstance(t, (mapry.Array, mapry.Map)):
        return [t.values]
    return []


def reachable(start):
    seen = {}
    todo = list(start)
    while todo:
        t = todo.pop()
        if id(t) not in seen:
            seen[id(t)] = t
            todo.extend(children(t))
    return list(seen.values())


def occurrences(g):
    import mapry

    def of(t, ref):
        out = [(t, ref)]
        if isinstance(t, (mapry.Array, mapry.Map)):
            out += of(t.values, ref + '/values')
        return out

    out = []
    for comp in list(g.classes.values()) + list(g.embeds.values()) + [g]:
        for p in comp.properties.values():
            out += of(p.type, '{}/{}'.format(comp.ref, p.name))
    return out


def check_graph(run, spec):
    import mapry
    classes, embeds, props = spec
    g = make_graph(classes, embeds, props)
    shown = {'classes': classes, 'embeds': embeds,
             'properties': {k: [describe(t) for t in ts]
                            for k, ts in props.items()}}
    queries = [getattr(mapry, n) for n in PRIMS] + [
        mapry.Array, mapry.Map, mapry.Class, mapry.Embed, mapry.Graph]
    starts = [('graph', g)] + [(c.name, c) for c in g.classes.values()] + [
        (e.name, e) for e in g.embeds.values()]
    starts += [('graph.' + p.name, p.type) for p in g.properties.values()]
    for name, t in starts:
        inside = reachable([t])
        run.compare('mapry.needs_type', dict(shown, of=name),
                    lambda: [q.__name__ for q in queries
                             if mapry.needs_type(t, q) is True],
                    lambda: [q.__name__ for q in queries
                             if any(isinstance(x, q) for x in inside)])
    for name, t in starts[1:]:
        if not isinstance(t, (mapry.Class, mapry.Embed)):
            continue
        run.compare('mapry.references', dict(shown, of=name),
                    lambda: [c.name for c in mapry.references(t)],
                    lambda: sorted(c.name for c in reachable(children(t))
                                   if isinstance(c, mapry.Class)))
    run.compare('mapry.iterate_over_types', shown,
                lambda: [(id(t), ref) for t, ref in
                         mapry.iterate_over_types(g)],
                lambda: [(id(t), ref) for t, ref in occurrences(g)],
                same=lambda a, b: sorted(a) == sorted(b))


def nested(t, shape):
    for k in shape:
        t = (k, t)
    return t


def bounded(run):
    # chains
    shapes = [s for n in range(5) for s in itertools.product(
        ('Array', 'Map'), repeat=n)]
    for p in PRIMS + ['Cls', 'Emb']:
        for shape in shapes:
            t = nested(p, shape)
            check_graph(run, (['Cls'], ['Emb'], {'': [t]}))
            check_graph(run, (['Cls'], ['Emb', 'Foo'], {'Foo': [t]}))
            if len(shape) < 3:
                check_graph(run, (['Cls'], ['Emb', 'Foo'], {
                    'Cls': ['Integer', t], '': ['Foo'],
                    'Foo': [('Array', 'Cls')]}))
    # every graph of three composites with one or two properties
    options = ['Boolean', 'A', 'B', 'C', ('Array', 'A'), ('Map', 'B'),
               ('Map', ('Array', 'C'))]
    for kinds in itertools.product((0, 1), repeat=3):
        classes = [n for n, k in zip('ABC', kinds) if k == 0]
        embeds = [n for n, k in zip('ABC', kinds) if k == 1]
        for ts in itertools.product(options, repeat=3):
            check_graph(run, (classes, embeds,
                              {n: [t] for n, t in zip('ABC', ts)}))
            if run.rng.random() < .15:
                check_graph(run, (classes, embeds, dict(
                    [(n, [t, run.rng.choice(options)])
                     for n, t in zip('ABC', ts)], **{
                         '': [run.rng.choice(options)]})))
    names = ['Z', 'A', 'M', 'B', 'K', 'C']
    for _ in range(run.budget(600, 8000)):
        k = run.rng.randint(1, 6)
        own = names[:k]
        split = run.rng.randint(0, k)
        run.rng.shuffle(own)

        def rnd(depth=0):
            x = run.rng.random()
            if x < .3 and depth < 4:
                return (run.rng.choice(('Array', 'Map')), rnd(depth + 1))
            if x < .8:
                return run.rng.choice(own)
            return run.rng.choice(PRIMS)

        check_graph(run, (own[:split], own[split:], {
            n: [rnd() for _ in range(run.rng.randint(0, 3))]
            for n in own + ['']}))
