"""Random well-formed schemas."""
import collections

PRIMITIVE = ['boolean', 'integer', 'float', 'string', 'path', 'date', 'time',
             'datetime', 'duration', 'time_zone']
COMPOSITES = ['Foo', 'Some_class', 'URL', 'X', 'Thing_2', 'Some_URL_thing',
              'Person', 'Matrix', 'Bus', 'Day', 'Big_life', 'Aa_B', 'Cherry',
              'Foos', 'FooX', 'Fo', 'Some_classy', 'Some', 'SomeClass2',
              'Persona', 'Thing', 'XX', 'URLs', 'MatrixEntry', 'Day_2']
PROPS = ['some_prop', 'URL', 'x', 'a_b', 'someThing', 'Count', 'n2', 'zip_Code',
         'is_ok', 'value_of', 'Some_Path', 'deep', 'w', 'q_q', 'Last_ID']
PATTERNS = ['^[a-z]+$', '^a.*b$', '^$', '^x{1,3}$', '^(/[a-z]+)+$', '^\\d$']
DATE_FORMATS = ['%Y-%m-%d', '%d.%m.%Y', '%m/%d/%y', 'on %d %b %Y', '%y%m%d']
TIME_FORMATS = ['%H:%M:%S', '%I %p', '%M:%S', '%H h', '%H%M']
DATETIME_FORMATS = ['%Y-%m-%dT%H:%M:%SZ', '%d/%m/%Y %H:%M', '%Y', '%H %d',
                    '%Y-%m-%d %H:%M:%S']


class Gen:
    def __init__(self, rng, langs=('cpp', 'go', 'py'), ordered=True,
                 formats=None, patterns=None, primitives=None, loose=False,
                 bias=None):
        self.r = rng
        # what the schema has a lot of: refs, patterns, arrays
        self.bias = bias
        self.langs = langs
        self.map = collections.OrderedDict if ordered else dict
        self.fmt = formats or (DATE_FORMATS, TIME_FORMATS, DATETIME_FORMATS)
        self.patterns = patterns or PATTERNS
        self.primitives = primitives or PRIMITIVE
        self.loose = loose

    def flip(self, p=.5):
        return self.r.random() < p

    def bounds(self, m, num):
        r = self.r
        lo, hi = sorted([num(), num()])
        if self.flip(.6):
            m['minimum'] = lo
        if self.flip(.4):
            m['exclusive_minimum'] = self.flip(.7)
        if self.flip(.6):
            m['maximum'] = hi + 3
        if self.flip(.4):
            m['exclusive_maximum'] = self.flip(.7)

    def type(self, names, depth=0):
        r = self.r
        m = self.map()
        x = r.random()
        if self.bias == 'refs' and names and r.random() < .6:
            m['type'] = r.choice(names)
            return m
        if self.bias == 'patterns' and r.random() < .6:
            m['type'] = r.choice(['string', 'path'])
            m['pattern'] = r.choice(self.patterns[:3])
            return m
        if self.bias == 'arrays' and r.random() < .4:
            x = 0
        if depth < 4 and x < .3:
            m['type'] = r.choice(['array', 'map'])
            m['values'] = self.type(names, depth + 1)
            if m['type'] == 'array':
                lo = r.randint(0, 2)
                if self.flip(.4):
                    m['minimum_size'] = lo
                if self.flip(.4):
                    m['maximum_size'] = lo + r.randint(0, 3)
            return m
        if names and x < .5:
            m['type'] = r.choice(names)
            return m
        t = m['type'] = r.choice(self.primitives)
        if t == 'integer':
            self.bounds(m, lambda: r.randint(-9, 9))
        elif t == 'float':
            self.bounds(m, lambda: r.choice([-1, 0, 2.5, -0.25, 7, 1e3]))
        elif t in ('string', 'path') and self.flip():
            m['pattern'] = r.choice(self.patterns)
        elif t in ('date', 'time', 'datetime') and self.flip():
            m['format'] = r.choice(
                self.fmt[['date', 'time', 'datetime'].index(t)])
        return m

    def prop(self, names):
        m = self.map()
        t = self.type(names)
        m['type'] = t['type']
        m['description'] = self.r.choice(
            ['is a property.', 'Is "a" \\ thing', '', 'two\n\nlines'])
        if self.flip(.3):
            m['optional'] = self.flip(.8)
        for k, v in t.items():
            m[k] = v
        if self.flip(.1):
            m.move_to_end('type', False) if hasattr(
                m, 'move_to_end') else None
        return m

    def properties(self, names, taken, registries=()):
        ps = self.map()
        for n in self.r.sample(PROPS, self.r.randint(0, 4)):
            p = self.prop(names)
            if n in registries:
                continue
            if self.flip(.25):
                j = n + self.r.choice(['_json', 'J', '-x', ' "y"'])
                p['json'] = j
            ps[n] = p
        return ps

    def schema(self):
        r = self.r
        names = r.sample(COMPOSITES, r.randint(0, 5))
        k = r.randint(0, len(names))
        m = self.map()
        m['name'] = 'Some_graph'
        m['description'] = r.choice(['defines a graph.', 'is it.',
                                     'has\nlines.', 'a.'])
        if 'cpp' in self.langs:
            m['cpp'] = {'namespace': r.choice(['some::graph', 'g']),
                        'path_as': r.choice(['std::filesystem::path',
                                             'boost::filesystem::path']),
                        'optional_as': r.choice([
                            'boost::optional', 'std::optional',
                            'std::experimental::optional']),
                        'datetime_library': r.choice(['ctime', 'date.h'])}
            if self.flip(.3):
                m['cpp']['indention'] = r.choice(['', '  ', '\t', '    '])
        if 'go' in self.langs:
            m['go'] = {'package': r.choice(['somegraph', 'x1'])}
        if 'py' in self.langs:
            m['py'] = {'module_name': r.choice(['some.graph', 'm']),
                       'path_as': r.choice(['str', 'pathlib.Path']),
                       'timezone_as': r.choice(['str', 'pytz.timezone'])}
            if self.flip(.3):
                m['py']['indention'] = r.choice(['  ', '\t', '    '])
        regs = []
        if k or self.flip(.2):
            m['classes'] = []
            for n in names[:k]:
                c = self.map()
                c['name'] = n
                if self.flip(.3):
                    c['plural'] = r.choice([
                        n + '_group', n + 'X', n + 'es', 'All_' + n.lower(),
                        'The_' + n.lower()])
                c['description'] = 'is a class.'
                if self.flip(.3):
                    c['id_pattern'] = r.choice(self.patterns)
                if self.flip(.8):
                    c['properties'] = self.properties(names, ())
                m['classes'].append(c)
                regs.append(c.get('plural', n + 's').lower())
        if k < len(names) or self.flip(.2):
            m['embeds'] = []
            for n in names[k:]:
                e = self.map()
                e['name'] = n
                e['description'] = 'is an embed.'
                if self.flip(.8):
                    # no cyclic embeds
                    later = names[:k] + names[names.index(n) + 1:]
                    e['properties'] = self.properties(later, ())
                m['embeds'].append(e)
        if self.flip(.85):
            m['properties'] = self.properties(names, (), regs)
        return m


def plain(x):
    """The same JSON value without a declared order."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


def nodes(x, path=()):
    """Every node of a JSON value with its path."""
    yield path, x
    if isinstance(x, dict):
        for k, v in x.items():
            yield from nodes(v, path + (k, ))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from nodes(v, path + (i, ))


def at(x, path):
    for p in path:
        x = x[p]
    return x
