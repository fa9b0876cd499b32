"""What a JSON value denotes according to a schema: an oracle independent of
the generators.

`Conform(schema, lang).graph(value, ref)` gives the set of references of the
offending parts of the value (empty if the value conforms) and, if it
conforms, the canonical object graph it denotes.
"""
import datetime
import fractions
import math
import pathlib
import re

DEFAULT_FORMAT = {'date': '%Y-%m-%d', 'time': '%H:%M:%S',
                  'datetime': '%Y-%m-%dT%H:%M:%SZ'}

# directives unknown to strptime, and those that read the same text
SAME_TEXT = {'%e': '%d', '%l': '%I', '%P': '%p'}

DURATION = re.compile(
    r'([+-])?P(?:(\d+(?:\.\d+)?)Y)?(?:(\d+(?:\.\d+)?)M)?(?:(\d+(?:\.\d+)?)W)?'
    r'(?:(\d+(?:\.\d+)?)D)?(?:T(?:(\d+(?:\.\d+)?)H)?(?:(\d+(?:\.\d+)?)M)?'
    r'(?:(\d+)(?:\.(\d+))?S)?)?\Z', re.ASCII)
SECONDS = [fractions.Fraction(x) for x in
           (31556952, 2629746, 604800, 86400, 3600, 60)]


class Bad(Exception):
    pass


def exact_duration(text, digits):
    """Exact number of seconds, or None if the text is not a duration."""
    m = DURATION.match(text)
    if not m:
        return None
    for g in m.groups()[1:8]:
        if g and len(g) > 1 and g[0] == '0' and g[1] != '.':
            return None
    if m.group(9) and len(m.group(9)) > digits:
        return None
    total = fractions.Fraction(0)
    for g, s in zip(m.groups()[1:7], SECONDS):
        if g:
            total += fractions.Fraction(g) * s
    if m.group(8):
        total += int(m.group(8))
    if m.group(9):
        total += fractions.Fraction(int(m.group(9)), 10 ** len(m.group(9)))
    return -total if m.group(1) == '-' else total


class Conform:
    def __init__(self, m, lang, key=None, quirks=()):
        # quirks: known findings that are taken for granted
        self.quirks = set(quirks)
        self.used = set()
        self.m = m
        self.lang = lang
        self.classes = {c['name']: c for c in m.get('classes', ())}
        self.embeds = {c['name']: c for c in m.get('embeds', ())}
        self.registry_name = {}
        import contracts.naming as nm
        for n, c in self.classes.items():
            plural = c['plural'] if 'plural' in c else nm.plural(n)
            self.registry_name[n] = plural.lower()
        # how a key of a map or a registry is written in a reference
        self.key = key or (repr if lang == 'py' else (lambda x: x))
        self.bad = set()
        self.ids = {}

    def quirk(self, name):
        if name in self.quirks:
            self.used.add(name)
            return True
        return False

    # ------------------------------------------------------------ entry
    def graph(self, value, ref):
        self.bad = set()
        self.used = set()
        # a path that is not in normal form
        self.denormal = False
        self.crashes = []
        self.ids = {n: [] for n in self.classes}
        if not isinstance(value, dict):
            return {ref}, None
        out = {}
        for n, c in self.classes.items():
            reg = self.registry_name[n]
            if reg in value:
                x = value[reg]
                at = ref + '/' + reg
                if not isinstance(x, dict):
                    self.bad.add(at)
                    if x is None and self.quirk('null as a registry'):
                        self.crashes.append('AttributeError')
                    continue
                for i in x:
                    if 'id_pattern' in c and not self.match(
                            c['id_pattern'], i):
                        self.bad.add(at)
                        self.bad.add(at + '/' + self.key(i))
                    self.ids[n].append(i)
        regs = {}
        for n, c in self.classes.items():
            reg = self.registry_name[n]
            x = value.get(reg, {})
            regs[n] = {}
            if isinstance(x, dict):
                for i, v in x.items():
                    regs[n][i] = self.composite(
                        c, v, ref + '/' + reg + '/' + self.key(i))
        out = self.composite(self.m, value, ref)
        if self.bad:
            return self.bad, None
        return set(), ('graph', out, regs)

    def composite(self, c, value, ref):
        if not isinstance(value, dict):
            self.bad.add(ref)
            return None
        out = {}
        for n, p in c.get('properties', {}).items():
            j = p.get('json', n)
            absent = j not in value
            if self.lang == 'py' and not absent and value[j] is None:
                absent = True
            if absent:
                if not p.get('optional', False):
                    self.bad.add(ref)
                continue
            x = self.value(p, value[j], ref + '/' + j)
            out[n] = x
        return out

    def match(self, pattern, text):
        """Does the text match according to the language?"""
        if self.lang == 'py':
            return re.match(pattern, text) is not None
        if self.lang == 'go':
            return re.search(pattern.replace('$', r'\Z'), text) is not None
        return re.fullmatch(pattern, text) is not None

    def value(self, t, v, ref):
        try:
            return getattr(self, 'v_' + t['type'], self.v_named)(t, v, ref)
        except Bad:
            self.bad.add(ref)
            return None

    # ------------------------------------------------------- primitives
    def v_boolean(self, t, v, ref):
        if not isinstance(v, bool):
            raise Bad
        return ('bool', v)

    def bounds(self, t, v):
        if 'minimum' in t:
            if t.get('exclusive_minimum', False):
                if not v > t['minimum']:
                    raise Bad
            elif not v >= t['minimum']:
                raise Bad
        if 'maximum' in t:
            if t.get('exclusive_maximum', False):
                if not v < t['maximum']:
                    raise Bad
            elif not v <= t['maximum']:
                raise Bad

    def v_integer(self, t, v, ref):
        if isinstance(v, bool) and not self.quirk('a boolean as a number'):
            raise Bad
        if self.lang == 'py':
            if not isinstance(v, int):
                raise Bad
        elif self.lang == 'go':
            # encoding/json knows only float64
            if not isinstance(v, (int, float)):
                raise Bad
            v = float(v)
            if v != math.floor(v) or not -2.0**63 <= v < 2.0**63:
                raise Bad
            v = int(v)
        else:
            # jsoncpp: integral values are integers
            if not isinstance(v, (int, float)):
                raise Bad
            if isinstance(v, float):
                if v != math.floor(v):
                    raise Bad
                v = int(v)
            if not -2**63 <= v < 2**63:
                raise Bad
        self.bounds(t, v)
        return ('int', v)

    def v_float(self, t, v, ref):
        if not isinstance(v, (int, float)) or isinstance(
                v, bool) and not self.quirk('a boolean as a number'):
            raise Bad
        try:
            f = float(v)
        except OverflowError:
            if self.quirk('an integer beyond the range of floats'):
                self.crashes.append('OverflowError')
            raise Bad
        self.bounds(t, f)
        return ('float', f)

    def v_string(self, t, v, ref):
        if not isinstance(v, str):
            raise Bad
        if 'pattern' in t and not self.match(t['pattern'], v):
            raise Bad
        return ('str', v)

    def v_path(self, t, v, ref):
        _, s = self.v_string(t, v, ref)
        if self.lang == 'py' and self.m['py']['path_as'] == 'pathlib.Path':
            if str(pathlib.PurePosixPath(s)) != s:
                self.denormal = True
            return ('path', str(pathlib.PurePosixPath(s)))
        return ('path', s)

    def strptime(self, t, v):
        if not isinstance(v, str):
            raise Bad
        fmt = t.get('format', DEFAULT_FORMAT[t['type']])
        fmt = re.sub('%.', lambda x: SAME_TEXT.get(x.group(), x.group()), fmt)
        try:
            return datetime.datetime.strptime(v, fmt)
        except ValueError:
            raise Bad
        except re.error:
            if self.quirk('a format that repeats a directive'):
                self.crashes += ['error', 'PatternError']
            # the texts of the repeated directive would have to agree
            raise Bad

    def v_date(self, t, v, ref):
        d = self.strptime(t, v)
        return ('date', d.year, d.month, d.day)

    def v_time(self, t, v, ref):
        d = self.strptime(t, v)
        return ('time', d.hour, d.minute, d.second)

    def v_datetime(self, t, v, ref):
        d = self.strptime(t, v)
        return ('datetime', d.year, d.month, d.day, d.hour, d.minute,
                d.second)

    def v_time_zone(self, t, v, ref):
        if not isinstance(v, str):
            raise Bad
        if self.lang == 'py' and self.m['py']['timezone_as'] != 'str':
            # as pytz.timezone
            if v.upper() == 'UTC':
                v = 'UTC'
            if v not in zones():
                raise Bad
        if self.lang == 'go':
            # as time.LoadLocation
            if v not in ZONES:
                raise Bad
        return ('tz', v)

    def v_duration(self, t, v, ref):
        if not isinstance(v, str):
            raise Bad
        x = exact_duration(v, 6 if self.lang == 'py' else 9)
        if x is None and v.endswith('\n') and self.lang == 'py':
            x = exact_duration(v[:-1], 6)
            if x is not None and not self.quirk(
                    'a newline after a duration'):
                x = None
        if x is None:
            raise Bad
        if self.lang == 'py':
            if abs(x) > 999999999 * 86400:
                raise Bad
            return ('duration', float(x))
        if abs(x) * 10 ** 9 >= 2 ** 63:
            raise Bad
        return ('duration', float(x))

    # ------------------------------------------------------- aggregates
    def v_array(self, t, v, ref):
        if not isinstance(v, list):
            raise Bad
        if 'minimum_size' in t and len(v) < t['minimum_size']:
            raise Bad
        if 'maximum_size' in t and len(v) > t['maximum_size']:
            raise Bad
        return ('array', [self.value(t['values'], x, '{}/{}'.format(ref, i))
                          for i, x in enumerate(v)])

    def v_map(self, t, v, ref):
        if not isinstance(v, dict):
            raise Bad
        return ('map', {k: self.value(t['values'], x, '{}/{}'.format(
            ref, self.key(k))) for k, x in v.items()})

    def v_named(self, t, v, ref):
        n = t['type']
        if n in self.classes:
            if not isinstance(v, str) or v not in self.ids[n]:
                raise Bad
            return ('ref', n, v)
        return ('embed', self.composite(self.embeds[n], v, ref))


def zones():
    import pytz
    if not ZONE_NAMES:
        ZONE_NAMES.update({x: x for x in pytz.all_timezones})
    return ZONE_NAMES


ZONE_NAMES = {}
ZONES = {'UTC', 'Europe/Zurich', 'America/New_York', 'Asia/Tokyo'}


def same(a, b):
    """Equality of canonical values."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b) or a[0] != b[0]:
            return False
        if a[0] == 'duration':
            return abs(a[1] - b[1]) <= 2e-6 + 1e-12 * abs(a[1])
        if a[0] in ('int', 'bool'):
            return type(a[1]) is type(b[1]) and a[1] == b[1]
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------- generator
DATES = ['a', 'A', 'b', 'B', 'd', 'e', 'm', 'y', 'Y']
TIMES = ['H', 'I', 'l', 'M', 'P', 'p', 'S']
ZONE = ['z', 'Z']


def random_format(rng, pool, texts):
    """A format with every directive of the pool at most once."""
    ds = rng.sample(pool, rng.randint(0, min(4, len(pool))))
    out = rng.choice(texts + [''])
    for d in ds:
        if {'e': 'd', 'd': 'e', 'I': 'l', 'l': 'I', 'P': 'p',
                'p': 'P'}.get(d) in ds and d in 'elP':
            continue
        out += '%' + d + rng.choice(texts)
    return out


def formats(rng, zones=False, texts=(' ', '-', '/', ': ', ' on ', ' %% ',
                                     'h ', "'", '"', ' {} ', ',')):
    """Some formats of dates, times and datetimes."""
    z = ZONE if zones else []
    return ([random_format(rng, DATES + z, list(texts)) for _ in range(4)],
            [random_format(rng, TIMES + z, list(texts)) for _ in range(4)],
            [random_format(rng, DATES + TIMES + z, list(texts))
             for _ in range(4)])


class Values:
    """Random JSON values for a schema: conforming, or with defects."""

    MATCH = {
        '^[a-z]+$': ['a', 'abc', 'zz'], '^a.*b$': ['ab', 'axb'],
        '^$': [''], '^x{1,3}$': ['x', 'xxx'], '^(/[a-z]+)+$': ['/a', '/a/bc'],
        '^\\d$': ['1', '0'], '^[A-Z0-9]{2}$': ['A1', 'ZZ'],
        '^\\"$': ['"'], "^'`$": ["'`"], '^a\\\\b$': ['a\\b'],
        '^a/b$': ['a/b'], '^%s%d$': ['%s%d'], '^[{}]+$': ['{}', '{{}}'],
    }
    STRINGS = ['', 'a', 'abc', 'ab', 'axb', '/a/b', 'x', 'xxxx', '1', 'A1',
               'some text', 'é', '"', "it's", 'a\\b', 'a\nb', 'a ', '%s',
               'a/b', '{}', '\t', 'null', 'a\n', 'x\n', '//a//b', '.', 'a/.']

    def __init__(self, rng, m, lang):
        self.r = rng
        self.m = m
        self.lang = lang
        self.o = Conform(m, lang)
        # how often a part of a value is just off
        self.defect = 0

    def graph(self):
        r = self.r
        m = self.m
        self.ids = {}
        for n, c in self.o.classes.items():
            pool = self.MATCH.get(c.get('id_pattern'), None)
            if pool is None:
                pool = ['a', 'B', 'id 1', '"q"', "it's", '', 'x/y']
                if self.lang != 'py':
                    pool = ['a', 'B', 'id 1', '"q"', 'zz']
            self.ids[n] = r.sample(pool, min(len(pool), r.randint(0, 3)))
        out = {}
        items = []
        for n, c in self.o.classes.items():
            if self.ids[n] or r.random() < .3:
                items.append((self.o.registry_name[n], {
                    i: self.composite(c, 0) for i in self.ids[n]}))
        items += list(self.composite(m, 0).items())
        r.shuffle(items)
        out = dict(items)
        return out

    def composite(self, c, depth):
        out = {}
        ps = list(c.get('properties', {}).items())
        self.r.shuffle(ps)
        for n, p in ps:
            if p.get('optional', False) and self.r.random() < .4:
                continue
            out[p.get('json', n)] = self.value(p, depth)
        if self.r.random() < .15:
            out[self.r.choice(['extra', 'Extra key', '__x'])] = \
                self.r.choice([None, 1, 'x', [], {}])
        return out

    def number(self, t, integer):
        r = self.r
        lo = t.get('minimum', None)
        hi = t.get('maximum', None)
        step = 1 if integer else r.choice([1, .5, .25, 1e-6])
        pool = []
        if lo is not None:
            pool += [lo, lo + step, lo + 2]
        if hi is not None:
            pool += [hi, hi - step]
        if lo is None:
            pool += [hi - 100 if hi is not None else r.choice(
                [0, -1, 7, 2**31, -2**53 if integer else -1e300])]
        if hi is None and lo is None:
            pool += [3, -10, 10**6]
        if not integer:
            pool = [r.choice([float(x), x]) for x in pool]
        else:
            pool = [math.ceil(x) if x != int(x) else int(x) for x in pool]
        return r.choice(pool)

    def off(self, t, depth):
        """A value that may be just off the type."""
        r = self.r
        k = t['type']
        if k in ('integer', 'float'):
            pool = [0, 1.5, '1']
            for b in ('minimum', 'maximum'):
                if b in t:
                    x = t[b]
                    pool += [x, x, x + 1, x - 1] * 3
                    if k == 'float':
                        pool += [x + 1e-9, x - 1e-9, float(x)]
            return r.choice(pool)
        if k in ('string', 'path'):
            return r.choice(r.choice(list(self.MATCH.values())) +
                            [r.choice(self.STRINGS), 1])
        if k == 'array':
            lo = t.get('minimum_size', 0)
            hi = min(t.get('maximum_size', lo + 2), lo + 20)
            return [self.value(t['values'], depth + 1) for _ in range(
                r.choice([max(lo - 1, 0), lo, hi, hi + 1, hi + 1]))]
        if k in self.ids:
            return r.choice([x for n in self.ids for x in self.ids[n]] +
                            ['dangling', '', None, 1])
        if k == 'boolean':
            return r.choice([0, 1, 'true', None, True])
        if k == 'time_zone':
            return r.choice(['Europe/Nowhere', 'utc', '', 'UTC', 3, '..', '/etc',
                             'Europe', 'Europe/Zurich\n'])
        if k == 'duration':
            d = self.duration()
            return r.choice([d + 'S', d[1:], d.lower(), d + '1', d + 'T',
                             ' ' + d, d.replace('P', 'P0'),
                             d.replace('T', '')])
        if k in ('date', 'time', 'datetime'):
            other = {'date': '2019-02-30', 'time': '24:00:00',
                     'datetime': '2019-02-29T00:00:00Z'}[k]
            return r.choice([other, '', '2019-01-01', '12:30:00',
                             '2019-01-01T12:30:00Z', '12:30:61'])
        return r.choice([None, 'x', [], {}])

    def value(self, t, depth):
        r = self.r
        k = t['type']
        if self.defect and r.random() < self.defect:
            return self.off(t, depth)
        if k == 'boolean':
            return r.random() < .5
        if k in ('integer', 'float'):
            return self.number(t, k == 'integer')
        if k in ('string', 'path'):
            if 'pattern' in t:
                return r.choice(self.MATCH[t['pattern']])
            return r.choice(self.STRINGS)
        if k in ('date', 'time', 'datetime'):
            d = datetime.datetime(
                r.choice([1970, 2000, 2019, 1999, 2038]), r.randint(1, 12),
                r.randint(1, 28), r.randint(0, 23), r.randint(0, 59),
                r.randint(0, 59))
            if '%Z' in t.get('format', ''):
                d = d.replace(tzinfo=datetime.timezone.utc)
            elif '%z' in t.get('format', ''):
                d = d.replace(tzinfo=datetime.timezone(
                    datetime.timedelta(hours=r.randint(-11, 12))))
            return d.strftime(t.get('format', DEFAULT_FORMAT[k]))
        if k == 'time_zone':
            return r.choice(['UTC', 'Europe/Zurich', 'America/New_York'])
        if k == 'duration':
            return self.duration()
        if k == 'array':
            lo = t.get('minimum_size', 0)
            hi = min(t.get('maximum_size', lo + 2), lo + 20)
            n = r.choice([lo, hi, min(hi, lo + 1)])
            if depth > 3 and lo == 0:
                n = 0
            return [self.value(t['values'], depth + 1) for _ in range(n)]
        if k == 'map':
            keys = r.sample(['k', 'key 2', '"', "'", '', 'a/b', 'é'] if
                            self.lang == 'py' else ['k', 'key 2', '"', 'z'],
                            0 if depth > 3 else r.randint(0, 3))
            return {x: self.value(t['values'], depth + 1) for x in keys}
        if k in self.ids:
            if self.ids[k]:
                return r.choice(self.ids[k])
            return 'dangling'
        if depth > 6:
            return {}
        return self.composite(self.o.embeds[k], depth + 1)

    def duration(self):
        r = self.r
        s = r.choice(['', '', '-', '+']) + 'P'
        big = self.lang == 'py'

        def num(frac=True):
            x = str(r.choice([0, 1, 2, 7, 10, 35] + ([400] if big else [])))
            if frac and r.random() < .3:
                x += '.' + r.choice(['5', '25', '1', '75'])
            return x
        for u in 'YMWD':
            if r.random() < .25:
                s += num() + u
        if r.random() < .7:
            s += 'T'
            for u in 'HM':
                if r.random() < .4:
                    s += num() + u
            if r.random() < .6:
                s += str(r.choice([0, 1, 59, 61]))
                if r.random() < .5:
                    s += '.' + r.choice(
                        ['1', '000001', '123456', '50', '05', '10'] +
                        ([] if big else ['123456789', '000000001']))
                s += 'S'
        return s

    JUNK = [None, True, False, 0, 1, -1, 1.5, 2.0, '', 'x', [], {}, [1],
            {'a': 1}, '2019-02-30', '25:00:00', 'P', 'PT', 'P1', '1D', 'PT1.S',
            'P1Y2', '-P1D', 'P-1D', 'PT0.1234567S', 'P01D', 'Nowhere/Town',
            10**30, 10**400, -10**400, 1e300, -2**63, 2**63, 'PT1S ', ' P1D', 'P1D2Y',
            'P4000000000000Y', 'P300Y', '2000-01-01', '12:30:00', 2**53 + 1,
            '2000-01-01T00:00:00Z', '-', 'PT1.0000000001S', '1e5', [None],
            [[]], [{}], {'k': None}]

    def mutate(self, v):
        """A value that differs in one place."""
        from props import schemagen
        import copy
        v = copy.deepcopy(v)
        r = self.r
        spots = list(schemagen.nodes(v))
        path, node = r.choice(spots)
        if not path:
            return copy.deepcopy(r.choice(self.JUNK)) if r.random() < .1 \
                else v
        parent = schemagen.at(v, path[:-1])
        act = r.random()
        if act < .2:
            del parent[path[-1]]
        elif act < .3 and isinstance(parent, list):
            parent.insert(path[-1], copy.deepcopy(node))
        elif act < .35 and isinstance(parent, list):
            parent.clear()
        elif act < .45 and isinstance(node, list):
            node.append(copy.deepcopy(r.choice(node + self.JUNK[:14])))
        elif act < .5 and isinstance(node, (int, float)) and \
                not isinstance(node, bool) and abs(node) < 1e300:
            parent[path[-1]] = r.choice([
                node + 1, node - 1, node + 1000, node - 1000, -node,
                node + .5, float(node), str(node)])
        elif act < .6 and isinstance(node, str):
            parent[path[-1]] = r.choice([
                node + 'x', 'x' + node, node[1:], node[:-1], node + '\n',
                node.upper(), node + ' ', node * 2, [node]])
        elif act < .66 and isinstance(parent, dict):
            parent[r.choice(['other', path[-1] + 'x', path[-1].upper(),
                             ''])] = parent.pop(path[-1])
        elif act < .72:
            other, x = r.choice(spots)
            parent[path[-1]] = copy.deepcopy(x)
        else:
            parent[path[-1]] = copy.deepcopy(r.choice(self.JUNK))
        return v
