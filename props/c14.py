"""C14: generated code declares every type and imports what it uses."""
import ast
import builtins
import collections
import concurrent.futures
import datetime
import inspect
import json
import os
import pathlib
import random
import symtable
import types as pytypes
import typing

from props import c09, common, conform, cppgen, gogen, pygen, schemagen, tv

RULE = ('bounded runs: generated files of schemas with one type in one '
        'position, of schemas that use every type in every position and of '
        'random mixtures, for all settings: Python modules imported and all '
        'their names resolved, Go packages compiled by Go and C++ files '
        'compiled by g++, each together with a generated assertion of the '
        'documented type of every declaration; non-trivial = a distinct '
        '(language, schema)')
TRUSTED = ['z3', 'the contract engine pv/', 'CPython, Go and g++ as judges '
           'of complete files', 'shim/json/json.h in place of Jsoncpp']
ASSUMPTIONS = [
    'the schema has passed the validation of mapry and of the language, '
    'hence the settings have one of the documented values',
    'that an occurring type is found (needs_type, iterate_over_types) is the '
    'contract of C07',
    'the contracts about imports list what each type needs as told by the '
    'specification; that the templates do not need more is decided on the '
    'generated files by the compilers (bounded)',
    'include directives of C++ are checked by bounded runs only (too many '
    'combinations for the path-wise engine)',
    'property names that are reserved only by the generated code itself are '
    'the subject of C04']
BOUNDED = ['that the generated files as a whole resolve all their names: '
           'Python names and imports, Go type checker, g++ -fsyntax-only']
EXPLANATION = (
    'The type that each language declares for a property, for every mapry '
    'type (recursively), the order of arguments and the import declarations '
    'of the Python and Go files are proved equal to their specification for '
    'every object graph. Generated files of schemas with all mixtures of '
    'types are then judged as a whole by the three languages, with an '
    'assertion of the exact documented type of every field.')
TECHNIQUE = ('deductive verification of the type representations and import '
             'declarations (contracts, z3); bounded: generated files judged '
             'by CPython, Go and g++ with assertions of all declared types')
LEVEL = 'translation_validation'



def load_contracts():
    import contracts.generated as e
    return [f.contract.target for f in vars(e).values()
            if hasattr(getattr(f, 'contract', None), 'target') and
            f.__module__ == 'contracts.generated']


# ------------------------------------------------------------------ schemas
KINDS = [
    ('boolean', {}), ('integer', {}), ('integer', dict(minimum=0)),
    ('float', {}), ('float', dict(maximum=1.5, exclusive_maximum=True)),
    ('string', {}), ('string', dict(pattern='^a.*b$')), ('path', {}),
    ('path', dict(pattern='^(/[a-z]+)+$')), ('date', {}), ('time', {}),
    ('datetime', {}), ('duration', {}), ('time_zone', {}), ('Person', {}),
    ('Foo', {})]
CPP_PATH = ['std::filesystem::path', 'boost::filesystem::path']
CPP_OPT = ['boost::optional', 'std::optional', 'std::experimental::optional']
CPP_DATE = ['ctime', 'date.h']


def settings(m, i):
    """One of the combinations of settings."""
    m['cpp'] = {'namespace': ['some::graph', 'g'][i % 2],
                'path_as': CPP_PATH[i % 2], 'optional_as': CPP_OPT[i // 2 % 3],
                'datetime_library': CPP_DATE[i // 6 % 2]}
    m['go'] = {'package': 'somegraph'}
    m['py'] = {'module_name': ['some.graph', 'm'][i // 2 % 2],
               'path_as': ['str', 'pathlib.Path'][i % 2],
               'timezone_as': ['str', 'pytz.timezone'][i // 3 % 2]}
    return m


def singles():
    """Each type in each position, alone."""
    t, p = common.typ, common.prop
    out = []
    n = 0
    for kind, kw in KINDS:
        x = t(kind, **kw)
        shapes = [x, t('array', values=x), t('map', values=x),
                  t('array', values=t('map', values=x))]
        for k, shape in enumerate(shapes):
            for where in range(4):
                for opt in (False, True):
                    if opt and (k + where) % 3 == 1:
                        continue
                    n += 1
                    props = [('a_prop', p(shape, optional=True)
                              if opt else p(shape))]
                    cl = [common.cls('Person')] if kind == 'Person' or \
                        where == 1 else None
                    em = [common.cls('Foo', [('x', p(t('boolean')))])] \
                        if kind == 'Foo' else []
                    own = None
                    if where == 0:
                        own = props
                    elif where == 1:
                        cl = [common.cls('Bus', props)] + (
                            cl if kind == 'Person' else [])
                    elif where == 2:
                        em = [common.cls('Bar', props)] + em
                        own = [('bar', p(t('Bar')))]
                    else:
                        em = [common.cls('Bar', props)] + em
                    m = common.graph(own, classes=cl, embeds=em or None)
                    out.append(settings(m, n))
    for i in range(12):
        out.append(settings(common.graph(
            None, classes=[common.cls('Person', id_pattern='^a')]
            if i % 4 else None, embeds=[common.cls('Foo')]
            if i % 3 == 1 else None), i))
        out.append(settings(common.graph(
            [('deep', p(t('array', values=t('array', values=t(
                'map', values=t('Foo'))))))],
            embeds=[common.cls('Foo', [('next', p(t('array', values=t(
                'Bar' if i % 2 else 'Foo'))))]),
                    common.cls('Bar', [('x', p(t('duration')))])]), i))
    return out


def usable(m, lang):
    return c09.valid_for(dict(m), lang)


def mixtures(rng, n):
    out = []
    while len(out) < n:
        m = schemagen.Gen(rng, patterns=c09.PATTERNS,
                          bias=rng.choice(c09.BIAS)).schema()
        if all(usable(m, lang) for lang in ('py', 'go', 'cpp')):
            out.append(m)
    return out


def schemas(run):
    one = singles()
    rest = one[:]
    run.rng.shuffle(rest)
    full = []
    for lang in ('py', 'go', 'cpp'):
        for i, m in enumerate(tv.cover(lang)):
            full.append(settings(m, i + run.seed))
    mix = mixtures(run.rng, run.budget(60, 600))
    py = one + full + mix
    go = (one if run.thorough else rest[:run.budget(120, 0)]) + full[:16] + \
        mix
    cpp = (one if run.thorough else rest[-110:]) + full[32:] + \
        mix[:run.budget(40, 400)]
    return py, go, cpp


# ------------------------------------------------------------------- Python
def py_chain(node):
    names = []
    while isinstance(node, ast.Attribute):
        names.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        return [node.id] + names[::-1]
    return None


def py_globals(text):
    """Names that the code looks up in the module."""
    out = set()
    todo = [symtable.symtable(text, 'generated', 'exec')]
    while todo:
        s = todo.pop()
        for x in s.get_symbols():
            if x.is_referenced() and (
                    x.is_global() or s.get_type() == 'module'):
                out.add(x.get_name())
        todo.extend(s.get_children())
    return out


def py_unresolved(text, mod):
    """What the module uses without having it."""
    tree = ast.parse(text)
    imported = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Import):
            for a in node.names:
                parts = a.name.split('.')
                imported.update('.'.join(parts[:i])
                                for i in range(1, len(parts) + 1))
    used = py_globals(text)
    bad = []
    for n in sorted(used):
        if not hasattr(mod, n) and not hasattr(builtins, n):
            bad.append('undefined name ' + n)
    for node in ast.walk(tree):
        names = py_chain(node) if isinstance(node, ast.Attribute) else None
        if not names or names[0] not in used or \
                not isinstance(getattr(mod, names[0], None),
                               pytypes.ModuleType):
            continue
        x = getattr(mod, names[0])
        for i, n in enumerate(names[1:], 1):
            if not isinstance(x, pytypes.ModuleType):
                break
            if not hasattr(x, n):
                bad.append('no ' + '.'.join(names[:i + 1]))
                break
            x = getattr(x, n)
            if isinstance(x, pytypes.ModuleType) and \
                    '.'.join(names[:i + 1]) not in imported and \
                    x.__name__ == '.'.join(names[:i + 1]):
                bad.append('not imported: ' + '.'.join(names[:i + 1]))
                break
    return bad


def py_type(t, m, top):
    """The documented type of a value."""
    import contracts.naming as nm
    k = t['type']
    if k == 'array':
        return typing.List[py_type(t['values'], m, top)]
    if k == 'map':
        return typing.MutableMapping[str, py_type(t['values'], m, top)]
    if k == 'path':
        return pathlib.Path if m['py']['path_as'] == 'pathlib.Path' else str
    if k == 'time_zone':
        return str if m['py']['timezone_as'] == 'str' else datetime.tzinfo
    known = {'boolean': bool, 'integer': int, 'float': float, 'string': str,
             'date': datetime.date, 'time': datetime.time,
             'datetime': datetime.datetime, 'duration': datetime.timedelta}
    return known[k] if k in known else getattr(top, nm.py_as_composite(k))


def composites(m):
    """(kind, definition) of all composites."""
    return ([('class', c) for c in m.get('classes', ())] +
            [('embed', e) for e in m.get('embeds', ())] + [('graph', m)])


def plural(c):
    import contracts.naming as nm
    return c['plural'] if 'plural' in c else nm.plural(c['name'])


def py_declared(m, kind, c, top):
    """Arguments of the constructor: name -> (type, default)."""
    import contracts.naming as nm
    none = inspect.Parameter.empty
    out = collections.OrderedDict()
    if kind == 'class':
        out['id'] = (str, none)
    props = c.get('properties', {})
    for opt in (False, True):
        for n, p in props.items():
            if bool(p.get('optional', False)) == opt:
                t = py_type(p, m, top)
                out[nm.py_as_attribute(n)] = (
                    (typing.Optional[t], None) if opt else (t, none))
    if kind == 'graph':
        for x in m.get('classes', ()):
            out[nm.py_as_attribute(plural(x))] = (
                typing.Optional[typing.MutableMapping[
                    str, getattr(top, nm.py_as_composite(x['name']))]], None)
    return out


def py_check(run, m):
    import contracts.naming as nm
    inp = json.dumps(m)
    run.count('Python package', inp)
    key = 'Python: '
    try:
        pkg = pygen.Package(m)
    except Exception as e:  # pylint: disable=broad-except
        run.fail(key + 'modules import', inp, 'no exception',
                 '{}: {}'.format(type(e).__name__, e))
        return
    for name, mod in [('__init__', pkg.top), ('parse', pkg.parse),
                      ('fromjsonable', pkg.fromjsonable),
                      ('tojsonable', pkg.tojsonable)]:
        for bad in py_unresolved(pkg.files[name + '.py'], mod):
            run.fail(key + name + '.py has what it uses', inp, 'resolved',
                     bad)
    defined = collections.Counter(
        n.name for n in ast.parse(pkg.files['__init__.py']).body
        if isinstance(n, ast.ClassDef))
    expected = collections.Counter(nm.py_as_composite(c['name'])
                                   for _, c in composites(m))
    if defined != expected:
        run.fail(key + 'defined classes', inp, sorted(expected.items()),
                 sorted(defined.items()))
        return
    for name in ('parse', 'fromjsonable', 'tojsonable'):
        names = [n.name for n in ast.parse(pkg.files[name + '.py']).body
                 if isinstance(n, (ast.ClassDef, ast.FunctionDef))]
        if len(names) != len(set(names)):
            run.fail(key + name + '.py defines once', inp, 'distinct names',
                     names)
    for kind, c in composites(m):
        cname = nm.py_as_composite(c['name'])
        cl = getattr(pkg.top, cname)
        want = py_declared(m, kind, c, pkg.top)
        try:
            init = cl.__init__ if '__init__' in vars(cl) else \
                lambda self: None
            sig = inspect.signature(init)
            hints = typing.get_type_hints(init, vars(pkg.top), {})
        except Exception as e:  # pylint: disable=broad-except
            run.fail(key + 'annotations', inp, 'resolved',
                     '{}: {}'.format(type(e).__name__, e))
            continue
        got = collections.OrderedDict(
            (n, (hints.get(n), p.default))
            for n, p in list(sig.parameters.items())[1:])
        if list(want.items()) != list(got.items()):
            run.fail(key + 'declared properties', inp,
                     '{}: {}'.format(cname, list(want.items())),
                     repr(list(got.items())))
            continue
        marks = {n: object() for n in want}
        x = cl(**marks)
        if vars(x) != marks:
            run.fail(key + 'set properties', inp, sorted(marks),
                     sorted(vars(x)))
        missing = cl(**{n: marks[n] for n, (_, d) in want.items()
                        if d is not None})
        regs = {nm.py_as_attribute(plural(k)) for k in m.get('classes', ())} \
            if kind == 'graph' else set()
        for n, (_, d) in want.items():
            if d is None and vars(missing).get(n, 0) != (
                    collections.OrderedDict() if n in regs else None):
                run.fail(key + 'default of an optional property', inp, n,
                         repr(vars(missing).get(n)))
        var = nm.py_as_variable(c['name'])
        for mod, f in [(pkg.fromjsonable, var + '_from'),
                       (pkg.tojsonable, 'serialize_' + var),
                       (pkg.parse, 'placeholder_' + var)]:
            try:
                hints = typing.get_type_hints(
                    getattr(mod, f), vars(mod), {})
            except Exception as e:  # pylint: disable=broad-except
                run.fail(key + f + ' resolves', inp, 'annotated function',
                         '{}: {}'.format(type(e).__name__, e))
                continue
            if f.startswith('placeholder_'):
                args = ['i'] if kind == 'class' else []
                x = getattr(mod, f)(*args)
                if type(x) is not cl or hints.get('return') is not cl or \
                        set(vars(x)) != set(want):
                    run.fail(key + f, inp, cname, type(x).__name__)


# ----------------------------------------------------------------------- Go
def go_type(a_type):
    import contracts.generated as g
    return g.go_type_repr(a_type, None)


def go_assertions(schema):
    """Code that compiles iff the declarations have the documented types."""
    import contracts.generated as g
    import contracts.naming as nm
    graph = schema.graph
    up = nm.ucamel_case
    lines = []

    def fields(kind, c):
        out = [('ID', 'string')] if kind == 'class' else []
        for p in c.properties.values():
            out.append((up(p.name), g.go_property_type(p, schema.go)))
        if kind == 'graph':
            for k in graph.classes.values():
                out.append((up(k.plural), 'map[string]*' + up(k.name)))
        return out

    comps = ([('class', c) for c in graph.classes.values()] +
             [('embed', e) for e in graph.embeds.values()] +
             [('graph', graph)])
    lines.append('func pvChecked() {')
    for i, (kind, c) in enumerate(comps):
        fs = fields(kind, c)
        lines.append('\tvar x{} {}'.format(i, up(c.name)))
        for n, t in fs:
            lines.append('\tvar _ *{} = &x{}.{}'.format(t, i, n))
        lines.append('\t_ = x{}'.format(i))
        for f in (up(c.name) + 'FromJSONable', up(c.name) + 'ToJSONable'):
            lines.append('\t_ = ' + f)
    name = up(graph.name)
    lines.append('\tvar _ func(interface{}, string, *' + name +
                 ', *Errors) = ' + name + 'FromJSONable')
    lines.append('\tvar _ func(*' + name + ') (map[string]interface{}, '
                 'error) = ' + name + 'ToJSONable')
    lines.append('\tvar _ *Errors = NewErrors(1)')
    lines.append('}')
    text = '\n'.join(lines) + '\n'
    head = 'package ' + schema.go.package + '\n\n'
    if 'time.' in text:
        head += 'import "time"\n\n'
    return head + text


def go_checks(run, ms):
    with gogen.Program() as prog:
        for m in ms:
            run.count('Go package', json.dumps(m))
            i = prog.add(m)
            d = os.path.join(prog.src, 's{}'.format(i))
            with open(os.path.join(d, 'zz_declared.go'), 'w') as f:
                f.write(go_assertions(common.parse(m)))
        bad, out = prog.check()
        for i, text in sorted(bad.items()):
            if 'zz_declared.go' in text and not any(
                    n in text for n in ('types.go', 'jsonable')):
                key = 'Go: declared types'
            else:
                key = 'Go: the package compiles'
            run.fail(key, json.dumps(prog.schemas[i]), 'accepted by Go',
                     text[:1500])


# ---------------------------------------------------------------------- C++
def cpp_assertions(schema):
    import contracts.generated as g
    import contracts.naming as nm
    graph, cpp = schema.graph, schema.cpp
    ns = '::' + cpp.namespace
    up = nm.cpp_as_composite
    out = ['#include "types.h"', '#include <type_traits>',
           '#define SAME(F, ...) static_assert(std::is_same<decltype(F), '
           '__VA_ARGS__>::value, #F)']
    if cpp.namespace:
        out.append('using namespace {};'.format(ns[2:]))

    def fields(kind, c):
        if kind == 'class':
            yield 'id', 'std::string'
        for p in c.properties.values():
            t = g.cpp_type_repr(p.type, cpp)
            yield nm.cpp_as_field(p.name), (
                cpp.optional_as + '<' + t + '>' if p.optional else t)
        if kind == 'graph':
            for k in graph.classes.values():
                yield nm.cpp_as_field(k.plural), (
                    'std::map<std::string, std::unique_ptr<' + up(k.name) +
                    '>>')

    comps = ([('class', c) for c in graph.classes.values()] +
             [('embed', e) for e in graph.embeds.values()] +
             [('graph', graph)])
    for i, (kind, c) in enumerate(comps):
        tag = '{}::{}'.format(ns, up(c.name))
        for n, t in fields(kind, c):
            out.append('SAME({}::{}, {});'.format(tag, n, t))
        out.append('{} x{};'.format(tag, i))
    head = list(out)
    head[0:1] = ['#include "jsoncpp.h"', '#include "types.h"']
    name = up(graph.name)
    var = nm.cpp_as_variable(graph.name)
    head.append('void (*from)(const Json::Value&, std::string, {}::{}*, '
                '{}::parse::Errors*) = {}::jsoncpp::{}_from;'.format(
                    ns, name, ns, ns, var))
    head.append('Json::Value (*to)(const {}::{}&) = '
                '{}::jsoncpp::serialize_{};'.format(ns, name, ns, var))
    return '\n'.join(out) + '\n', '\n'.join(head) + '\n'


def cpp_one(m):
    """What g++ says about the files of a schema."""
    bad = []
    with cppgen.Tree(m) as t:
        a, b = cpp_assertions(common.parse(m))
        t.write('declared.cpp', a)
        t.write('entry.cpp', b)
        for f, what in [('declared.cpp', 'types.h'), ('entry.cpp',
                                                      'jsoncpp.h'),
                        ('jsoncpp.cpp', 'jsoncpp.cpp'),
                        ('parse.cpp', 'parse.cpp')]:
            code, out = cppgen.cxx('-fsyntax-only', f, cwd=t.dir)
            if code == 0:
                continue
            key = 'C++: ' + what + ' compiles with the documented types'
            if f == 'declared.cpp':
                # what is it that is not included?
                code, _ = cppgen.cxx('-fsyntax-only', '-include', 'string', f,
                                     cwd=t.dir)
                if code == 0:
                    key = 'C++: types.h does not include <string> for maps'
                    if not only_maps(m):
                        key = 'C++: types.h does not include <string>'
            bad.append((key, cppgen.first_error(out)))
    return bad


def only_maps(m):
    """The only texts of the types are keys of maps."""
    nodes = [x for _, x in schemagen.nodes(m)
             if isinstance(x, dict) and 'type' in x]
    kinds = {x['type'] for x in nodes}
    return not m.get('classes') and 'map' in kinds and \
        'string' not in kinds and not (
            'time_zone' in kinds and
            m['cpp']['datetime_library'] == 'ctime')


def cpp_checks(run, ms):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for m, bad in zip(ms, ex.map(cpp_one, ms)):
            run.count('C++ files', json.dumps(m))
            for key, text in bad:
                run.fail(key, json.dumps(m), 'accepted by g++', text)


# ------------------------------------------------------------------ directed
def recursive():
    """An embed that contains itself by value."""
    t, p = common.typ, common.prop
    return settings(common.graph(
        [('top', p(t('Foo')))],
        embeds=[common.cls('Foo', [('next', p(t('Foo'))),
                                   ('x', p(t('integer')))])]), 0)


def recursive_optional():
    t, p = common.typ, common.prop
    return settings(common.graph(
        [('top', p(t('Foo')))],
        embeds=[common.cls('Foo', [('next', p(t('Foo'), optional=True)),
                                   ('x', p(t('integer')))])]), 0)


def directed(run):
    for what, m in [('itself', recursive()),
                    ('itself optionally', recursive_optional())]:
        py_check(run, m)
        sub = pretend(run)
        go_checks(sub, [m])
        cpp_checks(sub, [m])
        for lang in sorted({k.split(':')[0] for k in sub.keys}):
            run.fail('{}: an embed that contains {}'.format(lang, what),
                     json.dumps(m), 'compiles', sub.keys)


class pretend:  # pylint: disable=invalid-name
    """Collects failures."""

    def __init__(self, run):
        self.run = run
        self.keys = []
        self.incomplete = run.incomplete

    def fail(self, key, *_, **__):
        self.keys.append(key)

    def count(self, *a):
        self.run.count(*a)


def bounded(run):
    py, go, cpp = schemas(run)
    directed(run)
    for m in py:
        py_check(run, m)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a = ex.submit(go_checks, run, go)
        b = ex.submit(cpp_checks, run, cpp)
        a.result()
        b.result()
