"""Helpers shared by the bounded runs."""
import collections
import copy


def graph(properties=None, classes=None, embeds=None, cpp=True, go=True,
          py=True, name='Some_graph'):
    m = collections.OrderedDict()
    m['name'] = name
    m['description'] = 'defines a graph.'
    if cpp:
        m['cpp'] = {'namespace': 'some::graph',
                    'path_as': 'boost::filesystem::path',
                    'optional_as': 'std::experimental::optional',
                    'datetime_library': 'ctime'}
    if go:
        m['go'] = {'package': 'somegraph'}
    if py:
        m['py'] = {'module_name': 'some.graph', 'path_as': 'str',
                   'timezone_as': 'str'}
    if classes is not None:
        m['classes'] = classes
    if embeds is not None:
        m['embeds'] = embeds
    if properties is not None:
        m['properties'] = collections.OrderedDict(properties)
    return m


def typ(name, **kw):
    m = collections.OrderedDict()
    m['type'] = name
    for k, v in kw.items():
        m[k] = v
    return m


def prop(a_type, description='is a property.', **kw):
    """Property definition from a type definition."""
    m = collections.OrderedDict()
    m['type'] = a_type['type']
    m['description'] = description
    for k, v in a_type.items():
        if k != 'type':
            m[k] = v
    m.update(kw)
    return m


def cls(name, properties=None, **kw):
    m = collections.OrderedDict()
    m['name'] = name
    m['description'] = 'defines a class.'
    m.update(kw)
    if properties is not None:
        m['properties'] = collections.OrderedDict(properties)
    return m


def parse(mapping, ref='schema.json#'):
    import mapry.parse
    return mapry.parse.schema_from_mapping(mapping=copy.deepcopy(mapping),
                                           ref=ref)


def generate(mapping, lang, parsed=None):
    """{file name: code} of a language, without the command line."""
    schema = parsed if parsed is not None else parse(mapping)
    graph = schema.graph
    if lang == 'py':
        import mapry.py.generate.types
        import mapry.py.generate.parse
        import mapry.py.generate.fromjsonable
        import mapry.py.generate.tojsonable
        g = mapry.py.generate
        return {
            '__init__.py': g.types.generate(graph=graph, py=schema.py),
            'parse.py': g.parse.generate(graph=graph, py=schema.py),
            'fromjsonable.py': g.fromjsonable.generate(graph=graph,
                                                       py=schema.py),
            'tojsonable.py': g.tojsonable.generate(graph=graph, py=schema.py)}
    if lang == 'go':
        import mapry.go.generate.types
        import mapry.go.generate.parse
        import mapry.go.generate.fromjsonable
        import mapry.go.generate.fromjsonable_test
        import mapry.go.generate.tojsonable
        import mapry.go.generate.tojsonable_test
        g = mapry.go.generate
        go = schema.go
        return {
            'types.go': g.types.generate(graph=graph, go=go),
            'parse.go': g.parse.generate(go=go),
            'from_jsonable.go': g.fromjsonable.generate(graph=graph, go=go),
            'from_jsonable_test.go': g.fromjsonable_test.generate(
                graph=graph, go=go),
            'to_jsonable.go': g.tojsonable.generate(graph=graph, go=go),
            'to_jsonable_test.go': g.tojsonable_test.generate(
                graph=graph, go=go)}
    import mapry.cpp.generate.types_header
    import mapry.cpp.generate.parse_header
    import mapry.cpp.generate.parse_impl
    import mapry.cpp.generate.jsoncpp_header
    import mapry.cpp.generate.jsoncpp_impl
    g = mapry.cpp.generate
    cpp = schema.cpp
    return {
        'types.h': g.types_header.generate(graph=graph, cpp=cpp),
        'parse.h': g.parse_header.generate(cpp=cpp),
        'parse.cpp': g.parse_impl.generate(cpp=cpp,
                                           parse_header_path='parse.h'),
        'jsoncpp.h': g.jsoncpp_header.generate(
            graph=graph, cpp=cpp, types_header_path='types.h',
            parse_header_path='parse.h'),
        'jsoncpp.cpp': g.jsoncpp_impl.generate(
            graph=graph, cpp=cpp, types_header_path='types.h',
            parse_header_path='parse.h', jsoncpp_header_path='jsoncpp.h')}
