"""Specifications of declared types and imports of generated code (C14).

What the documentation of mapry gives as the type of a property in each
language, and which library each use of a type needs.
"""
import mapry
import mapry.cpp.generate
import mapry.cpp.generate.jsoncpp_header
import mapry.cpp.generate.jsoncpp_impl
import mapry.cpp.generate.types_header
import mapry.go.generate
import mapry.go.generate.fromjsonable
import mapry.go.generate.fromjsonable_test
import mapry.go.generate.tojsonable
import mapry.go.generate.tojsonable_test
import mapry.go.generate.types
import mapry.py.generate
import mapry.py.generate.fromjsonable
import mapry.py.generate.parse
import mapry.py.generate.tojsonable
import mapry.py.generate.types

import contracts.naming as naming
import contracts.types as types
from contracts.model import COMPOSITE, EMBED, GRAPH, PROPERTY, TYPE
from pv.contract import contract

PY = ('obj', mapry.Py)
GO = ('obj', mapry.Go)
CPP = ('obj', mapry.Cpp)
NO = NotImplementedError


# -- Python
def py_path(py):
    if py.path_as in ('str', 'pathlib.Path'):
        return py.path_as
    raise NotImplementedError('path_as')


def py_zone(py):
    if py.timezone_as == 'str':
        return 'str'
    if py.timezone_as == 'pytz.timezone':
        return 'datetime.tzinfo'
    raise NotImplementedError('timezone_as')


def py_primitive(a_type, py):
    """The type of a value without nested types, None if there are."""
    if isinstance(a_type, mapry.Boolean):
        return 'bool'
    if isinstance(a_type, mapry.Integer):
        return 'int'
    if isinstance(a_type, mapry.Float):
        return 'float'
    if isinstance(a_type, mapry.String):
        return 'str'
    if isinstance(a_type, mapry.Path):
        return py_path(py)
    if isinstance(a_type, mapry.Date):
        return 'datetime.date'
    if isinstance(a_type, mapry.Time):
        return 'datetime.time'
    if isinstance(a_type, mapry.Datetime):
        return 'datetime.datetime'
    if isinstance(a_type, mapry.TimeZone):
        return py_zone(py)
    if isinstance(a_type, mapry.Duration):
        return 'datetime.timedelta'
    return None


@contract('mapry.py.generate:type_repr', {'a_type': TYPE, 'py': PY}, 'str',
          raises=(NO, ValueError))
def py_type_repr(a_type, py):
    name = py_primitive(a_type, py)
    if name is not None:
        return name
    if isinstance(a_type, mapry.Array):
        return 'typing.List[' + py_type_repr(a_type.values, py) + ']'
    if isinstance(a_type, mapry.Map):
        return 'typing.MutableMapping[str, ' + py_type_repr(
            a_type.values, py) + ']'
    if isinstance(a_type, (mapry.Class, mapry.Embed)):
        return py.module_name + '.' + naming.py_as_composite(a_type.name)
    raise NotImplementedError('graph')


@contract('mapry.py.generate:order_by_optional',
          {'properties': ('dict', PROPERTY)}, ('list', PROPERTY))
def py_order(properties):
    return sorted(properties.values(), key=lambda prop: prop.optional)


def py_lines(modules):
    return '\n'.join(sorted(['import ' + m for m in modules]))


@contract('mapry.py.generate.types:_imports', {'graph': GRAPH, 'py': PY},
          'str', raises=(NO, ))
def py_types_imports(graph, py):
    modules = {'typing'}
    if types.needs_type(graph, mapry.Path) and py_path(py) == 'pathlib.Path':
        modules.add('pathlib')
    if types.needs_type(graph, mapry.TimeZone) and py_zone(py) != 'str':
        modules.add('datetime')
    if py_times(graph):
        modules.add('datetime')
    if len(graph.classes) > 0:
        modules.add('collections')
    return py_lines(modules)


def py_times(graph):
    return (types.needs_type(graph, mapry.Date) or
            types.needs_type(graph, mapry.Time) or
            types.needs_type(graph, mapry.Datetime) or
            types.needs_type(graph, mapry.Duration))


def has_pattern(graph, also=()):
    """Is there a pattern, or a type in ``also``?"""
    found = False
    for a_type, _ in types.iterate_over_types(graph):
        if isinstance(a_type, (mapry.String, mapry.Path)) and \
                a_type.pattern is not None:
            found = True
            break
        if isinstance(a_type, also):
            found = True
            break
    for cls in graph.classes.values():
        if cls.id_pattern is not None:
            found = True
            break
    return found


def has_embed_property(graph):
    return any(len(embed.properties) > 0
               for embed in graph.embeds.values())


def has_array(graph):
    return any(isinstance(a_type, mapry.Array)
               for a_type, _ in types.iterate_over_types(graph))


@contract('mapry.py.generate.fromjsonable:_imports',
          {'graph': GRAPH, 'py': PY}, 'str', raises=(NO, ),
          split=(lambda graph, py: types.needs_type(graph, mapry.Date),
                 lambda graph, py: types.needs_type(graph, mapry.Path),
                 lambda graph, py: types.needs_type(graph, mapry.TimeZone)))
def py_from_imports(graph, py):
    std = {'typing'}
    third = ''
    if types.needs_type(graph, mapry.Path) and py_path(py) == 'pathlib.Path':
        std.add('pathlib')
    if types.needs_type(graph, mapry.TimeZone) and py_zone(py) != 'str':
        third = ('import pytz\nimport pytz.exceptions  # type: ignore\n\n')
    if py_times(graph):
        std.add('datetime')
    if types.needs_type(graph, mapry.Map):
        std.add('collections')
    if len(graph.classes) > 0:
        std.add('collections')
    if has_pattern(graph, (mapry.Duration, )):
        std.add('re')
    return (py_lines(std) + '\n\n' + third + 'import ' + py.module_name +
            '\nimport ' + py.module_name + '.parse')


@contract('mapry.py.generate.tojsonable:_imports',
          {'graph': GRAPH, 'py': PY}, 'str')
def py_to_imports(graph, py):
    std = {'collections', 'typing'}
    if types.needs_type(graph, mapry.Duration):
        std.add('datetime')
    return py_lines(std) + '\n\nimport ' + py.module_name


@contract('mapry.py.generate.parse:_imports', {'py': PY}, 'str')
def py_parse_imports(py):
    return 'import typing\n\nimport ' + py.module_name


# -- Go
@contract('mapry.go.generate:type_repr', {'a_type': TYPE, 'go': GO}, 'str',
          raises=(NO, ValueError))
def go_type_repr(a_type, go):
    if isinstance(a_type, mapry.Boolean):
        return 'bool'
    if isinstance(a_type, mapry.Integer):
        return 'int64'
    if isinstance(a_type, mapry.Float):
        return 'float64'
    if isinstance(a_type, (mapry.String, mapry.Path)):
        return 'string'
    if isinstance(a_type, (mapry.Date, mapry.Time, mapry.Datetime)):
        return 'time.Time'
    if isinstance(a_type, mapry.TimeZone):
        return '*time.Location'
    if isinstance(a_type, mapry.Duration):
        return 'time.Duration'
    if isinstance(a_type, mapry.Array):
        return '[]' + go_type_repr(a_type.values, go)
    if isinstance(a_type, mapry.Map):
        return 'map[string]' + go_type_repr(a_type.values, go)
    if isinstance(a_type, mapry.Class):
        return '*' + naming.ucamel_case(a_type.name)
    if isinstance(a_type, mapry.Embed):
        return naming.ucamel_case(a_type.name)
    raise NotImplementedError('graph')


@contract('mapry.go.generate:is_pointer_type', {'a_type': TYPE}, 'bool',
          raises=(NO, ))
def go_is_pointer_type(a_type):
    if isinstance(a_type, mapry.Graph):
        raise NotImplementedError('graph')
    return isinstance(a_type, (mapry.TimeZone, mapry.Array, mapry.Map,
                               mapry.Class))


@contract('mapry.go.generate.types:_property_type_repr',
          {'a_property': PROPERTY, 'go': GO}, 'str',
          raises=(NO, ValueError))
def go_property_type(a_property, go):
    name = go_type_repr(a_property.type, go)
    if a_property.optional and not go_is_pointer_type(a_property.type):
        return '*' + name
    return name


def go_imports(packages):
    if len(packages) == 0:
        return ''
    if len(packages) == 1:
        return 'import "' + list(packages)[0] + '"'
    return 'import (\n' + ''.join(
        ['    "' + p + '"\n' for p in sorted(packages)]) + ')'


@contract('mapry.go.generate.types:_imports', {'graph': GRAPH}, 'str')
def go_types_imports(graph):
    packages = set()
    if py_times(graph) or types.needs_type(graph, mapry.TimeZone):
        packages.add('time')
    return go_imports(packages)


@contract('mapry.go.generate.fromjsonable:_imports', {'graph': GRAPH}, 'str')
def go_from_imports(graph):
    packages = {'fmt'}
    if (len(graph.classes) > 0 or len(graph.properties) > 0 or
            has_embed_property(graph)):
        packages.add('strings')
    if types.needs_type(graph, mapry.Integer):
        packages.add('math')
    if (types.needs_type(graph, mapry.Date) or
            types.needs_type(graph, mapry.Time) or
            types.needs_type(graph, mapry.Datetime) or
            types.needs_type(graph, mapry.TimeZone)):
        packages.add('time')
    if types.needs_type(graph, mapry.Duration):
        packages.update(('math', 'time', 'regexp', 'strconv'))
    if has_pattern(graph):
        packages.add('regexp')
    if has_array(graph):
        packages.add('strconv')
    return go_imports(packages)


@contract('mapry.go.generate.tojsonable:_imports', {'graph': GRAPH}, 'str')
def go_to_imports(graph):
    packages = set()
    if len(graph.classes) > 0:
        packages.add('fmt')
    if types.needs_type(graph, mapry.Duration):
        packages.update(('fmt', 'strings', 'time'))
    return go_imports(packages)


@contract('mapry.go.generate.fromjsonable_test:_imports', {'graph': GRAPH},
          'str')
def go_from_test_imports(graph):
    return go_imports({'fmt'} if types.needs_type(graph, mapry.Duration)
                      else set())


@contract('mapry.go.generate.tojsonable_test:_imports', {'graph': GRAPH},
          'str')
def go_to_test_imports(graph):
    return go_imports({'fmt', 'time'} if types.needs_type(
        graph, mapry.Duration) else set())


# -- C++
def cpp_library(cpp):
    if cpp.datetime_library in ('ctime', 'date.h'):
        return cpp.datetime_library
    raise NotImplementedError('datetime_library')


@contract('mapry.cpp.generate:type_repr', {'a_type': TYPE, 'cpp': CPP}, 'str',
          raises=(NO, ValueError))
def cpp_type_repr(a_type, cpp):
    if isinstance(a_type, mapry.Boolean):
        return 'bool'
    if isinstance(a_type, mapry.Integer):
        return 'int64_t'
    if isinstance(a_type, mapry.Float):
        return 'double'
    if isinstance(a_type, mapry.String):
        return 'std::string'
    if isinstance(a_type, mapry.Path):
        if cpp.path_as in ('std::filesystem::path', 'boost::filesystem::path'):
            return cpp.path_as
        raise NotImplementedError('path_as')
    if isinstance(a_type, (mapry.Date, mapry.Time, mapry.Datetime)):
        if cpp_library(cpp) == 'ctime':
            return 'struct tm'
        if isinstance(a_type, mapry.Date):
            return 'date::local_days'
        if isinstance(a_type, mapry.Time):
            return 'date::time_of_day<std::chrono::seconds>'
        return 'date::local_seconds'
    if isinstance(a_type, mapry.TimeZone):
        if cpp_library(cpp) == 'ctime':
            return 'std::string'
        return 'const date::time_zone*'
    if isinstance(a_type, mapry.Duration):
        return 'std::chrono::nanoseconds'
    if isinstance(a_type, mapry.Array):
        return 'std::vector<' + cpp_type_repr(a_type.values, cpp) + '>'
    if isinstance(a_type, mapry.Map):
        return 'std::map<std::string, ' + cpp_type_repr(
            a_type.values, cpp) + '>'
    if isinstance(a_type, mapry.Class):
        return naming.cpp_as_composite(a_type.name) + '*'
    if isinstance(a_type, mapry.Embed):
        return naming.cpp_as_composite(a_type.name)
    raise NotImplementedError('graph')


@contract('mapry.cpp.generate.types_header:_default_value',
          {'a_type': TYPE, 'cpp': CPP}, ('opt', 'str'), raises=(NO, ))
def cpp_default(a_type, cpp):
    """Nothing is left uninitialised."""
    if isinstance(a_type, mapry.Boolean):
        return 'false'
    if isinstance(a_type, mapry.Integer):
        return '0'
    if isinstance(a_type, mapry.Float):
        return '0.0'
    if isinstance(a_type, (mapry.Date, mapry.Time, mapry.Datetime)):
        return 'tm{0}' if cpp_library(cpp) == 'ctime' else None
    if isinstance(a_type, mapry.TimeZone):
        return None if cpp_library(cpp) == 'ctime' else 'nullptr'
    if isinstance(a_type, mapry.Class):
        return 'nullptr'
    if isinstance(a_type, mapry.Graph):
        raise NotImplementedError('graph')
    return None


@contract('mapry.cpp.generate.jsoncpp_impl:_needs_regex', {'a_type': TYPE},
          'bool')
def cpp_needs_regex(a_type):
    if isinstance(a_type, (mapry.String, mapry.Path)):
        return a_type.pattern is not None
    return isinstance(a_type, mapry.Duration)
