"""Specifications of the parsing of a valid schema (C02)."""
import collections
import re

import jsonschema

import mapry
import mapry.parse

import contracts.naming as naming
from contracts.documented import GRAPH, TYPES
from contracts.model import CLASS, EMBED, PROPERTY, TYPE, COMPOSITE
from contracts.validation import JSON, OBJECT, conforms, valid_pattern
from pv.contract import contract


@contract('mapry.parse:_cpp_from_mapping', {'mapping': JSON},
          ('obj', mapry.Cpp), shape={'mapping': conforms('Cpp')})
def cpp_settings(mapping):
    cpp = mapry.Cpp()
    cpp.namespace = mapping['namespace']
    cpp.path_as = mapping['path_as']
    cpp.optional_as = mapping['optional_as']
    cpp.datetime_library = mapping['datetime_library']
    cpp.indention = mapping.get('indention', '  ')
    return cpp


@contract('mapry.parse:_go_from_mapping', {'mapping': JSON},
          ('obj', mapry.Go), shape={'mapping': conforms('Go')})
def go_settings(mapping):
    result = mapry.Go()
    result.package = mapping['package']
    return result


@contract('mapry.parse:_py_from_mapping', {'mapping': JSON},
          ('obj', mapry.Py), shape={'mapping': conforms('Py')})
def py_settings(mapping):
    result = mapry.Py()
    result.module_name = mapping['module_name']
    result.path_as = mapping['path_as']
    result.timezone_as = mapping['timezone_as']
    result.indention = mapping.get('indention', '    ')
    return result


def pattern_of(mapping, key):
    if key in mapping:
        return re.compile(mapping[key])
    return None


def valid_id_pattern(mapping, ref):
    return 'id_pattern' not in mapping or valid_pattern(mapping['id_pattern'])


@contract('mapry.parse:_class_from_mapping', {'mapping': JSON, 'ref': 'str'},
          CLASS, shape={'mapping': conforms('Class')},
          requires=valid_id_pattern)
def class_of(mapping, ref):
    name = mapping['name']
    if 'plural' in mapping:
        plural = mapping['plural']
    else:
        plural = naming.plural(name)
    return mapry.Class(name, plural, mapping['description'], ref,
                       pattern_of(mapping, 'id_pattern'))


@contract('mapry.parse:_embed_from_mapping', {'mapping': JSON, 'ref': 'str'},
          EMBED, shape={'mapping': conforms('Embed')})
def embed_of(mapping, ref):
    return mapry.Embed(mapping['name'], mapping['description'], ref)


def as_given(value):
    """The same number, written without a fraction where there is none."""
    if value is not None and value == int(value):
        return int(value)
    return value


@contract('mapry.parse:_float_bound', {'value': ('opt', 'real')},
          ('opt', 'real'))
def float_bound(value):
    return as_given(value)


def conforming(mapping, schema):
    try:
        jsonschema.validate(instance=mapping, schema=schema)
    except jsonschema.ValidationError:
        return False
    return True


def definition(mapping, classes, embeds):
    """What validation guarantees about the definition of a type."""
    if 'type' not in mapping or not isinstance(mapping['type'], str):
        return False
    name = mapping['type']
    if name in TYPES:
        if not conforming(mapping, TYPES[name]):
            return False
        if name in ('string', 'path') and 'pattern' in mapping:
            return valid_pattern(mapping['pattern'])
        if name in ('array', 'map'):
            return accepted(mapping['values'], classes, embeds)
        return True
    return name in classes or name in embeds


@contract('spec:accepted', {'mapping': JSON, 'classes': ('dict', CLASS),
                            'embeds': ('dict', EMBED)}, 'bool')
def accepted(mapping, classes, embeds):
    return definition(mapping, classes, embeds)


def bound(mapping, key):
    return int(mapping[key]) if key in mapping else None


def text(mapping, key):
    return mapping[key] if key in mapping else None


def flag(mapping, key):
    return key in mapping and bool(mapping[key])


@contract('mapry.parse:_recurse_type_from_mapping',
          {'mapping': JSON, 'classes': ('dict', CLASS),
           'embeds': ('dict', EMBED)}, TYPE, shape={'mapping': OBJECT},
          requires=accepted, unfold=definition)
def type_of(mapping, classes, embeds):
    name = mapping['type']
    if name == 'boolean':
        return mapry.Boolean()
    if name == 'integer':
        return mapry.Integer(
            bound(mapping, 'minimum'), flag(mapping, 'exclusive_minimum'),
            bound(mapping, 'maximum'), flag(mapping, 'exclusive_maximum'))
    if name == 'float':
        return mapry.Float(
            float_bound(text(mapping, 'minimum')),
            flag(mapping, 'exclusive_minimum'),
            float_bound(text(mapping, 'maximum')),
            flag(mapping, 'exclusive_maximum'))
    if name == 'string':
        return mapry.String(pattern_of(mapping, 'pattern'))
    if name == 'path':
        return mapry.Path(pattern_of(mapping, 'pattern'))
    if name == 'date':
        return mapry.Date(text(mapping, 'format'))
    if name == 'time':
        return mapry.Time(text(mapping, 'format'))
    if name == 'datetime':
        return mapry.Datetime(text(mapping, 'format'))
    if name == 'time_zone':
        return mapry.TimeZone()
    if name == 'duration':
        return mapry.Duration()
    if name == 'array':
        return mapry.Array(type_of(mapping['values'], classes, embeds),
                           bound(mapping, 'minimum_size'),
                           bound(mapping, 'maximum_size'))
    if name == 'map':
        return mapry.Map(type_of(mapping['values'], classes, embeds))
    if name in classes:
        return classes[name]
    return embeds[name]


def accepted_entry(value, classes, embeds):
    return accepted(value, classes, embeds)


PROPERTIES = {'type': 'object', 'additionalProperties': {
    '$ref': '#/definitions/Property'}}


@contract('mapry.parse:_properties_from_mapping',
          {'mapping': JSON, 'classes': ('dict', CLASS),
           'embeds': ('dict', EMBED), 'ref': 'str', 'composite': COMPOSITE},
          ('dict', PROPERTY),
          shape={'mapping': dict(root=GRAPH, schema=PROPERTIES)},
          each={'mapping': accepted_entry})
def properties_of(mapping, classes, embeds, ref, composite):
    if isinstance(mapping, collections.OrderedDict):
        items = list(mapping.items())
    else:
        items = sorted(mapping.items())
    result = collections.OrderedDict()
    for name, item in items:
        result[name] = mapry.Property(
            ref + '/' + name, name, type_of(item, classes, embeds),
            item['description'], item.get('json', name),
            item.get('optional', False), composite)
    return result
