"""Specifications of the validation of a schema given as a JSON value (C01)."""
import collections
import re

import jsonschema
import lexery

import mapry.validation
from mapry.validation import SchemaError

import contracts.naming as naming
import contracts.strftime as strftime
from contracts.documented import GRAPH, TYPES
from contracts.langval import ERRORS, error
from pv.contract import contract

OPT_ERROR = ('opt', ('obj', SchemaError))
JSON = 'json'
DEF = GRAPH['definitions']


def conforms(name):
    return dict(root=GRAPH, schema=DEF[name])


def typed(name):
    return dict(root=TYPES[name], schema=TYPES[name])


OBJECT = dict(root={'type': 'object'}, schema={'type': 'object'})
COMPOSITE_DEF = {'type': 'object', 'properties': {
    'properties': DEF['Class']['properties']['properties']}}


@contract('mapry.validation:_validate_names', {'mapping': JSON, 'ref': 'str'},
          ('tuple', ('set', 'str'), ERRORS),
          shape={'mapping': conforms('Graph')})
def names_errors(mapping, ref):
    """Every class or embed with a name taken before is reported."""
    names = {mapping['name']}
    errs = []
    for kind in ('classes', 'embeds'):
        if kind in mapping:
            for i, item in enumerate(mapping[kind]):
                if item['name'] in names:
                    errs.append(error('{}/{}/{}/name'.format(ref, kind, i)))
                names.add(item['name'])
    return names, errs


def valid_pattern(text):
    try:
        re.compile(text)
    except Exception:  # pylint: disable=broad-except
        return False
    return True


@contract('mapry.validation:_validate_class', {'mapping': JSON, 'ref': 'str'},
          ERRORS, shape={'mapping': conforms('Class')})
def class_errors(mapping, ref):
    errs = []
    if 'id_pattern' in mapping and not valid_pattern(mapping['id_pattern']):
        errs.append(error(ref + '/id_pattern'))
    if 'properties' in mapping and 'id' in mapping['properties']:
        errs.append(error(ref + '/properties'))
    return errs


def flag(mapping, key):
    return key in mapping and bool(mapping[key])


@contract('mapry.validation:_validate_integer',
          {'mapping': JSON, 'ref': 'str'}, OPT_ERROR,
          shape={'mapping': typed('integer')})
def integer_error(mapping, ref):
    """The bounds must leave an integer."""
    if 'minimum' in mapping and 'maximum' in mapping:
        first = mapping['minimum']
        last = mapping['maximum']
        if flag(mapping, 'exclusive_minimum'):
            first = first + 1
        if flag(mapping, 'exclusive_maximum'):
            last = last - 1
        if first > last:
            return error(ref)
    return None


@contract('mapry.validation:_validate_float',
          {'mapping': JSON, 'ref': 'str'}, OPT_ERROR,
          shape={'mapping': typed('float')})
def float_error(mapping, ref):
    """The bounds must leave a number."""
    if 'minimum' in mapping and 'maximum' in mapping:
        low = mapping['minimum']
        high = mapping['maximum']
        if flag(mapping, 'exclusive_minimum') or flag(
                mapping, 'exclusive_maximum'):
            if not low < high:
                return error(ref)
        elif not low <= high:
            return error(ref)
    return None


@contract('mapry.validation:_validate_string',
          {'mapping': JSON, 'ref': 'str'}, OPT_ERROR,
          shape={'mapping': typed('string')})
def string_error(mapping, ref):
    if 'pattern' in mapping and not valid_pattern(mapping['pattern']):
        return error(ref + '/pattern')
    return None


@contract('mapry.validation:_validate_path',
          {'mapping': JSON, 'ref': 'str'}, OPT_ERROR,
          shape={'mapping': typed('path')})
def path_error(mapping, ref):
    if 'pattern' in mapping and not valid_pattern(mapping['pattern']):
        return error(ref + '/pattern')
    return None


def lines_of(fmt):
    """Token lines of a format, or None if it can not be tokenized."""
    try:
        return strftime.tokenize(fmt)
    except (lexery.Error, NotImplementedError):
        return None


@contract('mapry.validation:_validate_date',
          {'mapping': JSON, 'ref': 'str'}, OPT_ERROR,
          shape={'mapping': typed('date')})
def date_error(mapping, ref):
    if 'format' in mapping:
        lines = lines_of(mapping['format'])
        if lines is None or strftime.validate_date_tokens(lines) is not None:
            return error(ref + '/format')
    return None


@contract('mapry.validation:_validate_time',
          {'mapping': JSON, 'ref': 'str'}, OPT_ERROR,
          shape={'mapping': typed('time')})
def time_error(mapping, ref):
    if 'format' in mapping:
        lines = lines_of(mapping['format'])
        if lines is None or strftime.validate_time_tokens(lines) is not None:
            return error(ref + '/format')
    return None


@contract('mapry.validation:_validate_datetime',
          {'mapping': JSON, 'ref': 'str'}, OPT_ERROR,
          shape={'mapping': typed('datetime')})
def datetime_error(mapping, ref):
    if 'format' in mapping and lines_of(mapping['format']) is None:
        return error(ref + '/format')
    return None


TYPES_SET = ('set', 'str')


def nested(mapping, ref, types, depth):
    return depth >= 0




@contract('mapry.validation:_validate_array',
          {'mapping': JSON, 'ref': 'str', 'types': TYPES_SET, 'depth': 'int'},
          OPT_ERROR, shape={'mapping': typed('array')}, requires=nested)
def array_error(mapping, ref, types, depth):
    if 'minimum_size' in mapping and 'maximum_size' in mapping:
        if mapping['minimum_size'] > mapping['maximum_size']:
            return error(ref + '/minimum_size')
    return type_error(mapping['values'], ref + '/values', types, depth + 1)


@contract('mapry.validation:_validate_map',
          {'mapping': JSON, 'ref': 'str', 'types': TYPES_SET, 'depth': 'int'},
          OPT_ERROR, shape={'mapping': typed('map')}, requires=nested)
def map_error(mapping, ref, types, depth):
    return type_error(mapping['values'], ref + '/values', types, depth + 1)


PROPERTY_KEYS = ('json', 'optional')


def out_of_order(mapping, ref):
    """In an ordered definition the type comes first, then the description."""
    keys = list(mapping.keys())
    if keys[0] != 'type':
        return error(ref + '/type')
    if 'description' in mapping and keys[1] != 'description':
        return error(ref + '/description')
    return None


def not_empty(mapping, ref, types, depth):
    """The definition of a property names a type."""
    return depth > 0 or depth == 0 and 'type' in mapping


@contract('mapry.validation:_validate_type_recursively',
          {'mapping': JSON, 'ref': 'str', 'types': TYPES_SET, 'depth': 'int'},
          OPT_ERROR, shape={'mapping': OBJECT}, requires=not_empty)
def type_error(mapping, ref, types, depth):
    if depth == 0 and isinstance(mapping, collections.OrderedDict):
        err = out_of_order(mapping, ref)
        if err is not None:
            return err
    if 'type' not in mapping or not isinstance(mapping['type'], str):
        return error(ref + '/type')
    name = mapping['type']
    if name not in types:
        return error(ref + '/type')
    allowed = {'type', 'description'}
    if name in TYPES:
        try:
            jsonschema.validate(instance=mapping, schema=TYPES[name])
        except jsonschema.ValidationError as err:
            return error('{}/{}'.format(ref, '/'.join(err.path)))
        allowed |= set(TYPES[name]['properties'])
    if depth == 0:
        allowed |= {'json', 'optional'}
    for key in mapping:
        if key not in allowed:
            return error(ref)
    if name == 'integer':
        return integer_error(mapping, ref)
    if name == 'float':
        return float_error(mapping, ref)
    if name == 'string':
        return string_error(mapping, ref)
    if name == 'path':
        return path_error(mapping, ref)
    if name == 'date':
        return date_error(mapping, ref)
    if name == 'time':
        return time_error(mapping, ref)
    if name == 'datetime':
        return datetime_error(mapping, ref)
    if name == 'array':
        return array_error(mapping, ref, types, depth)
    if name == 'map':
        return map_error(mapping, ref, types, depth)
    return None


@contract('mapry.validation:_validate_property',
          {'mapping': JSON, 'ref': 'str', 'types': TYPES_SET}, OPT_ERROR,
          shape={'mapping': conforms('Property')})
def property_error(mapping, ref, types):
    return type_error(mapping, ref, types, 0)


PROPERTY_RE = re.compile(r'^[a-zA-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$')


@contract('mapry.validation:_validate_properties',
          {'mapping': JSON, 'ref': 'str', 'types': TYPES_SET}, ERRORS,
          shape={'mapping': dict(root=GRAPH, schema=COMPOSITE_DEF)})
def properties_errors(mapping, ref, types):
    errs = []
    if 'properties' in mapping:
        for name, definition in mapping['properties'].items():
            if PROPERTY_RE.fullmatch(name) is None:
                errs.append(error(ref + '/properties'))
            err = property_error(
                definition, '{}/properties/{}'.format(ref, name), types)
            if err is not None:
                errs.append(err)
    return errs


@contract('mapry.validation:_validate_plurals',
          {'mapping': JSON, 'ref': 'str'}, ERRORS,
          shape={'mapping': conforms('Graph')})
def plurals_errors(mapping, ref):
    errs = []
    if 'classes' not in mapping or 'properties' not in mapping:
        return errs
    registries = {}
    for item in mapping['classes']:
        if 'plural' in item:
            plural = item['plural']
        else:
            plural = naming.plural(item['name'])
        registries[naming.json_plural(plural)] = item['name']
    props = mapping['properties']
    if isinstance(props, collections.OrderedDict):
        order = list(props.keys())
    else:
        order = sorted(props.keys())
    for name in order:
        json_name = props[name].get('json', name)
        if name in registries or json_name in registries:
            errs.append(error('{}/{}'.format(ref, name)))
    return errs


PRIMITIVES = {
    'boolean', 'integer', 'float', 'string', 'path', 'date', 'time',
    'datetime', 'duration', 'time_zone'}


@contract('mapry.validation:validate', {'mapping': JSON, 'ref': 'str'},
          ERRORS)
def validate(mapping, ref):
    try:
        jsonschema.validate(instance=mapping, schema=GRAPH)
    except jsonschema.ValidationError as err:
        return [error('/'.join([ref] + [str(part) for part in err.path]))]
    errs = []
    if isinstance(mapping, collections.OrderedDict):
        keys = list(mapping.keys())
        if keys[0] != 'name':
            errs.append(error(ref + '/name'))
        if keys[1] != 'description':
            errs.append(error(ref + '/description'))
    names, clashes = names_errors(mapping, ref)
    errs.extend(clashes)
    if 'classes' in mapping:
        for i, item in enumerate(mapping['classes']):
            errs.extend(class_errors(item, '{}/classes/{}'.format(ref, i)))
    types = PRIMITIVES | {'array', 'map'} | names
    types.discard(mapping['name'])
    errs.extend(properties_errors(mapping, ref, types))
    if 'classes' in mapping:
        for i, item in enumerate(mapping['classes']):
            errs.extend(properties_errors(
                item, '{}/classes/{}'.format(ref, i), types))
    if 'embeds' in mapping:
        for i, item in enumerate(mapping['embeds']):
            errs.extend(properties_errors(
                item, '{}/embeds/{}'.format(ref, i), types))
    errs.extend(plurals_errors(mapping, ref))
    return errs
