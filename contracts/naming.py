"""Specifications of identifier translation (C03).

Every function below states the result of the real function named in
``@contract`` for every string (no length bound): it is what the documentation
of the function says, written as a program.
"""
from pv.contract import contract

IRREGULAR = {
    'criterion': 'criteria',
    'minimum': 'minima',
    'maximum': 'maxima',
    'matrix': 'matrices',
    'life': 'lives',
    'focus': 'foci',
    'Criterion': 'Criteria',
    'Minimum': 'Minima',
    'Maximum': 'Maxima',
    'Matrix': 'Matrices',
    'Life': 'Lives',
    'Focus': 'Foci',
}
UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


@contract('mapry.naming:split_identifier', {'identifier': 'str'},
          ('list', 'str'), modular=False)
def split_identifier(identifier):
    return identifier.split('_')


def keeps_capital(result, identifier):
    """The plural of a capitalised identifier is capitalised."""
    if len(identifier) == 0 or identifier[0] not in UPPER:
        return True
    return len(result) > 0 and result[0] in UPPER


@contract('mapry.naming:plural', {'identifier': 'str'}, 'str',
          ensures=keeps_capital)
def plural(identifier):
    last = identifier.split('_')[-1]
    if last in IRREGULAR:
        return identifier[:len(identifier) - len(last)] + IRREGULAR[last]
    if last.endswith(('ay', 'ey', 'iy', 'oy', 'uy')):
        return identifier + 's'
    if last.endswith('y'):
        return identifier[:-1] + 'ies'
    if last.endswith('x') or last.endswith('s'):
        return identifier + 'es'
    return identifier + 's'


@contract('mapry.naming:json_plural', {'a_plural': 'str'}, 'str',
          raises=(Exception, ), modular=False)
def json_plural(a_plural):
    if len(a_plural) == 0 or a_plural[0] not in UPPER:
        raise Exception('illegal plural')
    return a_plural.lower()


def capitalized(part):
    return part[:1].upper() + part[1:]


@contract('mapry.naming:camel_case', {'identifier': 'str'}, 'str',
          raises=(ValueError, ))
def camel_case(identifier):
    if identifier == '':
        raise ValueError('empty')
    parts = identifier.split('_')
    return parts[0].lower() + ''.join([capitalized(p) for p in parts[1:]])


@contract('mapry.naming:ucamel_case', {'identifier': 'str'}, 'str',
          raises=(ValueError, ))
def ucamel_case(identifier):
    if identifier == '':
        raise ValueError('empty')
    parts = identifier.split('_')
    return capitalized(parts[0]) + ''.join(
        [capitalized(p) for p in parts[1:]])


@contract('mapry.py.naming:as_attribute', {'identifier': 'str'}, 'str',
          raises=(ValueError, ))
def py_as_attribute(identifier):
    if identifier == '':
        raise ValueError('empty')
    return identifier.lower()


@contract('mapry.py.naming:as_variable', {'identifier': 'str'}, 'str',
          raises=(ValueError, ))
def py_as_variable(identifier):
    if identifier == '' or identifier[0] not in UPPER:
        raise ValueError('not a composite')
    return identifier.lower()


@contract('mapry.py.naming:as_composite', {'identifier': 'str'}, 'str',
          raises=(ValueError, ))
def py_as_composite(identifier):
    if identifier == '' or identifier[0] not in UPPER:
        raise ValueError('not a composite')
    return ucamel_case(identifier)


@contract('mapry.cpp.naming:as_field', {'identifier': 'str'}, 'str',
          raises=(ValueError, ))
def cpp_as_field(identifier):
    if identifier == '':
        raise ValueError('empty')
    return identifier.lower()


@contract('mapry.cpp.naming:as_variable', {'identifier': 'str'}, 'str',
          raises=(ValueError, ))
def cpp_as_variable(identifier):
    if identifier == '' or identifier[0] not in UPPER:
        raise ValueError('not a composite')
    return identifier.lower()


@contract('mapry.cpp.naming:as_composite', {'identifier': 'str'}, 'str',
          raises=(ValueError, ))
def cpp_as_composite(identifier):
    if identifier == '' or identifier[0] not in UPPER:
        raise ValueError('not a composite')
    return ucamel_case(identifier)
