"""The object model of mapry: classes and attribute types for the verifier.

These are assumptions about the parsed object graph; they are what C02 states
about the parser.
"""
import re

import mapry
from pv.engine import ATTR_TY
from pv.models import CLASS_ATTRS, SUBCLASSES

PRIMITIVES = [
    mapry.Boolean, mapry.Integer, mapry.Float, mapry.String, mapry.Path,
    mapry.Date, mapry.Time, mapry.Datetime, mapry.TimeZone, mapry.Duration
]
NESTED = [mapry.Array, mapry.Map]
COMPOSITES = [mapry.Class, mapry.Embed, mapry.Graph]
TYPE = ('obj', mapry.Type)
CLASS = ('obj', mapry.Class)
EMBED = ('obj', mapry.Embed)
GRAPH = ('obj', mapry.Graph)
PROPERTY = ('obj', mapry.Property)


class Composite:
    """Stands for a class, an embed or a graph."""


class ClassOrEmbed:
    """Stands for a class or an embed."""


COMPOSITE = ('obj', Composite)
CLASS_OR_EMBED = ('obj', ClassOrEmbed)

SUBCLASSES[mapry.Type] = PRIMITIVES + NESTED + COMPOSITES
SUBCLASSES[Composite] = list(COMPOSITES)
SUBCLASSES[ClassOrEmbed] = [mapry.Class, mapry.Embed]

_PATTERN = ('opt', ('obj', re.Pattern))
_ATTRS = {
    mapry.Boolean: {},
    mapry.Integer: dict(minimum=('opt', 'int'), exclusive_minimum='bool',
                        maximum=('opt', 'int'), exclusive_maximum='bool'),
    mapry.Float: dict(minimum=('opt', 'real'), exclusive_minimum='bool',
                      maximum=('opt', 'real'), exclusive_maximum='bool'),
    mapry.String: dict(pattern=_PATTERN),
    mapry.Path: dict(pattern=_PATTERN),
    mapry.Date: dict(format='str'),
    mapry.Time: dict(format='str'),
    mapry.Datetime: dict(format='str'),
    mapry.TimeZone: {},
    mapry.Duration: {},
    mapry.Array: dict(values=TYPE, minimum_size=('opt', 'int'),
                      maximum_size=('opt', 'int')),
    mapry.Map: dict(values=TYPE),
    mapry.Property: dict(ref='str', name='str', type=TYPE, description='str',
                         json='str', optional='bool', composite=COMPOSITE),
    mapry.Embed: dict(name='str', description='str', ref='str',
                      properties=('dict', PROPERTY)),
    mapry.Class: dict(name='str', plural='str', description='str', ref='str',
                      properties=('dict', PROPERTY), id_pattern=_PATTERN),
    mapry.Graph: dict(name='str', description='str', ref='str',
                      properties=('dict', PROPERTY), classes=('dict', CLASS),
                      embeds=('dict', EMBED)),
    mapry.Cpp: dict(namespace='str', path_as='str', optional_as='str',
                    datetime_library='str', indention='str'),
    mapry.Go: dict(package='str'),
    mapry.Py: dict(module_name='str', path_as='str', timezone_as='str',
                   indention='str'),
    mapry.Schema: dict(graph=GRAPH, cpp=('opt', ('obj', mapry.Cpp)),
                       go=('opt', ('obj', mapry.Go)),
                       py=('opt', ('obj', mapry.Py))),
}
for _cls, _attrs in _ATTRS.items():
    CLASS_ATTRS[_cls] = set(_attrs)
    for _name, _ty in _attrs.items():
        ATTR_TY[(_cls, _name)] = _ty
# by attribute name, for objects of several possible classes
for _name in ('values', 'properties', 'name', 'ref', 'description', 'type',
              'json', 'optional', 'classes', 'embeds', 'plural',
              'id_pattern', 'pattern', 'format', 'minimum_size',
              'maximum_size', 'exclusive_minimum', 'exclusive_maximum'):
    for _cls, _attrs in _ATTRS.items():
        if _name in _attrs:
            ATTR_TY[_name] = _attrs[_name]
