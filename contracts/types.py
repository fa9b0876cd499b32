"""Specifications of the queries over types (C07)."""
import mapry

from contracts.model import CLASS_OR_EMBED, COMPOSITE, GRAPH, TYPE
from pv.contract import contract


def children(a_type):
    """The types that occur directly in a type."""
    if isinstance(a_type, (mapry.Class, mapry.Embed)):
        return [prop.type for prop in a_type.properties.values()]
    if isinstance(a_type, (mapry.Array, mapry.Map)):
        return [a_type.values]
    return []


@contract('mapry:_references', {'a_type': TYPE, 'visited_types': 'set'},
          ('set', ('obj', mapry.Class)), mutates=('visited_types', ))
def _references(a_type, visited_types):
    if a_type in visited_types:
        return set()
    visited_types.add(a_type)
    result = set()
    if isinstance(a_type, mapry.Class):
        result.add(a_type)
    if isinstance(a_type, (mapry.Class, mapry.Embed)):
        for prop in a_type.properties.values():
            result.update(_references(prop.type, visited_types))
    elif isinstance(a_type, (mapry.Array, mapry.Map)):
        result.update(_references(a_type.values, visited_types))
    return result


@contract('mapry:references', {'a_type': CLASS_OR_EMBED},
          ('list', ('obj', mapry.Class)))
def references(a_type):
    result = set()
    for prop in a_type.properties.values():
        result.update(_references(prop.type, set()))
    return sorted(result, key=lambda cls: cls.name)


def is_needed(a_type, query, visited_types):
    """Is the query met by a_type or by an unvisited type inside it?"""
    if isinstance(a_type, query):
        return True
    if not isinstance(a_type, (mapry.Graph, mapry.Class, mapry.Embed,
                               mapry.Array, mapry.Map)):
        return False
    if isinstance(a_type, mapry.Graph):
        for cls in a_type.classes.values():
            if cls not in visited_types:
                visited_types.add(a_type)
                if _needs_type(cls, query, visited_types):
                    return True
        for embed in a_type.embeds.values():
            if embed not in visited_types:
                visited_types.add(a_type)
                if _needs_type(embed, query, visited_types):
                    return True
    if isinstance(a_type, (mapry.Graph, mapry.Class, mapry.Embed)):
        for prop in a_type.properties.values():
            if prop.type not in visited_types:
                visited_types.add(a_type)
                if _needs_type(prop.type, query, visited_types):
                    return True
    if isinstance(a_type, (mapry.Array, mapry.Map)):
        if a_type.values not in visited_types:
            visited_types.add(a_type)
            if _needs_type(a_type.values, query, visited_types):
                return True
    return False


@contract('mapry:_needs_type',
          {'a_type': TYPE, 'query': ('obj', type), 'visited_types': 'set'},
          'bool', mutates=('visited_types', ))
def _needs_type(a_type, query, visited_types):
    return is_needed(a_type, query, visited_types)


@contract('mapry:needs_type', {'a_type': TYPE, 'query': ('obj', type)},
          'bool')
def needs_type(a_type, query):
    return _needs_type(a_type, query, set())


OCCURRENCE = ('tuple', TYPE, 'str')


@contract('mapry:_iterate_over_types_recursively',
          {'a_type': TYPE, 'ref': 'str'}, ('list', OCCURRENCE))
def _iterate_over_types_recursively(a_type, ref):
    result = [(a_type, ref)]
    if isinstance(a_type, (mapry.Array, mapry.Map)):
        result.extend(_iterate_over_types_recursively(
            a_type.values, ref + '/values'))
    return result


@contract('mapry:_iterate_over_composite_types', {'composite': COMPOSITE},
          ('list', OCCURRENCE))
def _iterate_over_composite_types(composite):
    result = []
    for prop in composite.properties.values():
        result.extend(_iterate_over_types_recursively(
            prop.type, composite.ref + '/' + prop.name))
    return result


@contract('mapry:iterate_over_types', {'graph': GRAPH}, ('list', OCCURRENCE))
def iterate_over_types(graph):
    result = []
    for cls in graph.classes.values():
        result.extend(_iterate_over_composite_types(cls))
    for embed in graph.embeds.values():
        result.extend(_iterate_over_composite_types(embed))
    result.extend(_iterate_over_composite_types(graph))
    return result
