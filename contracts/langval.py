"""Specifications of the language-specific validation (C04)."""
import lexery
import mapry
import mapry.cpp.validation
import mapry.go.validation
import mapry.py.validation
from mapry.validation import SchemaError

import contracts.naming as naming
import contracts.strftime as strftime
import contracts.types as types
from contracts.model import CLASS, EMBED, GRAPH, PROPERTY
from pv.contract import contract
from pv.engine import ATTR_TY
from pv.models import CLASS_ATTRS

PY_KEYWORDS = {
    'False', 'None', 'True', 'and', 'as', 'assert', 'async', 'await', 'break',
    'class', 'continue', 'def', 'del', 'elif', 'else', 'except', 'finally',
    'for', 'from', 'global', 'if', 'import', 'in', 'is', 'lambda', 'nonlocal',
    'not', 'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield'}
GO_KEYWORDS = {
    'break', 'case', 'chan', 'const', 'continue', 'default', 'defer', 'else',
    'fallthrough', 'for', 'func', 'go', 'goto', 'if', 'import', 'interface',
    'map', 'package', 'range', 'return', 'select', 'struct', 'switch', 'type',
    'var'}
CPP_KEYWORDS = {
    'alignas', 'alignof', 'and', 'and_eq', 'asm', 'atomic_cancel',
    'atomic_commit', 'atomic_noexcept', 'auto', 'bitand', 'bitor', 'bool',
    'break', 'case', 'catch', 'char', 'char16_t', 'char32_t', 'class', 'compl',
    'concept', 'const', 'constexpr', 'const_cast', 'continue', 'co_await',
    'co_return', 'co_yield', 'decltype', 'default', 'delete', 'do', 'double',
    'dynamic_cast', 'else', 'enum', 'explicit', 'export', 'extern', 'false',
    'float', 'for', 'friend', 'goto', 'if', 'import', 'inline', 'int', 'long',
    'module', 'mutable', 'namespace', 'new', 'noexcept', 'not', 'not_eq',
    'nullptr', 'operator', 'or', 'or_eq', 'private', 'protected', 'public',
    'register', 'reinterpret_cast', 'requires', 'return', 'short', 'signed',
    'sizeof', 'static', 'static_assert', 'static_cast', 'struct', 'switch',
    'synchronized', 'template', 'this', 'thread_local', 'throw', 'true', 'try',
    'typedef', 'typeid', 'typename', 'union', 'unsigned', 'using', 'virtual',
    'void', 'volatile', 'wchar_t', 'while', 'xor', 'xor_eq'}


def error(ref):
    """An error at the reference; its message is not specified."""
    return SchemaError(message='', ref=ref)


ERRORS = ('list', ('obj', SchemaError))


# py
PY_ITEM = getattr(mapry.py.validation, '_Attribute', None)
if PY_ITEM is not None:
    CLASS_ATTRS[PY_ITEM] = {'name', 'ref'}
    ATTR_TY[(PY_ITEM, 'name')] = 'str'
    ATTR_TY[(PY_ITEM, 'ref')] = 'str'


@contract('mapry.py.validation:_properties_to_attributes', {'properties': ('dict', PROPERTY)},
          ('list', ('obj', PY_ITEM)), raises=(ValueError, ))
def py_members(properties):
    return [
        PY_ITEM(name=naming.py_as_attribute(prop.name), ref=prop.ref)
        for prop in properties.values()]


@contract('mapry.py.validation:_validate_attributes', {'attributes': ('list', ('obj', PY_ITEM))}, ERRORS)
def py_member_errors(attributes):
    """Members of one scope: no keyword, no name given before."""
    errs = []
    first = {}
    for item in attributes:
        if item.name in PY_KEYWORDS:
            errs.append(error(item.ref))
        if item.name in first:
            errs.append(error(item.ref))
        else:
            first[item.name] = item
    return errs


@contract('mapry.py.validation:_validate_class_attributes', {'a_class': CLASS}, ERRORS,
          raises=(ValueError, ))
def py_class_errors(a_class):
    members = py_members(a_class.properties)
    errs = py_member_errors(members)
    for member in members:
        if member.name == 'id':
            errs.append(error(member.ref))
    return errs


@contract('mapry.py.validation:_validate_graph_attributes', {'graph': GRAPH}, ERRORS, raises=(ValueError, ))
def py_graph_errors(graph):
    members = py_members(graph.properties)
    errs = py_member_errors(members)
    by_name = {member.name: member for member in members}
    registries = {}
    for cls in graph.classes.values():
        name = naming.py_as_attribute(cls.plural)
        if name in PY_KEYWORDS:
            errs.append(error(cls.ref))
        if name in by_name:
            errs.append(error(cls.ref))
        if name in registries:
            errs.append(error(cls.ref))
        else:
            registries[name] = cls
    return errs


@contract('mapry.py.validation:validate_schema', {'schema': ('obj', mapry.Schema)}, ERRORS,
          raises=(ValueError, ))
def py_validate_schema(schema):
    errs = []
    graph = schema.graph
    first = {}
    name = naming.py_as_composite(graph.name)
    if name in PY_KEYWORDS:
        errs.append(error(graph.ref))
    first[name] = graph
    for cls in graph.classes.values():
        name = naming.py_as_composite(cls.name)
        if name in PY_KEYWORDS:
            errs.append(error(cls.ref))
        if name in first:
            errs.append(error(cls.ref))
        else:
            first[name] = cls
        errs.extend(py_class_errors(cls))
    for embed in graph.embeds.values():
        name = naming.py_as_composite(embed.name)
        if name in PY_KEYWORDS:
            errs.append(error(embed.ref))
        if name in first:
            errs.append(error(embed.ref))
        else:
            first[name] = embed
        errs.extend(py_member_errors(py_members(embed.properties)))
    errs.extend(py_graph_errors(graph))
    return errs


# go
GO_ITEM = getattr(mapry.go.validation, '_Field', None)
if GO_ITEM is not None:
    CLASS_ATTRS[GO_ITEM] = {'name', 'ref'}
    ATTR_TY[(GO_ITEM, 'name')] = 'str'
    ATTR_TY[(GO_ITEM, 'ref')] = 'str'


@contract('mapry.go.validation:_properties_to_fields', {'properties': ('dict', PROPERTY)},
          ('list', ('obj', GO_ITEM)), raises=(ValueError, ))
def go_members(properties):
    return [
        GO_ITEM(name=naming.ucamel_case(prop.name), ref=prop.ref)
        for prop in properties.values()]


@contract('mapry.go.validation:_validate_fields', {'fields': ('list', ('obj', GO_ITEM))}, ERRORS)
def go_member_errors(fields):
    """Members of one scope: no keyword, no name given before."""
    errs = []
    first = {}
    for item in fields:
        if item.name in GO_KEYWORDS:
            errs.append(error(item.ref))
        if item.name in first:
            errs.append(error(item.ref))
        else:
            first[item.name] = item
    return errs


@contract('mapry.go.validation:_validate_class_fields', {'a_class': CLASS}, ERRORS,
          raises=(ValueError, ))
def go_class_errors(a_class):
    members = go_members(a_class.properties)
    errs = go_member_errors(members)
    for member in members:
        if member.name == 'ID':
            errs.append(error(member.ref))
    return errs


@contract('mapry.go.validation:_validate_embed_fields', {'embed': EMBED}, ERRORS, raises=(ValueError, ))
def go_embed_errors(embed):
    return go_member_errors(go_members(embed.properties))


@contract('mapry.go.validation:_validate_graph_fields', {'graph': GRAPH}, ERRORS, raises=(ValueError, ))
def go_graph_errors(graph):
    members = go_members(graph.properties)
    errs = go_member_errors(members)
    by_name = {member.name: member for member in members}
    registries = {}
    for cls in graph.classes.values():
        name = naming.ucamel_case(cls.plural)
        if name in GO_KEYWORDS:
            errs.append(error(cls.ref))
        if name in by_name:
            errs.append(error(cls.ref))
        if name in registries:
            errs.append(error(cls.ref))
        else:
            registries[name] = cls
    # names of types and functions of the generated package
    reserved = {'Error', 'Errors', 'NewErrors'}
    reserved.add(naming.ucamel_case(graph.name) + 'FromJSONable')
    reserved.add(naming.ucamel_case(graph.name) + 'ToJSONable')
    for cls in graph.classes.values():
        reserved.add(naming.ucamel_case(cls.name) + 'FromJSONable')
        reserved.add(naming.ucamel_case(cls.name) + 'ToJSONable')
    for embed in graph.embeds.values():
        reserved.add(naming.ucamel_case(embed.name) + 'FromJSONable')
        reserved.add(naming.ucamel_case(embed.name) + 'ToJSONable')
    for cls in graph.classes.values():
        if naming.ucamel_case(cls.name) in reserved:
            errs.append(error(cls.ref))
    for embed in graph.embeds.values():
        if naming.ucamel_case(embed.name) in reserved:
            errs.append(error(embed.ref))
    if naming.ucamel_case(graph.name) in reserved:
        errs.append(error(graph.ref))
    return errs


# A format which mapry does not know is an error of the schema, found before
# (contracts/validation.py); what reads it here raises what the lexer raises.
FORMAT_ERRORS = (
    lexery.Error, NotImplementedError, KeyError, AssertionError)


@contract('mapry.go.validation:_validate_date_time_formats',
          {'graph': GRAPH}, ERRORS, raises=FORMAT_ERRORS)
def go_format_errors(graph):
    errs = []
    for a_type, ref in types.iterate_over_types(graph):
        if isinstance(a_type, (mapry.Date, mapry.Datetime, mapry.Time)):
            if strftime.conflicting_directive(a_type.format) is not None:
                errs.append(error(ref))
    return errs


@contract('mapry.go.validation:validate_schema', {'schema': ('obj', mapry.Schema)}, ERRORS,
          raises=(ValueError, ) + FORMAT_ERRORS)
def go_validate_schema(schema):
    errs = []
    graph = schema.graph
    first = {}
    name = naming.ucamel_case(graph.name)
    if name in GO_KEYWORDS:
        errs.append(error(graph.ref))
    first[name] = graph
    for cls in graph.classes.values():
        name = naming.ucamel_case(cls.name)
        if name in GO_KEYWORDS:
            errs.append(error(cls.ref))
        if name in first:
            errs.append(error(cls.ref))
        else:
            first[name] = cls
        errs.extend(go_class_errors(cls))
    for embed in graph.embeds.values():
        name = naming.ucamel_case(embed.name)
        if name in GO_KEYWORDS:
            errs.append(error(embed.ref))
        if name in first:
            errs.append(error(embed.ref))
        else:
            first[name] = embed
        errs.extend(go_embed_errors(embed))
    errs.extend(go_graph_errors(graph))
    errs.extend(go_format_errors(graph))
    return errs


# cpp
CPP_ITEM = getattr(mapry.cpp.validation, '_Field', None)
if CPP_ITEM is not None:
    CLASS_ATTRS[CPP_ITEM] = {'name', 'ref'}
    ATTR_TY[(CPP_ITEM, 'name')] = 'str'
    ATTR_TY[(CPP_ITEM, 'ref')] = 'str'


@contract('mapry.cpp.validation:_properties_to_fields', {'properties': ('dict', PROPERTY)},
          ('list', ('obj', CPP_ITEM)), raises=(ValueError, ))
def cpp_members(properties):
    return [
        CPP_ITEM(name=naming.cpp_as_field(prop.name), ref=prop.ref)
        for prop in properties.values()]


@contract('mapry.cpp.validation:_validate_fields', {'fields': ('list', ('obj', CPP_ITEM))}, ERRORS)
def cpp_member_errors(fields):
    """Members of one scope: no keyword, no name given before."""
    errs = []
    first = {}
    for item in fields:
        if item.name in CPP_KEYWORDS:
            errs.append(error(item.ref))
        if item.name in first:
            errs.append(error(item.ref))
        else:
            first[item.name] = item
    return errs


@contract('mapry.cpp.validation:_validate_class_fields', {'a_class': CLASS}, ERRORS,
          raises=(ValueError, ))
def cpp_class_errors(a_class):
    members = cpp_members(a_class.properties)
    errs = cpp_member_errors(members)
    for member in members:
        if member.name == 'id':
            errs.append(error(member.ref))
    return errs


@contract('mapry.cpp.validation:_validate_embed_fields', {'embed': EMBED}, ERRORS, raises=(ValueError, ))
def cpp_embed_errors(embed):
    return cpp_member_errors(cpp_members(embed.properties))


@contract('mapry.cpp.validation:_validate_graph_fields', {'graph': GRAPH}, ERRORS, raises=(ValueError, ))
def cpp_graph_errors(graph):
    members = cpp_members(graph.properties)
    errs = cpp_member_errors(members)
    by_name = {member.name: member for member in members}
    registries = {}
    for cls in graph.classes.values():
        name = naming.cpp_as_field(cls.plural)
        if name in CPP_KEYWORDS:
            errs.append(error(cls.ref))
        if name in by_name:
            errs.append(error(cls.ref))
        if name in registries:
            errs.append(error(cls.ref))
        else:
            registries[name] = cls
    return errs


@contract('mapry.cpp.validation:validate_schema', {'schema': ('obj', mapry.Schema)}, ERRORS,
          raises=(ValueError, ))
def cpp_validate_schema(schema):
    errs = []
    graph = schema.graph
    first = {}
    name = naming.cpp_as_composite(graph.name)
    if name in CPP_KEYWORDS:
        errs.append(error(graph.ref))
    first[name] = graph
    for cls in graph.classes.values():
        name = naming.cpp_as_composite(cls.name)
        if name in CPP_KEYWORDS:
            errs.append(error(cls.ref))
        if name in first:
            errs.append(error(cls.ref))
        else:
            first[name] = cls
        errs.extend(cpp_class_errors(cls))
    for embed in graph.embeds.values():
        name = naming.cpp_as_composite(embed.name)
        if name in CPP_KEYWORDS:
            errs.append(error(embed.ref))
        if name in first:
            errs.append(error(embed.ref))
        else:
            first[name] = embed
        errs.extend(cpp_embed_errors(embed))
    errs.extend(cpp_graph_errors(graph))
    return errs
