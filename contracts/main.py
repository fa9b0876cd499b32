"""Specifications of the commands that write the generated files (C15).

The generators are functions of the graph and the settings that may fail;
the files written are compared as a trace of (path, text).
"""
import pathlib

import mapry
import mapry.main
import mapry.cpp.generate.jsoncpp_header
import mapry.cpp.generate.jsoncpp_impl
import mapry.cpp.generate.parse_header
import mapry.cpp.generate.parse_impl
import mapry.cpp.generate.types_header
import mapry.go.generate.fromjsonable
import mapry.go.generate.fromjsonable_test
import mapry.go.generate.parse
import mapry.go.generate.tojsonable
import mapry.go.generate.tojsonable_test
import mapry.go.generate.types
import mapry.py.generate.fromjsonable
import mapry.py.generate.parse
import mapry.py.generate.tojsonable
import mapry.py.generate.types

import contracts.langval as langval
from contracts.model import GRAPH
from pv.contract import contract

SCHEMA = ('obj', mapry.Schema)
PATH = ('obj', pathlib.Path)


class Fails(Exception):
    """A generator failed."""


def generator(module, **params):
    """A text that depends on the arguments only; generating may fail."""
    @contract('{}:generate'.format(module), params, 'str', raises=(Fails, ))
    def generate(*args, **kwargs):
        raise NotImplementedError()

    generate.contract.generator = True
    return generate


_C, _G, _P = ('obj', mapry.Cpp), ('obj', mapry.Go), ('obj', mapry.Py)
for _m, _params in (
        ('cpp.generate.types_header', dict(graph=GRAPH, cpp=_C)),
        ('cpp.generate.parse_header', dict(cpp=_C)),
        ('cpp.generate.parse_impl', dict(cpp=_C, parse_header_path='str')),
        ('cpp.generate.jsoncpp_header', dict(
            graph=GRAPH, cpp=_C, types_header_path='str',
            parse_header_path='str')),
        ('cpp.generate.jsoncpp_impl', dict(
            graph=GRAPH, cpp=_C, types_header_path='str',
            parse_header_path='str', jsoncpp_header_path='str')),
        ('go.generate.types', dict(graph=GRAPH, go=_G)),
        ('go.generate.parse', dict(go=_G)),
        ('go.generate.fromjsonable', dict(graph=GRAPH, go=_G)),
        ('go.generate.fromjsonable_test', dict(graph=GRAPH, go=_G)),
        ('go.generate.tojsonable', dict(graph=GRAPH, go=_G)),
        ('go.generate.tojsonable_test', dict(graph=GRAPH, go=_G)),
        ('py.generate.types', dict(graph=GRAPH, py=_P)),
        ('py.generate.parse', dict(graph=GRAPH, py=_P)),
        ('py.generate.fromjsonable', dict(graph=GRAPH, py=_P)),
        ('py.generate.tojsonable', dict(graph=GRAPH, py=_P))):
    generator('mapry.' + _m, **_params)


def exists(schema, outdir):
    return outdir.exists()


def write_all(outdir, files):
    for name, text in files:
        (outdir / name).write_text(text)
    return 0


@contract('mapry.main:generate_cpp', {'schema': SCHEMA, 'outdir': PATH},
          'int', raises=(ValueError, Fails), requires=exists, writes=True)
def generate_cpp(schema, outdir):
    if len(langval.cpp_validate_schema(schema)) > 0 or schema.cpp is None:
        return 1
    cpp, graph, g = schema.cpp, schema.graph, mapry.cpp.generate
    return write_all(outdir, [
        ('types.h', g.types_header.generate(graph=graph, cpp=cpp)),
        ('parse.h', g.parse_header.generate(cpp=cpp)),
        ('parse.cpp', g.parse_impl.generate(
            cpp=cpp, parse_header_path='parse.h')),
        ('jsoncpp.h', g.jsoncpp_header.generate(
            graph=graph, cpp=cpp, types_header_path='types.h',
            parse_header_path='parse.h')),
        ('jsoncpp.cpp', g.jsoncpp_impl.generate(
            graph=graph, cpp=cpp, types_header_path='types.h',
            parse_header_path='parse.h', jsoncpp_header_path='jsoncpp.h'))])


@contract('mapry.main:generate_go', {'schema': SCHEMA, 'outdir': PATH},
          'int', raises=(ValueError, Fails) + langval.FORMAT_ERRORS,
          requires=exists, writes=True)
def generate_go(schema, outdir):
    if len(langval.go_validate_schema(schema)) > 0 or schema.go is None:
        return 1
    go, graph, g = schema.go, schema.graph, mapry.go.generate
    return write_all(outdir, [
        ('types.go', g.types.generate(graph=graph, go=go)),
        ('parse.go', g.parse.generate(go=go)),
        ('from_jsonable.go', g.fromjsonable.generate(graph=graph, go=go)),
        ('from_jsonable_test.go', g.fromjsonable_test.generate(
            graph=graph, go=go)),
        ('to_jsonable.go', g.tojsonable.generate(graph=graph, go=go)),
        ('to_jsonable_test.go', g.tojsonable_test.generate(
            graph=graph, go=go))])


@contract('mapry.main:generate_py', {'schema': SCHEMA, 'outdir': PATH},
          'int', raises=(ValueError, Fails), requires=exists, writes=True)
def generate_py(schema, outdir):
    if len(langval.py_validate_schema(schema)) > 0 or schema.py is None:
        return 1
    py, graph, g = schema.py, schema.graph, mapry.py.generate
    return write_all(outdir, [
        ('__init__.py', g.types.generate(graph=graph, py=py)),
        ('parse.py', g.parse.generate(graph=graph, py=py)),
        ('fromjsonable.py', g.fromjsonable.generate(graph=graph, py=py)),
        ('tojsonable.py', g.tojsonable.generate(graph=graph, py=py))])
