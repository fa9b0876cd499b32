import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
V='mapry/validation.py';S='mapry/schemas.py'
p('C01','Schema validation rejects exactly the ill-formed schemas',
 "For every JSON value offered as a schema, validation terminates without an exception and returns an empty list of errors exactly when the schema is well formed: it has the documented structure and field patterns, all composite names are distinct, every (nested) type names a primitive, an aggregate, a class or an embed, only keys known for the type occur, number and size bounds are satisfiable (exclusive bounds included), patterns and date/time formats are valid, property names are legal identifiers, and no registry collides with a graph property. A schema without the documented structure (wrong types, missing or unknown fields, illegal names of composites) yields at least one error; otherwise every offending composite name, class field and property contributes at least one error. Every error's reference starts with the path of an offending part of the schema (class/embed index, property name, nested values).",
 ['inputs'],"every JSON-like mapping offered as a schema: any number of classes, embeds and properties, any nesting depth of arrays and maps, any combination of bounds and flags",
 "The tests use a handful of fixed schemas with one error each; the rules range over unboundedly many classes, properties, nesting depths and numeric bounds.",
 [V,S],[('validate and its helpers per type',V),('JSON schemas of the graph and of each type',S)],['mapry.validation.validate'])
p('C02','An accepted schema is parsed into exactly the object graph it describes',
 "Every schema accepted by validation is parsed without an exception into an object graph that mirrors it: same composites in the same order, every property with its name, JSON name, description, optionality, back reference and fully resolved type, every constraint (bounds as given, exclusiveness, sizes, patterns, formats, id patterns) unchanged, and every language setting taken over with the documented defaults. A schema with errors never yields an object graph; the errors are raised instead.",
 ['inputs'],"every schema mapping accepted by validation, ordered or not",
 "The tests parse a few fixed schemas and look at a few fields; mirroring must hold for any schema, order, nesting and numeric constraint.",
 ['mapry/parse.py','mapry/__init__.py'],[('schema_from_mapping, _recurse_type_from_mapping, _properties_from_mapping and the *_from_mapping helpers','mapry/parse.py'),('constructors of the type classes','mapry/__init__.py')],['mapry.parse.schema_from_mapping'])
p('C03','Identifier translation obeys the naming rules for every identifier',
 "For every legal schema identifier, the translations to snake case, camel case, upper camel case, plural and JSON registry name follow the documented rules: splitting an identifier and joining the parts gives it back, abbreviations keep their capitalisation where documented, a leading part of a plural is preserved and only its last part is inflected, and results are themselves legal identifiers. Illegal inputs are rejected by the stated preconditions rather than translated.",
 ['inputs'],"every identifier matched by the schema's identifier patterns",
 "Doctests and unit tests check about a dozen identifiers; the rules quantify over all of them.",
 ['mapry/naming.py','mapry/py/naming.py','mapry/cpp/naming.py'],[('split_identifier, plural, json_plural, camel_case, ucamel_case','mapry/naming.py'),('as_attribute/as_field/as_variable/as_composite','mapry/{py,cpp}/naming.py')],['mapry.naming.*','mapry.{py,cpp}.naming.*'])
p('C04','Language validation reports exactly the clashing or reserved identifiers',
 "For every parsed schema and each of C++, Go and Python, the language-specific validation returns an error for every composite, property or registry whose translated identifier is a keyword or reserved in that language or equals an identifier translated earlier in the same scope (the graph, the classes and the embeds form one scope for type names; properties and registries one scope within the graph), with the reference of the offending item, and returns no error otherwise.",
 ['inputs'],"every parsed schema: any number and naming of composites, properties and registries, including the object graph itself",
 "The tests check one schema per rule; clashes arise between arbitrary pairs of items after translation, and some pairs (graph against class) are never exercised.",
 ['mapry/py/validation.py','mapry/go/validation.py','mapry/cpp/validation.py'],[('validate_schema and helpers','mapry/{py,go,cpp}/validation.py')],['mapry.{py,go,cpp}.validation.validate_schema'])
p('C05','Date/time format strings are split losslessly and checked exactly',
 "Every format string is either split into directive and text tokens whose contents concatenate to the format line by line, where a token is a directive exactly if it is a supported %-directive, or rejected because it contains an unsupported directive. A date format is accepted exactly if it contains no time-of-day directive, and a time format exactly if it contains no date directive; the reported problem names the first offending directive.",
 ['inputs'],"every format string and every list of tokens",
 "The tests try some tens of format strings; the claim is about all strings.",
 ['mapry/strftime.py'],[('tokenize, validate_date_tokens, validate_time_tokens, directive sets','mapry/strftime.py')],['mapry.strftime.*'])
p('C06','strftime formats translate to equivalent Go layouts or are refused',
 "For every sequence of format tokens, the Go layout is the concatenation, in order, of each directive's Go counterpart and of the literal texts unchanged; formats with a directive that Go cannot express are refused with an error. Literal text that Go would misread as a layout directive is refused as documented, so that formatting and parsing with the layout agree with strftime.",
 ['inputs'],"every supported format string",
 "Only the golden formats are exercised; the mapping ranges over all directives, their order and the surrounding literal text.",
 ['mapry/go/timeformat.py'],[('convert','mapry/go/timeformat.py'),('_DIRECTIVE_MAP / _GO_DIRECTIVES','mapry/go/timeformat.py')],['mapry.go.timeformat.convert'])
p('C07','Type queries see every type, at any nesting depth',
 "For every object graph, asking whether a type (boolean to map, class or embed) is needed answers true exactly if such a type occurs in the queried type: itself, inside arrays and maps at any depth, in properties of embeds (transitively), classes and the graph. The classes referenced by a type are exactly those reachable through arrays, maps, embeds and the properties of classes, each once and in a stable order; iterating over the types of a graph yields every type occurrence of every property, nested values included, together with its reference path.",
 ['inputs'],"every type and object graph: any nesting of arrays and maps, recursive embeds, cyclic class references",
 "Golden schemas nest at most a few levels and each asks for one type; an omitted traversal edge only shows on a particular nesting.",
 ['mapry/__init__.py'],[('needs_type/_needs_type, references/_references, iterate_over_types','mapry/__init__.py')],['mapry.needs_type','mapry.references','mapry.iterate_over_types'])
p('C08','Schema text embedded in generated code keeps its meaning in every language',
 "For every text, the helpers that embed text in C++, Go and Python code produce a comment, string literal or docstring that the language reads back as exactly that text (for comments: every line commented out) and that the text can neither terminate nor extend. Re-indenting code changes only leading indention: every line keeps its relative level and content, blank lines hold nothing but indention.",
 ['inputs'],"every description, pattern, format and JSON name occurring in a schema",
 "Tests cover texts without awkward characters; quotes, backslashes, backticks, control characters, newlines and their combinations are unbounded.",
 ['mapry/py/generate/__init__.py','mapry/go/generate/__init__.py','mapry/cpp/generate/__init__.py','mapry/indention.py','mapry/py/expr.py','mapry/cpp/expr.py','mapry/go/expr.py'],
 [('comment, docstring','mapry/py/generate/__init__.py'),('comment, escaped_str, ticked_str','mapry/go/generate/__init__.py'),('comment, escaped_str','mapry/cpp/generate/__init__.py'),('reindent','mapry/indention.py'),('append_strings/join expressions','mapry/{cpp,go,py}/expr.py')],['mapry.{py,go,cpp}.generate.*','mapry.indention.reindent'])
p('C09','Generated Python parsing accepts exactly the conforming JSON values',
 "For every schema and every JSON value, the generated Python parser never raises; it records no error exactly when the value conforms to the schema (types, bounds with exclusiveness, sizes, patterns, formats, required properties, id patterns, existing references), and then returns an object graph holding exactly the values given. Every recorded error carries the reference path of an offending part, and non-conforming values never end up in a graph returned as valid.",
 ['inputs','configurations'],"every combination of type, constraint, optionality, nesting and Python setting, and every JSON value as decoded by json.loads (a property whose value is null counts as absent; patterns match as re.match; a format has every directive at most once)",
 "Golden-file tests compare texts for fixed schemas and never run most constraint combinations; JSON values are unbounded.",
 ['mapry/py/generate/fromjsonable.py','mapry/py/generate/types.py','mapry/py/generate/parse.py'],[('_parse_* templates and generate','mapry/py/generate/fromjsonable.py')],['generated fromjsonable module'])
p('C10','Generated Python serialization inverts generated Python parsing',
 "For every schema and every conforming JSON value, serializing the object graph parsed by the generated Python code yields a JSON value that denotes the same graph: parsing it again gives an equal graph, every property appears under its JSON name, absent optional properties stay absent, and every class instance appears in its registry under its identifier. Serializing an instance stored under an identifier different from its own is refused.",
 ['inputs','configurations'],"every combination of type, optionality, nesting and Python setting, and every conforming JSON value",
 "Golden-file tests fix the text for a few schemas; no test sweeps the combinations.",
 ['mapry/py/generate/tojsonable.py'],[('_serialize_* templates and generate','mapry/py/generate/tojsonable.py')],['generated tojsonable module'])
p('C11','Generated Go parsing accepts exactly the conforming JSON values',
 "For every schema and every JSON value (as decoded by encoding/json), the generated Go parser compiles, never panics, and records no error exactly when the value conforms to the schema, in which case the target holds exactly the values given. Every recorded error carries the reference path of an offending part.",
 ['inputs','configurations'],"every combination of type, constraint, optionality and nesting, and every JSON value as decoded by encoding/json into interface{} (patterns match as regexp.MatchString; the target and what it holds are zero-initialised)",
 "Golden-file and live tests cover fixed schemas only; constraint, nesting and optionality combinations are unbounded.",
 ['mapry/go/generate/fromjsonable.py','mapry/go/generate/types.py','mapry/go/generate/parse.py'],[('_parse_* templates and generate','mapry/go/generate/fromjsonable.py')],['generated fromjsonable.go'])
p('C12','Generated Go serialization inverts generated Go parsing',
 "For every schema and every conforming JSON value, the generated Go code serializes the parsed object graph without an error into a JSON value that denotes the same graph: every property under its JSON name, unset optional properties absent, every instance in its registry under its identifier. Serializing an instance stored under a different identifier returns an error.",
 ['inputs','configurations'],"every combination of type, optionality and nesting, and every conforming JSON value",
 "Golden-file and live tests cover fixed schemas only.",
 ['mapry/go/generate/tojsonable.py'],[('_serialize_* templates and generate','mapry/go/generate/tojsonable.py')],['generated tojsonable.go'])
p('C13','Generated C++ code parses exactly the conforming values and serializes back',
 "For every schema and every Jsoncpp value, the generated C++ parser records no error exactly when the value conforms to the schema, in which case the target holds exactly the values given, and every error carries the reference path of an offending part. The generated serializer writes every set property under its JSON name and every instance under its identifier, so that parsing its output gives the same graph.",
 ['inputs','configurations'],"every combination of type, constraint, optionality, nesting and C++ setting, and every JSON value (patterns match the whole text; the target is freshly constructed; arrays and texts as large as their C++ sizes allow)",
 "The tests only compare generated C++ texts for fixed schemas; they never compile or run them.",
 ['mapry/cpp/generate/jsoncpp_impl.py','mapry/cpp/generate/jsoncpp_header.py','mapry/cpp/generate/types_header.py','mapry/cpp/generate/parse_header.py','mapry/cpp/generate/parse_impl.py'],[('_parse_*/_serialize_* templates and generate','mapry/cpp/generate/jsoncpp_impl.py')],['generated jsoncpp.cpp'])
p('C14','Generated code declares every type and imports everything it uses',
 "For every schema accepted for a language, the generated files of that language are consistent as a unit: every composite and property is declared once under its translated name with the documented type for the settings (optional properties as the documented optional; the arguments of Python constructors with the required properties first, otherwise in the order of the schema), and every library, helper and type the code uses is imported, included or defined (and in Go nothing else is imported). In particular the generated Python modules import cleanly, the generated Go package compiles with its tests and the generated C++ files compile, whatever mixture of types the schema uses.",
 ['configurations'],"every mixture of types, nesting, optionality and language settings",
 "Golden schemas use mostly one type each; missing or unused imports only show for particular mixtures.",
 ['mapry/py/generate/types.py','mapry/go/generate/types.py','mapry/cpp/generate/types_header.py','mapry/py/generate/__init__.py','mapry/go/generate/__init__.py','mapry/cpp/generate/__init__.py'],
 [('_imports/_includes of each generator','mapry/{py,go,cpp}/generate/*.py'),('type_repr, order_by_optional, is_pointer_type','mapry/{py,go,cpp}/generate/__init__.py')],['generated types, parse, fromjsonable, tojsonable files'])
p('C15','The command line writes the complete code or nothing at all',
 "For every invocation, the command exits with zero exactly when the schema was read, valid for the chosen language and all documented files of that language were written to the output directory (created if missing, existing files overwritten), with contents that depend only on the schema. If the schema is invalid, lacks the settings of the language or its identifiers clash in that language, every error is reported on the error stream, the exit code is non-zero and no file is created or changed.",
 ['inputs','histories'],"every schema, language and state of the output directory, and every sequence of invocations",
 "The tests call the generators on valid schemas with fixed directories; error paths and repeated runs are barely exercised.",
 ['mapry/main.py'],[('run, generate_cpp, generate_go, generate_py','mapry/main.py')],['mapry.main.run'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
