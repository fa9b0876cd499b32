From e694be5d545a85a95322fcaaaac0999b5119eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 01/29] fix: keep the leading parts when inflecting an
 irregular last part

plural('Some_matrix') gave 'matrices' instead of 'Some_matrices', so
unrelated classes could end up with the same registry.
---
 mapry/naming.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mapry/naming.py b/mapry/naming.py
index cca62be..5b71721 100644
--- a/mapry/naming.py
+++ b/mapry/naming.py
@@ -70,12 +70,15 @@ def plural(identifier: str) -> str:
     >>> plural(identifier='Focus')
     'Foci'
 
+    >>> plural(identifier='Some_matrix')
+    'Some_matrices'
+
     """
     parts = split_identifier(identifier=identifier)
     last_part = parts[-1]
 
     if last_part in PLURAL_TABLE:
-        return PLURAL_TABLE[last_part]
+        return identifier[:-len(last_part)] + PLURAL_TABLE[last_part]
 
     if (last_part.endswith('ay') or last_part.endswith('ey')
             or last_part.endswith('iy') or last_part.endswith('oy')
-- 
2.43.0


From a1f00fa0cb45e017c9b92e0473d99601c2029675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 02/29] fix: translate identifiers with consecutive underscores

The schema accepts a name such as 'a__b', but camel_case and ucamel_case
raised an IndexError on it.
---
 mapry/naming.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mapry/naming.py b/mapry/naming.py
index 5b71721..a3d96e5 100644
--- a/mapry/naming.py
+++ b/mapry/naming.py
@@ -143,7 +143,7 @@ def camel_case(identifier: str) -> str:
     camel_case_parts.append(parts[0].lower())
 
     for part in parts[1:]:
-        camel_case_parts.append(part[0].upper() + part[1:])
+        camel_case_parts.append(part[:1].upper() + part[1:])
 
     return ''.join(camel_case_parts)
 
@@ -176,9 +176,9 @@ def ucamel_case(identifier: str) -> str:
     parts = split_identifier(identifier=identifier)
 
     camel_case_parts = []  # type: List[str]
-    camel_case_parts.append(parts[0][0].upper() + parts[0][1:])
+    camel_case_parts.append(parts[0][:1].upper() + parts[0][1:])
 
     for part in parts[1:]:
-        camel_case_parts.append(part[0].upper() + part[1:])
+        camel_case_parts.append(part[:1].upper() + part[1:])
 
     return ''.join(camel_case_parts)
-- 
2.43.0


From 09bc0f8eacb57f190b6224b6bb6f2b7ac537ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 03/29] fix: translate weekday directives to the layout of Go

Go names the weekday with 'Mon' and 'Monday'; 'Sun' and 'Sunday' are
literal text in a layout, so dates with %a or %A were never parsed and
were serialized to a constant.
---
 mapry/go/timeformat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index fd5bf85..013bf44 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -8,8 +8,8 @@ import mapry.strftime
 
 # Taken from https://github.com/bdotdub/fuckinggodateformat
 _STRFTIME_TO_GO = {
-    '%a': 'Sun',
-    '%A': 'Sunday',
+    '%a': 'Mon',
+    '%A': 'Monday',
     '%b': 'Jan',
     '%B': 'January',
     '%d': '02',
-- 
2.43.0


From 2dd57aa59c71367d33e7bdc6a0864220100e8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 04/29] fix: detect every literal text that Go misreads as a
 directive

The list of conflicting directives missed Mon, Monday, single digits and
time zones, and only looked at one token at a time. Compare instead what
Go's layout parser sees with what the format means. Also do not refuse to
convert a format which ends with an empty line.
---
 docs/source/go_specifics.rst |  2 +-
 mapry/go/timeformat.py       | 55 ++++++++++++++++++++++--
 mapry/go/validation.py       | 82 ++++++++++--------------------------
 3 files changed, 75 insertions(+), 64 deletions(-)

diff --git a/docs/source/go_specifics.rst b/docs/source/go_specifics.rst
index d420e7d..33c1f6a 100644
--- a/docs/source/go_specifics.rst
+++ b/docs/source/go_specifics.rst
@@ -210,7 +210,7 @@ a couple of repercussions:
    C/C++ ``ctime`` library).
  * Second, certain parts of the format, while unproblematic in strftime
    directives, cause conflicts in Go. For example, the format
-   ``"Sun goes up: %Y-%m-%d %H:%M:%S"`` will be misinterpreted since ``Sun``
+   ``"Mon goes up: %Y-%m-%d %H:%M:%S"`` will be misinterpreted since ``Mon``
    will be understood as abbreviated weekday in Go. Mapry detects such conflicts
    as soon as you try to generate Go code and raise an error. However, we leave
    it to the user to decide to generate code in other languages even though
diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index 013bf44..dcf3ed1 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -1,8 +1,7 @@
 #!/usr/bin/env python3
 """Convert date/time format from strftime directives to Go."""
-from typing import List  # pylint: disable=unused-import
-
-from icontract import ensure
+import re
+from typing import List, Optional, Tuple  # pylint: disable=unused-import
 
 import mapry.strftime
 
@@ -29,8 +28,56 @@ _STRFTIME_TO_GO = {
     '%%': '%'
 }
 
+# Go takes the first of these parts in a layout for a directive
+# (see ``nextStdChunk`` in the Go package ``time``).
+_GO_DIRECTIVE_RE = re.compile(
+    r'January|Jan(?![a-z])|Monday|Mon(?![a-z])|MST|'
+    r'0[1-6]|002|15|1|2006|2|_2(?!006)|__2|3|4|5|PM|pm|'
+    r'[-Z]07(?:0000|:00:00|00|:00)?|'
+    r'[.,](?:0+|9+)(?![0-9])')
+
+
+def conflicting_directive(a_format: str) -> Optional[str]:
+    r"""
+    Search for a part of the format which Go would misread as a directive.
+
+    :param a_format: strftime/strptime directives
+    :return: the misread part of the Go layout, or None if there is none
+
+    >>> conflicting_directive(a_format="%Y-%m-%d %H:%M:%SZ")
+
+    >>> conflicting_directive(a_format="Sun %Y Jan")
+    'Jan'
+
+    """
+    intended = []  # type: List[Tuple[int, str]]
+    position = 0
+    for i, tkn_line in enumerate(mapry.strftime.tokenize(format=a_format)):
+        if i > 0:
+            position += 1
+
+        for tkn in tkn_line:
+            if tkn.identifier == 'directive':
+                directive = _STRFTIME_TO_GO[tkn.content]
+                if tkn.content != '%%':
+                    intended.append((position, directive))
+                position += len(directive)
+            else:
+                position += len(tkn.content)
+
+    layout = convert(a_format=a_format)
+    understood = [(mtch.start(), mtch.group())
+                  for mtch in _GO_DIRECTIVE_RE.finditer(layout)]
+
+    for _, part in [item for item in understood if item not in intended]:
+        return part
+
+    for _, part in [item for item in intended if item not in understood]:
+        return part
+
+    return None
+
 
-@ensure(lambda result: not result.endswith('\n'))
 def convert(a_format: str) -> str:
     r"""
     Convert the strftime/strptime directives to Go directives.
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index a3d2be3..ed98ee4 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -3,8 +3,8 @@ from typing import (  # pylint: disable=unused-import
     Dict, List, Mapping, MutableMapping)
 
 import mapry
+import mapry.go.timeformat
 import mapry.naming
-import mapry.strftime
 import mapry.validation
 
 _KEYWORDS = {
@@ -230,32 +230,6 @@ def _validate_graph_fields(graph: mapry.Graph
     return errs
 
 
-# yapf: disable
-_GO_TIME_FORMAT_DIRECTIVES = [
-    'Sunday',
-    'Sun',
-    'January',
-    'Jan',
-    '02',
-    '_2',
-    '01',
-    '2006',
-    '06',
-    '15',
-    '03',
-    '3',
-    '04',
-    'pm',
-    'PM',
-    '05',
-    '-0700',
-    'MST'
-]
-
-
-# yapf: enable
-
-
 def _validate_date_time_formats(graph: mapry.Graph
                                 ) -> List[mapry.validation.SchemaError]:
     """
@@ -274,38 +248,28 @@ def _validate_date_time_formats(graph: mapry.Graph
     # yapf: enable
 
     for a_type, ref in date_time_types:
-        tkn_lines = mapry.strftime.tokenize(format=a_type.format)
-
-        # yapf: disable
-        text_tkns = [
-            tkn
-            for tkn_line in tkn_lines
-            for tkn in tkn_line
-            if tkn.identifier == 'text'
-        ]
-        # yapf: enable
-
-        for tkn in text_tkns:
-            for directive in _GO_TIME_FORMAT_DIRECTIVES:
-                if directive in tkn.content:
-                    if isinstance(a_type, mapry.Date):
-                        type_str = 'Date'
-                    elif isinstance(a_type, mapry.Datetime):
-                        type_str = 'Date/time'
-                    elif isinstance(a_type, mapry.Time):
-                        type_str = 'Time'
-                    else:
-                        raise NotImplementedError(
-                            "Unhandled mapry type: {}".format(type(a_type)))
-
-                    errs.append(
-                        mapry.validation.SchemaError(
-                            message=(
-                                '{} format contains a conflicting '
-                                'Go time.Format directive {}: {}').format(
-                                    type_str, directive, a_type.format),
-                            ref=ref))
-                    break
+        directive = mapry.go.timeformat.conflicting_directive(
+            a_format=a_type.format)
+
+        if directive is not None:
+            if isinstance(a_type, mapry.Date):
+                type_str = 'Date'
+            elif isinstance(a_type, mapry.Datetime):
+                type_str = 'Date/time'
+            elif isinstance(a_type, mapry.Time):
+                type_str = 'Time'
+            else:
+                raise NotImplementedError(
+                    "Unhandled mapry type: {}".format(type(a_type)))
+
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        '{} format contains a conflicting '
+                        'Go time.Format directive {}: {}').format(
+                            type_str, directive, a_type.format),
+                    ref=ref))
+
     return errs
 
 
-- 
2.43.0


From 06c533e1ac95122182c2c99d05a9519530dc08d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 05/29] fix: escape control characters in C++ literals, end
 comments safely

A backslash at the end of a comment continued the comment on the next line,
and control characters could break or alter a string literal.
---
 mapry/cpp/generate/__init__.py | 55 +++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 7e37be1..8ed6f3f 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -1,5 +1,5 @@
 """Generate the C++ code to parse and serialize a mapry object graph."""
-import collections
+import re
 from typing import List
 
 import mapry
@@ -17,7 +17,10 @@ def comment(text: str) -> str:
     """
     comment_lines = []  # type: List[str]
     for line in text.splitlines():
-        if line.strip():
+        if line.rstrip().endswith('\\'):
+            # The backslash must not continue the comment on the next line.
+            comment_lines.append('// {} //'.format(line))
+        elif line.strip():
             comment_lines.append('// {}'.format(line))
         else:
             comment_lines.append('//')
@@ -118,6 +121,24 @@ def type_repr(a_type: mapry.Type, cpp: mapry.Cpp) -> str:
             "Unhandled C++ represenation of a type: {}".format(type(a_type)))
 
 
+# yapf: disable
+_ESCAPES = {
+    '\\': '\\\\',
+    '"': '\\"',
+    '\a': '\\a',
+    '\b': '\\b',
+    '\t': '\\t',
+    '\n': '\\n',
+    '\v': '\\v',
+    '\f': '\\f',
+    '\r': '\\r'
+}
+# yapf: enable
+
+# Characters that break a line of code or are not allowed in it
+_CONTROL_RE = re.compile('[\x00-\x1f\x7f-\x9f\u2028\u2029\ufeff]')
+
+
 def escaped_str(text: str) -> str:
     r"""
     Convert the ``text`` into a C++ escaped string.
@@ -132,22 +153,14 @@ def escaped_str(text: str) -> str:
     '"test\\"me"'
 
     """
-    # yapf: disable
-    mapping = collections.OrderedDict([
-        ('\\', '\\\\'),
-        ('"', '\\"'),
-        ('\a', '\\a'),
-        ('\b', '\\b'),
-        ('\t', '\\t'),
-        ('\n', '\\n'),
-        ('\v', '\\v'),
-        ('\f', '\\f'),
-        ('\r', '\\r'),
-        ('\x1B', '\\e')])
-    # yapf: enable
-
-    result = text
-    for src, tgt in mapping.items():
-        result = result.replace(src, tgt)
-
-    return '"{}"'.format(result)
+    parts = []  # type: List[str]
+    for char in text:
+        if char in _ESCAPES:
+            parts.append(_ESCAPES[char])
+        elif _CONTROL_RE.match(char):
+            parts.extend(
+                '\\{:03o}'.format(byte) for byte in char.encode('utf-8'))
+        else:
+            parts.append(char)
+
+    return '"{}"'.format(''.join(parts))
-- 
2.43.0


From d21ca7ef48438d5ba1066131948e287a836945b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 06/29] fix: escape control characters in Go literals

\e is no escape sequence in Go, and control characters in backticked
literals were dropped by Go or altered by re-indenting the code.
---
 mapry/go/generate/__init__.py | 54 +++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 0e31ec4..121a3a7 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -1,5 +1,4 @@
 """Generate the Go code to parse and serialize a mapry object graph."""
-import collections
 import re
 from typing import List, Set
 
@@ -86,6 +85,24 @@ def type_repr(a_type: mapry.Type, go: mapry.Go) -> str:
             "Unhandled Go represenation of a type: {}".format(type(a_type)))
 
 
+# yapf: disable
+_ESCAPES = {
+    '\\': '\\\\',
+    '"': '\\"',
+    '\a': '\\a',
+    '\b': '\\b',
+    '\t': '\\t',
+    '\n': '\\n',
+    '\v': '\\v',
+    '\f': '\\f',
+    '\r': '\\r'
+}
+# yapf: enable
+
+# Characters that break a line of code or are not allowed in it
+_CONTROL_RE = re.compile('[\x00-\x1f\x7f-\x9f\u2028\u2029\ufeff]')
+
+
 @ensure(lambda result: not result.endswith('\n'))
 def escaped_str(text: str) -> str:
     r"""
@@ -103,25 +120,16 @@ def escaped_str(text: str) -> str:
     '"test\\"me"'
 
     """
-    # yapf: disable
-    mapping = collections.OrderedDict([
-        ('\\', '\\\\'),
-        ('"', '\\"'),
-        ('\a', '\\a'),
-        ('\b', '\\b'),
-        ('\t', '\\t'),
-        ('\n', '\\n'),
-        ('\v', '\\v'),
-        ('\f', '\\f'),
-        ('\r', '\\r'),
-        ('\x1B', '\\e')])
-    # yapf: enable
-
-    result = text
-    for src, tgt in mapping.items():
-        result = result.replace(src, tgt)
-
-    return '"{}"'.format(result)
+    parts = []  # type: List[str]
+    for char in text:
+        if char in _ESCAPES:
+            parts.append(_ESCAPES[char])
+        elif _CONTROL_RE.match(char):
+            parts.append('\\u{:04x}'.format(ord(char)))
+        else:
+            parts.append(char)
+
+    return '"{}"'.format(''.join(parts))
 
 
 @ensure(lambda result: not result.endswith('\n'))
@@ -130,7 +138,8 @@ def ticked_str(text: str) -> str:
     Convert the ``text`` into a backticked Go string literal.
 
     If there are backticks in the text, the generated string literal
-    is split into multiple lines.
+    is split into multiple lines. Control characters, which can not be
+    represented in a backticked literal of re-indented code, are escaped.
 
     :param text: to be converted
     :return: Go string literal
@@ -143,6 +152,9 @@ def ticked_str(text: str) -> str:
         `me`
 
     """
+    if _CONTROL_RE.search(text):
+        return escaped_str(text=text)
+
     tick_parts = text.split('`')
     parts = []  # type: List[str]
 
-- 
2.43.0


From 33b05e809ae5a4f535f16d10836b7b19542cc676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 07/29] fix: keep docstrings closed for texts ending in a quote
 or a backslash

---
 mapry/py/generate/__init__.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/mapry/py/generate/__init__.py b/mapry/py/generate/__init__.py
index 406bfea..1f1d124 100644
--- a/mapry/py/generate/__init__.py
+++ b/mapry/py/generate/__init__.py
@@ -105,6 +105,14 @@ def type_repr(a_type: mapry.Type, py: mapry.Py) -> str:
             "Unhandled Python represenation of a type: {}".format(type(a_type)))
 
 
+# Characters that break a line of code or are not allowed in it
+_CONTROL_RE = re.compile(
+    '[\x00-\x08\x0b-\x1f\x7f-\x9f\u2028\u2029\ufeff]')
+
+# Quotes that would close a docstring
+_QUOTES_RE = re.compile(r'"""|"\Z')
+
+
 @require(lambda text: text != '')
 @ensure(lambda result: not result.endswith('\n'))
 @ensure(lambda result: result.startswith('r"""') or result.startswith('"""'))
@@ -118,13 +126,22 @@ def docstring(text: str) -> str:
     """
     has_backslash = '\\' in text
     has_triple_quote = '"""' in text
+    has_control = _CONTROL_RE.search(text) is not None
+    lines = text.splitlines()
+
+    # The closing quotes must not be affected by the end of the text.
+    has_unsafe_end = len(lines) == 1 and text.endswith(('"', '\\'))
 
     is_raw = False
     content = text
 
-    if has_triple_quote:
+    if has_triple_quote or has_control or has_unsafe_end:
         is_raw = False
-        content = text.replace('\\', '\\\\').replace('"""', '\\"\\"\\"')
+        content = text.replace('\\', '\\\\')
+        content = _QUOTES_RE.sub(
+            lambda mtch: '\\"' * len(mtch.group()), content)
+        content = _CONTROL_RE.sub(
+            lambda mtch: '\\u{:04x}'.format(ord(mtch.group())), content)
     else:
         if has_backslash:
             is_raw = True
@@ -133,7 +150,6 @@ def docstring(text: str) -> str:
     if is_raw:
         parts.append('r')
 
-    lines = text.splitlines()
     if len(lines) > 1:
         parts.append('"""\n')
         parts.append(content)
-- 
2.43.0


From 9f69632358b6ddcec8ed116dff4db2ca583ead79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 08/29] fix: write patterns as safe C++ literals

---
 mapry/cpp/generate/__init__.py     | 17 +++++++++++++++++
 mapry/cpp/generate/jsoncpp_impl.py |  9 +++++----
 mapry/cpp/jinja2_env.py            |  1 +
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 8ed6f3f..7be94ba 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -164,3 +164,20 @@ def escaped_str(text: str) -> str:
             parts.append(char)
 
     return '"{}"'.format(''.join(parts))
+
+
+def raw_str(text: str) -> str:
+    r"""
+    Convert the ``text`` into a C++ string literal, a raw one if possible.
+
+    :param text: to be converted
+    :return: C++ string literal
+
+    >>> print(raw_str(r'^\w+$'))
+    R"v0g0n(^\w+$)v0g0n"
+
+    """
+    if _CONTROL_RE.search(text) or ')v0g0n"' in text:
+        return escaped_str(text=text)
+
+    return 'R"v0g0n({})v0g0n"'.format(text)
diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 8735d89..6a31433 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -202,11 +202,12 @@ def _regex_constants(graph: mapry.Graph) -> str:
                 '''\
             namespace {composite_varname}_re {{
             const std::regex kID(
-                R"v0g0n({regex})v0g0n");
+                {regex});
             }}  // namespace {composite_varname}_re'''.format(
                     composite_varname=mapry.cpp.naming.as_variable(
                         identifier=cls.name),
-                    regex=cls.id_pattern.pattern)))
+                    regex=mapry.cpp.generate.raw_str(
+                        text=cls.id_pattern.pattern))))
 
     return "\n\n".join(blocks)
 
@@ -771,7 +772,7 @@ if (!{{ value }}.isString()) {
     {{ target_expr }} = {{ value }}.asString();
     {% else %}
     const static std::regex regex_{{ uid }}(
-        R"v0g0n({{ a_type.pattern.pattern }})v0g0n");
+        {{ a_type.pattern.pattern|raw_str }});
     const std::string cast_{{ uid }} = {{ value }}.asString();
     bool ok_{{ uid }} = true;
 
@@ -863,7 +864,7 @@ if (!{{ value }}.isString()) {
     {{ set_target }}
     {% else %}
     const static std::regex regex(
-        R"v0g0n({{ a_type.pattern.pattern }})v0g0n");
+        {{ a_type.pattern.pattern|raw_str }});
     const std::string cast_{{ uid }} = {{ value }}.asString();
     bool ok_{{ uid }} = true;
 
diff --git a/mapry/cpp/jinja2_env.py b/mapry/cpp/jinja2_env.py
index eff190f..a506199 100644
--- a/mapry/cpp/jinja2_env.py
+++ b/mapry/cpp/jinja2_env.py
@@ -21,6 +21,7 @@ ENV.filters.update({
     'as_composite': mapry.cpp.naming.as_composite,
     'comment': mapry.cpp.generate.comment,
     'escaped_str': mapry.cpp.generate.escaped_str,
+    'raw_str': mapry.cpp.generate.raw_str,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.cpp.expr.is_variable,
     'join_strings': mapry.cpp.expr.append_strings,
-- 
2.43.0


From 44a1dc63f9453f7d2c77efd9de65433f2095204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 09/29] fix: escape patterns and layouts in the messages
 formatted by Go

---
 mapry/go/generate/__init__.py     | 14 ++++++++++++++
 mapry/go/generate/fromjsonable.py |  8 +++++---
 mapry/go/jinja2_env.py            |  1 +
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 121a3a7..cd9ba10 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -167,6 +167,20 @@ def ticked_str(text: str) -> str:
     return ''.join(parts)
 
 
+def escape_format(text: str) -> str:
+    """
+    Escape the text so that ``fmt.Sprintf`` gives it back.
+
+    :param text: to be embedded in a format string
+    :return: part of the format string
+
+    >>> escape_format('^[0-9]+%$')
+    '^[0-9]+%%$'
+
+    """
+    return text.replace('%', '%%')
+
+
 @ensure(lambda result: not result.endswith('\n'))
 def import_declarations(import_set: Set[str]) -> str:
     """
diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index ba4181c..71219c6 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -692,7 +692,8 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected to match %s, but got: %%s"|
-                    format(a_type.pattern.pattern)|escaped_str }},
+                    format(a_type.pattern.pattern|escape_format)|
+                    escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = cast{{ uid }}
@@ -761,7 +762,7 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected layout %s, got: %%s"|
-                    format(converted_format)|escaped_str }},
+                    format(converted_format|escape_format)|escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = target{{ uid }}
@@ -1688,7 +1689,8 @@ func {{ graph.name|ucamel_case }}FromJSONable(
                         {{ cls.plural|camel_case }}Ref,
                         fmt.Sprintf(
                             {{ "expected ID to match %s, but got: %%s"|
-                                format(cls.id_pattern.pattern)|escaped_str }},
+                                format(cls.id_pattern.pattern|escape_format)|
+                                escaped_str }},
                             id))
                 } else {
                     {{ preallocate_instance|
diff --git a/mapry/go/jinja2_env.py b/mapry/go/jinja2_env.py
index 232aa5a..2b8f916 100644
--- a/mapry/go/jinja2_env.py
+++ b/mapry/go/jinja2_env.py
@@ -19,6 +19,7 @@ ENV.filters.update({
     'comment': mapry.go.generate.comment,
     'escaped_str': mapry.go.generate.escaped_str,
     'ticked_str': mapry.go.generate.ticked_str,
+    'escape_format': mapry.go.generate.escape_format,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.go.expr.is_variable,
     '_raise': _raise
-- 
2.43.0


From 9306fe17eb37764880a51248fc7c91b2910dd79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 10/29] fix: write patterns and messages as safe Python
 literals

Quotes in a pattern broke the generated code, and braces in a pattern or in
a format raised an exception when a value did not match.
---
 mapry/py/generate/__init__.py     | 34 +++++++++++++++++++++++++++++++
 mapry/py/generate/fromjsonable.py | 16 +++++++--------
 mapry/py/jinja2_env.py            |  2 ++
 3 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/mapry/py/generate/__init__.py b/mapry/py/generate/__init__.py
index 1f1d124..4c5822a 100644
--- a/mapry/py/generate/__init__.py
+++ b/mapry/py/generate/__init__.py
@@ -160,6 +160,40 @@ def docstring(text: str) -> str:
     return ''.join(parts)
 
 
+def raw_str(text: str) -> str:
+    r"""
+    Translate the text into a Python string literal, a raw one if possible.
+
+    :param text: of the literal
+    :return: Python string literal
+
+    >>> print(raw_str(r'^\w+$'))
+    r'^\w+$'
+
+    >>> print(raw_str(r"^'\w+'$"))
+    "^'\\w+'$"
+
+    """
+    if "'" in text or text.endswith('\\') or not text.isprintable():
+        return repr(text)
+
+    return "r'{}'".format(text)
+
+
+def escape_format(text: str) -> str:
+    """
+    Escape the text so that ``str.format`` gives it back.
+
+    :param text: to be embedded in a format string
+    :return: part of the format string
+
+    >>> escape_format('^[a-z]{3}$')
+    '^[a-z]{{3}}$'
+
+    """
+    return text.replace('{', '{{').replace('}', '}}')
+
+
 def order_by_optional(properties: Mapping[str, mapry.Property]
                       ) -> List[mapry.Property]:
     """
diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 25a0b1c..cf6334c 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -466,13 +466,13 @@ else:
     {{ target_expr }} = {{ value }}
     {% else %}
     if not re.match(
-            r'{{ a_type.pattern.pattern }}',
+            {{ a_type.pattern.pattern|raw_str }},
             {{ value }}):
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escape_format)|repr }}.format(
                 {{ value }}))
     else:
         {{ target_expr }} = {{ value }}
@@ -540,13 +540,13 @@ else:
     {{ set_target|indent }}
     {% else %}
     if not re.match(
-            r'{{ a_type.pattern.pattern }}',
+            {{ a_type.pattern.pattern|raw_str }},
             {{ value }}):
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escape_format)|repr }}.format(
                 {{ value }}))
     else:
         {{ set_target|indent|indent }}
@@ -611,7 +611,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_format)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -669,7 +669,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_format)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -728,7 +728,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_format)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -1645,7 +1645,7 @@ parses {{ graph.name|as_composite }} from a JSONable value.
             for id in registry_value:
                 {% if cls.id_pattern %}
                 if not re.match(
-                        r'{{ cls.id_pattern.pattern }}',
+                        {{ cls.id_pattern.pattern|raw_str }},
                         id):
                     errors.add(
                         '/'.join((
diff --git a/mapry/py/jinja2_env.py b/mapry/py/jinja2_env.py
index 89f6f06..c20fb52 100644
--- a/mapry/py/jinja2_env.py
+++ b/mapry/py/jinja2_env.py
@@ -20,6 +20,8 @@ ENV.filters.update({
     'as_composite': mapry.py.naming.as_composite,
     'comment': mapry.py.generate.comment,
     'as_docstring': mapry.py.generate.docstring,
+    'raw_str': mapry.py.generate.raw_str,
+    'escape_format': mapry.py.generate.escape_format,
     'repr': repr,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.py.expr.is_variable,
-- 
2.43.0


From 38e2b4693f91b2fbffe65c1dc45c74001270d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 11/29] fix: report composites that clash with the name of the
 object graph

---
 mapry/cpp/validation.py | 2 +-
 mapry/go/validation.py  | 2 +-
 mapry/py/validation.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 191e56e..7c127a6 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -214,7 +214,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.cpp.naming.as_composite(identifier=cls.name)
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index ed98ee4..0fdf36b 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -294,7 +294,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.naming.ucamel_case(identifier=cls.name)
diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 66e215a..be80322 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -203,7 +203,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.py.naming.as_composite(identifier=cls.name)
-- 
2.43.0


From 4ec73d7ed2809707e2b687ac3552380a4e02e614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 12/29] fix: report Go struct identifiers reserved for the
 generated code

---
 mapry/go/validation.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 0fdf36b..ee0ff21 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -182,7 +182,8 @@ def _validate_graph_fields(graph: mapry.Graph
             registry_field_map[plural_field] = cls
 
     reserved_type_names = {
-        'Errors', '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
+        'Error', 'Errors', 'NewErrors',
+        '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
         '{}ToJSONable'.format(mapry.naming.ucamel_case(graph.name))
     }
 
@@ -201,31 +202,34 @@ def _validate_graph_fields(graph: mapry.Graph
     for cls in graph.classes.values():
         cls_name = mapry.naming.ucamel_case(cls.name)
         if cls_name in reserved_type_names:
-            mapry.validation.SchemaError(
-                message=(
-                    "The Go struct identifier {!r} "
-                    "conflicts with the name reserved for mapry."
-                ).format(cls_name),
-                ref=cls.ref)
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Go struct identifier {!r} "
+                        "conflicts with the name reserved for mapry."
+                    ).format(cls_name),
+                    ref=cls.ref))
 
     for embed in graph.embeds.values():
         embed_name = mapry.naming.ucamel_case(embed.name)
         if embed_name in reserved_type_names:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Go struct identifier {!r} "
+                        "conflicts with the name reserved for mapry."
+                    ).format(embed_name),
+                    ref=embed.ref))
+
+    graph_name = mapry.naming.ucamel_case(graph.name)
+    if graph_name in reserved_type_names:
+        errs.append(
             mapry.validation.SchemaError(
                 message=(
                     "The Go struct identifier {!r} "
                     "conflicts with the name reserved for mapry."
-                ).format(embed_name),
-                ref=embed.ref)
-
-    graph_name = mapry.naming.ucamel_case(graph.name)
-    if graph_name in reserved_type_names:
-        mapry.validation.SchemaError(
-            message=(
-                "The Go struct identifier {!r} "
-                "conflicts with the name reserved for mapry."
-            ).format(graph_name),
-            ref=graph.ref)
+                ).format(graph_name),
+                ref=graph.ref))
 
     return errs
 
-- 
2.43.0


From d78781ea9e7896283148e43eb7d95752557c8dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 13/29] fix: treat async and await as Python keywords

---
 mapry/py/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index be80322..f923106 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -7,8 +7,8 @@ import mapry.py.naming
 import mapry.validation
 
 _KEYWORDS = {
-    'False', 'None', 'True', 'and', 'as', 'assert', 'break', 'class',
-    'continue', 'def', 'del', 'elif', 'else', 'except', 'finally', 'for',
+    'False', 'None', 'True', 'and', 'as', 'assert', 'async', 'await', 'break',
+    'class', 'continue', 'def', 'del', 'elif', 'else', 'except', 'finally', 'for',
     'from', 'global', 'if', 'import', 'in', 'is', 'lambda', 'nonlocal', 'not',
     'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield'
 }
-- 
2.43.0


From 404f9706058f5902cd42008e612116da629e26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 14/29] fix: match the whole identifiers in the schema

---
 mapry/schemas.py    | 18 +++++++++---------
 mapry/validation.py |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mapry/schemas.py b/mapry/schemas.py
index 1807539..7a3d349 100644
--- a/mapry/schemas.py
+++ b/mapry/schemas.py
@@ -10,7 +10,7 @@ GRAPH = {
                 "name": {
                     "type": "string",
                     "description": "gives the name of the object graph.",
-                    "pattern": "^[A-Z][A-Za-z0-9]*"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?(?!\n)$"
                 },
                 "description": {
                     "type": "string",
@@ -63,7 +63,7 @@ GRAPH = {
                     "description":
                     "indicates the namespace of the generated code.",
                     "pattern":
-                    "^[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*$"
+                    "^[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*(?!\n)$"
                 },
                 "path_as": {
                     "type": "string",
@@ -97,7 +97,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code."
                     "Defaults to two spaces.",
-                    "pattern": "^[ \t]*$"
+                    "pattern": "^[ \t]*(?!\n)$"
                 }
             },
             "required":
@@ -112,7 +112,7 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "indicates the package of the generated code.",
-                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*"
+                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*(?!\n)$"
                 }
             },
             "required": ["package"],
@@ -129,7 +129,7 @@ GRAPH = {
                     "specifies the fully qualified base module name "
                     "of the generated code.",
                     "pattern":
-                    r"^[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*$"
+                    r"^[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*(?!\n)$"
                 },
                 "path_as": {
                     "type": "string",
@@ -148,7 +148,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code. "
                     "Defaults to four spaces.",
-                    "pattern": "^[ \t]*$"
+                    "pattern": "^[ \t]*(?!\n)$"
                 }
             },
             "required": ['module_name', 'path_as', 'timezone_as'],
@@ -162,7 +162,7 @@ GRAPH = {
                 "name": {
                     "type": "string",
                     "description": "gives the name of the class in Snake_case.",
-                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?(?!\n)$"
                 },
                 "description": {
                     "type": "string",
@@ -175,7 +175,7 @@ GRAPH = {
                     "description":
                     "gives the plural of the class in Snake_case. "
                     "If omitted, automatically inferred.",
-                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?(?!\n)$"
                 },
                 "id_pattern": {
                     "type":
@@ -203,7 +203,7 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "gives the name of the embeddable data structure.",
-                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?"
+                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?(?!\n)$"
                 },
                 "description": {
                     "description": "describes the embeddable data structure "
diff --git a/mapry/validation.py b/mapry/validation.py
index 6b3c491..d3beeb6 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -531,7 +531,7 @@ def _validate_properties(mapping: Mapping[str, Any], ref: str,
         return []
 
     for name, property_mapping in mapping['properties'].items():
-        if not _PROPERTY_RE.match(name):
+        if not _PROPERTY_RE.fullmatch(name):
             errs.append(
                 SchemaError(
                     message=("Property name invalid, expected {}, "
-- 
2.43.0


From a3007634419eeb3cf9ee9489f3622db34ed7c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 15/29] fix: reject properties with the object graph as type

---
 mapry/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mapry/validation.py b/mapry/validation.py
index d3beeb6..d85245e 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -664,8 +664,10 @@ def validate(mapping: Mapping[str, Any], ref: str) -> List[SchemaError]:
                     mapping=cls_mapping, ref='{}/classes/{}'.format(ref, i)))
 
     # Validate properties of the classes and embeds
+    # (the object graph itself can not be used as a type)
     types = _NONCOMPOSITE_TYPE_SET.copy()
     types.update(name_set)
+    types.discard(mapping['name'])
 
     # Check that the graph properties are valid
     errors.extend(_validate_properties(mapping=mapping, ref=ref, types=types))
-- 
2.43.0


From 771ef20327fdc897760fe352be400fc1357e612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 16/29] fix: report nested types that are missing or no text

---
 mapry/validation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mapry/validation.py b/mapry/validation.py
index d85245e..81e520c 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -419,6 +419,12 @@ def _validate_type_recursively(
                         "in the definition, but got {}").format(keys[1]),
                     ref='{}/description'.format(ref))
 
+    if not isinstance(mapping.get('type', None), str):
+        return SchemaError(
+            message="Expected the identifier of a type, but got: {!r}".format(
+                mapping.get('type', None)),
+            ref='{}/type'.format(ref))
+
     if mapping['type'] not in types:
         return SchemaError(
             message="Invalid type: {}".format(mapping['type']),
-- 
2.43.0


From b5a6e9028aa7c3a3985fb0c5e67c422294e68477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 17/29] fix: reject exclusive integer bounds with no integer in
 between

---
 mapry/validation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mapry/validation.py b/mapry/validation.py
index 81e520c..b384bf1 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -162,6 +162,14 @@ def _validate_integer(mapping: Mapping[str, Any],
                         "minimum (== {}) == maximum and "
                         "both are set to exclusive").format(minimum),
                     ref=ref)
+
+            if minimum + 1 == maximum:
+                return SchemaError(
+                    message=(
+                        "no integer between minimum (== {}) and "
+                        "maximum (== {}) and "
+                        "both are set to exclusive").format(minimum, maximum),
+                    ref=ref)
         elif not excl_min and excl_max:
             if minimum == maximum:
                 return SchemaError(
-- 
2.43.0


From afcc46a66b9b166c15f3c97276ef4c9b45428a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 18/29] fix: compare the registries with the JSON names of the
 graph properties

---
 mapry/validation.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/mapry/validation.py b/mapry/validation.py
index b384bf1..ae34e84 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -605,15 +605,20 @@ def _validate_plurals(mapping: Mapping[str, Any],
         property_names = sorted(mapping['properties'].keys())
 
     for property_name in property_names:
-        if property_name in registry_property_to_class_name:
-            errs.append(
-                SchemaError(
-                    message=(
-                        'Graph property {!r} conflicts with the plural '
-                        'necessary for the registry of class {!r}').format(
-                            property_name,
-                            registry_property_to_class_name[property_name]),
-                    ref='{}/{}'.format(ref, property_name)))
+        json_name = mapping['properties'][property_name].get(
+            'json', property_name)
+
+        for name in (property_name, json_name):
+            if name in registry_property_to_class_name:
+                errs.append(
+                    SchemaError(
+                        message=(
+                            'Graph property {!r} conflicts with the plural '
+                            'necessary for the registry of class {!r}').format(
+                                property_name,
+                                registry_property_to_class_name[name]),
+                        ref='{}/{}'.format(ref, property_name)))
+                break
 
     return errs
 
-- 
2.43.0


From 904649f7ff523f262a69d029ebcc7f103ae89b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 19/29] fix: keep the fractional part of the bounds of floats

---
 mapry/parse.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 4990f94..3da34cd 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -103,6 +103,19 @@ def _embed_from_mapping(mapping: Mapping[str, Any], ref: str) -> mapry.Embed:
         name=mapping['name'], description=mapping['description'], ref=ref)
 
 
+def _float_bound(value: Optional[float]) -> Optional[float]:
+    """
+    Parse the bound of a float.
+
+    :param value: to be parsed
+    :return: value, given as an integer if it has no fractional part
+    """
+    if value is None or value != int(value):
+        return value
+
+    return int(value)
+
+
 def _recurse_type_from_mapping(
         mapping: Mapping[str, Any], classes: Mapping[str, mapry.Class],
         embeds: Mapping[str, mapry.Embed]) -> mapry.Type:
@@ -132,10 +145,10 @@ def _recurse_type_from_mapping(
 
     if type_identifier == 'float':
         return mapry.Float(
-            minimum=int(mapping['minimum']) if 'minimum' in mapping else None,
+            minimum=_float_bound(mapping.get('minimum', None)),
             exclusive_minimum=bool(mapping['exclusive_minimum'])
             if 'exclusive_minimum' in mapping else False,
-            maximum=int(mapping['maximum']) if 'maximum' in mapping else None,
+            maximum=_float_bound(mapping.get('maximum', None)),
             exclusive_maximum=bool(mapping['exclusive_maximum'])
             if 'exclusive_maximum' in mapping else False)
 
-- 
2.43.0


From b0dd39306dda00a477e33be1b093b9ccdac0ca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 20/29] fix: report JSON errors past the last line of a schema
 file

---
 mapry/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 3da34cd..995a031 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -403,7 +403,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
             jsonerr = err
 
         if jsonerr is not None:
-            lines = path.read_text().splitlines()
+            lines = path.read_text().split("\n")
             line = lines[jsonerr.lineno - 1]
 
             if len(line) <= 120:
-- 
2.43.0


From 07a437e02c46b7226aa13fd67a2ce23cf9ac4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 21/29] fix: serialize properties of classes and embeds under
 their Python attributes

---
 mapry/py/generate/tojsonable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mapry/py/generate/tojsonable.py b/mapry/py/generate/tojsonable.py
index 0ecf5fc..bf87884 100644
--- a/mapry/py/generate/tojsonable.py
+++ b/mapry/py/generate/tojsonable.py
@@ -566,7 +566,8 @@ def _serialize_class_or_embed(
     property_serializations = [
         _serialize_property(
             target_expr="target[{}]".format(repr(prop.json)),
-            value_expr="instance.{}".format(prop.name),
+            value_expr="instance.{}".format(
+                mapry.py.naming.as_attribute(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             py=py)
-- 
2.43.0


From 1de145a9eb56085619b39214f955539fb8ea8f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 22/29] fix: parse dates and times with %e, %l and %P in
 generated Python

---
 mapry/py/generate/__init__.py     | 22 ++++++++++++++++++++++
 mapry/py/generate/fromjsonable.py |  6 +++---
 mapry/py/jinja2_env.py            |  1 +
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/mapry/py/generate/__init__.py b/mapry/py/generate/__init__.py
index 4c5822a..f1313aa 100644
--- a/mapry/py/generate/__init__.py
+++ b/mapry/py/generate/__init__.py
@@ -180,6 +180,28 @@ def raw_str(text: str) -> str:
     return "r'{}'".format(text)
 
 
+# Directives which Python can format, but not parse, and the directives
+# which parse the same text
+_STRPTIME_DIRECTIVES = {'%e': '%d', '%l': '%I', '%P': '%p'}
+
+
+def strptime_format(a_format: str) -> str:
+    """
+    Replace the directives not supported by strptime in Python.
+
+    :param a_format: date/time format
+    :return: format for strptime
+
+    >>> strptime_format('%e %b %%e %l:%M %P')
+    '%d %b %%e %I:%M %p'
+
+    """
+    return re.sub(
+        '%.',
+        lambda mtch: _STRPTIME_DIRECTIVES.get(mtch.group(), mtch.group()),
+        a_format)
+
+
 def escape_format(text: str) -> str:
     """
     Escape the text so that ``str.format`` gives it back.
diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index cf6334c..e75eefa 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -604,7 +604,7 @@ else:
     try:
         {{ target_expr }} = datetime.datetime.strptime(
             {{ value }},
-            {{ a_type.format|repr }}
+            {{ a_type.format|strptime_format|repr }}
         ).date()
     except ValueError:
         errors.add(
@@ -663,7 +663,7 @@ else:
     try:
         {{ target_expr }} = datetime.datetime.strptime(
             {{ value }},
-            {{ a_type.format|repr }})
+            {{ a_type.format|strptime_format|repr }})
     except ValueError:
         errors.add(
             '/'.join((
@@ -721,7 +721,7 @@ else:
     try:
         {{ target_expr }} = datetime.datetime.strptime(
             {{ value }},
-            {{ a_type.format|repr }}
+            {{ a_type.format|strptime_format|repr }}
         ).time()
     except ValueError:
         errors.add(
diff --git a/mapry/py/jinja2_env.py b/mapry/py/jinja2_env.py
index c20fb52..0a04d4f 100644
--- a/mapry/py/jinja2_env.py
+++ b/mapry/py/jinja2_env.py
@@ -22,6 +22,7 @@ ENV.filters.update({
     'as_docstring': mapry.py.generate.docstring,
     'raw_str': mapry.py.generate.raw_str,
     'escape_format': mapry.py.generate.escape_format,
+    'strptime_format': mapry.py.generate.strptime_format,
     'repr': repr,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.py.expr.is_variable,
-- 
2.43.0


From 25277b7b589b7b177ac935769ac376b2e8920c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:36 +0000
Subject: [PATCH 23/29] fix: generate compilable Go code for graphs without
 properties

---
 mapry/go/generate/fromjsonable.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index 71219c6..2d1f989 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -46,7 +46,15 @@ def _imports(graph: mapry.Graph) -> str:
     :param go: Go settings
     :return: generated code
     """
-    import_set = {'strings', 'fmt'}
+    import_set = {'fmt'}
+
+    ##
+    # Any references of properties or instances?
+    ##
+
+    if (graph.classes or graph.properties
+            or any(embed.properties for embed in graph.embeds.values())):
+        import_set.add('strings')
 
     if mapry.needs_type(a_type=graph, query=mapry.Integer):
         import_set.add('math')
@@ -1642,7 +1650,11 @@ func {{ graph.name|ucamel_case }}FromJSONable(
         panic("unexpected non-empty errors")
     }
 
+    {% if graph.classes or property_parsings %}
     cast, ok := value.(map[string]interface{})
+    {% else %}
+    _, ok := value.(map[string]interface{})
+    {% endif %}{# /if graph.classes or property_parsings #}
     if !ok {
         errors.Add(
             ref,
-- 
2.43.0


From 00b32d1403cc0f431e8ce023babcc9bab53580be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:07 +0000
Subject: [PATCH 24/29] fix: serialize dates and times with an empty format in
 generated Go

---
 mapry/go/generate/tojsonable.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mapry/go/generate/tojsonable.py b/mapry/go/generate/tojsonable.py
index 6513603..4746b57 100644
--- a/mapry/go/generate/tojsonable.py
+++ b/mapry/go/generate/tojsonable.py
@@ -131,12 +131,8 @@ def _duration_to_string() -> str:
 
 _SERIALIZE_DATE_TIME_TPL = mapry.go.jinja2_env.ENV.from_string(
     '''\
-{% if dt_format %}
 {{ target_expr }} = {{ value_expr }}.Format(
     {{ dt_format|escaped_str }})
-{% else %}
-{{ target_expr }} = ""
-{% endif %}{# /if dt_format #}
 ''')
 
 
-- 
2.43.0


From 5ee32af13a66ed3067dadce7c7bfb8965d3edf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:09 +0000
Subject: [PATCH 25/29] fix: define embeds in C++ before the composites that
 embed them

---
 mapry/cpp/generate/types_header.py | 37 +++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index 6ef087b..d6c4391 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -266,6 +266,41 @@ def _property_fields(composite: mapry.Composite, cpp: mapry.Cpp) -> str:
     return '\n\n'.join(blocks)
 
 
+def _order_embeds(graph: mapry.Graph) -> List[mapry.Embed]:
+    """
+    Sort the embeddable structures so that they can be defined one by one.
+
+    A structure that is embedded in another one needs to be completely defined
+    before it.
+
+    :param graph: definition of the object graph
+    :return: stable sorted embeddable structures
+    """
+    ordered = []  # type: List[mapry.Embed]
+    visited = set()  # type: Set[mapry.Embed]
+
+    def visit(embed: mapry.Embed) -> None:
+        """Append the embed after all the embeds nested in it."""
+        if embed in visited:
+            return
+
+        visited.add(embed)
+        for prop in embed.properties.values():
+            a_type = prop.type
+            while isinstance(a_type, (mapry.Array, mapry.Map)):
+                a_type = a_type.values
+
+            if isinstance(a_type, mapry.Embed):
+                visit(a_type)
+
+        ordered.append(embed)
+
+    for embed in graph.embeds.values():
+        visit(embed)
+
+    return ordered
+
+
 _EMBED_DEFINITION_TPL = mapry.cpp.jinja2_env.ENV.from_string(
     '''\
 {% if embed.description %}
@@ -389,7 +424,7 @@ def generate(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
 
     blocks.append(_forward_declarations(graph=graph))
 
-    for embed in graph.embeds.values():
+    for embed in _order_embeds(graph=graph):
         blocks.append(_embed_definition(embed=embed, cpp=cpp))
 
     for cls in graph.classes.values():
-- 
2.43.0


From 162b3d8c94a703c222235b52a09ba8849df33394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:30 +0000
Subject: [PATCH 26/29] fix: translate names of properties to C++ fields
 consistently

---
 mapry/cpp/generate/jsoncpp_impl.py | 8 ++++++--
 mapry/cpp/generate/types_header.py | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 6a31433..4edf237 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -2688,7 +2688,9 @@ def _serialize_class_or_embed(
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(class_or_embed.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr,
+                mapry.cpp.naming.as_field(identifier=prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
@@ -2774,7 +2776,9 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(graph.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr,
+                mapry.cpp.naming.as_field(identifier=prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index d6c4391..ff152fc 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -6,6 +6,7 @@ from icontract import ensure
 import mapry
 import mapry.cpp.generate
 import mapry.cpp.jinja2_env
+import mapry.cpp.naming
 import mapry.indention
 
 
@@ -256,10 +257,11 @@ def _property_fields(composite: mapry.Composite, cpp: mapry.Cpp) -> str:
             prop_type = mapry.cpp.generate.type_repr(a_type=prop.type, cpp=cpp)
             def_val = _default_value(a_type=prop.type, cpp=cpp)
 
+        field = mapry.cpp.naming.as_field(identifier=prop.name)
         if def_val is not None:
-            block.append("{} {} = {};".format(prop_type, prop.name, def_val))
+            block.append("{} {} = {};".format(prop_type, field, def_val))
         else:
-            block.append("{} {};".format(prop_type, prop.name))
+            block.append("{} {};".format(prop_type, field))
 
         blocks.append('\n'.join(block))
 
-- 
2.43.0


From 390c442756726c97713c909c2f6f15637378544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 27/29] fix: parse optional dates and datetimes with date.h in
 C++

---
 mapry/cpp/generate/jsoncpp_impl.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 4edf237..fa31aa5 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -1877,13 +1877,19 @@ def _parse_property(
         mapry.cpp.generate.escaped_str("/" + a_property.json)
     ]
 
+    # The library date.h parses dates and datetimes directly into the target.
+    parses_into_target = (
+        cpp.datetime_library == 'date.h'
+        and isinstance(a_property.type, (mapry.Date, mapry.Datetime)))
+
     # Special handling of the optional property
-    needs_emplace = isinstance(
+    needs_emplace = parses_into_target or isinstance(
         a_property.type, (mapry.Array, mapry.Map, mapry.Embed))
 
     parsing_target_expr = property_target_expr
     if a_property.optional:
-        if isinstance(a_property.type, (mapry.Array, mapry.Map)):
+        if parses_into_target or isinstance(a_property.type,
+                                            (mapry.Array, mapry.Map)):
             parsing_target_expr = "*{}".format(property_target_expr)
         elif isinstance(a_property.type, mapry.Embed):
             parsing_target_expr = "(*{})".format(property_target_expr)
-- 
2.43.0


From 1c081f199f004f3f62cb9258eab54c085e124fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:04 +0000
Subject: [PATCH 28/29] fix: parse and format 12-hour times portably in C++

---
 mapry/cpp/generate/__init__.py     | 58 +++++++++++++++++++++++++++++-
 mapry/cpp/generate/jsoncpp_impl.py | 10 +++---
 mapry/cpp/jinja2_env.py            |  3 ++
 3 files changed, 65 insertions(+), 6 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 7be94ba..802c932 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -1,6 +1,6 @@
 """Generate the C++ code to parse and serialize a mapry object graph."""
 import re
-from typing import List
+from typing import List, Mapping
 
 import mapry
 import mapry.cpp.naming
@@ -181,3 +181,59 @@ def raw_str(text: str) -> str:
         return escaped_str(text=text)
 
     return 'R"v0g0n({})v0g0n"'.format(text)
+
+
+def _replace_directives(a_format: str, replacements: Mapping[str, str]) -> str:
+    """Replace the directives of a date/time format."""
+    return re.sub(
+        '%.', lambda mtch: replacements.get(mtch.group(), mtch.group()),
+        a_format)
+
+
+def strptime_format(a_format: str) -> str:
+    """
+    Replace the directives not supported by strptime of the C library.
+
+    :param a_format: date/time format
+    :return: format for strptime
+
+    >>> strptime_format('%l:%M %P %%P')
+    '%l:%M %p %%P'
+
+    """
+    return _replace_directives(a_format, {'%P': '%p'})
+
+
+def date_parse_format(a_format: str) -> str:
+    """
+    Replace the directives which ``date::parse`` of date.h does not support.
+
+    A space in the format stands for any number of spaces, none included.
+
+    :param a_format: date/time format
+    :return: format for ``date::parse``
+
+    >>> date_parse_format('%e %b %l:%M %P %%P')
+    ' %d %b  %I:%M %p %%P'
+
+    """
+    return _replace_directives(
+        a_format, {
+            '%e': ' %d',
+            '%l': ' %I',
+            '%P': '%p'
+        })
+
+
+def date_format(a_format: str) -> str:
+    """
+    Replace the directives which ``date::format`` of date.h does not support.
+
+    :param a_format: date/time format
+    :return: format for ``date::format``
+
+    >>> date_format('%e %b %l:%M %P %%P')
+    '%e %b %I:%M %p %%P'
+
+    """
+    return _replace_directives(a_format, {'%l': '%I', '%P': '%p'})
diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index fa31aa5..7e80ddc 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -945,7 +945,7 @@ if (!{{ value }}.isString()) {
     struct tm tm_{{ uid }} = tm{0};
     char* ret_{{ uid }} = strptime(
         cast_{{ uid }}.c_str(),
-        {{ a_type.format|escaped_str }},
+        {{ a_type.format|strptime_format|escaped_str }},
         &tm_{{ uid }});
 
     if (ret_{{ uid }} == nullptr or *ret_{{ uid }} != '\\0') {
@@ -992,7 +992,7 @@ if (!{{ value }}.isString()) {
         {{ value }}.asString());
     iss_{{ uid }} >>
         date::parse(
-            {{ a_type.format|escaped_str }},
+            {{ a_type.format|date_parse_format|escaped_str }},
             {{ target_expr }} );
 
     if (iss_{{ uid }}.fail()) {
@@ -1117,7 +1117,7 @@ if (!{{ value }}.isString()) {
         {{ value }}.asString());
     iss_{{ uid }} >>
         date::parse(
-            {{ a_type.format|escaped_str }},
+            {{ a_type.format|date_parse_format|escaped_str }},
             seconds_of_day_{{ uid }} );
 
     if (iss_{{ uid }}.fail()) {
@@ -2340,7 +2340,7 @@ _SERIALIZE_DATE_TIME_TPL = mapry.cpp.jinja2_env.ENV.from_string(
     '''\
 {% if dt_format %}
 {{ target_expr }} = date::format(
-    {{ dt_format|escaped_str }},
+    {{ dt_format|date_format|escaped_str }},
     {{ value_expr }});
 {% else %}
 {{ target_expr }} = "";
@@ -2381,7 +2381,7 @@ _SERIALIZE_TIME_TPL = mapry.cpp.jinja2_env.ENV.from_string(
     '''\
 {% if dt_format %}
 {{ target_expr }} = date::format(
-    {{ dt_format|escaped_str }},
+    {{ dt_format|date_format|escaped_str }},
     {{ value_expr }}.to_duration());
 {% else %}
 {{ target_expr }} = "";
diff --git a/mapry/cpp/jinja2_env.py b/mapry/cpp/jinja2_env.py
index a506199..6925a6b 100644
--- a/mapry/cpp/jinja2_env.py
+++ b/mapry/cpp/jinja2_env.py
@@ -22,6 +22,9 @@ ENV.filters.update({
     'comment': mapry.cpp.generate.comment,
     'escaped_str': mapry.cpp.generate.escaped_str,
     'raw_str': mapry.cpp.generate.raw_str,
+    'strptime_format': mapry.cpp.generate.strptime_format,
+    'date_parse_format': mapry.cpp.generate.date_parse_format,
+    'date_format': mapry.cpp.generate.date_format,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.cpp.expr.is_variable,
     'join_strings': mapry.cpp.expr.append_strings,
-- 
2.43.0


From ff45f0ac6b398c058ced5c799ffbcbee71286728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:48 +0000
Subject: [PATCH 29/29] fix: write bounds of integers beyond 64 bits in Go and
 C++

---
 mapry/cpp/generate/__init__.py     | 58 ++++++++++++++++++++++++++++++
 mapry/cpp/generate/jsoncpp_impl.py | 12 +++----
 mapry/cpp/jinja2_env.py            |  2 ++
 mapry/go/generate/__init__.py      | 31 ++++++++++++++++
 mapry/go/generate/fromjsonable.py  |  8 ++---
 mapry/go/jinja2_env.py             |  1 +
 6 files changed, 102 insertions(+), 10 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 802c932..f3fcb5b 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -237,3 +237,61 @@ def date_format(a_format: str) -> str:
 
     """
     return _replace_directives(a_format, {'%l': '%I', '%P': '%p'})
+
+
+_MIN_INT64 = -2**63
+_MAX_INT64 = 2**63 - 1
+
+
+def int64_condition(operator: str, bound: int) -> str:
+    """
+    Generate the comparison of a 64-bit integer to its right with a bound.
+
+    A bound which is not a 64-bit integer itself can not be written in C++.
+
+    :param operator: C++ operator of the comparison
+    :param bound: to compare with
+    :return: C++ operator and operand
+
+    >>> int64_condition('>=', 3)
+    '>= 3'
+
+    >>> int64_condition('>=', 2**64)
+    '> 9223372036854775807'
+
+    >>> int64_condition('>', -2**63)
+    '> (-9223372036854775807 - 1)'
+
+    """
+    if bound > _MAX_INT64:
+        operator = '>' if operator.startswith('>') else '<='
+        bound = _MAX_INT64
+    elif bound < _MIN_INT64:
+        operator = '>=' if operator.startswith('>') else '<'
+        bound = _MIN_INT64
+
+    if bound == _MIN_INT64:
+        # The positive part of the literal would overflow.
+        return '{} ({} - 1)'.format(operator, _MIN_INT64 + 1)
+
+    return '{} {}'.format(operator, bound)
+
+
+def float_literal(value: float) -> str:
+    """
+    Generate the literal of a floating-point number.
+
+    :param value: to be written
+    :return: C++ literal
+
+    >>> float_literal(3)
+    '3'
+
+    >>> float_literal(2**64)
+    '1.8446744073709552e+19'
+
+    """
+    if not _MIN_INT64 < value <= _MAX_INT64:
+        return str(float(value))
+
+    return str(value)
diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 7e80ddc..3d5cdda 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -579,7 +579,7 @@ if (!{{ value }}.isInt64()) {
     {% if a_type.minimum is not none %}
 
     {% set op = ">" if a_type.exclusive_minimum else ">="  %}
-    if (!(cast_{{ uid }} {{ op }} {{ a_type.minimum }})) {
+    if (!(cast_{{ uid }} {{ op|int64_condition(a_type.minimum) }})) {
         constexpr auto expected_but_got(
             "Expected "
             {{ "%s %d"|format(op, a_type.minimum)|escaped_str }}
@@ -597,7 +597,7 @@ if (!{{ value }}.isInt64()) {
     {% if a_type.maximum is not none %}
 
     {% set op = "<" if a_type.exclusive_maximum else "<=" %}
-    if (!(cast_{{ uid }} {{ op }} {{ a_type.maximum }})) {
+    if (!(cast_{{ uid }} {{ op|int64_condition(a_type.maximum) }})) {
         constexpr auto expected_but_got(
             "Expected "
             {{ "%s %d"|format(op, a_type.maximum)|escaped_str }}
@@ -678,7 +678,7 @@ if (!{{ value }}.isDouble()) {
     {% if a_type.minimum is not none %}
 
     {% set op = ">" if a_type.exclusive_minimum else ">="  %}
-    if (!(cast_{{ uid }} {{ op }} {{ a_type.minimum }})) {
+    if (!(cast_{{ uid }} {{ op }} {{ a_type.minimum|float_literal }})) {
         constexpr auto expected_but_got(
             "Expected "
             {{ "%s %f"|format(op, a_type.minimum)|escaped_str }}
@@ -696,7 +696,7 @@ if (!{{ value }}.isDouble()) {
     {% if a_type.maximum is not none %}
 
     {% set op = "<" if a_type.exclusive_maximum else "<=" %}
-    if (!(cast_{{ uid }} {{ op }} {{ a_type.maximum }})) {
+    if (!(cast_{{ uid }} {{ op }} {{ a_type.maximum|float_literal }})) {
         constexpr auto expected_but_got(
             "Expected "
             {{ "%s %f"|format(op, a_type.maximum)|escaped_str }}
@@ -1391,7 +1391,7 @@ if (!{{ value }}.isArray()) {
             value_type_to_string(
                 {{ value }}.type())));
 {% if minimum_size is not none %}
-} else if ({{ value }}.size() < {{ minimum_size }}) {
+} else if ({{ value }}.size() {{ "<"|int64_condition(minimum_size) }}) {
     constexpr auto expected_but_got(
         "Expected an array of minimum size "
         {{ "%d"|format(minimum_size)|escaped_str }}
@@ -1405,7 +1405,7 @@ if (!{{ value }}.isArray()) {
             std::to_string({{ value }}.size())));
 {% endif %}{# /if minimum_size is not none #}
 {% if maximum_size is not none %}
-} else if ({{ value }}.size() > {{ maximum_size }}) {
+} else if ({{ value }}.size() {{ ">"|int64_condition(maximum_size) }}) {
     constexpr auto expected_but_got(
         "Expected an array of maximum size "
         {{ "%d"|format(maximum_size)|escaped_str }}
diff --git a/mapry/cpp/jinja2_env.py b/mapry/cpp/jinja2_env.py
index 6925a6b..9948ab0 100644
--- a/mapry/cpp/jinja2_env.py
+++ b/mapry/cpp/jinja2_env.py
@@ -25,6 +25,8 @@ ENV.filters.update({
     'strptime_format': mapry.cpp.generate.strptime_format,
     'date_parse_format': mapry.cpp.generate.date_parse_format,
     'date_format': mapry.cpp.generate.date_format,
+    'int64_condition': mapry.cpp.generate.int64_condition,
+    'float_literal': mapry.cpp.generate.float_literal,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.cpp.expr.is_variable,
     'join_strings': mapry.cpp.expr.append_strings,
diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index cd9ba10..387527c 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -181,6 +181,37 @@ def escape_format(text: str) -> str:
     return text.replace('%', '%%')
 
 
+_MIN_INT64 = -2**63
+_MAX_INT64 = 2**63 - 1
+
+
+def int64_condition(operator: str, bound: int) -> str:
+    """
+    Generate the comparison of a 64-bit integer to its right with a bound.
+
+    A bound which is not a 64-bit integer itself can not be written in Go.
+
+    :param operator: Go operator of the comparison
+    :param bound: to compare with
+    :return: Go operator and operand
+
+    >>> int64_condition('>=', 3)
+    '>= 3'
+
+    >>> int64_condition('>=', 2**64)
+    '> 9223372036854775807'
+
+    """
+    if bound > _MAX_INT64:
+        operator = '>' if operator.startswith('>') else '<='
+        bound = _MAX_INT64
+    elif bound < _MIN_INT64:
+        operator = '>=' if operator.startswith('>') else '<'
+        bound = _MIN_INT64
+
+    return '{} {}'.format(operator, bound)
+
+
 @ensure(lambda result: not result.endswith('\n'))
 def import_declarations(import_set: Set[str]) -> str:
     """
diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index 2d1f989..c127b15 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -523,7 +523,7 @@ if !ok{{ uid }} {
     {% set got_cond_before = False %}
     {% if a_type.minimum is not none %}
     {% set op = ">" if a_type.exclusive_minimum else ">="  %}
-    if !(cast{{ uid }} {{ op }} {{ a_type.minimum }}) {
+    if !(cast{{ uid }} {{ op|int64_condition(a_type.minimum) }}) {
         errors.Add(
             strings.Join(
                 []string{
@@ -539,7 +539,7 @@ if !ok{{ uid }} {
     {% set op = "<" if a_type.exclusive_maximum else "<=" %}
     {{ '} else if'
         if got_cond_before else 'if'
-    }} !(cast{{ uid }} {{ op }} {{ a_type.maximum }}) {
+    }} !(cast{{ uid }} {{ op|int64_condition(a_type.maximum) }}) {
         errors.Add(
             strings.Join(
                 []string{
@@ -961,7 +961,7 @@ if !ok{{ uid }} {
             "expected a []interface{}, but got: %T",
             {{ value_expr }}))
 {% if minimum_size is not none %}
-} else if len(cast{{ uid }}) < {{ minimum_size }} {
+} else if len(cast{{ uid }}) {{ "<"|int64_condition(minimum_size) }} {
     errors.Add(
         strings.Join(
             []string{
@@ -973,7 +973,7 @@ if !ok{{ uid }} {
             len(cast{{ uid }})))
 {% endif %}{# /if minimum_size is not none #}
 {% if maximum_size is not none %}
-} else if len(cast{{ uid }}) > {{ maximum_size }} {
+} else if len(cast{{ uid }}) {{ ">"|int64_condition(maximum_size) }} {
     errors.Add(
         strings.Join(
             []string{
diff --git a/mapry/go/jinja2_env.py b/mapry/go/jinja2_env.py
index 2b8f916..41b1daa 100644
--- a/mapry/go/jinja2_env.py
+++ b/mapry/go/jinja2_env.py
@@ -20,6 +20,7 @@ ENV.filters.update({
     'escaped_str': mapry.go.generate.escaped_str,
     'ticked_str': mapry.go.generate.ticked_str,
     'escape_format': mapry.go.generate.escape_format,
+    'int64_condition': mapry.go.generate.int64_condition,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.go.expr.is_variable,
     '_raise': _raise
-- 
2.43.0

