"""C++ source as Python syntax trees that the executor of pv/gv.py runs.

clang prints the typed syntax tree of the generated files (-ast-dump=json,
after the resolution of overloads and templates); it is rewritten statement
by statement.  Operations that differ from those of Python become calls of
go.something or cpp.something, whose meaning is given by the theory
(pv/gvcpp.py).  Only comments and static_assert are dropped.  Whatever is not
handled raises Unsupported: the function is then not verified.

Values of class types that are changed in place (structs, vectors, maps,
values of Jsoncpp) are objects of the heap: references and pointers are
aliases, and copies are explicit in the tree of clang.  Texts, numbers, times
and pointers are immutable values held by variables and fields; a variable
whose address is taken is a cell.
"""
import ast
import json
import os
import re
import shutil
import subprocess
import tempfile

from pv.engine import Unsupported
from pv.gosrc import broken, const, intrinsic, name
from pv.gv import Dotted

NAMESPACE = 'pvgen'
SKIP = ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'ParenExpr',
        'CXXBindTemporaryExpr', 'ConstantExpr', 'FullExpr',
        'SubstNonTypeTemplateParmExpr')
PLAIN_CASTS = ('NoOp', 'LValueToRValue', 'ArrayToPointerDecay',
               'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'DerivedToBase',
               'UncheckedDerivedToBase', 'ConstructorConversion',
               'UserDefinedConversion', 'NullToPointer',
               'IntegralToBoolean', 'PointerToBoolean')
NUMBER_CASTS = ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral',
                'FloatingCast')


def documents(text):
    """The JSON documents of a text."""
    dec = json.JSONDecoder()
    i = 0
    while True:
        m = re.compile(r'\s*').match(text, i)
        i = m.end()
        if i >= len(text):
            return
        if text[i] != '{':
            i = text.index('\n', i)
            continue
        o, i = dec.raw_decode(text, i)
        yield o


def dump(files):
    """The trees that clang gives for the generated files."""
    from props import cppgen
    d = tempfile.mkdtemp(prefix='pv_cppast_')
    try:
        for k, v in files.items():
            with open(os.path.join(d, k), 'w', encoding='utf-8',
                      errors='surrogateescape') as f:
                f.write(v)
        with open(os.path.join(d, 'tu.cpp'), 'w') as f:
            f.write('#include <boost/optional.hpp>\n'
                    '#include "parse.cpp"\n#include "jsoncpp.cpp"\n')
        p = subprocess.run(
            ['clang++'] + cppgen.flags() +
            ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
             '-ast-dump-filter=' + NAMESPACE, 'tu.cpp'], cwd=d,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if p.returncode:
            raise Unsupported('clang: ' + cppgen.first_error(
                p.stderr.decode('utf-8', 'replace'))[:300])
        return list(documents(p.stdout.decode('utf-8', 'surrogateescape')))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -------------------------------------------------------------------- types
INTS = {'int': 32, 'long': 64, 'int64_t': 64, 'rep_t': 64, 'size_t': -64,
        'unsigned long': -64, 'std::size_t': -64, 'unsigned int': -32,
        'ArrayIndex': -32, 'Json::ArrayIndex': -32, 'long long': 64,
        'unsigned long long': -64, 'uint64_t': -64, 'size_type': -64,
        'rep': 64, 'Int64': 64, 'Json::Int64': 64, 'LargestInt': 64,
        'Json::LargestInt': 64, 'std::chrono::nanoseconds::rep': 64,
        'int32_t': 32, 'uint32_t': -32, 'char': 8, 'unsigned char': -8,
        'std::string::size_type': -64, 'Json::Int': 32, 'Json::UInt': -32,
        'std::int64_t': 64, 'difference_type': 64, 'ptrdiff_t': 64}
NAMED = {'std::string': 'string', 'string': 'string',
         'std::basic_string<char>': 'string', 'basic_string<char>': 'string',
         'double': 'float64', 'bool': 'bool', 'void': 'void',
         'std::chrono::nanoseconds': 'ns',
         'nanoseconds': 'ns', 'std::nullptr_t': 'null',
         'duration<long, ratio<1, 1000000000>>': 'ns',
         'std::chrono::duration<long, std::ratio<1, 1000000000>>': 'ns',
         'tm': 'tm', 'struct tm': 'tm',
         'std::filesystem::path': 'path', 'boost::filesystem::path': 'path',
         'path': 'path', 'Json::Value': 'Json', 'Value': 'Json',
         'date::local_days': 'date', 'local_days': 'date',
         'date::local_time<date::days>': 'date',
         'date::local_seconds': 'datetime',
         'date::local_time<std::chrono::seconds>': 'datetime',
         'local_seconds': 'datetime',
         'date::time_of_day<std::chrono::seconds>': 'time',
         'std::smatch': 'match', 'std::regex': 'regex',
         'std::stringstream': 'stream', 'std::istringstream': 'stream'}


def split(text):
    """Arguments of a template, at the top level."""
    out, depth, start = [], 0, 0
    for i, ch in enumerate(text):
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            depth -= 1
        elif ch == ',' and depth == 0:
            out.append(text[start:i])
            start = i + 1
    out.append(text[start:])
    return [x.strip() for x in out]


def parse_type(q):
    """('ref'|'ptr'|'map'|...) of the text of a type; const is ignored."""
    q = q.strip()
    while True:
        for w in ('const ', 'struct ', 'class ', 'volatile ', 'typename '):
            if q.startswith(w):
                q = q[len(w):].strip()
                break
        else:
            break
    q = re.sub(r'\s+', ' ', q)
    if q.endswith('&&'):
        return ('ref', parse_type(q[:-2]))
    if q.endswith('&'):
        return ('ref', parse_type(q[:-1]))
    if q.endswith(' const') or q.endswith('*const'):
        return parse_type(q[:-5])
    if q.endswith('*'):
        return ('ptr', parse_type(q[:-1]))
    if q in INTS:
        n = INTS[q]
        return ('name', {64: 'int64', 32: 'int32', -64: 'uint64',
                         -32: 'uint32', 8: 'char', -8: 'char'}[n])
    if q in NAMED:
        return ('name', NAMED[q])
    m = re.match(r'^([\w:]+)<(.*)>$', q)
    if m:
        t, args = m.group(1).split('::')[-1], split(m.group(2))
        if t == 'vector':
            return ('slice', parse_type(args[0]))
        if t == 'map':
            return ('map', parse_type(args[0]), parse_type(args[1]))
        if t == 'optional':
            return ('opt', parse_type(args[0]))
        if t == 'unique_ptr':
            return ('ptr', parse_type(args[0]))
        if t == 'pair':
            return ('pair', parse_type(args[0]), parse_type(args[1]))
        return ('name', q)
    if re.match(r'^[\w:]+$', q):
        return ('name', q.split('::')[-1])
    return ('name', q)


def qual(n):
    t = n.get('type') or {}
    return t.get('qualType', '')


def desugared(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType', t.get('qualType', ''))


def kids(n):
    return [c for c in n.get('inner', ())
            if c and not c.get('kind', '').endswith('Comment')]


def strip(e):
    """Without what does not matter."""
    while True:
        k = e.get('kind')
        if k in SKIP:
            e = kids(e)[0]
        elif k == 'ImplicitCastExpr' and e.get('castKind') in PLAIN_CASTS:
            e = kids(e)[0]
        elif k == 'CXXFunctionalCastExpr' and e.get('castKind') in (
                'ConstructorConversion', 'NoOp'):
            e = kids(e)[0]
        elif k in ('CXXStaticCastExpr', 'CStyleCastExpr') and \
                e.get('castKind') == 'NoOp':
            e = kids(e)[0]
        else:
            return e


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(kids(x))


def literal(e):
    """The text of a StringLiteral."""
    v = e['value']
    if not v.startswith('"'):
        raise Unsupported('literal {}'.format(v))
    out = bytearray()
    i = 1
    raw = v.encode('utf-8', 'surrogateescape')
    end = len(raw) - 1
    simple = {ord('n'): 10, ord('t'): 9, ord('r'): 13, ord('\\'): 92,
              ord('"'): 34, ord("'"): 39, ord('a'): 7, ord('b'): 8,
              ord('f'): 12, ord('v'): 11, ord('?'): 63}
    while i < end:
        c = raw[i]
        if c != 92:
            out.append(c)
            i += 1
            continue
        c = raw[i + 1]
        if c in simple:
            out.append(simple[c])
            i += 2
        elif 48 <= c <= 55:
            m = re.match(rb'[0-7]{1,3}', raw[i + 1:end])
            out.append(int(m.group(), 8) & 255)
            i += 1 + m.end()
        elif c == ord('x'):
            m = re.match(rb'[0-9a-fA-F]+', raw[i + 2:end])
            out.append(int(m.group(), 16) & 255)
            i += 2 + m.end()
        elif c in (ord('u'), ord('U')):
            n = 4 if c == ord('u') else 8
            out += chr(int(raw[i + 2:i + 2 + n], 16)).encode()
            i += 2 + n
        else:
            raise Unsupported('literal {}'.format(v))
    return bytes(out).decode('utf-8', 'surrogateescape')


class Package:
    """The generated files: a module for the executor."""

    def __init__(self, path, files):
        self.path = path
        self.names = {'go': Dotted('go'), 'cpp': Dotted('cpp')}
        self.types = {}
        self.methods = {}
        self.decls = {}
        self.own = set()
        self.ids = {}
        self.vars = {}
        docs = dump(files)
        for d in docs:
            for n in walk(d):
                if n.get('kind') == 'CXXRecordDecl' and n.get(
                        'completeDefinition'):
                    self.record(n)
        for d in docs:
            self.scope(d)
        for key, d in self.decls.items():
            try:
                self.names[key] = Func(self, d).function(key)
            except Unsupported as e:
                self.names[key] = broken(key, str(e))

    def record(self, n):
        fields = []
        for c in kids(n):
            if c['kind'] == 'FieldDecl':
                init = kids(c)
                fields.append((c['name'], parse_type(qual(c)),
                               init[0] if init else None))
        self.types[n['name']] = ('struct', tuple(f[:2] for f in fields))
        self.ids[n['id']] = n['name']
        for k in ('previousDecl', ):
            if k in n:
                self.ids[n[k]] = n['name']
        inits = {}
        for f, _, e in fields:
            if e is not None:
                inits[f] = e
        n['fields'] = inits
        self.vars[n['name']] = inits

    def scope(self, d):
        for n in kids(d):
            k = n['kind']
            if k in ('NamespaceDecl', 'LinkageSpecDecl'):
                self.scope(n)
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                self.function(n)
            elif k == 'FunctionTemplateDecl':
                for c in kids(n):
                    if c['kind'] == 'FunctionDecl' and any(
                            x['kind'] == 'TemplateArgument'
                            for x in kids(c)):
                        self.function(c)
            elif k == 'VarDecl' and kids(n):
                self.own.add(n['id'])
                try:
                    self.names['{} {}'.format(n['name'], n['id'])] = Func(
                        self, n).init(n)
                except Unsupported as e:
                    self.names['{} {}'.format(n['name'], n['id'])] = broken(
                        n['name'], str(e))
                if 'kDuration' in n['name']:
                    self.names['durationRe'] = self.names['{} {}'.format(
                        n['name'], n['id'])]
            elif k == 'CXXRecordDecl':
                for c in kids(n):
                    if c['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl'):
                        self.function(c, n['name'])

    def function(self, n, cls=None):
        self.own.add(n['id'])
        if not any(c['kind'] == 'CompoundStmt' for c in kids(n)):
            return
        key = n['name']
        if n['kind'] != 'FunctionDecl':
            cls = cls or self.ids.get(n.get('parentDeclContextId'))
            if n.get('isImplicit'):
                return
            if cls is None:
                raise Unsupported('method of an unknown class')
            key = '{}.{}'.format(cls, 'new' if n['kind'] ==
                                 'CXXConstructorDecl' else key)
            self.methods[key] = n
        if key in self.decls:
            raise Unsupported('overloads of {}'.format(key))
        self.decls[key] = n


def cpp(what, *args):
    return ast.Call(func=ast.Attribute(value=name('cpp'), attr=what,
                                       ctx=ast.Load()),
                    args=list(args), keywords=[])


def is_const(q):
    q = q.strip()
    return q.startswith('const ') or q.endswith('const')


IMMUTABLE = {'string', 'float64', 'bool', 'ns', 'tm', 'path', 'date', 'time',
             'datetime', 'int64', 'int32', 'uint64', 'uint32', 'char',
             'null', 'match', 'regex'}


class Func:
    """Rewrites one function."""

    def __init__(self, pkg, d):
        self.pkg = pkg
        self.d = d
        self.count = 0
        self.types = {}
        self.taken = set()
        self.after = []
        for n in walk(d):
            if n.get('kind') == 'VarDecl' or n.get('kind') == 'ParmVarDecl':
                self.types[n['id']] = n
        for n in walk(d):
            self.find_taken(n)

    def find_taken(self, n):
        """Local variables that are used by reference."""
        k = n.get('kind')
        if k == 'UnaryOperator' and n.get('opcode') == '&':
            self.take(kids(n)[0])
        elif k == 'VarDecl' and desugared(n).rstrip().endswith('&') and \
                not is_const(desugared(n)) and n.get('init'):
            self.take(kids(n)[-1])
        elif k == 'CXXForRangeStmt':
            pass
        elif k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr',
                   'CXXConstructExpr'):
            args = kids(n)
            if k != 'CXXConstructExpr':
                args = args[1:]
            if k == 'CXXOperatorCallExpr':
                args = args[1:]
            if self.callee(n) == 'move':
                return
            for a in args:
                self.take(a)

    def callee(self, n):
        if n['kind'] != 'CallExpr':
            return None
        f = strip(kids(n)[0])
        return (f.get('referencedDecl') or {}).get('name')

    def take(self, e):
        while e.get('kind') in ('ParenExpr', ):
            e = kids(e)[0]
        if e.get('kind') == 'DeclRefExpr' and e.get(
                'valueCategory') == 'lvalue' and not is_const(desugared(e)):
            r = e['referencedDecl']
            if r['id'] in self.types and self.scalar(
                    parse_type(qual(self.types[r['id']]))):
                self.taken.add(self.var(r))

    def scalar(self, t):
        return t[0] == 'name' and t[1] in IMMUTABLE or t[0] == 'ptr'

    def temp(self):
        self.count += 1
        return 'tmp {}'.format(self.count)

    def var(self, r):
        return '{} {}'.format(r['name'], r['id'])

    def load(self, v):
        return intrinsic('load', name(v)) if v in self.taken else name(v)

    def function(self, key):
        d = self.d
        params = []
        first = []
        method = d['kind'] != 'FunctionDecl'
        names, types, order = {}, {}, []
        if method:
            params.append('this')
        for p in kids(d):
            if p['kind'] != 'ParmVarDecl':
                continue
            if not p.get('name'):
                params.append(self.temp())
                continue
            v = self.var(p)
            params.append(v)
            names[p['name']] = v
            types[p['name']] = parse_type(qual(p))
            order.append(p['name'])
            if v in self.taken:
                first.append(ast.Assign(targets=[name(v, True)],
                                        value=intrinsic('cell', name(v))))
        body = []
        for c in kids(d):
            if c['kind'] == 'CXXCtorInitializer':
                f = c.get('anyInit')
                if f is None:
                    raise Unsupported('initializer')
                body.append(ast.Assign(targets=[ast.Attribute(
                    value=name('this'), attr=f['name'], ctx=ast.Store())],
                    value=self.expr(kids(c)[0])))
        block = [c for c in kids(d) if c['kind'] == 'CompoundStmt'][0]
        why = None
        try:
            body = first + body + self.block(block)
        except Unsupported as e:
            why = str(e)
            body = [ast.Nonlocal(names=[why])]
        f = ast.parse('def f(): pass').body[0]
        f.name = key
        f.args.args = [ast.arg(arg=p) for p in params]
        f.body = self.lines(body or [ast.Pass()], d)
        f.lineno = 0
        f.param_names, f.param_types, f.order = names, types, order
        f.go_results = None
        f.go_defers = []
        if why is not None:
            f.why = why
        m = re.match(r'^(.*?)\s*\(', qual(d))
        f.result = parse_type(m.group(1)) if m else None
        return f

    # ----------------------------------------------------------- statements
    def lines(self, out, st):
        line = self.line(st)
        for s in out:
            for n in ast.walk(s):
                if isinstance(n, ast.stmt) and not hasattr(n, 'lineno'):
                    n.lineno = line
        return out

    def line(self, st):
        """The offset in the file (lines are not repeated in the tree)."""
        b = (st.get('range') or {}).get('begin') or {}
        b = b.get('expansionLoc', b)
        return b.get('offset', 0)

    def block(self, b):
        out = []
        for st in kids(b) if b['kind'] == 'CompoundStmt' else [b]:
            new = self.stmt(st)
            new += self.after
            self.after = []
            out += self.lines(new, st)
        return out

    def body(self, b):
        return self.block(b) or [ast.Pass()]

    def stmt(self, st):
        while st['kind'] in ('ExprWithCleanups', 'AttributedStmt'):
            st = kids(st)[-1]
        m = getattr(self, 's_' + st['kind'], None)
        if m is not None:
            return m(st)
        return self.effect(st)

    def s_CompoundStmt(self, st):
        return self.block(st)

    def s_NullStmt(self, st):
        return []

    def s_BreakStmt(self, st):
        return [ast.Break()]

    def s_ContinueStmt(self, st):
        return [ast.Continue()]

    def s_ReturnStmt(self, st):
        k = kids(st)
        v = self.expr(k[0]) if k else None
        pre, self.after = self.after, []
        del pre
        return [ast.Return(value=v)]

    def s_CXXThrowExpr(self, st):
        return [ast.Expr(value=intrinsic('panic'))]

    def s_CXXTryStmt(self, st):
        k = kids(st)
        handlers = []
        for h in k[1:]:
            c = kids(h)
            t = 'Exception'
            if len(c) > 1 and c[0]['kind'] == 'VarDecl':
                q = qual(c[0])
                if 'std::runtime_error' in q:
                    t = 'RuntimeError'
                elif 'std::exception' not in q:
                    raise Unsupported('catch of {}'.format(q))
            handlers.append(ast.ExceptHandler(type=name(t), name=None,
                                              body=self.body(c[-1])))
        return [ast.Try(body=self.body(k[0]), handlers=handlers, orelse=[],
                        finalbody=[])]

    def s_IfStmt(self, st):
        k = kids(st)
        if st.get('hasInit') or st.get('hasVar'):
            raise Unsupported('if with a declaration')
        test = self.expr(k[0])
        if self.after:
            raise Unsupported('effect of a condition')
        return [ast.If(test=test, body=self.body(k[1]),
                       orelse=self.block(k[2]) if len(k) > 2 else [])]

    def s_DeclStmt(self, st):
        out = []
        for d in kids(st):
            if d['kind'] in ('TypedefDecl', 'TypeAliasDecl',
                             'StaticAssertDecl', 'UsingDecl'):
                continue
            if d['kind'] != 'VarDecl':
                raise Unsupported('declaration {}'.format(d['kind']))
            v = self.var(d)
            e = self.init(d)
            out.append(ast.Assign(targets=[name(v, True)], value=intrinsic(
                'cell', e) if v in self.taken else e))
        return out

    def init(self, d):
        """The initial value of a variable."""
        k = [c for c in kids(d) if not c['kind'].endswith('Attr')]
        t = parse_type(qual(d))
        if not k:
            return cpp('uninitialised', const(t))
        e = k[-1]
        if t[0] == 'ref':
            return self.alias(e, t[1], is_const(qual(d)))
        return self.expr(e)

    def alias(self, e, t, constant):
        """What a reference is bound to."""
        if not constant and self.scalar(t):
            x = strip(e)
            if x['kind'] == 'DeclRefExpr' and x['referencedDecl'][
                    'id'] in self.types:
                raise Unsupported('reference to a variable')
            raise Unsupported('reference to a scalar')
        if constant and self.scalar(t):
            # what is referred to must not change
            x = e
            while x['kind'] in SKIP or x['kind'] == 'ImplicitCastExpr' and \
                    x.get('castKind') == 'NoOp':
                x = kids(x)[0]
            if x.get('valueCategory') == 'lvalue' and not is_const(
                    desugared(x)) and x['kind'] == 'DeclRefExpr':
                raise Unsupported('reference to a variable')
        return self.expr(e)

    # loops
    def s_CXXForRangeStmt(self, st):
        k = st['inner']
        decl = [c for c in k if c and c['kind'] == 'DeclStmt']
        rng = kids(decl[0])[0]
        var = kids(decl[-1])[0]
        src = self.expr(kids(rng)[-1])
        v = self.var(var)
        if v in self.taken:
            raise Unsupported('address of a loop variable')
        q = qual(var).rstrip()
        if q.endswith('&') and not is_const(q[:-1]):
            raise Unsupported('loop over references')
        return [ast.For(target=name(v, True), iter=cpp('range', src),
                        body=self.body(k[-1]), orelse=[])]

    def s_ForStmt(self, st):
        init, _, cond, inc, body = (st['inner'] + [None] * 5)[:5]
        init = init if init and init.get('kind') else None
        cond = cond if cond and cond.get('kind') else None
        inc = inc if inc and inc.get('kind') else None
        out = self.iterators(init, cond, inc, body) or \
            self.counting(init, cond, inc, body)
        if out:
            return out
        return self.plain_for(init, cond, inc, body)

    def iterators(self, init, cond, inc, body):
        """for (it = x.begin(); it != x.end(); ++it)"""
        if not init or init['kind'] != 'DeclStmt' or not cond or not inc:
            return None
        d = kids(init)[0]
        if d['kind'] != 'VarDecl' or 'terator' not in desugared(d):
            return None
        b = self.member_call(d, 'begin')
        c = strip(cond)
        while c['kind'] == 'CXXRewrittenBinaryOperator':
            c = kids(c)[0]
        if b is None or c['kind'] not in ('CXXOperatorCallExpr',
                                          'BinaryOperator'):
            raise Unsupported('loop over iterators')
        ck = kids(c)
        if c['kind'] == 'CXXOperatorCallExpr':
            if self.operator(c) != '!=':
                raise Unsupported('loop over iterators')
            ck = ck[1:]
        elif c['opcode'] != '!=':
            raise Unsupported('loop over iterators')
        end = self.member_call(ck[1], 'end')
        left = strip(ck[0])
        inc = strip(inc)
        if end is None or ast.dump(b) != ast.dump(end) or \
                left['kind'] != 'DeclRefExpr' or left['referencedDecl'][
                    'id'] != d['id'] or inc['kind'] != 'CXXOperatorCallExpr' \
                or self.operator(inc) != '++' or strip(
                    kids(inc)[1]).get('referencedDecl', {}).get(
                        'id') != d['id']:
            raise Unsupported('loop over iterators')
        v = self.var(d)
        for n in walk(body):
            if n['kind'] == 'CXXOperatorCallExpr' and self.operator(n) in (
                    '=', '++', '--', '+=') and strip(kids(n)[1]).get(
                        'referencedDecl', {}).get('id') == d['id']:
                raise Unsupported('iterator')
        return [ast.For(target=name(v, True), iter=cpp('members', b),
                        body=self.body(body), orelse=[])]

    def member_call(self, e, what):
        """The object of the only call of a method in an expression."""
        found = [n for n in walk(e) if n['kind'] == 'CXXMemberCallExpr']
        if len(found) != 1:
            return None
        m = strip(kids(found[0])[0])
        if m['kind'] != 'MemberExpr' or m['name'] != what:
            return None
        return self.expr(kids(m)[0])

    def counting(self, init, cond, inc, body):
        """for (int i = 0; i < n; ++i)"""
        if not init or init['kind'] != 'DeclStmt' or not cond or not inc:
            return None
        d = kids(init)[0]
        z = strip(kids(d)[-1]) if kids(d) else {}
        while z.get('kind') == 'ImplicitCastExpr':
            z = strip(kids(z)[0])
        c, i = strip(cond), strip(inc)
        if z.get('kind') != 'IntegerLiteral' or z['value'] != '0' or \
                c['kind'] != 'BinaryOperator' or c['opcode'] != '<' or \
                i['kind'] != 'UnaryOperator' or i['opcode'] != '++':
            return None
        left = kids(c)[0]
        while left['kind'] in SKIP or left['kind'] == 'ImplicitCastExpr':
            left = kids(left)[0]
        for x in (left, strip(kids(i)[0])):
            if x['kind'] != 'DeclRefExpr' or \
                    x['referencedDecl']['id'] != d['id']:
                return None
        v = self.var(d)
        if v in self.taken or self.assigned(body, d['id']):
            return None
        limit = kids(c)[1]
        # what the limit depends on must be constant
        for n in walk(limit):
            if n['kind'] == 'DeclRefExpr' and n['referencedDecl'][
                    'id'] in self.types and not is_const(desugared(n)) and \
                    self.assigned(body, n['referencedDecl']['id']):
                return None
            if n['kind'] == 'CXXMemberCallExpr':
                m = strip(kids(n)[0])
                if not is_const(desugared(kids(m)[0])):
                    return None
        return [ast.For(target=name(v, True), iter=cpp(
            'count', self.expr(limit)), body=self.body(body), orelse=[])]

    def assigned(self, body, ident):
        for n in walk(body):
            k = n['kind']
            if k in ('BinaryOperator', 'CompoundAssignOperator') and \
                    n['opcode'].endswith('=') and n['opcode'] not in (
                        '==', '!=', '<=', '>=') or \
                    k == 'UnaryOperator' and n['opcode'] in ('++', '--',
                                                             '&'):
                x = strip(kids(n)[0])
                if x.get('referencedDecl', {}).get('id') == ident:
                    return True
        return False

    def plain_for(self, init, cond, inc, body):
        """while, where continue is not used"""
        for n in walk(body):
            if n['kind'] == 'ContinueStmt':
                raise Unsupported('continue')
        out = self.stmt(init) if init else []
        test = self.expr(cond) if cond else const(True)
        if self.after:
            raise Unsupported('effect of a condition')
        b = self.body(body)
        if inc:
            b = b + self.lines(self.stmt(inc), inc)
        return out + [ast.While(test=test, body=b, orelse=[])]

    def s_WhileStmt(self, st):
        k = kids(st)
        test = self.expr(k[0])
        return [ast.While(test=test, body=self.body(k[1]), orelse=[])]

    def s_SwitchStmt(self, st):
        k = kids(st)
        t = self.temp()
        out = [ast.Assign(targets=[name(t, True)], value=self.expr(k[0]))]
        if self.after:
            raise Unsupported('effect of a condition')
        cases = []
        default = []
        for c in kids(k[1]):
            labels = []
            has_default = False
            while c['kind'] in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    labels.append(self.expr(kids(c)[0]))
                else:
                    has_default = True
                c = kids(c)[-1]
            if has_default:
                default.append(c)
                continue
            if labels:
                if default or c['kind'] not in ('ReturnStmt',
                                                'CompoundStmt'):
                    raise Unsupported('switch')
                cases.append((labels, self.body(c)))
            elif default:
                default.append(c)
            else:
                raise Unsupported('switch')
        for _, b in cases:
            if not isinstance(b[-1], ast.Return):
                raise Unsupported('switch')
        rest = []
        for c in default:
            rest += self.block(c)
        for labels, b in reversed(cases):
            test = ast.BoolOp(op=ast.Or(), values=[ast.Compare(
                left=name(t), ops=[ast.Eq()], comparators=[x])
                for x in labels]) if len(labels) > 1 else ast.Compare(
                    left=name(t), ops=[ast.Eq()], comparators=labels)
            rest = [ast.If(test=test, body=b, orelse=rest)]
        return out + rest

    # ------------------------------------------------------------- effects
    def place(self, e):
        """The target of an assignment as a Python expression to store."""
        e = strip(e)
        k = e['kind']
        if k == 'DeclRefExpr':
            v = self.var(e['referencedDecl'])
            if e['referencedDecl']['id'] not in self.types:
                raise Unsupported('assignment to {}'.format(v))
            return ('var', v)
        if k == 'MemberExpr':
            return ('attr', self.expr(kids(e)[0]), e['name'])
        if k == 'CXXOperatorCallExpr' and self.operator(e) == '[]':
            a = kids(e)[1:]
            return ('elem', self.expr(a[0]), self.expr(a[1]))
        if k == 'CXXOperatorCallExpr' and self.operator(e) == '*' and \
                len(kids(e)) == 2:
            return ('opt', self.place(kids(e)[1]))
        if k == 'CXXMemberCallExpr':
            m = strip(kids(e)[0])
            if m['name'] == 'at':
                return ('at', self.expr(kids(m)[0]), self.expr(kids(e)[1]))
        if k == 'UnaryOperator' and e['opcode'] == '*':
            return ('ptr', self.expr(kids(e)[0]))
        raise Unsupported('assignment to {}'.format(k))

    def put(self, p, e):
        if p[0] == 'var':
            if p[1] in self.taken:
                return [ast.Expr(value=intrinsic('store', name(p[1]), e))]
            t = [x for x in self.types.values() if self.var(x) == p[1]][0]
            if parse_type(qual(t))[0] == 'ref' or not self.scalar(
                    parse_type(qual(t))) and parse_type(
                        qual(t))[0] != 'opt':
                return [ast.Expr(value=cpp('assign', name(p[1]), e))]
            return [ast.Assign(targets=[name(p[1], True)], value=e)]
        if p[0] == 'attr':
            return [ast.Assign(targets=[ast.Attribute(
                value=p[1], attr=p[2], ctx=ast.Store())], value=e)]
        if p[0] == 'elem':
            return [ast.Assign(targets=[ast.Subscript(
                value=p[1], slice=p[2], ctx=ast.Store())], value=e)]
        if p[0] == 'at':
            return [ast.Expr(value=cpp('put_at', p[1], p[2], e))]
        if p[0] == 'opt':
            t = self.temp()
            return [ast.Assign(targets=[name(t, True)], value=e),
                    ast.Expr(value=cpp('engaged', self.get(p[1])))] + \
                self.put(p[1], name(t))
        if p[0] == 'ptr':
            return [ast.Expr(value=cpp('storep', p[1], e))]
        raise Unsupported('assignment')

    def get(self, p):
        if p[0] == 'var':
            return self.load(p[1])
        if p[0] == 'attr':
            return ast.Attribute(value=p[1], attr=p[2], ctx=ast.Load())
        if p[0] == 'elem':
            return ast.Subscript(value=p[1], slice=p[2], ctx=ast.Load())
        if p[0] == 'at':
            return cpp('at', p[1], p[2])
        if p[0] == 'opt':
            return cpp('engaged', self.get(p[1]))
        raise Unsupported('place')

    def effect(self, e):
        """An expression as a statement."""
        e = strip(e)
        k = e['kind']
        if k == 'CXXThrowExpr':
            return self.s_CXXThrowExpr(e)
        if k == 'BinaryOperator' and e['opcode'] == '=':
            a, b = kids(e)
            return self.put(self.place(a), self.expr(b))
        if k == 'BinaryOperator' and e['opcode'] == ',':
            return self.effect(kids(e)[0]) + self.effect(kids(e)[1])
        if k == 'CompoundAssignOperator':
            a, b = kids(e)
            p = self.place(a)
            t = parse_type(desugared(e))
            return self.put(p, self.fits(t, self.binary(
                e['opcode'][:-1], self.get(p), self.expr(b), a, b)))
        if k == 'UnaryOperator' and e['opcode'] in ('++', '--'):
            p = self.place(kids(e)[0])
            t = parse_type(desugared(e))
            op = ast.Add() if e['opcode'] == '++' else ast.Sub()
            return self.put(p, self.fits(t, ast.BinOp(
                left=self.get(p), op=op, right=const(1))))
        if k == 'CXXOperatorCallExpr':
            op = self.operator(e)
            a = kids(e)[1:]
            if op == '=':
                return self.put(self.place(a[0]), self.expr(a[1]))
            if op == '+=' and parse_type(desugared(a[0])) == (
                    'name', 'string'):
                p = self.place(a[0])
                return self.put(p, cpp('concat', self.get(p),
                                       self.expr(a[1])))
            if op == '>>':
                return self.extract(a)
        if k == 'CXXMemberCallExpr':
            m = strip(kids(e)[0])
            o = kids(m)[0]
            args = [x for x in kids(e)[1:]
                    if x['kind'] != 'CXXDefaultArgExpr']
            t = parse_type(desugared(o))
            if m.get('isArrow'):
                t = t[1] if t[0] == 'ptr' else t
            if t == ('name', 'string') and not m.get('isArrow'):
                if m['name'] in ('append', 'clear', 'resize', 'reserve'):
                    p = self.place(o)
                    if m['name'] == 'reserve':
                        return [ast.Expr(value=self.expr(args[0]))]
                    if m['name'] == 'clear':
                        return self.put(p, const(''))
                    f = {'append': 'concat', 'resize': 'resized'}[m['name']]
                    return self.put(p, cpp(f, self.get(p), *[
                        self.expr(x) for x in args]))
            if t[0] == 'opt' and m['name'] == 'emplace' and not args:
                return self.put(self.place(o), intrinsic('zero',
                                                         const(t[1])))
        return [ast.Expr(value=self.expr(e))]

    def extract(self, a):
        """stream >> date::parse(format, place)"""
        c = strip(a[1])
        if c['kind'] != 'CallExpr' or self.callee(c) != 'parse':
            # a proxy object is made by a function template
            found = [n for n in walk(a[1]) if n['kind'] == 'CallExpr' and
                     self.callee(n) == 'parse']
            if len(found) != 1:
                raise Unsupported('>>')
            c = found[0]
        f, x = kids(c)[1:3]
        t = parse_type(desugared(x))
        if t[0] == 'name' and t[1] not in IMMUTABLE:
            t = ('name', kind_of_date(t[1]))
        s = self.expr(a[0])
        ok = self.temp()
        return [ast.Assign(targets=[name(ok, True)], value=cpp(
            'date_parse', s, self.expr(f), const(t))),
            ast.If(test=name(ok), body=self.put(self.place(x), cpp(
                'date_parsed', s, self.expr(f), const(t))), orelse=[])]

    # --------------------------------------------------------- expressions
    def fits(self, t, e):
        """The result of arithmetic must be in the range of its type."""
        if t[0] == 'name' and t[1] in ('int64', 'int32', 'uint64', 'uint32'):
            return cpp('fits', const(t[1]), e)
        return e

    def expr(self, e):
        k = e['kind']
        if k in SKIP:
            return self.expr(kids(e)[0])
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression {}'.format(k))
        return m(e)

    def e_ImplicitCastExpr(self, e):
        k = e.get('castKind')
        if k in PLAIN_CASTS:
            return self.expr(kids(e)[0])
        if k in NUMBER_CASTS:
            t = parse_type(desugared(e))
            src = parse_type(desugared(kids(e)[0]))
            return cpp('cast', const(src), const(t), self.expr(kids(e)[0]))
        if k == 'FloatingToBoolean':
            return ast.Compare(left=self.expr(kids(e)[0]),
                               ops=[ast.NotEq()], comparators=[const(0)])
        raise Unsupported('conversion {}'.format(k))

    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = \
        e_ImplicitCastExpr

    def e_DeclRefExpr(self, e):
        r = e['referencedDecl']
        if r['kind'] in ('VarDecl', 'ParmVarDecl'):
            v = self.var(r)
            if r['id'] in self.types:
                return self.load(v)
            if v in self.pkg.names or r['id'] in self.pkg.own:
                return name(v)
            return cpp('constant', const(r['name']))
        if r['kind'] == 'EnumConstantDecl':
            return cpp('constant', const(r['name']))
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            if r['id'] in self.pkg.own:
                return name(r['name'])
            return ast.Attribute(value=name('cpp'), attr='x_' + r['name'],
                                 ctx=ast.Load())
        raise Unsupported('name {}'.format(r.get('name')))

    def e_StringLiteral(self, e):
        return const(literal(e))

    def e_CharacterLiteral(self, e):
        return const(chr(e['value']))

    def e_IntegerLiteral(self, e):
        return const(int(e['value']))

    def e_FloatingLiteral(self, e):
        return cpp('float', const(e['value']))

    def e_CXXBoolLiteralExpr(self, e):
        return const(bool(e['value']))

    def e_CXXNullPtrLiteralExpr(self, e):
        return const(None)

    def e_CXXThisExpr(self, e):
        return name('this')

    def e_MemberExpr(self, e):
        return ast.Attribute(value=self.expr(kids(e)[0]), attr=e['name'],
                             ctx=ast.Load())

    def e_UnaryOperator(self, e):
        op = e['opcode']
        x = kids(e)[0]
        if op == '!':
            return ast.UnaryOp(op=ast.Not(), operand=self.expr(x))
        if op == '-':
            return self.fits(parse_type(desugared(e)), ast.UnaryOp(
                op=ast.USub(), operand=self.expr(x)))
        if op == '+':
            return self.expr(x)
        if op == '*':
            return cpp('deref', self.expr(x))
        if op == '&':
            y = strip(x)
            if y['kind'] == 'DeclRefExpr' and \
                    self.var(y['referencedDecl']) in self.taken:
                return intrinsic('addr', name(self.var(y['referencedDecl'])))
            if y['kind'] == 'CXXOperatorCallExpr' and self.operator(
                    y) == '[]' and parse_type(desugared(
                        kids(y)[1]))[1:] == ('string', ):
                return cpp('text_from', *[self.expr(z)
                                          for z in kids(y)[1:]])
            return cpp('addr', self.expr(x))
        raise Unsupported('operator {}'.format(op))

    def e_BinaryOperator(self, e):
        a, b = kids(e)
        op = e['opcode']
        if op in ('&&', '||'):
            return ast.BoolOp(op=ast.And() if op == '&&' else ast.Or(),
                              values=[self.expr(a), self.expr(b)])
        return self.fits(parse_type(desugared(e)), self.binary(
            op, self.expr(a), self.expr(b), a, b))

    def binary(self, op, x, y, a, b):
        comps = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE,
                 '>': ast.Gt, '>=': ast.GtE}
        if op in comps:
            return ast.Compare(left=x, ops=[comps[op]()], comparators=[y])
        ops = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div,
               '%': ast.Mod}
        if op in ops:
            return ast.BinOp(left=x, op=ops[op](), right=y)
        raise Unsupported('operator {}'.format(op))

    def e_ConditionalOperator(self, e):
        a, b, c = kids(e)
        return ast.IfExp(test=self.expr(a), body=self.expr(b),
                         orelse=self.expr(c))

    def e_InitListExpr(self, e):
        t = parse_type(desugared(e))
        if t == ('name', 'tm'):
            for n in walk(e):
                if n['kind'] == 'IntegerLiteral' and n['value'] != '0':
                    raise Unsupported('struct tm')
            return intrinsic('zero', const(t))
        if t[0] == 'name' and t[1].split('::')[-1] in self.pkg.types:
            n = t[1].split('::')[-1]
            fields = self.pkg.types[n][1]
            return cpp('struct', const(('name', n)), *[
                ast.Tuple(elts=[const(f), self.expr(x)], ctx=ast.Load())
                for (f, _), x in zip(fields, kids(e))])
        k = kids(e)
        if len(k) == 1:
            return self.expr(k[0])
        raise Unsupported('initializer list')

    def e_ImplicitValueInitExpr(self, e):
        return intrinsic('zero', const(parse_type(desugared(e))))

    def e_CXXScalarValueInitExpr(self, e):
        return intrinsic('zero', const(parse_type(desugared(e))))

    def e_CXXConstructExpr(self, e):
        args = [x for x in kids(e) if x['kind'] != 'CXXDefaultArgExpr']
        t = parse_type(desugared(e))
        if t[0] == 'name' and t[1].split('::')[-1] in self.pkg.types:
            t = ('name', t[1].split('::')[-1])
        if not args:
            return cpp('construct', const(t))
        if len(args) == 1:
            a = args[0]
            src = parse_type(desugared(a))
            if src == t or qual(a).replace('const ', '') == qual(
                    e).replace('const ', ''):
                if self.scalar(t):
                    return self.expr(a)
                return cpp('copy', self.expr(a))
        return cpp('construct', const(t), *[self.expr(a) for a in args])

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CallExpr(self, e):
        k = kids(e)
        if self.callee(e) == 'move':
            x = strip(k[1])
            if x['kind'] == 'DeclRefExpr' and x['referencedDecl'][
                    'id'] in self.types:
                v = self.var(x['referencedDecl'])
                if v in self.taken:
                    raise Unsupported('move')
                self.after.append(ast.Assign(
                    targets=[name(v, True)], value=cpp('moved')))
            return self.expr(k[1])
        if self.callee(e) == 'make_unique':
            t = parse_type(desugared(e))
            if len([x for x in k[1:] if x['kind'] != 'CXXDefaultArgExpr']):
                raise Unsupported('make_unique')
            return intrinsic('new', const(self.named(t[1])))
        if self.callee(e) in ('max', 'min', 'lowest') and len(k) == 1 and \
                parse_type(desugared(e))[0] == 'name':
            # of std::numeric_limits
            return cpp('limit', const('max' if self.callee(e) == 'max'
                                      else 'min'),
                       const(parse_type(desugared(e))))
        f = self.expr(k[0])
        args = [x for x in k[1:] if x['kind'] != 'CXXDefaultArgExpr']
        return ast.Call(func=f, args=[self.argument(x) for x in args],
                        keywords=[])

    def named(self, t):
        if t[0] == 'name' and t[1].split('::')[-1] in self.pkg.types:
            return ('name', t[1].split('::')[-1])
        return t

    def argument(self, a):
        x = a
        while x['kind'] == 'ParenExpr':
            x = kids(x)[0]
        if x['kind'] == 'DeclRefExpr' and x.get(
                'valueCategory') == 'lvalue' and \
                self.var(x['referencedDecl']) in self.taken and \
                not is_const(desugared(x)):
            return intrinsic('addr', name(self.var(x['referencedDecl'])))
        return self.expr(a)

    def operator(self, e):
        f = strip(kids(e)[0])
        n = (f.get('referencedDecl') or {}).get('name', '')
        if not n.startswith('operator'):
            raise Unsupported('operator')
        return n[len('operator'):].strip()

    def e_CXXOperatorCallExpr(self, e):
        op = self.operator(e)
        a = kids(e)[1:]
        if op == '[]':
            return ast.Subscript(value=self.expr(a[0]), slice=self.expr(a[1]),
                                 ctx=ast.Load())
        if op == '*' and len(a) == 1 or op == '->':
            return cpp('deref', self.expr(a[0]))
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.binary(op, self.expr(a[0]), self.expr(a[1]), *a)
        if op == '!':
            return ast.UnaryOp(op=ast.Not(), operand=self.expr(a[0]))
        if op == '+' and parse_type(desugared(e)) == ('name', 'string'):
            return cpp('concat', self.expr(a[0]), self.expr(a[1]))
        if op == '<<':
            return cpp('stream_out', self.expr(a[0]), self.expr(a[1]))
        raise Unsupported('operator {}'.format(op))

    def e_CXXMemberCallExpr(self, e):
        m = strip(kids(e)[0])
        if m['kind'] != 'MemberExpr':
            raise Unsupported('call of a member')
        o = kids(m)[0]
        args = [x for x in kids(e)[1:] if x['kind'] != 'CXXDefaultArgExpr']
        n = m['name']
        t = parse_type(desugared(o))
        if n == 'append' and t == ('name', 'string'):
            x = o
            while x['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                x = kids(x)[0]
            if x['kind'] == 'MaterializeTemporaryExpr' or \
                    x['kind'] == 'CXXMemberCallExpr':
                return cpp('concat', self.expr(o), *[
                    self.expr(y) for y in args])
        if n.startswith('operator bool'):
            return cpp('engaged_bool', self.expr(o))
        if n.startswith('operator basic_string') or n.startswith(
                'operator '):
            return cpp('call', const(n), self.expr(o))
        if t == ('name', 'string') and n in ('append', 'clear', 'resize',
                                             'assign', 'push_back', 'erase',
                                             'insert', 'pop_back'):
            raise Unsupported('a text changed in an expression')
        return cpp('call', const(n), self.expr(o), *[
            self.argument(y) for y in args])


def kind_of_date(text):
    """What a type of Howard Hinnant's library is for."""
    if 'time_of_day' in text or 'hh_mm_ss' in text:
        return 'time'
    if 'duration<' in text and 'time_point' not in text:
        return 'time'
    if '86400' in text or 'days' in text:
        return 'date'
    if 'time_point' in text or 'local_t' in text:
        return 'datetime'
    return text
