"""Go source as Python syntax trees that the executor of pv/gv.py runs.

A Go program (DUMP below, go/parser) prints the syntax tree of the source
files; it is rewritten statement by statement.  Operations that differ from
those of Python become calls of go.something, whose meaning is given by the
theory (pv/gvgo.py).  Nothing but comments is dropped.  Whatever is not
handled raises Unsupported: the function is then not verified.
"""
import ast
import atexit
import fractions
import json
import os
import shutil
import subprocess
import tempfile

from pv.engine import Unsupported
from pv.gv import Dotted

DUMP = r'''
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"reflect"
	"strconv"
)

var fset *token.FileSet
var scope *ast.Scope

func dump(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return dump(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		n, ok := v.Interface().(ast.Node)
		if !ok {
			return nil
		}
		switch n.(type) {
		case *ast.CommentGroup, *ast.Comment:
			return nil
		}
		e := v.Elem()
		out := map[string]interface{}{"T": e.Type().Name(),
			"P": fset.Position(n.Pos()).Line}
		if id, ok := n.(*ast.Ident); ok {
			out["N"] = id.Name
			out["O"] = -1
			out["Q"] = int(id.Pos())
			if id.Obj != nil && scope.Lookup(id.Name) != id.Obj {
				out["O"] = int(id.Obj.Pos())
			}
			return out
		}
		for i := 0; i < e.NumField(); i++ {
			name := e.Type().Field(i).Name
			if name == "Scope" || name == "Unresolved" ||
				name == "Imports" || name == "Comments" {
				continue
			}
			if x := dump(e.Field(i)); x != nil {
				out[name] = x
			}
		}
		if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
			s, err := strconv.Unquote(l.Value)
			if err != nil {
				panic(err)
			}
			b := []int{}
			for _, c := range []byte(s) {
				b = append(b, int(c))
			}
			out["S"] = b
		}
		return out
	case reflect.Slice:
		out := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, dump(v.Index(i)))
		}
		return out
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int:
		if t, ok := v.Interface().(token.Token); ok {
			return t.String()
		}
		if _, ok := v.Interface().(token.Pos); ok {
			return int(v.Int())
		}
		return int(v.Int())
	}
	return nil
}

func main() {
	var files [][]string
	if err := json.NewDecoder(os.Stdin).Decode(&files); err != nil {
		panic(err)
	}
	out := []interface{}{}
	for _, f := range files {
		fset = token.NewFileSet()
		file, err := parser.ParseFile(fset, f[0], f[1], 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		scope = file.Scope
		out = append(out, dump(reflect.ValueOf(file)))
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
'''

_TOOL = []


def tool():
    """The compiled program (once for each run)."""
    if not _TOOL:
        d = tempfile.mkdtemp(prefix='pv_godump_')
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
        src = os.path.join(d, 'src')
        os.makedirs(src)
        with open(os.path.join(src, 'go.mod'), 'w') as f:
            f.write('module dump\n\ngo 1.20\n')
        with open(os.path.join(src, 'main.go'), 'w') as f:
            f.write(DUMP)
        env = dict(os.environ, GOCACHE=os.path.join(d, 'cache'),
                   GOFLAGS='-mod=mod', GO111MODULE='on', GOPROXY='off',
                   GOPATH=os.path.join(d, 'gopath'), GOWORK='off',
                   GOTOOLCHAIN='local', CGO_ENABLED='0', GOTMPDIR=d)
        p = subprocess.run(['go', 'build', '-o', os.path.join(d, 'dump'),
                            '.'], cwd=src, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=600)
        if p.returncode:
            raise RuntimeError('go build: ' + p.stdout.decode())
        shutil.rmtree(os.path.join(d, 'cache'), ignore_errors=True)
        _TOOL.append(os.path.join(d, 'dump'))
    return _TOOL[0]


def trees(files):
    """Syntax trees of Go files {name: text}."""
    p = subprocess.run([tool()], input=json.dumps(
        sorted(files.items())).encode(), stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, timeout=120)
    if p.returncode:
        raise Unsupported('Go syntax: ' + p.stderr.decode()[-300:])
    return json.loads(p.stdout.decode())


BASIC = {'bool', 'string', 'int', 'int8', 'int16', 'int32', 'int64', 'uint',
         'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64', 'byte',
         'rune', 'error', 'any', 'uintptr'}
OTHER = {'time.Duration', 'time.Month', 'time.Time', 'time.Location',
         'regexp.Regexp'}
BUILTIN = {'len', 'cap', 'append', 'make', 'new', 'panic', 'delete', 'copy'}
CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE,
       '>': ast.Gt, '>=': ast.GtE}
OPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div,
       '%': ast.Mod, '&': ast.BitAnd, '|': ast.BitOr, '<<': ast.LShift,
       '>>': ast.RShift}


def const(v):
    return ast.Constant(value=v)


def name(n, store=False):
    return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())


def intrinsic(what, *args):
    return ast.Call(func=ast.Attribute(value=name('go'), attr=what,
                                       ctx=ast.Load()),
                    args=list(args), keywords=[])


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            for y in walk(v):
                yield y
    elif isinstance(x, list):
        for v in x:
            for y in walk(v):
                yield y


def unparen(e):
    while e and e['T'] == 'ParenExpr':
        e = e['X']
    return e


class Package:
    """The files of a package: a module for the executor."""

    def __init__(self, path, files):
        self.path = path
        self.names = {'go': Dotted('go')}
        self.types = {}
        self.methods = {}
        self.texts = files
        parsed = trees(files)
        imports = {}
        for t in parsed:
            for d in t.get('Decls', ()):
                if d['T'] == 'GenDecl' and d['Tok'] == 'type':
                    for s in d['Specs']:
                        self.types[s['Name']['N']] = None
        for t in parsed:
            for d in t.get('Decls', ()):
                if d['T'] != 'GenDecl':
                    continue
                for s in d.get('Specs', ()):
                    if d['Tok'] == 'import':
                        p = text(s['Path'])
                        n = s['Name']['N'] if s.get('Name') else \
                            p.rsplit('/', 1)[-1]
                        if imports.setdefault(n, p) != p:
                            raise Unsupported('imports')
                        self.names[n] = Dotted(p)
                    elif d['Tok'] == 'type':
                        self.types[s['Name']['N']] = self.struct(s['Type'])
        for t in parsed:
            for d in t.get('Decls', ()):
                if d['T'] == 'GenDecl' and d['Tok'] in ('var', 'const'):
                    for s in d['Specs']:
                        vals = s.get('Values') or []
                        if len(vals) != len(s['Names']):
                            continue
                        for n, v in zip(s['Names'], vals):
                            self.names[n['N']] = Func(self, {}).expr(v)
        self.decls = {}
        for t in parsed:
            for d in t.get('Decls', ()):
                if d['T'] == 'FuncDecl':
                    key = d['Name']['N']
                    if d.get('Recv'):
                        r = unparen(d['Recv']['List'][0]['Type'])
                        if r['T'] == 'StarExpr':
                            r = unparen(r['X'])
                        key = '{}.{}'.format(r['N'], key)
                        self.methods[key] = d
                    self.decls[key] = d
        for key, d in self.decls.items():
            try:
                self.names[key] = Func(self, d).function(key)
            except Unsupported as e:
                self.names[key] = broken(key, str(e))

    def struct(self, t):
        t = unparen(t)
        if t['T'] != 'StructType':
            return ('other', self.type(t))
        out = []
        for f in t['Fields'].get('List') or ():
            if not f.get('Names'):
                raise Unsupported('embedded field')
            for n in f['Names']:
                out.append((n['N'], self.type(f['Type'])))
        return ('struct', tuple(out))

    def type(self, t):
        t = unparen(t)
        k = t['T']
        if k == 'Ident':
            return ('name', t['N'])
        if k == 'SelectorExpr' and t['X']['T'] == 'Ident':
            return ('name', '{}.{}'.format(t['X']['N'], t['Sel']['N']))
        if k == 'StarExpr':
            return ('ptr', self.type(t['X']))
        if k == 'ArrayType':
            if t.get('Len'):
                raise Unsupported('array type')
            return ('slice', self.type(t['Elt']))
        if k == 'MapType':
            return ('map', self.type(t['Key']), self.type(t['Value']))
        if k == 'InterfaceType':
            return ('iface', )
        if k == 'FuncType':
            return ('func', )
        raise Unsupported('type {}'.format(k))

    def is_type(self, e):
        e = unparen(e)
        if e['T'] in ('ArrayType', 'MapType', 'InterfaceType', 'FuncType',
                      'StructType', 'ChanType'):
            return True
        if e['T'] == 'StarExpr':
            return self.is_type(e['X'])
        if e['T'] == 'Ident':
            return e['O'] < 0 and (e['N'] in BASIC or e['N'] in self.types)
        if e['T'] == 'SelectorExpr' and e['X']['T'] == 'Ident' and \
                e['X']['O'] < 0:
            return '{}.{}'.format(e['X']['N'], e['Sel']['N']) in OTHER
        return False


def broken(key, why):
    f = ast.parse('def f(): pass').body[0]
    f.name = key
    # not executable
    f.body = [ast.Nonlocal(names=[why])]
    f.why = why
    return f


def text(lit):
    return bytes(lit['S']).decode('utf-8', 'surrogateescape')


class Func:
    """Rewrites one function."""

    def __init__(self, pkg, d):
        self.pkg = pkg
        self.d = d
        self.taken = set()
        self.count = 0
        self.results = []
        for n in walk(d.get('Body')):
            if n.get('T') == 'UnaryExpr' and n.get('Op') == '&':
                x = unparen(n['X'])
                if x['T'] == 'Ident':
                    self.taken.add(self.var(x))

    def temp(self):
        self.count += 1
        return 'tmp {}'.format(self.count)

    def var(self, n):
        if n['O'] < 0:
            raise Unsupported('variable {}'.format(n['N']))
        return '{} {}'.format(n['N'], n['O'])

    def function(self, key):
        d = self.d
        params = []
        first = []
        fields = []
        if d.get('Recv'):
            fields += d['Recv']['List']
        fields += d['Type']['Params'].get('List') or []
        self.params = {}
        for f in fields:
            if f['Type']['T'] == 'Ellipsis':
                raise Unsupported('variadic function')
            if not f.get('Names'):
                params.append(self.temp())
                continue
            for n in f['Names']:
                if n['N'] == '_':
                    params.append(self.temp())
                    continue
                v = self.var(n)
                params.append(v)
                self.params[n['N']] = v
                first.append(ast.Assign(targets=[name(v, True)], value=(
                    intrinsic('cell', name(v)) if v in self.taken else
                    intrinsic('val', name(v)))))
        res = (d['Type'].get('Results') or {}).get('List') or []
        named = [n for f in res for n in f.get('Names') or ()]
        types = []
        for f in res:
            types += [self.pkg.type(f['Type'])] * max(
                1, len(f.get('Names') or ()))
        if named:
            for n, t in zip(named, types):
                v = self.temp() if n['N'] == '_' else self.var(n)
                self.results.append(v)
                first += self.declare(v, const(t), zero=True)
        self.defers = []
        body = self.block(d['Body'])
        for flag, _ in self.defers:
            first.append(ast.Assign(targets=[name(flag, True)],
                                    value=const(False)))
        f = ast.parse('def f(): pass').body[0]
        f.name = key
        f.args.args = [ast.arg(arg=p) for p in params]
        f.body = self.lines(first, d) + body
        f.lineno = d['P']
        f.param_names = self.params
        f.param_types = {}
        for fd in fields:
            for n in fd.get('Names') or ():
                f.param_types[n['N']] = self.pkg.type(fd['Type'])
        f.order = [n['N'] for fd in fields for n in fd.get('Names') or ()]
        f.go_types = types
        f.go_results = [self.load(v) for v in self.results] or None
        f.go_defers = [self.lines([ast.If(test=name(flag), body=b,
                                          orelse=[])], d)[0]
                       for flag, b in self.defers]
        return f

    # ----------------------------------------------------------- statements
    def lines(self, out, st):
        for s in out:
            for n in ast.walk(s):
                if isinstance(n, ast.stmt) and not hasattr(n, 'lineno'):
                    n.lineno = st['P']
        return out

    def block(self, b):
        out = []
        for st in b.get('List') or ():
            out += self.lines(self.stmt(st), st)
        return out

    def body(self, b):
        return self.block(b) or [ast.Pass()]

    def stmt(self, st):
        m = getattr(self, 's_' + st['T'], None)
        if m is None:
            raise Unsupported('statement {}'.format(st['T']))
        return m(st)

    def s_EmptyStmt(self, st):
        return []

    def s_BlockStmt(self, st):
        return self.block(st)

    def s_ExprStmt(self, st):
        return [ast.Expr(value=self.expr(st['X']))]

    def load(self, v):
        return intrinsic('load', name(v)) if v in self.taken else name(v)

    def declare(self, v, e, zero=False):
        """v := e"""
        if zero:
            e = intrinsic('zero', e)
        return [ast.Assign(targets=[name(v, True)], value=intrinsic(
            'cell' if v in self.taken else 'val', e))]

    def put(self, lhs, e, define):
        """lhs = e, where e is evaluated once"""
        lhs = unparen(lhs)
        k = lhs['T']
        if k == 'Ident':
            if lhs['N'] == '_':
                return [ast.Assign(targets=[name('_', True)], value=e)]
            v = self.var(lhs)
            if define and lhs['O'] == lhs['Q'] or v not in self.taken:
                return self.declare(v, e)
            return [ast.Expr(value=intrinsic('store', name(v), e))]
        if k == 'SelectorExpr':
            t = ast.Attribute(value=self.expr(lhs['X']),
                              attr=lhs['Sel']['N'], ctx=ast.Store())
        elif k == 'IndexExpr':
            t = ast.Subscript(value=self.expr(lhs['X']),
                              slice=self.expr(lhs['Index']),
                              ctx=ast.Store())
        elif k == 'StarExpr':
            return [ast.Expr(value=intrinsic('storep', self.expr(lhs['X']),
                                             e))]
        else:
            raise Unsupported('assignment to {}'.format(k))
        return [ast.Assign(targets=[t], value=e)]

    def s_AssignStmt(self, st):
        tok, lhs, rhs = st['Tok'], st['Lhs'], st['Rhs']
        if tok not in (':=', '='):
            op = OPS.get(tok[:-1])
            if op is None:
                raise Unsupported('operator {}'.format(tok))
            return self.put(lhs[0], ast.BinOp(
                left=self.expr(lhs[0]), op=op(), right=self.expr(rhs[0])),
                False)
        define = tok == ':='
        if len(lhs) == 1 and len(rhs) == 1:
            r, x = unparen(rhs[0]), unparen(lhs[0])
            if r['T'] == 'CallExpr' and not define and \
                    unparen(r['Fun']).get('N') == 'append' and \
                    x['T'] == 'Ident' and x['N'] != '_' and \
                    unparen(r['Args'][0]).get('O') == x['O'] and \
                    self.var(x) not in self.taken:
                return [ast.Expr(value=intrinsic(
                    'append_to', *[self.expr(a) for a in r['Args']]))]
        if len(lhs) == 1:
            return self.put(lhs[0], self.expr(rhs[0]), define)
        temps = [self.temp() for _ in lhs]
        if len(rhs) == 1:
            r = unparen(rhs[0])
            if r['T'] == 'TypeAssertExpr':
                e = intrinsic('assert2', self.expr(r['X']),
                              const(self.pkg.type(r['Type'])))
            elif r['T'] == 'IndexExpr':
                e = intrinsic('index2', self.expr(r['X']),
                              self.expr(r['Index']))
            elif r['T'] == 'CallExpr':
                e = self.expr(r)
            else:
                raise Unsupported('assignment')
        else:
            e = ast.Tuple(elts=[self.expr(x) for x in rhs], ctx=ast.Load())
        if all(unparen(x)['T'] == 'Ident' and (
                x['N'] == '_' or self.var(x) not in self.taken)
               for x in lhs) and len(rhs) == 1:
            targets = [name('_' if x['N'] == '_' else self.var(x), True)
                       for x in map(unparen, lhs)]
            return [ast.Assign(targets=[ast.Tuple(
                elts=targets, ctx=ast.Store())], value=e)]
        out = [ast.Assign(targets=[ast.Tuple(
            elts=[name(t, True) for t in temps], ctx=ast.Store())],
            value=e)]
        for x, t in zip(lhs, temps):
            out += self.put(x, name(t), define)
        return out

    def s_IncDecStmt(self, st):
        op = ast.Add() if st['Tok'] == '++' else ast.Sub()
        return self.put(st['X'], ast.BinOp(
            left=self.expr(st['X']), op=op, right=const(1)), False)

    def s_DeclStmt(self, st):
        d = st['Decl']
        out = []
        if d['Tok'] not in ('var', 'const'):
            raise Unsupported('declaration')
        for s in d['Specs']:
            vals = s.get('Values') or []
            if vals and len(vals) != len(s['Names']):
                raise Unsupported('declaration')
            for i, n in enumerate(s['Names']):
                if n['N'] == '_':
                    continue
                v = self.var(n)
                if vals:
                    e = self.expr(vals[i])
                    if s.get('Type'):
                        e = intrinsic('conv', const(self.pkg.type(
                            s['Type'])), e)
                    out += self.declare(v, e)
                else:
                    out += self.declare(v, const(self.pkg.type(s['Type'])),
                                        zero=True)
        return out

    def s_IfStmt(self, st):
        out = []
        if st.get('Init'):
            out += self.lines(self.stmt(st['Init']), st)
        orelse = []
        if st.get('Else'):
            orelse = self.lines(self.stmt(st['Else']), st['Else'])
        out.append(ast.If(test=self.expr(st['Cond']),
                          body=self.body(st['Body']), orelse=orelse))
        return out

    def own(self, body, what):
        """Does a statement break (or continue) this body?"""
        stack = [(x, False) for x in body.get('List') or ()]
        while stack:
            x, inner = stack.pop()
            if isinstance(x, list):
                stack += [(y, inner) for y in x]
                continue
            if not isinstance(x, dict):
                continue
            if x.get('T') == 'BranchStmt' and x['Tok'] == what and not inner:
                return True
            if x.get('T') == 'FuncLit':
                continue
            deep = inner or x.get('T') in ('ForStmt', 'RangeStmt') or \
                what == 'break' and x.get('T') in (
                    'SwitchStmt', 'TypeSwitchStmt', 'SelectStmt')
            stack += [(y, deep) for y in x.values()]
        return False

    def changed(self, body):
        """Variables assigned in a body."""
        out = set()
        for n in walk(body):
            lhs = []
            if n.get('T') == 'AssignStmt':
                lhs = n['Lhs']
            elif n.get('T') == 'IncDecStmt':
                lhs = [n['X']]
            elif n.get('T') == 'RangeStmt':
                lhs = [n.get('Key'), n.get('Value')]
            elif n.get('T') == 'UnaryExpr' and n['Op'] == '&':
                lhs = [n['X']]
            for x in lhs:
                x = unparen(x)
                if x and x['T'] == 'Ident' and x['O'] >= 0:
                    out.add(self.var(x))
        return out

    def s_ForStmt(self, st):
        body = st['Body']
        init, cond, post = st.get('Init'), st.get('Cond'), st.get('Post')
        if init and cond and post and init['T'] == 'AssignStmt' and \
                init['Tok'] == ':=' and len(init['Lhs']) == 1 and \
                post['T'] == 'IncDecStmt' and post['Tok'] == '++' and \
                cond['T'] == 'BinaryExpr' and cond['Op'] in ('<', '!='):
            i = init['Lhs'][0]
            lo = unparen(init['Rhs'][0])
            changed = self.changed(body)
            hi = cond['Y']
            used = {self.var(n) for n in walk(hi) if n.get('T') == 'Ident'
                    and n['O'] >= 0}
            if unparen(cond['X']).get('O') == i['O'] and \
                    unparen(post['X']).get('O') == i['O'] and \
                    self.var(i) not in changed and \
                    self.var(i) not in self.taken and \
                    lo.get('Value') == '0' and not used & changed and \
                    self.var(i) not in used and not any(
                        n.get('T') == 'CallExpr' and
                        unparen(n['Fun']).get('N') != 'len'
                        or n.get('T') in ('SelectorExpr', 'IndexExpr')
                        for n in walk(hi)):
                return [ast.For(target=name(self.var(i), True),
                                iter=intrinsic('count', self.expr(hi)),
                                body=self.body(body), orelse=[])]
        if self.own(body, 'continue') and post:
            raise Unsupported('continue in a loop')
        out = self.lines(self.stmt(init), st) if init else []
        b = self.body(body)
        if post:
            b = b + self.lines(self.stmt(post), st)
        out.append(ast.While(test=self.expr(cond) if cond else const(True),
                             body=b, orelse=[]))
        return out

    def s_RangeStmt(self, st):
        key, val = st.get('Key'), st.get('Value')
        over = self.expr(st['X'])
        pre = []
        targets = []
        for x in (key, val):
            if x is None or x.get('N') == '_':
                targets.append(None)
                continue
            if st['Tok'] != ':=' or x['T'] != 'Ident':
                t = self.temp()
                pre += self.put(x, name(t), False)
                targets.append(t)
                continue
            v = self.var(x)
            if v in self.taken:
                t = self.temp()
                pre += self.declare(v, name(t))
                targets.append(t)
            else:
                targets.append(v)
        if targets[1] is None:
            it = intrinsic('range1', over)
            t = name(targets[0] or '_', True)
        else:
            it = intrinsic('range2', over)
            t = ast.Tuple(elts=[name(x or '_', True) for x in targets],
                          ctx=ast.Store())
        return [ast.For(target=t, iter=it, body=self.lines(pre, st) +
                        self.body(st['Body']), orelse=[])]

    def cases(self, st, test):
        """A chain of if statements."""
        default = []
        chain = []
        for c in st['Body'].get('List') or ():
            b = {'List': c.get('Body') or []}
            if self.own(b, 'break') or any(
                    x.get('Tok') == 'fallthrough' for x in walk(b)):
                raise Unsupported('break in a switch')
            if not c.get('List'):
                default = self.block(b)
                continue
            tests = [test(e) for e in c['List']]
            chain.append((tests[0] if len(tests) == 1 else ast.BoolOp(
                op=ast.Or(), values=tests), self.bound(c, self.body(b)), c))
        out = default
        for t, b, c in reversed(chain):
            out = self.lines([ast.If(test=t, body=b, orelse=out)], c)
        return out or [ast.Pass()]

    def bound(self, clause, body):
        return body

    def s_SwitchStmt(self, st):
        out = self.lines(self.stmt(st['Init']), st) if st.get('Init') else []
        if st.get('Tag'):
            t = self.temp()
            out.append(ast.Assign(targets=[name(t, True)],
                                  value=self.expr(st['Tag'])))
            return out + self.cases(st, lambda e: ast.Compare(
                left=name(t), ops=[ast.Eq()], comparators=[self.expr(e)]))
        return out + self.cases(st, self.expr)

    def s_TypeSwitchStmt(self, st):
        out = self.lines(self.stmt(st['Init']), st) if st.get('Init') else []
        a = st['Assign']
        v = None
        if a['T'] == 'AssignStmt':
            v = self.var(a['Lhs'][0])
            e = a['Rhs'][0]
        else:
            e = a['X']
        t = self.temp()
        out.append(ast.Assign(targets=[name(t, True)],
                              value=self.expr(unparen(e)['X'])))
        if v is not None:
            out += self.declare(v, name(t))

        def test(e):
            if e['T'] == 'Ident' and e['N'] == 'nil':
                return ast.Compare(left=name(t), ops=[ast.Eq()],
                                   comparators=[const(None)])
            return intrinsic('is_type', name(t), const(self.pkg.type(e)))
        return out + self.cases(st, test)

    def s_ReturnStmt(self, st):
        res = [self.expr(e) for e in st.get('Results') or ()]
        if self.results:
            out = []
            if len(res) == 1 and len(self.results) > 1:
                temps = [self.temp() for _ in self.results]
                out.append(ast.Assign(targets=[ast.Tuple(
                    elts=[name(t, True) for t in temps],
                    ctx=ast.Store())], value=res[0]))
                res = [name(t) for t in temps]
            elif len(res) > 1:
                temps = [self.temp() for _ in res]
                out += [ast.Assign(targets=[name(t, True)], value=r)
                        for t, r in zip(temps, res)]
                res = [name(t) for t in temps]
            for v, r in zip(self.results, res):
                if v in self.taken:
                    out.append(ast.Expr(value=intrinsic(
                        'store', name(v), r)))
                else:
                    out += self.declare(v, r)
            return out + [ast.Return(value=None)]
        if not res:
            return [ast.Return(value=None)]
        return [ast.Return(value=intrinsic('val', res[0]) if len(res) == 1
                           else ast.Tuple(elts=res, ctx=ast.Load()))]

    def s_BranchStmt(self, st):
        if st.get('Label'):
            raise Unsupported('label')
        if st['Tok'] == 'break':
            return [ast.Break()]
        if st['Tok'] == 'continue':
            return [ast.Continue()]
        raise Unsupported(st['Tok'])

    def s_DeferStmt(self, st):
        c = st['Call']
        f = unparen(c['Fun'])
        if f['T'] != 'FuncLit' or c.get('Args') or \
                not any(x is st for x in self.d['Body']['List']):
            raise Unsupported('defer')
        flag = self.temp()
        results, self.results = self.results, []
        self.defers.append((flag, self.body(f['Body'])))
        self.results = results
        return [ast.Assign(targets=[name(flag, True)], value=const(True))]

    # ---------------------------------------------------------- expressions
    def expr(self, e):
        m = getattr(self, 'e_' + e['T'], None)
        if m is None:
            if self.pkg.is_type(e):
                return const(self.pkg.type(e))
            raise Unsupported('expression {}'.format(e['T']))
        return m(e)

    def e_ParenExpr(self, e):
        return self.expr(e['X'])

    def e_Ident(self, e):
        n = e['N']
        if e['O'] >= 0:
            return self.load(self.var(e))
        if n in ('true', 'false', 'nil', 'iota') and n not in self.pkg.names:
            if n == 'iota':
                raise Unsupported('iota')
            return const({'true': True, 'false': False, 'nil': None}[n])
        if n in BASIC or n in self.pkg.types:
            return const(('name', n))
        return name(n)

    def e_BasicLit(self, e):
        k, v = e['Kind'], e['Value']
        if k == 'STRING':
            return const(text(e))
        if k == 'INT':
            return const(int(v.replace('_', ''), 0) if not (
                v.startswith('0') and v.isdigit()) else int(v, 8))
        if k == 'FLOAT':
            return const(fractions.Fraction(v.replace('_', '')))
        if k == 'CHAR':
            c = ast.literal_eval(v)
            return const(ord(c))
        raise Unsupported('literal {}'.format(k))

    def e_CompositeLit(self, e):
        t = e.get('Type')
        if t is None:
            raise Unsupported('composite literal without a type')
        ty = self.pkg.type(t)
        els = e.get('Elts') or []
        if ty[0] == 'slice':
            if any(x['T'] == 'KeyValueExpr' for x in els):
                raise Unsupported('keys in a slice')
            return intrinsic('slice', const(ty), *[self.elt(x, ty[1])
                                                   for x in els])
        if ty[0] == 'map':
            return intrinsic('map', const(ty), *[
                ast.Tuple(elts=[self.expr(x['Key']),
                                self.elt(x['Value'], ty[2])],
                          ctx=ast.Load()) for x in els])
        if ty[0] == 'name':
            if any(x['T'] != 'KeyValueExpr' for x in els):
                names = [f[0] for f in self.pkg.types[ty[1]][1]]
                pairs = list(zip(names, els))
            else:
                pairs = [(x['Key']['N'], x['Value']) for x in els]
            return intrinsic('struct', const(ty), *[
                ast.Tuple(elts=[const(k), self.expr(v)], ctx=ast.Load())
                for k, v in pairs])
        raise Unsupported('composite literal')

    def elt(self, x, ty):
        if x['T'] == 'CompositeLit' and not x.get('Type'):
            raise Unsupported('composite literal without a type')
        return self.expr(x)

    def e_SelectorExpr(self, e):
        return ast.Attribute(value=self.expr(e['X']), attr=e['Sel']['N'],
                             ctx=ast.Load())

    def e_IndexExpr(self, e):
        return ast.Subscript(value=self.expr(e['X']),
                             slice=self.expr(e['Index']), ctx=ast.Load())

    def e_SliceExpr(self, e):
        return ast.Subscript(value=self.expr(e['X']), slice=ast.Slice(
            lower=self.expr(e['Low']) if e.get('Low') else None,
            upper=self.expr(e['High']) if e.get('High') else None,
            step=None), ctx=ast.Load())

    def e_TypeAssertExpr(self, e):
        return intrinsic('assert1', self.expr(e['X']),
                         const(self.pkg.type(e['Type'])))

    def e_StarExpr(self, e):
        if self.pkg.is_type(e):
            return const(self.pkg.type(e))
        return intrinsic('deref', self.expr(e['X']))

    def e_UnaryExpr(self, e):
        op = e['Op']
        if op == '&':
            x = unparen(e['X'])
            if x['T'] == 'Ident':
                return intrinsic('addr', name(self.var(x)))
            if x['T'] == 'SelectorExpr':
                return intrinsic('addr_field', self.expr(x['X']),
                                 const(x['Sel']['N']))
            if x['T'] == 'IndexExpr':
                return intrinsic('addr_elem', self.expr(x['X']),
                                 self.expr(x['Index']))
            if x['T'] == 'CompositeLit':
                return intrinsic('addr', self.expr(x))
            if x['T'] == 'StarExpr':
                return self.expr(x['X'])
            raise Unsupported('address of {}'.format(x['T']))
        if op == '!':
            return ast.UnaryOp(op=ast.Not(), operand=self.expr(e['X']))
        if op == '-':
            return ast.UnaryOp(op=ast.USub(), operand=self.expr(e['X']))
        if op == '+':
            return self.expr(e['X'])
        raise Unsupported('operator {}'.format(op))

    def e_BinaryExpr(self, e):
        op = e['Op']
        if op in ('&&', '||'):
            return ast.BoolOp(op=ast.And() if op == '&&' else ast.Or(),
                              values=[self.expr(e['X']), self.expr(e['Y'])])
        x, y = self.expr(e['X']), self.expr(e['Y'])
        if op in CMP:
            return ast.Compare(left=x, ops=[CMP[op]()], comparators=[y])
        if op in OPS:
            return ast.BinOp(left=x, op=OPS[op](), right=y)
        raise Unsupported('operator {}'.format(op))

    def e_CallExpr(self, e):
        f = unparen(e['Fun'])
        args = e.get('Args') or []
        if e.get('HasEllipsis') or e.get('Ellipsis'):
            raise Unsupported('variadic call')
        if f['T'] == 'Ident' and f['O'] < 0 and f['N'] in BUILTIN and \
                f['N'] not in self.pkg.names:
            return intrinsic(f['N'], *[self.expr(a) for a in args])
        if self.pkg.is_type(f):
            return intrinsic('conv', const(self.pkg.type(f)),
                             self.expr(args[0]))
        if f['T'] == 'FuncLit':
            raise Unsupported('function literal')
        return ast.Call(func=self.expr(f), args=[self.expr(a) for a in args],
                        keywords=[])
