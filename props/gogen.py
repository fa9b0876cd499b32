"""Runs generated Go code: many schemas compiled into one program."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from props import common

MAIN = r'''
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"time"
)

type Tamper struct{ Registry, ID, New string }

type Request struct {
	K, Pattern, Text string
	S                int
	Value            json.RawMessage
	Ref              string
	Cap              uint64
	Tamper           *Tamper
}

type Result struct {
	Panic   string
	Errors  []string
	Changed bool
	Dump    interface{}
	Out     json.RawMessage
	OutErr  string
	Altered bool
	Errors2 []string
	Dump2   interface{}
	Refused bool
	Ok      bool
	T       interface{}
}

// Pkg is one generated package
type Pkg struct {
	Classes map[string]bool
	// gives a new graph
	New   func() interface{}
	Parse func(v interface{}, ref string, g interface{}, cap uint64) []string
	Write func(g interface{}) (interface{}, error)
}

type M = map[string]interface{}

type dumper struct {
	classes map[string]bool
	heap    M
	seen    map[uintptr]bool
	pkg     string
}

func when(t time.Time) interface{} {
	z, off := t.Zone()
	return []interface{}{t.Year(), int(t.Month()), t.Day(), t.Hour(),
		t.Minute(), t.Second(), t.Nanosecond(), off, z}
}

func (d *dumper) dump(v reflect.Value) interface{} {
	if v.Type() == reflect.TypeOf(time.Time{}) {
		return M{"t": when(v.Interface().(time.Time))}
	}
	if v.Type() == reflect.TypeOf(time.Duration(0)) {
		return M{"d": strconv.FormatInt(v.Int(), 10)}
	}
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int64:
		return M{"i": strconv.FormatInt(v.Int(), 10)}
	case reflect.Float64:
		return M{"f": strconv.FormatFloat(v.Float(), 'g', -1, 64)}
	case reflect.String:
		return M{"s": v.String()}
	case reflect.Slice:
		if v.IsNil() {
			return M{"a": nil}
		}
		out := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, d.dump(v.Index(i)))
		}
		return M{"a": out}
	case reflect.Map:
		if v.IsNil() {
			return M{"m": nil}
		}
		out := M{}
		for _, k := range v.MapKeys() {
			out[k.String()] = d.dump(v.MapIndex(k))
		}
		return M{"m": out}
	case reflect.Struct:
		return M{"o": v.Type().Name(), "x": d.fields(v)}
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		if l, ok := v.Interface().(*time.Location); ok {
			return M{"z": l.String()}
		}
		if v.Elem().Kind() == reflect.Struct && d.classes[v.Elem().Type().Name()] {
			a := fmt.Sprint(v.Pointer())
			if !d.seen[v.Pointer()] {
				d.seen[v.Pointer()] = true
				d.heap[a] = M{"o": v.Elem().Type().Name(), "x": d.fields(v.Elem())}
			}
			return M{"r": a}
		}
		return M{"p": d.dump(v.Elem())}
	}
	panic("unexpected kind " + v.Kind().String())
}

func (d *dumper) fields(v reflect.Value) M {
	out := M{}
	for i := 0; i < v.NumField(); i++ {
		out[v.Type().Field(i).Name] = d.dump(v.Field(i))
	}
	return out
}

func dump(p *Pkg, g interface{}) interface{} {
	d := &dumper{classes: p.Classes, heap: M{}, seen: map[uintptr]bool{}}
	top := d.fields(reflect.ValueOf(g).Elem())
	return M{"top": top, "heap": d.heap}
}

func text(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic("dump: " + err.Error())
	}
	return string(b)
}

func decode(b []byte) (v interface{}) {
	if err := json.Unmarshal(b, &v); err != nil {
		panic("harness: " + err.Error())
	}
	return
}

func run(q *Request, r *Result) {
	defer func() {
		if e := recover(); e != nil {
			r.Panic = fmt.Sprint(e)
		}
	}()
	switch q.K {
	case "t":
		t, err := time.Parse(q.Pattern, q.Text)
		r.Ok = err == nil
		r.T = when(t)
		return
	case "z":
		l, err := time.LoadLocation(q.Text)
		r.Ok = err == nil
		if r.Ok {
			r.T = l.String()
		}
		return
	case "r":
		r.Ok = regexp.MustCompile(q.Pattern).MatchString(q.Text)
		return
	}
	p := table[q.S]
	v := decode(q.Value)
	g := p.New()
	r.Errors = p.Parse(v, q.Ref, g, q.Cap)
	r.Changed = !reflect.DeepEqual(v, decode(q.Value))
	if len(r.Errors) > 0 {
		return
	}
	r.Dump = dump(p, g)
	before := text(r.Dump)
	out, err := p.Write(g)
	r.Altered = text(dump(p, g)) != before
	if err != nil {
		r.OutErr = "error: " + err.Error()
		return
	}
	b, err := json.Marshal(out)
	if err != nil {
		r.OutErr = "not JSONable: " + err.Error()
		return
	}
	r.Out = b
	g2 := p.New()
	r.Errors2 = p.Parse(decode(b), q.Ref, g2, 10)
	if len(r.Errors2) == 0 {
		r.Dump2 = dump(p, g2)
	}
	if q.Tamper != nil {
		reg := reflect.ValueOf(g).Elem().FieldByName(q.Tamper.Registry)
		x := reg.MapIndex(reflect.ValueOf(q.Tamper.ID))
		x.Elem().FieldByName("ID").SetString(q.Tamper.New)
		_, err := p.Write(g)
		r.Refused = err != nil
	}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	_ = sort.Strings
	dec := json.NewDecoder(in)
	for dec.More() {
		var q Request
		if err := dec.Decode(&q); err != nil {
			panic(err)
		}
		var r Result
		run(&q, &r)
		b, err := json.Marshal(r)
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteString("\n")
	}
}
'''

PART = r'''
package main

import s@I "pv/s@I"

func init() {
	table[@I] = &Pkg{
		Classes: map[string]bool{@CLASSES},
		New: func() interface{} { return &s@I.@GRAPH{} },
		Parse: func(v interface{}, ref string, g interface{}, cap uint64) []string {
			e := s@I.NewErrors(cap)
			s@I.@GRAPHFromJSONable(v, ref, g.(*s@I.@GRAPH), e)
			refs := []string{}
			for _, x := range e.Values() {
				refs = append(refs, x.Ref)
			}
			return refs
		},
		Write: func(g interface{}) (interface{}, error) {
			return s@I.@GRAPHToJSONable(g.(*s@I.@GRAPH))
		},
	}
}
'''


class Program:
    """Generated packages and the program that runs them."""

    def __init__(self, tests=True):
        self.dir = tempfile.mkdtemp(prefix='pv_go_')
        self.src = os.path.join(self.dir, 'src')
        os.makedirs(self.src)
        self.schemas = {}
        self.tests = tests
        self.bad = {}
        self.proc = None
        with open(os.path.join(self.src, 'go.mod'), 'w') as f:
            f.write('module pv\n\ngo 1.20\n')

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def add(self, m):
        """Generate the package of a schema; its index."""
        import mapry.naming as mn
        i = len(self.schemas)
        files = common.generate(m, 'go')
        d = os.path.join(self.src, 's{}'.format(i))
        os.makedirs(d)
        for name, text in files.items():
            if self.tests or not name.endswith('_test.go'):
                with open(os.path.join(d, name), 'w') as f:
                    f.write(text)
        self.schemas[i] = m
        part = PART.replace('@I', str(i)).replace(
            '@GRAPH', mn.ucamel_case(m['name'])).replace(
                '@CLASSES', ', '.join('"{}": true'.format(
                    mn.ucamel_case(c['name']))
                                      for c in m.get('classes', ())))
        with open(os.path.join(self.src, 'part{}.go'.format(i)), 'w') as f:
            f.write(part)
        return i

    def go(self, *args, timeout=600):
        env = dict(os.environ, GOCACHE=os.path.join(self.dir, 'cache'),
                   GOFLAGS='-mod=mod', GO111MODULE='on', GOPROXY='off',
                   GOPATH=os.path.join(self.dir, 'gopath'), GOWORK='off',
                   GOTOOLCHAIN='local', CGO_ENABLED='0',
                   GOTMPDIR=self.dir)
        p = subprocess.run(('go', ) + args, cwd=self.src, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')

    def build(self):
        """Compile; the packages that do not compile are left out.

        Gives {index: output of the compiler}.
        """
        with open(os.path.join(self.src, 'main.go'), 'w') as f:
            f.write(MAIN + '\nvar table = map[int]*Pkg{}\n')
        bad = {}
        while True:
            code, out = self.go('build', '-o', os.path.join(
                self.dir, 'prog'), '.')
            if code == 0:
                break
            new = self.culprits(out)
            if not new:
                raise RuntimeError('go build: ' + out[-3000:])
            bad.update(new)
            for i in new:
                os.unlink(os.path.join(self.src, 'part{}.go'.format(i)))
        self.bad = bad
        return bad

    def culprits(self, out):
        found = {}
        cur = None
        for line in out.splitlines():
            m = re.match(r'# pv/s(\d+)\b', line)
            if m:
                cur = int(m.group(1))
            elif line.startswith('#'):
                cur = None
            elif cur is None:
                # of the interface of a generated package
                m = re.match(r'\./part(\d+)\.go', line)
                m = m or re.match(r's(\d+)/', line)
                if m:
                    found[int(m.group(1))] = found.get(
                        int(m.group(1)), '') + line + '\n'
            if cur is not None:
                found[cur] = found.get(cur, '') + line + '\n'
        return found

    def vet(self):
        """Type-check the packages with their tests."""
        _, out = self.go('test', '-vet=off', '-count=1', '-run', 'XXX_none',
                         './...')
        return self.culprits(out), out

    def check(self):
        """Type-check the packages and their tests, without linking."""
        for n in os.listdir(self.src):
            if n.startswith('part'):
                os.unlink(os.path.join(self.src, n))
        _, out = self.go('vet', '-unusedresult', './...')
        return self.culprits(out), out

    def run(self, requests):
        """Answers to the requests."""
        text = '\n'.join(json.dumps(q) for q in requests) + '\n'
        p = subprocess.run([os.path.join(self.dir, 'prog')],
                           input=text.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=600)
        if p.returncode != 0:
            raise RuntimeError('the Go program died: ' +
                               p.stderr.decode()[-2000:])
        return [json.loads(x) for x in p.stdout.decode().splitlines()]


def denotation(con, answer, key='Dump'):
    """Canonical object graph of a dumped Go graph (see props.conform)."""
    import mapry.naming as mn
    import contracts.naming as nm
    top = answer[key]['top']
    heap = answer[key]['heap']
    regs = {}
    for n, c in con.classes.items():
        plural = c['plural'] if 'plural' in c else nm.plural(n)
        regs[n] = (top[mn.ucamel_case(plural)]['m'] or {})

    def val(t, x):
        k = t['type']
        if k == 'boolean':
            assert isinstance(x, bool), x
            return ('bool', x)
        if k == 'integer':
            return ('int', int(x['i']))
        if k == 'float':
            return ('float', float(x['f']))
        if k in ('string', 'path'):
            return ('str' if k == 'string' else 'path', x['s'])
        if k in ('date', 'time', 'datetime'):
            return (k, tuple(x['t']))
        if k == 'time_zone':
            return ('tz', x['z'])
        if k == 'duration':
            return ('duration', int(x['d']) * 1e-9)
        if k == 'array':
            return ('array', [val(t['values'], y) for y in x['a'] or ()])
        if k == 'map':
            return ('map', {i: val(t['values'], y)
                            for i, y in (x['m'] or {}).items()})
        if k in con.classes:
            inst = heap[x['r']]
            i = inst['x']['ID']['s']
            assert inst['o'] == mn.ucamel_case(k), inst['o']
            assert regs[k][i] == x, 'reference not in the registry'
            return ('ref', k, i)
        return ('embed', comp(con.embeds[k], x))

    def comp(c, x):
        assert x['o'] == mn.ucamel_case(c['name']), x['o']
        return props(c, x['x'])

    def props(c, x):
        out = {}
        for n, p in c.get('properties', {}).items():
            y = x[mn.ucamel_case(n)]
            if p.get('optional', False):
                if isinstance(y, dict) and 'p' in y:
                    y = y['p']
                elif y is None:
                    continue
                elif p['type'] not in list(con.classes) + ['time_zone']:
                    if p['type'] in ('array', 'map') and \
                            list(y.values()) == [None]:
                        continue
                    assert p['type'] in ('array', 'map'), 'not a pointer'
            assert y is not None, 'nil: ' + n
            out[n] = val(p, y)
        return out

    rr = {}
    for n, c in con.classes.items():
        rr[n] = {}
        for i, x in regs[n].items():
            inst = heap[x['r']]
            assert inst['x']['ID']['s'] == i, 'id'
            rr[n][i] = comp(c, inst)
    return ('graph', props(con.m, top), rr)
