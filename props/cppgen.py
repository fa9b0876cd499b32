"""Compiles generated C++ code."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile

from props import common

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def include_dirs():
    from pv.runner import REPO
    deps = os.path.join(REPO, 'test_dependencies', 'cpp')
    return [os.path.join(VERIF, 'shim'), os.path.join(deps, 'optional',
                                                      'include'),
            os.path.join(deps, 'date-2.4.1', 'include')]


def flags():
    out = ['-std=c++17', '-w']
    for d in include_dirs():
        out += ['-isystem', d]
    return out


def cxx(*args, cwd=None, timeout=300):
    """Exit code and output of the compiler."""
    p = subprocess.run(['g++'] + flags() + list(args), cwd=cwd,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, env=dict(os.environ, LC_ALL='C'))
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def first_error(out):
    for line in out.splitlines():
        if 'error:' in line:
            return line
    return out[-400:]


class Tree:
    """The generated files of a schema in a scratch directory."""

    def __init__(self, m):
        self.m = m
        self.dir = tempfile.mkdtemp(prefix='pv_cpp_')
        self.files = common.generate(m, 'cpp')
        for name, text in self.files.items():
            self.write(name, text)

    def write(self, name, text):
        with open(os.path.join(self.dir, name), 'w',
                  encoding='utf-8', errors='surrogateescape') as f:
            f.write(text)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


GLUE = r'''
#include "jsoncpp.h"
#include "jsoncpp.cpp"
#include "parse.cpp"

namespace pv {

@DUMPS

struct Graph@I : Graph {
  @NS::@GRAPH g;

  std::vector<std::string> parse(const Json::Value& v, const std::string& ref,
                                 size_t cap) override {
    @NS::parse::Errors errors(cap);
    @NS::jsoncpp::@VAR_from(v, ref, &g, &errors);
    std::vector<std::string> out;
    for (const auto& e : errors.get()) {
      out.push_back(e.ref);
    }
    return out;
  }
  Json::Value write() const override {
    return @NS::jsoncpp::serialize_@VAR(g);
  }
  Json::Value dump() const override {
    Json::Value o(Json::objectValue);
    o["top"] = Dump<@NS::@GRAPH>::of(g);
    Json::Value& r = o["regs"] = Json::Value(Json::objectValue);
@REGS
    return o;
  }
  void tamper(const std::string& cls, const std::string& id,
              const std::string& renamed) override {
@TAMPER
  }
};

static Register register@I(
    @I, []() { return std::unique_ptr<Graph>(new Graph@I()); });

}  // namespace pv
'''


def glue(m, i, ns):
    """What runs the code of a schema in the harness."""
    import contracts.naming as nm
    up = nm.cpp_as_composite
    dumps = []
    comps = list(m.get('classes', ())) + list(m.get('embeds', ())) + [m]
    for c in comps:
        dumps.append('template <>\nstruct Dump<{0}::{1}> {{\n'
                     '  static Json::Value of(const {0}::{1}& x);\n}};'.format(
                         ns, up(c['name'])))
    for c in comps:
        lines = ''.join('  o[{}] = pv::dump(x.{});\n'.format(
            json.dumps(n), nm.cpp_as_field(n))
            for n in c.get('properties', {}))
        dumps.append('Json::Value Dump<{0}::{1}>::of(const {0}::{1}& x) {{\n'
                     '  Json::Value o(Json::objectValue);\n{2}'
                     '  return o;\n}}'.format(ns, up(c['name']), lines))
    regs, tamper = [], []
    for c in m.get('classes', ()):
        plural = c['plural'] if 'plural' in c else nm.plural(c['name'])
        f = nm.cpp_as_field(plural)
        regs.append('    r["{}"] = dump_registry(g.{});'.format(c['name'], f))
        tamper.append('    if (cls == "{}") {{\n'
                      '      g.{}.at(id)->id = renamed;\n    }}'.format(
                          c['name'], f))
    text = GLUE
    for k, v in [('@DUMPS', '\n\n'.join(dumps)), ('@REGS', '\n'.join(regs)),
                 ('@TAMPER', '\n'.join(tamper)), ('@NS', '::' + ns),
                 ('@GRAPH', up(m['name'])),
                 ('@VAR', nm.cpp_as_variable(m['name'])), ('@I', str(i))]:
        text = text.replace(k, v)
    return text


class Program:
    """Generated code of many schemas and the program that runs it."""

    def __init__(self, init='zero'):
        from pv.runner import REPO
        self.repo = REPO
        self.dir = tempfile.mkdtemp(prefix='pv_cpp_')
        self.flags = ['-D_GLIBCXX_ASSERTIONS']
        if init:
            self.flags.append('-ftrivial-auto-var-init=' + init)
        self.schemas = {}
        self.bad = {}
        harness = os.path.join(VERIF, 'shim', 'harness')
        for n in os.listdir(harness):
            shutil.copy(os.path.join(harness, n), self.dir)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def add(self, m):
        """Generate the code of a schema; its index."""
        i = len(self.schemas)
        m2 = dict(m)
        ns = 's{}::{}'.format(i, m['cpp']['namespace'])
        m2['cpp'] = dict(m['cpp'], namespace=ns)
        files = common.generate(m2, 'cpp')
        d = os.path.join(self.dir, 's{}'.format(i))
        os.makedirs(d)
        files['glue.cpp'] = glue(m, i, ns)
        for name, text in files.items():
            with open(os.path.join(d, name), 'w', encoding='utf-8',
                      errors='surrogateescape') as f:
                f.write(text)
        self.schemas[i] = m
        return i

    def cxx(self, *args, cwd=None):
        return cxx(*(self.flags + list(args)), cwd=cwd or self.dir)

    def compile(self, i):
        return self.cxx('-include', os.path.join(self.dir, 'pv.h'), '-c',
                        'glue.cpp', '-o',
                        os.path.join(self.dir, 's{}.o'.format(i)),
                        cwd=os.path.join(self.dir, 's{}'.format(i)))

    def build(self):
        """Compile; what does not compile is left out.

        Gives {index: output of the compiler}.
        """
        tz = os.path.join(self.repo, 'test_dependencies', 'cpp',
                          'date-2.4.1', 'src', 'tz.cpp')
        code, out = self.cxx('-x', 'c++-header', 'pv.h', '-o', 'pv.h.gch')
        if code:
            raise RuntimeError('g++: ' + out[-2000:])
        bad = {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            base = [ex.submit(self.cxx, '-c', 'main.cpp', '-o', 'main.o'),
                    ex.submit(self.cxx, '-DUSE_OS_TZDB=1',
                              '-DHAS_REMOTE_API=0', '-c', tz, '-o', 'tz.o')]
            for i, (code, out) in zip(self.schemas, ex.map(
                    self.compile, list(self.schemas))):
                if code:
                    bad[i] = first_error(out)
            for b in base:
                code, out = b.result()
                if code:
                    raise RuntimeError('g++: ' + out[-2000:])
        objs = ['s{}.o'.format(i) for i in self.schemas if i not in bad]
        code, out = self.cxx('-o', 'prog', 'main.o', 'tz.o', *objs,
                             '-lboost_filesystem', '-lpthread')
        if code:
            raise RuntimeError('g++: ' + out[-2000:])
        self.bad = bad
        return bad

    def chunk(self, requests):
        out = []
        while len(out) < len(requests):
            text = '\n'.join(json.dumps(q) for q in requests[len(out):])
            p = subprocess.run([os.path.join(self.dir, 'prog')],
                               input=text.encode() + b'\n',
                               stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=800,
                               env=dict(os.environ, TZ='UTC', LC_ALL='C'))
            done = [json.loads(x)
                    for x in p.stdout.decode('utf-8', 'replace').split('\n')
                    if x.endswith('}')]
            out += done
            if len(out) < len(requests):
                if p.returncode == 3:
                    raise RuntimeError(p.stderr.decode()[-500:])
                # this one ended the process
                out.append(dict(
                    Panic='the process ended with {}: {}'.format(
                        p.returncode, p.stderr.decode(
                            'utf-8', 'replace')[-300:]),
                    Ok=False, Errors=[], Changed=False, OutErr=''))
        return out

    def run(self, requests):
        """Answers to the requests."""
        n = max(1, -(-len(requests) // 16))
        parts = [requests[i:i + n] for i in range(0, len(requests), n)]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return [a for x in ex.map(self.chunk, parts) for a in x]

    def valgrind(self, requests):
        """Where each request depends on uninitialised memory, or None."""
        def one(q):
            p = subprocess.run(
                ['valgrind', '-q', '--error-exitcode=9', '--main-stacksize='
                 '33554432', './prog'], cwd=self.dir,
                input=json.dumps(q).encode() + b'\n', stdout=subprocess.PIPE,
                stderr=subprocess.PIPE, timeout=300,
                env=dict(os.environ, TZ='UTC', LC_ALL='C'))
            out = p.stderr.decode('utf-8', 'replace')
            if p.returncode == 9:
                return out[:3000]
            if p.returncode:
                raise RuntimeError('valgrind: ' + out[-1000:])
            return None
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, requests))
