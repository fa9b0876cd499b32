"""C15: the command line writes the complete code or nothing at all."""
import contextlib
import copy
import hashlib
import io
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

from props import c01, c04, common, schemagen

RULE = ('bounded runs: the command on random schemas (valid, with errors, '
        'with clashing identifiers, without settings, no JSON), languages, '
        'states of the output directory and sequences of commands; generation '
        'in processes with different hash seeds; non-trivial = a distinct '
        '(schema, language, state)')
TRUSTED = ['z3', 'the contract engine pv/',
           'pathlib.Path.write_text writes the text or raises',
           'a generator returns a text that depends on its arguments or '
           'raises (the bounded part compares the bytes between processes)']
ASSUMPTIONS = ['the output directory can be written and has room',
               'the texts can be encoded in the encoding of the locale',
               'which errors are printed is checked by the bounded runs; the '
               'contracts decide the exit code and the files']
BOUNDED = ['mapry.main.run (arguments, reading the schema, exit code, '
           'reported errors)', 'contents independent of the hash seed']
EXPLANATION = ('generate_cpp, generate_go and generate_py are proved to '
               'return 1 and write nothing for a schema with errors or '
               'without settings, to write nothing if any generator fails, '
               'and otherwise to write exactly the documented files with the '
               'texts of the generators and to return 0, for every schema.')


def load_contracts():
    import contracts.main as e
    return [f.contract.target for f in vars(e).values()
            if hasattr(getattr(f, 'contract', None), 'target') and
            f.__module__ == 'contracts.main' and
            not hasattr(f.contract, 'generator')]


def snapshot(root):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, 'rb') as fid:
                out[os.path.relpath(p, root)] = fid.read()
    return out


def command(argv):
    """Run the command; (exit code, what it said on the error stream)."""
    import mapry.main
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ['mapry-to'] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                code = mapry.main.entry_point()
            except SystemExit as e:
                code = 0 if e.code is None else e.code
            except Exception as e:  # pylint: disable=broad-except
                # python prints the trace and exits with 1
                code = 1
                err.write('{}: {}'.format(type(e).__name__, e))
    finally:
        sys.argv = old
    return code, err.getvalue()


def clashes(m, lang):
    import contracts.naming as nm
    props = {}
    for c in [m] + list(m.get('classes', ())) + list(m.get('embeds', ())):
        props['' if c is m else c['name']] = list(c.get('properties', ()))
    plurals = {c['name']: c.get('plural', nm.plural(c['name']))
               for c in m.get('classes', ())}
    spec = c04.Spec(m['name'], [c['name'] for c in m.get('classes', ())],
                    [c['name'] for c in m.get('embeds', ())], props, plurals)
    return [r.replace('/properties/', '/') for r in c04.expected(spec, lang)]


def expected(text, lang):
    """(files or None, references that must be reported)."""
    try:
        m = json.loads(text, object_pairs_hook=c01.OD)
    except json.JSONDecodeError:
        return None, []
    structural, parts = c01.problems(m)
    if structural or parts:
        if structural:
            return None, []
        groups = {}
        for p in parts:
            groups.setdefault(c01.item(p), p)
        return None, [p[1:] for p in groups.values()]
    refs = clashes(m, lang)
    if refs:
        return None, [r[1:] for r in refs]
    if lang not in m:
        return None, []
    try:
        return common.generate(m, lang,
                               parsed=common.parse(m)), []
    except Exception:  # pylint: disable=broad-except
        return None, []


STATES = ['missing', 'nested', 'empty', 'stale', 'partial', 'same size',
          'file']


def prepare(root, state, lang, rng, files):
    out = os.path.join(root, 'out')
    if state == 'nested':
        out = os.path.join(out, 'a', 'b')
    elif state == 'file':
        with open(out, 'w') as fid:
            fid.write('a file')
    elif state != 'missing':
        os.mkdir(out)
        names = {'py': ['__init__.py', 'parse.py', 'fromjsonable.py'],
                 'go': ['types.go', 'to_jsonable.go', 'parse.go'],
                 'cpp': ['types.h', 'jsoncpp.cpp', 'parse.h']}[lang]
        if state == 'same size':
            # texts that differ from the new ones in a single character
            for n, t in (files or {}).items():
                i = rng.randrange(len(t))
                with open(os.path.join(out, n), 'w') as fid:
                    fid.write(t[:i] + ('y' if t[i] == 'x' else 'x') +
                              t[i + 1:])
        if state in ('stale', 'partial'):
            for n in names + ['other.txt']:
                if state == 'stale' or rng.random() < .5:
                    with open(os.path.join(out, n), 'w') as fid:
                        fid.write('old text of {}\n'.format(n) * 5000)
    return out


def check(run, text, lang, state):
    root = tempfile.mkdtemp(prefix='mapry-c15-')
    try:
        path = os.path.join(root, 'schema.json')
        with open(path, 'w') as fid:
            fid.write(text)
        files, refs = expected(text, lang)
        out = prepare(root, state, lang, run.rng, files)
        before = snapshot(root)
        if state == 'file':
            # no output directory: one error is enough
            files, refs = None, []

        def real():
            problems = []
            code, err = command([lang, '--schema', path, '--outdir', out])
            after = snapshot(root)
            want = dict(before)
            if files is not None:
                for n, t in files.items():
                    want[os.path.relpath(os.path.join(out, n), root)] = \
                        t.encode()
                if code != 0:
                    problems.append('exit code {}: {}'.format(code, err))
            else:
                if code == 0:
                    problems.append('exit code 0')
                if not err:
                    problems.append('nothing on the error stream')
                for r in refs:
                    if r not in err:
                        problems.append('not reported: #{}'.format(r))
            for n in sorted(set(want) | set(after)):
                if want.get(n) != after.get(n):
                    problems.append('file {}: {}'.format(
                        n, 'missing' if n not in after else
                        'unexpected' if n not in want else
                        'unexpected text'))
            return problems

        run.compare('mapry.main.run', (text, lang, state), real, lambda: [])
    finally:
        shutil.rmtree(os.path.abspath(root))


def history(run, texts):
    """Several commands into one directory."""
    root = tempfile.mkdtemp(prefix='mapry-c15-')
    try:
        out = os.path.join(root, 'out')
        steps = []
        want = {}
        for _ in range(5):
            text, lang = run.rng.choice(texts), run.rng.choice(
                ['cpp', 'go', 'py'])
            path = os.path.join(root, 's{}.json'.format(len(steps)))
            with open(path, 'w') as fid:
                fid.write(text)
            steps.append((lang, text))
            files, _ = expected(text, lang)
            if files is not None:
                want.update({k: v.encode() for k, v in files.items()})

            def real():
                code, _ = command([lang, '--schema', path, '--outdir', out])
                return (code == 0, snapshot(out) if os.path.isdir(out) else {})

            run.compare('mapry.main.run', tuple(steps), real,
                        lambda: (files is not None, dict(want)),
                        same=lambda a, b: a == b)
    finally:
        shutil.rmtree(os.path.abspath(root))


DRIVER = '''
import json, sys, hashlib, collections
sys.dont_write_bytecode = True
sys.path[:0] = [sys.argv[1], sys.argv[2]]
from props import common
for line in sys.stdin:
    m = json.loads(line, object_pairs_hook=collections.OrderedDict)
    out = []
    for lang in ('cpp', 'go', 'py'):
        try:
            files = common.generate(m, lang)
            out.append(hashlib.md5(json.dumps(
                files, sort_keys=True).encode()).hexdigest())
        except Exception as e:
            out.append(type(e).__name__)
    print(' '.join(out))
'''


def stability(run, schemas):
    """The same texts in every process, whatever the order of sets."""
    from pv.runner import REPO, VERIF
    lines = [json.dumps(m) for m in schemas]
    results = []
    for seed in ('0', '1', '7')[:run.budget(2, 3)]:
        env = dict(os.environ, PYTHONHASHSEED=seed,
                   PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run(
            [sys.executable, '-W', 'ignore', '-c', DRIVER, REPO, VERIF],
            input='\n'.join(lines), env=env, text=True, timeout=600,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise RuntimeError(p.stderr[-2000:])
        results.append(p.stdout.splitlines())
    for i, line in enumerate(lines):
        run.compare('generators in processes of different hash seeds', line,
                    lambda: [r[i] for r in results],
                    lambda: [results[0][i]] * len(results))


def bounded(run):
    rng = run.rng
    texts = []

    def some(valid=False):
        m = schemagen.Gen(rng, langs=rng.choice(
            [['cpp', 'go', 'py'], ['cpp', 'go', 'py'], ['py'], ['go'],
             ['cpp'], []])).schema()
        if not valid:
            act = rng.random()
            if act < .3:
                spots = list(schemagen.nodes(m))
                for _ in range(rng.randint(1, 3)):
                    c01.mutate(rng, m, spots)
            elif act < .5:
                comps = [m] + m.get('classes', []) + m.get('embeds', [])
                for _ in range(rng.randint(1, 3)):
                    c = rng.choice(comps)
                    ps = c.setdefault('properties', c01.OD())
                    ps[rng.choice(['class', 'range', 'for', 'int', 'Type',
                                   'None', 'ID', 'some_Prop', 'someProp',
                                   'async', 'Import'])] = c01.OD(
                        [('type', 'integer'), ('description', 'is.')])
        return json.dumps(m, indent=rng.choice([None, 2]))

    def crowded():
        """Many independent problems of one or several kinds."""
        m = schemagen.Gen(rng).schema()
        kind = rng.choice(['clash', 'structure', 'both'])
        comps = [m] + m.get('classes', []) + m.get('embeds', [])
        names = ['class', 'range', 'for', 'int', 'type', 'none', 'default',
                 'async', 'import', 'from', 'func', 'template', 'self',
                 'interface', 'namespace', 'lambda', 'select', 'operator']
        names += [a + b for a in ('some', 'Some', 'other', 'Other')
                  for b in ('_prop', '_Prop', 'Prop', '_id', '_ID')]
        if kind != 'structure':
            for c in comps:
                ps = c.setdefault('properties', c01.OD())
                for n in rng.sample(names, rng.randint(2, len(names))):
                    ps.setdefault(n, c01.OD([('type', 'integer'),
                                             ('description', 'is.')]))
        if kind != 'clash':
            spots = list(schemagen.nodes(m))
            for _ in range(rng.randint(4, 12)):
                c01.mutate(rng, m, spots)
        return json.dumps(m)

    for text in ('', '{', '[]', 'null', '{"name": "A"}', '{}\n\n', '{\n\n'):
        for lang in ('cpp', 'go', 'py'):
            check(run, text, lang, 'missing')
            check(run, text, lang, 'stale')
    for _ in range(run.budget(260, 4000)):
        text = some()
        check(run, text, rng.choice(['cpp', 'go', 'py']), rng.choice(STATES))
    for _ in range(run.budget(15, 200)):
        history(run, [some(rng.random() < .5) for _ in range(4)])
    # several independent problems at once must all be reported
    for _ in range(run.budget(60, 800)):
        check(run, crowded(), rng.choice(['cpp', 'go', 'py']),
              rng.choice(['missing', 'stale']))
    stability(run, [schemagen.Gen(rng).schema()
                    for _ in range(run.budget(80, 600))])
