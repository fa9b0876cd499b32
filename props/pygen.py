"""Runs generated Python code."""
import collections
import sys
import types

from props import common


class Package:
    """The modules generated for a schema, loaded without touching disk."""

    def __init__(self, m, parsed=None):
        self.m = m
        self.files = common.generate(m, 'py', parsed=parsed)
        base = m['py']['module_name']
        self.base = base
        parts = base.split('.')
        self.mods = {}
        prev = None
        for i in range(1, len(parts) + 1):
            name = '.'.join(parts[:i])
            mod = types.ModuleType(name)
            mod.__path__ = []
            self.mods[name] = mod
            if prev is not None:
                setattr(prev, parts[i - 1], mod)
            prev = mod
        self.top = prev
        old = {k: sys.modules.get(k) for k in list(sys.modules)
               if k == parts[0] or k.startswith(parts[0] + '.')}
        for k in old:
            del sys.modules[k]
        try:
            sys.modules.update(self.mods)
            self.exec(self.top, '__init__.py')
            for n in ('parse', 'fromjsonable', 'tojsonable'):
                mod = types.ModuleType(base + '.' + n)
                sys.modules[base + '.' + n] = mod
                self.mods[base + '.' + n] = mod
                self.exec(mod, n + '.py')
                setattr(self.top, n, mod)
                setattr(self, n, mod)
        finally:
            for k in list(sys.modules):
                if k == parts[0] or k.startswith(parts[0] + '.'):
                    del sys.modules[k]
            sys.modules.update({k: v for k, v in old.items()
                                if v is not None})

    def exec(self, mod, name):
        code = compile(self.files[name], '<generated {}>'.format(name),
                       'exec', dont_inherit=True)
        exec(code, mod.__dict__)  # pylint: disable=exec-used


def load(run, m):
    """The package generated for a valid schema, or None (a failure)."""
    import json
    box = []

    def real():
        box.append(Package(m))

    run.compare('generation and import of Python code', json.dumps(m), real,
                lambda: None)
    return box[0] if box else None


def denotation(con, pkg, graph, exact=False):
    """Canonical object graph of a parsed graph (see props.conform).

    If exact, dates, times and durations are taken over as they are.
    """
    import mapry.py.naming as pn
    m = con.m
    import contracts.naming as nm

    def attr(x, name):
        return getattr(x, pn.as_attribute(name))

    regs = {}
    for n, c in con.classes.items():
        plural = c['plural'] if 'plural' in c else nm.plural(n)
        regs[n] = attr(graph, plural)

    def val(t, x):
        k = t['type']
        if exact and k in ('date', 'time', 'datetime', 'duration'):
            return ('exact', x)
        if k == 'boolean':
            return ('bool', x)
        if k == 'integer':
            return ('int', x)
        if k == 'float':
            return ('float', x)
        if k == 'string':
            return ('str', x)
        if k == 'path':
            if m['py']['path_as'] == 'pathlib.Path':
                import pathlib
                assert isinstance(x, pathlib.Path), x
                return ('path', str(x))
            return ('path', x)
        if k == 'date':
            import datetime
            assert type(x) is datetime.date, x
            return ('date', x.year, x.month, x.day)
        if k == 'time':
            return ('time', x.hour, x.minute, x.second)
        if k == 'datetime':
            return ('datetime', x.year, x.month, x.day, x.hour, x.minute,
                    x.second)
        if k == 'time_zone':
            if m['py']['timezone_as'] != 'str':
                assert hasattr(x, 'utcoffset'), x
                return ('tz', str(x))
            return ('tz', x)
        if k == 'duration':
            return ('duration', x.days * 86400.0 + x.seconds +
                    x.microseconds * 1e-6)
        if k == 'array':
            assert type(x) is list, x
            return ('array', [val(t['values'], y) for y in x])
        if k == 'map':
            assert isinstance(x, dict), x
            return ('map', {i: val(t['values'], y) for i, y in x.items()})
        if k in con.classes:
            reg = regs[k]
            assert reg[x.id] is x, 'reference not in the registry'
            return ('ref', k, x.id)
        return ('embed', comp(con.embeds[k], x))

    def comp(c, x):
        assert type(x).__name__ == pn.as_composite(c['name']), type(x)
        out = {}
        for n, p in c.get('properties', {}).items():
            y = attr(x, n)
            if y is None:
                assert p.get('optional', False), 'None: ' + n
            else:
                out[n] = val(p, y)
        return out

    out = comp(m, graph)
    rr = {}
    for n, c in con.classes.items():
        rr[n] = {}
        for i, x in regs[n].items():
            assert x.id == i, 'id'
            rr[n][i] = comp(c, x)
    return ('graph', out, rr)
