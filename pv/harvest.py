"""Literals of the current source: they seed the bounded runs."""
import ast
import functools
import os

from pv.runner import REPO


@functools.lru_cache(None)
def literals(*paths):
    """(strings, numbers) that occur in the given files of /repo/mapry."""
    strs, nums = set(), set()
    for p in paths:
        full = os.path.join(REPO, p)
        files = []
        if os.path.isdir(full):
            for d, _, fs in os.walk(full):
                files += [os.path.join(d, f) for f in fs if f.endswith('.py')]
        elif os.path.exists(full):
            files = [full]
        for f in sorted(files):
            try:
                tree = ast.parse(open(f).read())
            except SyntaxError:
                continue
            docs = set()
            for n in ast.walk(tree):
                if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)):
                    b = n.body
                    if b and isinstance(b[0], ast.Expr) and \
                            isinstance(b[0].value, ast.Constant):
                        docs.add(id(b[0].value))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    v = n.value
                    if isinstance(v, str) and len(v) <= 60:
                        strs.add(v)
                    elif isinstance(v, (int, float)) and \
                            not isinstance(v, bool):
                        nums.add(v)
    return tuple(sorted(strs)), tuple(sorted(nums, key=repr))
