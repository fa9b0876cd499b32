"""Run one check: bounded replay of the real code, proofs, evidence, verdict."""
import argparse
import concurrent.futures
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import re
import signal
import sys
import time
import traceback
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')
# seconds for all the proofs of a property
BUDGET = 300


class Timeout(Exception):
    pass


def with_alarm(seconds, f, *args):
    def on(_s, _f):
        raise Timeout('no result within {}s'.format(seconds))
    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f(*args)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Outcome:
    """What a call did: returned a value or raised."""

    def __init__(self, kind, val):
        self.kind = kind
        self.val = val

    def __repr__(self):
        if self.kind == 'raise':
            return 'raises {}: {}'.format(type(self.val).__name__,
                                          str(self.val)[:300])
        return 'returns {!r}'.format(self.val)


def outcome(f, *args, **kwargs):
    try:
        return Outcome('return', f(*args, **kwargs))
    except Timeout as e:
        return Outcome('raise', e)
    except RecursionError as e:
        return Outcome('raise', e)
    except Exception as e:  # pylint: disable=broad-except
        return Outcome('raise', e)


class Failure:
    def __init__(self, key, inp, expected, got, obligation):
        self.key = key
        self.inp = inp
        self.expected = expected
        self.got = got
        self.obligation = obligation


class Run:
    """Bookkeeping of a bounded run."""

    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.rng = random.Random('{}/{}'.format(pid, seed))
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.failures = []
        self.bounded = {}
        self.incomplete = []
        self.notes = []
        self.t0 = time.time()
        self.per_fun = {}
        self.thorough = tier == 'thorough'

    def budget(self, quick, thorough):
        return thorough if self.thorough else quick

    def fail(self, key, inp, expected, got, obligation=''):
        if len(self.failures) < 400 or all(
                f.key != key for f in self.failures):
            self.failures.append(Failure(key, inp, expected, got, obligation))

    def count(self, fun, inp, nontrivial=True):
        self.evaluations += 1
        self.per_fun[fun] = self.per_fun.get(fun, 0) + 1
        if nontrivial:
            h = hashlib.md5((fun + repr(inp)).encode(
                'utf-8', 'surrogatepass')).digest()
            if h not in self.seen:
                self.seen.add(h)
                if self.per_fun[fun] in (3, 40) and len(self.samples) < 12:
                    self.samples.append({'function': fun,
                                         'input': short(inp)})

    def compare(self, fun, inp, real, spec, key=None, same=None,
                seconds=20):
        """Run the real code and the specification on one input."""
        self.count(fun, inp)
        g = with_alarm(seconds, outcome, real)
        e = outcome(spec)
        ok = agree(e, g, same)
        if not ok and g.kind == 'raise' and harness_mismatch(g.val):
            text = '{}: {}'.format(fun, g)
            if text not in self.incomplete:
                self.incomplete.append(text)
            return True
        if not ok:
            self.fail(key or fun, '{}({})'.format(fun, show_inp(inp)),
                      repr(e), repr(g), fun)
        return ok


def agree(e, g, same=None):
    if e.kind != g.kind:
        return False
    if e.kind == 'raise':
        return isinstance(g.val, type(e.val)) or type(e.val) is Exception
    return (same or strict_eq)(e.val, g.val)


def strict_eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(strict_eq, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(strict_eq(a[k], b[k]) for k in a)
    return a == b


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def show_inp(inp):
    if isinstance(inp, dict):
        return ', '.join('{}={!r}'.format(k, v) for k, v in inp.items())
    return repr(inp)


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == pid:
                    out.append(d)
    return out


# ------------------------------------------------------------------- proofs
def z3_text(v):
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})',
                  lambda m: chr(int(m.group(1) or m.group(2), 16)),
                  v.as_string())


def replay(ct, model):
    """Run the counterexample of the verifier on the real code."""
    import z3
    from pv.engine import S as StrSort
    if model is None or not ct.params or ct.target.startswith('lemma:'):
        return None
    kwargs = {}
    try:
        for name, ty in ct.params.items():
            n = 'arg_' + name
            if ty == 'str':
                kwargs[name] = z3_text(model.eval(
                    z3.Const(n, StrSort), model_completion=True))
            elif ty == 'int':
                kwargs[name] = model.eval(
                    z3.Int(n), model_completion=True).as_long()
            elif ty == 'bool':
                kwargs[name] = z3.is_true(model.eval(
                    z3.Bool(n), model_completion=True))
            else:
                return None
        g = with_alarm(10, outcome, ct.resolve(), *kwargs.values())
        e = outcome(ct.spec, *kwargs.values())
    except Exception:  # pylint: disable=broad-except
        return None
    if agree(e, g):
        return None
    return dict(inp='{}({})'.format(ct.target, show_inp(kwargs)),
                expected=repr(e), got=repr(g))


def prove_one(job):
    """Discharge one contract in its own process."""
    pid, target, limit, timeout_ms, inline = job
    t0 = time.time()
    try:
        import pv.contract as C
        prop = importlib.import_module('props.' + pid.lower())
        prop.load_contracts()
        full = target
        case = None
        if '#' in target:
            target, case = target.split('#')
            case = int(case)
        ct = C.M.CONTRACTS[target]
        signal.alarm(int(limit * 2.5) + 20)
        o = C.verify(ct, inline=inline, time_limit=limit,
                     timeout_ms=timeout_ms, case=case)
        first = o.status
        if o.status in ('refuted', 'undecided'):
            o2 = C.verify(ct, inline=set(C.M.CONTRACTS),
                          time_limit=limit, timeout_ms=timeout_ms, case=case)
            if o2.status == 'proved' or first == 'undecided' and \
                    o2.status == 'refuted':
                o = o2
        cex = None
        if o.status == 'refuted':
            cex = replay(ct, o.model)
        return dict(target=full, status=o.status, detail=o.detail[:4000],
                    cex=cex, paths=o.paths, obls=o.obls, secs=time.time() - t0,
                    model=str(o.model)[:3000] if o.model is not None else '',
                    queries=C.STATS.queries if hasattr(C.STATS, 'queries')
                    else 0)
    except BaseException as e:  # pylint: disable=broad-except
        return dict(target=target, status='undecided',
                    detail='engine: {}: {} {}'.format(
                        type(e).__name__, e,
                        traceback.format_exc()[-600:]),
                    paths=0, obls=0, secs=time.time() - t0, model='',
                    queries=0)


def private(target):
    """Is the function a helper that its module keeps for itself?"""
    name = target.split(':')[-1].split('.')[-1]
    return name.startswith('_') and not name.startswith('__')


def prove_all(pid, targets, limit, timeout_ms):
    """Discharge the contracts.

    A private helper may be changed together with its callers: if its own
    contract is refuted without a failing input, everything else is checked
    again with its body in place of its contract.
    """
    res = prove(pid, targets, limit, timeout_ms)
    helpers = {p['target'] for p in res if p['status'] == 'refuted' and
               private(p['target']) and not p.get('cex')}
    if helpers:
        rest = [t for t in targets if t not in helpers]
        again = prove(pid, rest, limit, timeout_ms, sorted(helpers), .4)
        if again and all(p['status'] in ('proved', 'absent') for p in again) \
                and any(p['status'] == 'proved' for p in again):
            for p in res:
                if p['target'] in helpers:
                    p['status'] = 'undecided'
                    p['detail'] = 'the helper does not satisfy its ' \
                        'contract any more; all the other contracts hold ' \
                        'with its body: ' + p['detail']
                    again.append(p)
            return again
    return res


def stop(ex, futs):
    for g in futs:
        g.cancel()
    for p in list((ex._processes or {}).values()):
        p.kill()


def prove(pid, targets, limit, timeout_ms, inline=(), part=1.):
    import pv.contract as C
    jobs = []
    for t in targets:
        n = len(getattr(C.M.CONTRACTS.get(t), 'split', ()))
        jobs.extend([(pid, '{}#{}'.format(t, k), limit, timeout_ms, inline)
                     for k in range(2 ** n)] if n else
                    [(pid, t, limit, timeout_ms, inline)])
    res = []
    ctx = multiprocessing.get_context('fork')
    with concurrent.futures.ProcessPoolExecutor(
            max_workers=min(8, max(1, len(jobs))), mp_context=ctx) as ex:
        futs = {ex.submit(prove_one, j): j for j in jobs}
        end = time.time() + BUDGET * part
        for f, j in futs.items():
            try:
                res.append(f.result(timeout=max(0, end - time.time())))
            except concurrent.futures.TimeoutError:
                # a solver that does not come back
                stop(ex, futs)
                res.append(dict(target=j[1], status='undecided',
                                detail='not decided in time', paths=0,
                                obls=0, secs=BUDGET, model='', queries=0))
            except Exception as e:  # killed worker
                res.append(dict(target=j[1], status='undecided',
                                detail='worker: {}'.format(e), paths=0,
                                obls=0, secs=0.0, model='', queries=0))
    return merge_cases(res)


def merge_cases(res):
    """One result for the cases of a contract."""
    out = []
    whole = {}
    order = ['refuted', 'undecided', 'absent', 'proved']
    for p in res:
        if '#' not in p['target']:
            out.append(p)
            continue
        name = p['target'].split('#')[0]
        if name not in whole:
            whole[name] = dict(p, target=name)
            out.append(whole[name])
            continue
        w = whole[name]
        if order.index(p['status']) < order.index(w['status']):
            for k in ('status', 'detail', 'cex', 'model'):
                w[k] = p.get(k)
        for k in ('obls', 'paths', 'secs', 'queries'):
            w[k] += p[k]
    return out


# --------------------------------------------------------------------- main
def in_real_code(frames):
    """Does the last harness function of a trace call into the code under
    test?"""
    last = max([i for i, f in enumerate(frames) if os.path.realpath(
        f.filename).startswith(VERIF + os.sep)], default=-1)
    return any(f.filename.startswith('<') or os.path.realpath(
        f.filename).startswith(os.path.realpath(REPO) + os.sep)
        for f in frames[last + 1:])


def harness_mismatch(e):
    """Does the harness use a function that is not there (any more)?"""
    if isinstance(e, AttributeError):
        odd = isinstance(getattr(e, 'obj', None), types.ModuleType)
    elif isinstance(e, TypeError):
        odd = 'argument' in str(e)
    else:
        odd = isinstance(e, ImportError)
    return odd and not in_real_code(traceback.extract_tb(e.__traceback__))


def guarded(run, what, f, *args):
    """A crash of the code under test is a failure, one of the harness is
    not (the run is then incomplete, which is reported)."""
    try:
        return f(*args)
    except Exception as e:  # pylint: disable=broad-except
        trace = traceback.format_exc()
        print(trace[-3000:])
        frames = traceback.extract_tb(e.__traceback__)
        if isinstance(e, Timeout) or in_real_code(frames):
            run.fail(what + ': crash', trace[-1500:], 'no exception',
                     '{}: {}'.format(type(e).__name__, e), what)
        else:
            run.incomplete.append('{}: {}: {}'.format(
                what, type(e).__name__, e))
            run.notes.append('incomplete: ' + run.incomplete[-1])
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-bounded', action='store_true')
    ap.add_argument('--only', default='')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    pid = a.pid
    t0 = time.time()
    sys.setrecursionlimit(6000)
    prop = importlib.import_module('props.' + pid.lower())
    run = Run(pid, a.tier, seed)

    # 1. deductive part
    proofs = []
    targets = []
    if hasattr(prop, 'load_contracts') and not a.no_proof:
        targets = [t for t in prop.load_contracts()
                   if not a.only or a.only in t]
        globals()['BUDGET'] = run.budget(270, 3000)
        proofs = prove_all(pid, targets, run.budget(150, 400),
                       run.budget(4000, 12000))
    for p in proofs:
        print('{:10s} {} [{} obligations, {} paths, {:.1f}s] {}'.format(
            p['status'], p['target'], p['obls'], p['paths'], p['secs'],
            p['detail'][:300] if p['status'] != 'proved' else ''))

    for p in proofs:
        if p.get('cex'):
            c = p['cex']
            run.fail(p['target'], c['inp'], c['expected'], c['got'],
                     p['target'])

    # 2. bounded part: the real code against the same specification
    if not a.no_bounded:
        guarded(run, 'bounded runs', prop.bounded, run)

    # 3. extra proof results a property computes itself
    extra = getattr(prop, 'extra_proofs', None)
    if extra is not None and not a.no_proof:
        more = guarded(run, 'further proofs', extra, run) or []
        for p in more:
            print('{:10s} {} [{} obligations] {}'.format(
                p['status'], p['target'], p['obls'],
                p['detail'][:300] if p['status'] != 'proved' else ''))
        proofs += more

    return verdict(run, prop, proofs, t0, a)


def verdict(run, prop, proofs, t0, a):
    pid = run.pid
    known = load_known(pid)
    findings = [k for k in known if k.get('kind') == 'finding']
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    printed = set()
    new = []
    for f in run.failures:
        hit = None
        for k in findings:
            if re.search(k['match'], f.key + ' :: ' + f.inp):
                hit = k
                break
        if hit is not None:
            if hit['id'] not in printed:
                printed.add(hit['id'])
                print('KNOWN-FINDING: property={} {}'.format(
                    pid, hit['what']))
        else:
            new.append(f)
    n = 0
    for i, f in enumerate(new[:5]):
        path = os.path.join(rdir, '{}_{}.json'.format(pid, i))
        with open(path, 'w') as fid:
            json.dump(dict(property=pid, obligation=f.obligation, key=f.key,
                           input=f.inp, expected=f.expected, got=f.got,
                           repo=REPO), fid, indent=1)
        print('--- {}\n    input    {}\n    expected {}\n    got      {}'.format(
            f.key, short(f.inp, 1500), short(f.expected, 1500),
            short(f.got, 1500)))
        lines.append('VIOLATION property={} replay={}'.format(pid, path))
        n += 1
    refuted = [p for p in proofs if p['status'] == 'refuted']
    known_obl = {t for k in findings for t in k.get('obligations', ())}
    if not new:
        for i, p in enumerate(refuted):
            if p['target'] in known_obl:
                continue
            path = os.path.join(rdir, '{}_obligation_{}.json'.format(pid, i))
            with open(path, 'w') as fid:
                json.dump(dict(property=pid, obligation=p['target'],
                               verifier='z3', output=p['detail'],
                               model=p['model']), fid, indent=1)
            lines.append('VIOLATION property={} replay={} '
                         'no-failing-input-found'.format(pid, path))
    obls = sum(max(1, p['obls']) for p in proofs)
    disch = sum(max(1, p['obls']) for p in proofs if p['status'] == 'proved')
    cov = dict(
        evaluations=run.evaluations,
        distinct_nontrivial=len(run.seen),
        rule=getattr(prop, 'RULE', ''),
        samples=run.samples or [{'contract': p['target']} for p in proofs[:3]],
        obligations=obls, discharged=disch,
        checker_cmd='/opt/venv/bin/python {}/check.py {} --tier {}'.format(
            VERIF, pid, run.tier),
        trusted_base=getattr(prop, 'TRUSTED', []),
        functions_under_contract=[
            dict(function=p['target'], status=p['status'],
                 obligations=p['obls'], paths=p['paths'],
                 solver_s=round(p['secs'], 2), back_end='z3',
                 detail='' if p['status'] == 'proved' else p['detail'][:500])
            for p in proofs],
        bounded_functions=run.per_fun,
        bounded_not_proved=getattr(prop, 'BOUNDED', []),
        notes=run.notes,
        explanation=getattr(prop, 'EXPLANATION', ''))
    level = getattr(prop, 'LEVEL', 'proof')
    ev = dict(property=pid, tier=run.tier, seed=run.seed, level=level,
              coverage=cov, assumptions=getattr(prop, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(new) + (
                  len([p for p in refuted if p['target'] not in known_obl])))
    for x in run.incomplete:
        print('INCOMPLETE ' + x)
    if run.evaluations == 0 and not any(
            p['status'] in ('proved', 'refuted') for p in proofs):
        print('nothing was checked')
        lines.append('VIOLATION property={} replay={} '
                     'no-failing-input-found'.format(pid, rdir))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fid:
        json.dump(ev, fid, indent=1)
    print('{}: {} obligations, {} discharged; {} bounded evaluations, '
          '{} failures ({} known); {:.1f}s'.format(
              pid, obls, disch, run.evaluations, len(run.failures),
              len(run.failures) - len(new), time.time() - t0))
    for x in lines:
        print(x)
    sys.stdout.flush()
    return 1 if lines else 0
