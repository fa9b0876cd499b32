"""Proofs about the code that is generated for many schemas."""
import concurrent.futures
import json
import multiprocessing
import time
import traceback

from props import common

# seconds for a function
LIMIT = 150


def cover(lang):
    """Schemas that use every type in every position."""
    t, p = common.typ, common.prop
    kinds = [
        [t('boolean'), t('integer'), t('float'), t('string'), t('path')],
        [t('integer', minimum=-3, exclusive_minimum=True, maximum=7),
         t('integer', minimum=0, maximum=5, exclusive_maximum=True),
         t('float', minimum=0.5, exclusive_minimum=True, maximum=2.25,
           exclusive_maximum=True),
         t('float', minimum=-1, maximum=0),
         t('string', pattern='^a.*b$'), t('path', pattern='^(/[a-z]+)+$')],
        [t('date'), t('date', format='%d.%m.%Y'), t('time'),
         t('time', format='%H h'), t('datetime'),
         t('datetime', format='%d/%m/%Y %H:%M')],
        [t('duration'), t('time_zone'), t('duration')],
        [t('Person'), t('Some_URL_thing'), t('Foo'), t('Bar')],
        [t('integer', minimum=-2**63, maximum=2**63 - 1),
         t('integer', minimum=-2**70, exclusive_minimum=True,
           maximum=2**63, exclusive_maximum=True),
         t('float', minimum=-2**70, maximum=2**70),
         t('array', values=t('boolean'), maximum_size=2**70)],
    ]
    out = []
    for i, types in enumerate(kinds):
        for style in range(3 if i < 5 else 1):
            props = []
            for k, x in enumerate(types):
                if style == 0:
                    props.append(('req_{}'.format(k), p(x)))
                    props.append(('opt_{}'.format(k), p(x, optional=True)))
                elif style == 1:
                    size = [{}, {'minimum_size': 1},
                            {'maximum_size': 3},
                            {'minimum_size': 2, 'maximum_size': 2}][k % 4]
                    props.append(('arr_{}'.format(k), p(
                        t('array', values=x, **size), optional=k % 2 == 1)))
                    props.append(('map_{}'.format(k), p(
                        t('map', values=x), optional=k % 2 == 0)))
                else:
                    props.append(('deep_{}'.format(k), p(t(
                        'array', values=t('map', values=t(
                            'array', values=x, maximum_size=2))))))
                    props.append(('wide_{}'.format(k), p(t(
                        'map', values=t('map', values=x)),
                        json='wide-{}'.format(k))))
            cl = [common.cls('Person', props[:3], id_pattern='^[a-z]+$'),
                  common.cls('Some_URL_thing', props[1:2] + props[3:],
                             plural='Some_things')]
            em = [common.cls('Foo', [x for x in props
                                     if 'Foo' not in json.dumps(x[1])] +
                             [('inner', p(t('Bar')))]),
                  common.cls('Bar', [('x', p(t('Person'), optional=True))])]
            m = common.graph(props + [('last', p(t('Foo'), optional=True))],
                             classes=cl, embeds=em, cpp=lang == 'cpp',
                             go=lang == 'go', py=lang == 'py')
            if lang == 'py':
                if (i + style) % 2:
                    m['py']['path_as'] = 'pathlib.Path'
                    m['py']['timezone_as'] = 'pytz.timezone'
                if style == 2:
                    m['py']['indention'] = '  '
            out.append(m)
    out.append(common.graph([], cpp=lang == 'cpp', go=lang == 'go',
                            py=lang == 'py'))
    return out


def work(job):
    checker, m, limit = job
    t0 = time.time()
    try:
        return checker(m, limit)
    except Exception as e:  # pylint: disable=broad-except
        return [('generation', 'undecided', '{}: {} {}'.format(
            type(e).__name__, e, traceback.format_exc()[-500:]), 0,
            time.time() - t0)]


def prove(run, what, checker, schemas, directed, budget=400, fixed=()):
    """Proof entries for the code generated for each of the schemas.

    checker(m, limit): [(function, status, detail, obligations, seconds)]
    directed(run, ms): look for failing inputs of these schemas
    fixed: functions that do not depend on the schema
    """
    t0 = time.time()
    jobs = [(checker, m, LIMIT) for m in schemas]
    ctx = multiprocessing.get_context('fork')
    entries = []
    shared = {}
    broken = []
    with concurrent.futures.ProcessPoolExecutor(
            max_workers=8, mp_context=ctx) as ex:
        futs = [ex.submit(work, j) for j in jobs]
        for i, (f, m) in enumerate(zip(futs, schemas)):
            try:
                res = f.result(timeout=max(1, budget - (time.time() - t0)))
            except concurrent.futures.TimeoutError:
                for g in futs[i:]:
                    g.cancel()
                run.incomplete.append(
                    '{}: {} schemas not reached in time'.format(
                        what, len(futs) - i))
                for p in (ex._processes or {}).values():
                    p.terminate()
                break
            except Exception as e:  # pylint: disable=broad-except
                res = [('worker', 'undecided', str(e), 0, 0.)]
            mine = []
            for r in res:
                if r[0] in fixed:
                    shared.setdefault(r[0], []).append(r)
                else:
                    mine.append(r)
            entries.append(entry('{} of schema {} ({} functions)'.format(
                what, i, len(mine)), mine))
            if any(r[1] != 'proved' for r in res):
                broken.append(m)
    for name, rs in shared.items():
        seen = {}
        for r in rs:
            seen[r[1:4]] = r
        entries.append(entry('{}: {}'.format(what, name),
                             list(seen.values())))
    if broken:
        directed(run, broken[:12])
    return entries


def entry(target, rs):
    bad = [r for r in rs if r[1] != 'proved']
    status = 'proved'
    if bad:
        status = 'refuted' if any(r[1] == 'refuted' for r in bad) \
            else 'undecided'
    return dict(target=target, status=status, detail='; '.join(
        '{}: {}'.format(r[0], r[2]) for r in bad), paths=len(rs),
        obls=sum(r[3] for r in rs), secs=sum(r[4] for r in rs), model='')
