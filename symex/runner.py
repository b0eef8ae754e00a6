"""Runs the harnesses of one property in parallel, writes evidence, prints the verdict."""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, 'replays')


class Task(object):
    """One exploration: a harness function with fixed structural parameters."""

    def __init__(self, fn, params=None, tier='quick', max_paths=10 ** 7, patch=None):
        self.fn = fn
        self.params = params or {}
        self.tier = tier


def load_property(pid):
    from . import session  # noqa
    for fn in sorted(os.listdir(os.path.join(ROOT, 'harness'))):
        if fn.lower().startswith(pid.lower() + '_') and fn.endswith('.py'):
            return importlib.import_module('harness.' + fn[:-3])
    raise SystemExit('no harness for ' + pid)


def known_findings(pid):
    out = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: '):
                d = json.loads(line[len('finding: '):])
                if d['property'] == pid:
                    out.append(d)
    return out


_MOD = None
_DEADLINE = None
_KNOWN = ()
_STOP = None  # Set once a violation was found: explorations that did not start yet are skipped.


def _work(i_task):
    i, name, params, budget = i_task
    from . import session
    if _STOP is not None and _STOP.value:
        return i, {'skipped': True}
    try:
        fn = getattr(_MOD, name)
        patcher = session.Patcher()
        for k, v in getattr(fn, 'patches', {}).items():
            patcher.extra[k] = v
        patcher.swaps = list(getattr(fn, 'swaps', ()))
        deadline = _DEADLINE
        if budget:
            deadline = min(deadline, time.time() + budget)
        r = session.explore(fn, params, deadline=deadline, patcher=patcher,
                            known=[k for k in _KNOWN if k.get('harness') in (None, name)],
                            replay_limit=getattr(fn, 'replay_limit', 60))
        if r['violations'] and _STOP is not None:
            _STOP.value = 1
        return i, r
    except BaseException as e:
        return i, {'crash': ''.join(traceback.format_exception(type(e), e, e.__traceback__))}


def main(argv=None):
    global _MOD, _DEADLINE, _KNOWN, _STOP
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or len(os.sched_getaffinity(0)))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--all', action='store_true', help='go on after a violation')
    a = ap.parse_args(argv)
    pid = a.property
    t0 = time.time()
    sys.path.insert(0, ROOT)
    try:
        import ocgis
    except Exception:
        # The package itself no longer imports: everything a user relies on is broken.
        tb = traceback.format_exc()
        path = write_replay(pid, {'property': pid, 'label': 'import', 'detail': tb}, 0)
        print(tb)
        print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    assert os.path.realpath(ocgis.__file__).startswith('/repo/'), ocgis.__file__
    mod = _MOD = load_property(pid)
    from . import session
    if a.replay:
        return replay(mod, a.replay)
    _KNOWN = known_findings(pid)
    tier = a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = float(os.environ.get('VERIF_BUDGET', '480' if tier == 'quick' else '3300'))
    _DEADLINE = t0 + budget
    tasks = []
    for item in mod.tasks(tier):
        fn, params = item[0], item[1]
        if a.only and a.only not in fn.__name__:
            continue
        tasks.append((len(tasks), fn.__name__, params, item[2] if len(item) > 2 else None))
    order = list(reversed(tasks)) if getattr(mod, 'BIG_LAST', True) else tasks
    results = {}
    if a.jobs <= 1:
        for t in order:
            i, r = _work(t)
            results[i] = r
            if a.v:
                _verbose(tasks[i], r)
    else:
        ctx = multiprocessing.get_context('fork')
        _STOP = None if a.all or a.v else ctx.Value('i', 0)
        with ctx.Pool(min(a.jobs, max(1, len(order))), maxtasksperchild=50) as pool:
            for i, r in pool.imap_unordered(_work, order, chunksize=1):
                results[i] = r
                if a.v:
                    _verbose(tasks[i], r)
    return report(pid, mod, tier, seed, tasks, results, t0)


def _verbose(task, r):
    if 'crash' in r:
        print(task[1], task[2], 'CRASH', r['crash'])
        return
    s = r['stats']
    print('{:<28} {} paths={} aborted={} dec={} checks={} q={} solver={:.2f} wall={:.2f} replayed={} und={} viol={} {}'.format(
        task[1], task[2], s['paths'], s['aborted'], s['decisions'], s['checks'], s['queries'], s['solver_s'], r['wall'],
        s['replayed'], r.get('undecided_n', 0), len(r['violations']), '' if r['complete'] else 'INCOMPLETE'), flush=True)
    for u in r['undecided'][:2]:
        print('   undecided:', u)
    for v in r['violations'][:2]:
        print('   violation:', v['label'], v['inputs'], v['detail'])


def write_replay(pid, obj, n):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '{}-{}.json'.format(pid, n))
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1, default=str)
    return path


def replay(mod, path):
    from . import session
    obj = json.load(open(path))
    if obj['label'] == 'import':
        print('import failure no longer present')
        return 0
    fn = getattr(mod, obj['harness'])
    oc = session.run_concrete(fn, obj['params'], obj['inputs'])
    print(oc[0], oc[1])
    print(oc[2])
    if oc[0] in ('failed', 'error'):
        print('VIOLATION property={} replay={}'.format(obj['property'], path))
        return 1
    return 0


def report(pid, mod, tier, seed, tasks, results, t0):
    tot = dict(paths=0, aborted=0, decisions=0, queries=0, solver_s=0., checks=0, replayed=0, pinned=0, unsupported=0,
               unknown=0, reached=0, replay_skipped=0)
    undecided, violations, samples, known, crashes = [], [], [], set(), []
    incomplete = 0
    vacuous = []
    per = []
    for i, name, params, _ in tasks:
        r = results[i]
        if 'skipped' in r:
            incomplete += 1
            continue
        if 'crash' in r:
            crashes.append((name, params, r['crash']))
            continue
        for k in tot:
            tot[k] += r['stats'].get(k, 0)
        per.append({'harness': name, 'params': params, 'paths': r['stats']['paths'], 'queries': r['stats']['queries'],
                    'checks': r['stats']['checks'], 'wall_s': round(r['wall'], 2), 'complete': r['complete'],
                    'undecided': r.get('undecided_n', 0)})
        incomplete += not r['complete']
        for u in r['undecided']:
            undecided.append({'harness': name, 'params': params, 'why': u})
        for v in r['violations']:
            violations.append(dict(v, harness=name, params=params, property=pid))
        known.update(r['known'])
        if r['stats']['reached'] == 0 and r['complete'] and not r['violations']:
            vacuous.append((name, params))
        for s in r['samples'][:1]:
            if len(samples) < 12:
                samples.append({'harness': name, 'params': params, 'inputs': s})
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['decisions'] + tot['paths'],
            'transitions': tot['decisions'] + tot['paths'] - len(tasks),
            'traces_validated_against_impl': tot['replayed'],
            'samples': samples,
            'exhaustive': not undecided and not incomplete and not crashes,
            'technique': 'symbolic execution of the real ocgis functions; every path condition and every assertion decided by Z3',
            'functions_encoded': getattr(mod, 'FUNCTIONS', []),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'outside': getattr(mod, 'OUTSIDE', ''),
            'explorations': len(tasks),
            'paths': tot['paths'], 'paths_reaching_assertions': tot['reached'], 'branch_decisions': tot['decisions'],
            'assertions_decided': tot['checks'], 'queries': tot['queries'], 'solver_s': round(tot['solver_s'], 3),
            'undecided': len(undecided), 'undecided_detail': undecided[:10],
            'pinned_paths': tot['pinned'], 'solver_unknown': tot['unknown'], 'incomplete_explorations': incomplete,
            'known_findings_seen': sorted(known),
            'per_exploration': per[:80],
        },
        'assumptions': ['floating point is modelled by exact reals; each path is also run concretely on float inputs',
                        'numpy indexing, broadcasting and masked-array bookkeeping are trusted (they run natively)'] +
        list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('{} tier={} explorations={} paths={} assertions={} queries={} solver_s={:.1f} replayed={} undecided={} wall_s={:.1f}'.format(
        pid, tier, len(tasks), tot['paths'], tot['checks'], tot['queries'], tot['solver_s'], tot['replayed'],
        len(undecided), wall))
    for k in known_findings(pid):
        print('KNOWN-FINDING: property={} {}'.format(pid, k['what']))
    for u in undecided[:6]:
        print('UNDECIDED', u['harness'], u['params'], str(u['why'])[-400:])
    for n, v in enumerate(violations[:5]):
        path = write_replay(pid, v, n)
        print('counterexample: {} {} inputs={} check={}'.format(v['harness'], v['params'], v['inputs'], v['label']))
        print(str(v['detail'])[-1500:])
        print('VIOLATION property={} replay={}'.format(pid, path))
    if violations:
        return 1
    if crashes:
        for c in crashes[:3]:
            print('CRASH', c[0], c[1], c[2])
        return 3
    if vacuous:
        print('VACUOUS', vacuous[:5])
        return 4
    return 0
