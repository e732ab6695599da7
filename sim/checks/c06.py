"""C06: the same inputs, options and seed give the same results in any process:
whatever its hash seed, random state, clock, temporary files and directory."""
import json
import os
import pickle
import shutil
import subprocess
import sys

from .. import gen, world
from ..actor import HarnessError
from . import common

COUNT = {'quick': 80, 'thorough': 2500}
BATCH = 6


def make(rng, i, tier):
    tasks = []
    for _ in range(BATCH):
        if rng.random() < 0.6:
            t = gen.task(rng, hi=rng.choice([20, 40, 80]), cap=1500, floor=20,
                         threshold=True)
            t['threshold'] = rng.choice([1, 2, 5, 10])
        else:
            t = gen.task(rng, hi=rng.choice([12, 30, 60]), cap=1200,
                         across=rng.choice([None, 0, 0]))
        tasks.append({'task': t, 'feats': gen.feats(rng, t)})
    return {'tasks': tasks, 'hs': rng.randrange(1, 1 << 31),
            'np': [rng.randrange(1 << 30), rng.randrange(1 << 30)],
            'tmp': rng.random() < 0.5, 'clock': rng.choice([0, 86400, -7200]),
            'before': rng.choice([None, 'same', 'other', 'reseeded', 'reordered',
                                  'reordered'])}


def before(how, tasks, k):
    """What the process did before the k-th job: a pipeline under the same
    names, then removed."""
    if how is None or (how == 'other' and len(tasks) < 2):
        return None
    s = dict(tasks[k if how != 'other' else (k + 1) % len(tasks)])
    t = s['task']
    if how == 'other' and tasks[k]['task'].get('seed') is not None:
        # the same seed for another task
        s['task'] = dict(t, seed=tasks[k]['task']['seed'])
        s['task'].setdefault('threshold', 3)
    elif how == 'reordered':
        # the same items in another order, in a file of the same size
        s['task'] = dict(t, rows=t['rows'][::-1])
    elif how == 'reseeded':
        s['task'] = dict(t, seed=(t.get('seed', 0) + 1) % 2 ** 32)
        # and other features under the same names
        s['feats'] = dict(s['feats'], files=[
            [f[0], f[1], f[2] + 1] for f in s['feats']['files']])
    return s


def pipeline(t, feats, tmp, first=None):
    """The whole pipeline; returns what a user gets out of it."""
    if first:
        pipeline(first['task'], first['feats'], False)
        for name in sorted(os.listdir('.')):
            if os.path.isfile(name):
                os.unlink(name)
    world.write_items(t)
    world.write_features(feats)
    tmpdir = None
    if tmp:
        os.mkdir('mytmp')
        tmpdir = os.path.abspath('mytmp')
    world.stage_task(t, tmpdir=tmpdir)
    tk = world.read_task()
    world.stage_dist({'fn': 'code', 'n_cpu': 1})
    d = world.read_dist()
    world.stage_score()
    sc = world.read_score()
    world.stage_analyze()
    with open('d.csv') as f:
        csv = f.read()
    return {'task': tk, 'dist': d, 'score': sc, 'csv': csv}


def fresh(spec, run, jobs):
    """Run the jobs in a new interpreter with another hash seed."""
    import ABXpy
    repo = os.path.dirname(os.path.dirname(os.path.abspath(ABXpy.__file__)))
    jf, of = run.root + '.jobs', run.root + '.out'
    with open(jf, 'w') as f:
        json.dump(jobs, f)
    if os.path.exists(of):
        os.unlink(of)
    m = sys.modules.get('ABXpy.distances.metrics.dtw')
    env = dict(os.environ, PYTHONHASHSEED=str(spec['hs']),
               PYTHONUTF8='1')
    p = subprocess.run(
        [sys.executable, '-m', 'sim.fresh', repo,
         getattr(m, '__file__', None) or '-', jf, of], env=env,
        stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, timeout=300)
    if p.returncode or not os.path.exists(of):
        raise HarnessError('fresh interpreter: %s' %
                           p.stdout.decode('utf8', 'replace')[-2000:])
    with open(of, 'rb') as f:
        return pickle.load(f)


def run(spec, run):
    jobs, mine = [], []
    far = os.path.join(os.path.dirname(run.root), 'elsewhere')
    for k, s in enumerate(spec['tasks']):
        common.require_valid(s)
        here = os.path.join(run.root, 'w%d' % k)
        os.makedirs(os.path.join(here, 'tmp'))
        out = run.spawn(pipeline, s['task'], s['feats'], False, root=here,
                        np_seed=spec['np'][0], tag='a')
        mine.append(out)
        root = os.path.join(far, 'a-longer-name.%d' % k)
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(os.path.join(root, 'tmp'))
        jobs.append({'module': 'sim.checks.c06', 'fn': 'pipeline',
                     'args': [s['task'], s['feats'], spec['tmp'],
                              before(spec.get('before'), spec['tasks'], k)],
                     'root': root, 'seed': spec['np'][1] + k,
                     'np_seed': spec['np'][1], 'tag': 'zz',
                     'faults': [{'kind': 'clock', 'ops': 'all', 'nth': 0,
                                 'arg': spec['clock']}]})
    theirs = fresh(spec, run, jobs)
    run.faults['other hash seed'] += len(jobs)
    run.faults['other random state'] += len(jobs)
    if spec.get('before'):
        run.faults['process with a past'] += len(jobs)
    run.faults['clock'] += len(jobs) if spec['clock'] else 0
    for k, (s, a, b) in enumerate(zip(spec['tasks'], mine, theirs)):
        t = s['task']
        run.sig(len(t['across']), len(t['by']), len(t['regressors']),
                sorted(f['kind'] for f in t['filters']), t.get('threshold'))
        run.digest(b[0], b[2])
        if a.status != 'ok' or b[0] != 'ok':
            run.violate('failed', 'the pipeline %s, in another process it %s'
                        % (a.brief(), b[2]))
            continue
        for what in ('task', 'dist', 'score', 'csv'):
            if a.value[what] != b[1][what]:
                run.violate(what, describe(what, a.value[what], b[1][what]))
                break
    shutil.rmtree(far, ignore_errors=True)


def describe(what, a, b):
    if what == 'task':
        for k in a:
            if a[k] != b.get(k):
                if k == 'by':
                    for x in a[k]:
                        for f in a[k][x]:
                            if a[k][x][f] != b[k].get(x, {}).get(f):
                                return 'two processes generate different ' \
                                    'tasks: %s of by block %r: %.200r and ' \
                                    '%.200r' % (f, x, a[k][x][f],
                                                b[k].get(x, {}).get(f))
                return 'two processes generate different tasks: %s: %.200r ' \
                    'and %.200r' % (k, a[k], b.get(k))
    if what == 'csv':
        la, lb = a.split('\n'), b.split('\n')
        d = [(x, y) for x, y in zip(la, lb) if x != y]
        return 'two processes write different analyses: %r' % (
            d[:1] or [len(la), len(lb)],)
    return 'two processes compute different %ss' % what


def shrink(spec):
    if len(spec['tasks']) > 1:
        for c in gen.chunks_removed(spec['tasks']):
            yield dict(spec, tasks=c)
        return
    if spec.get('before'):
        yield dict(spec, before=None)
    if spec['tmp']:
        yield dict(spec, tmp=False)
    if spec['clock']:
        yield dict(spec, clock=0)
    if spec['tasks']:
        for s in gen.shrink_common(spec['tasks'][0]):
            yield dict(spec, tasks=[s])
