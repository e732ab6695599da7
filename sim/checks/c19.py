"""C19: the four commands, run one after the other, print the averages that the
definition of the ABX task gives, whatever the machine does meanwhile."""
import os
import random
import sys

from .. import gen, ref, world
from . import common

COUNT = {'quick': 500, 'thorough': 8000}


def make(rng, i, tier):
    t = gen.task(rng, hi=rng.choice([8, 12, 20, 30]), cap=900,
                 threshold=rng.random() < 0.2)
    if i % 20 == 7:
        # many items in a block
        t = gen.exact_task(rng, rng.choice([90, 128, 254, 256, 300, 520]),
                           rng.randrange(3))
    fn = rng.choice(['dtw', 'dtw', 'dtw', 'dtw_kl', 'edit', 'code', 'unique'])
    f = gen.feats(rng, t, empty=rng.random() < 0.25)
    if fn == 'dtw':
        f.update(kind='float', dim=rng.choice([2, 3]))
    elif fn == 'dtw_kl':
        f.update(kind='pos', dim=rng.choice([2, 3]))
    elif fn == 'edit':
        # symbols: the editdistance package cannot tell -1 from -2
        f.update(kind='sym', amp=rng.choice([1, 2, 4]),
                 dim=rng.choice([1, 2]))
    spec = {'task': t, 'feats': f,
            'dist': {'fn': fn, 'n_cpu': rng.choice([1, 1, 2, 3, 4]),
                     'normalized': rng.choice([0, 1]) if fn == 'dtw' or
                     rng.random() < 0.5 and fn != 'edit' else None},
            'group': rng.choice(['features', 'features', 'mfcc']),
            'sched': gen.schedule(rng, 4), 'faults': [],
            'knobs': gen.knobs(rng) if rng.random() < 0.6 else {},
            'order': rng.randrange(1 << 30), 'verbose': rng.random() < 0.2}
    if fn == 'dtw_kl' and spec['dist']['normalized'] is None:
        spec['default_norm'] = True
    if rng.random() < 0.5:
        spec['faults'] = gen.benign(rng)
    if rng.random() < 0.3:
        spec['nolock'] = True
    if rng.random() < 0.2:
        spec['unnamed'] = True
    if rng.random() < 0.15:
        spec['old'] = True
    if rng.random() < 0.5:
        spec['without'] = rng.randrange(1 << 20)
    if rng.random() < 0.3:
        spec['stale'] = rng.choice(['d.abx', 'd.distance', 'd.score',
                                    'd.csv'])
    if rng.random() < 0.5:
        # where the files are: several directories, absolute paths
        one = rng.choice(DIRS) if rng.random() < 0.3 else None
        spec['dirs'] = {e: rng.choice(DIRS) if one is None else one
                        for e in ('item', 'features', 'abx', 'distance',
                                  'score', 'csv', 'own')
                        if rng.random() < 0.6}
    if rng.random() < 0.2:
        # the default name of the task, which must be free
        spec['deftask'] = True
        if spec.get('stale') == 'd.abx':
            del spec['stale']
    return spec


DIRS = ['sub/', 'other dir/', 'a.b/c.d/', './', 'sub/../', '@/', '@/sub/']


def at(spec, name):
    """The path of a file, '@' standing for the current directory."""
    dirs = spec.get('dirs', {})
    ext = name.rsplit('.', 1)[1]
    if ext == 'abx' and spec.get('deftask'):
        ext = 'item'
    if ext == 'score' and spec.get('unnamed'):
        ext = 'item' if spec.get('deftask') else 'abx'
    return dirs.get(ext, '') + name


def real(path):
    return path.replace('@', os.getcwd()) if path.startswith('@/') else path


def directories(spec):
    for d in spec.get('dirs', {}).values():
        os.makedirs('sub', exist_ok=True)       # for sub/..
        os.makedirs(real(d), exist_ok=True)


def write_items(spec):
    directories(spec)
    world.write_items(spec['task'], real(at(spec, 'd.item')))


def write_features(spec, name, only=None):
    world.write_features(
        spec['feats'], real(at(spec, name)), only,
        group=spec.get('group', 'features') if only is None else 'features',
        old=spec.get('old', False))


def read(fn, path, **kw):
    return fn(real(path), **kw)


# ---- in the actors -------------------------------------------------------------
def main(module, argv, knobs=None):
    import importlib
    world.apply_knobs(knobs)
    m = importlib.import_module(module)
    old = sys.argv
    sys.argv = [module] + [real(a) for a in argv]
    try:
        m.main()
    except SystemExit as e:
        if e.code not in (None, 0):
            raise RuntimeError('exit code %r' % (e.code,))
    finally:
        sys.argv = old


def task_argv(spec):
    t = spec['task']
    a = ['-o', t['on']]
    if t['across']:
        a += ['-a'] + list(t['across'])
    if t['by']:
        a += ['-b'] + list(t['by'])
    if t['filters']:
        a += ['-f'] + [ref.filter_arg(t, i, at(spec, 'd.item')[:-5])
                       for i in range(len(t['filters']))]
    if t['regressors']:
        a += ['-r'] + list(t['regressors'])
    if t.get('threshold') is not None:
        a += ['-t', str(t['threshold'])]
    if t.get('seed') is not None:
        a += ['--seed', str(t['seed'])]
    if spec.get('verbose'):
        a += ['-v']
    rng = random.Random(spec.get('order', 0))
    if rng.random() < 0.4:
        a += ['--tempdir', 'scratch']
    pos = [at(spec, 'd.item')]
    if not spec.get('deftask'):
        pos += [at(spec, 'd.abx')]
    return a + ['--'] + pos if rng.random() < 0.5 else pos + a


def dist_argv(spec):
    d = spec['dist']
    a = [at(spec, 'd.' + e) for e in ('features', 'abx', 'distance')]
    a += ['-j', str(d['n_cpu'])]
    if d.get('normalized') is not None:
        a += ['-n', str(d['normalized'])]
    if d['fn'] == 'edit':
        a += ['-d', 'levenshtein']
    elif d['fn'] == 'dtw_kl':
        a += ['-d', 'dtw_kl']
    elif d['fn'] != 'dtw':
        a += ['-d', spec.get('dirs', {}).get('own', '') + 'mydistances.' +
              d['fn']]
    if spec.get('group', 'features') != 'features':
        a += ['-g', spec['group']]
    return a


def verify(items, features):
    import ABXpy.verify
    ABXpy.verify.check(real(items), real(features))


MYDISTANCES = '''from sim.world import dist_code as code, dist_unique as unique
'''


def write_own(where):
    with open(os.path.join(real(where), 'mydistances.py'), 'w') as f:
        f.write(MYDISTANCES)


def stale(name):
    """What an earlier, unrelated experiment left under the name of an
    output."""
    import h5py
    name = real(name)
    if name.endswith('.csv'):
        with open(name, 'w') as f:
            f.write('old\tby\tscore\tn\n1\t2\t3\t4\n' * 50)
        return
    with h5py.File(name, 'w') as f:
        f.create_dataset('scores', data=[[1]] * 5)
        f.attrs['done'] = True


STAGES = [
    ('task', 'ABXpy.task', lambda s: task_argv(s)),
    ('distance', 'ABXpy.distance', lambda s: dist_argv(s)),
    ('score', 'ABXpy.score', lambda s: [
        at(s, 'd.abx'), at(s, 'd.distance')] + (
            [] if s.get('unnamed') else [score_name(s)])),
    ('analyze', 'ABXpy.analyze', lambda s: [
        score_name(s), at(s, 'd.abx'), at(s, 'd.csv')]),
]


def score_name(spec):
    return at(spec, 'd_d.score' if spec.get('unnamed') else 'd.score')


def expected(spec, tk):
    """The distances, from the definition alone."""
    feats = world.make_features(spec['feats'])
    d = spec['dist']
    kw = common.norm_kw(d.get('normalized'))
    own = {'code': world.dist_code, 'unique': world.dist_unique}.get(d['fn'])
    out = [None] * tk['n_pairs']
    bl = ref.blocks(spec['task'])
    for b in tk['bys']:
        e = tk['by'][b]
        for n, p in enumerate(e['pairs']):
            x, y = (ref.frames(spec['task'], feats, bl[b].rows[i]['#loc'])
                    for i in (p % e['base'], p // e['base']))
            if own:
                v = float(own(x, y, **kw))
            else:
                v = ref.distance(d['fn'], x, y, kw.get('normalized', True))
            out[e['range'][0] + n] = v
    return out


def close(a, b):
    # the arccos of nearly equal frames is that imprecise
    return a == b or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


def verified(spec, run):
    """The verification accepts the inputs, and refuses them without the
    features of one of the files."""
    items = at(spec, 'd.item')
    out = run.spawn(verify, items, at(spec, 'd.features'),
                    faults=spec['faults'])
    if out.status != 'ok':
        run.violate('verify', 'the verification of valid inputs %s' %
                    out.brief())
        return False
    if 'without' in spec:
        used = sorted({str(r[0]) for r in spec['task']['rows']})
        gone = used[spec['without'] % len(used)]
        keep = [f[0] for f in spec['feats']['files'] if f[0] != gone]
        if not keep:
            return True
        run.ok(write_features, spec, 'e.features', keep)
        out = run.spawn(verify, items, at(spec, 'e.features'),
                        faults=spec['faults'])
        if out.status == 'ok':
            run.violate('unverified', 'the verification of inputs without '
                        'the features of %s %s' % (gone, out.brief()))
            return False
    return True


def run(spec, run):
    common.require_valid(spec)
    run.ok(write_items, spec)
    run.ok(write_features, spec, 'd.features')
    run.ok(write_own, spec.get('dirs', {}).get('own', ''))
    if spec.get('group', 'features') == 'features' and \
            not verified(spec, run):
        return
    if spec.get('stale'):
        run.ok(stale, at(spec, spec['stale']))
    d = spec['dist']
    run.sig(d['fn'], d['n_cpu'], d.get('normalized'), spec.get('stale'),
            len(spec['task']['across']), len(spec['task']['by']),
            sorted(f['kind'] for f in spec['task']['filters']))
    for name, module, argv in STAGES:
        gate, fl = None, []
        if name == 'distance' and d['n_cpu'] > 1:
            gate, fl = common.gate_for(dict(spec, wfaults={
                str(k): spec['faults'] for k in range(1, d['n_cpu'] + 1)}))
        out = run.spawn(main, module, argv(spec), spec.get('knobs'),
                        gate=gate, faults=list(spec['faults']) + fl)
        if out.status != 'ok':
            run.violate('failed', 'abx-%s %s: it %s' % (
                name, ' '.join(argv(spec)), out.brief()))
            return
    tk = run.ok(read, world.read_task, at(spec, 'd.abx'))
    if not common.check_task(run, spec, tk, 'task-') or \
            not common.check_pairs(run, spec, tk, 'task-'):
        return
    got = run.ok(read, world.read_dist, at(spec, 'd.distance'))
    want = expected(spec, tk)
    bad = [i for i, (a, b) in enumerate(zip(got['data'], want))
           if not close(a, b)]
    if len(want) != len(got['data']) or bad:
        run.violate('distances', '%d of %d distances are wrong, first: %r' % (
            len(bad), len(want), [(got['data'][i], want[i])
                                  for i in bad[:1]]))
        return
    scores = common.scores_from(tk, got['data'])
    if run.ok(read, world.read_score, score_name(spec)) != scores:
        run.violate('scores', 'the scores are not those of the distances')
        return
    common.check_csv(run, spec, run.ok(read, world.read_csv, at(spec, 'd.csv')),
                     common.expected_rows(spec, tk, scores), 'csv-')
    run.note('pairs', len(want))
    run.note('triplets', len(scores))


def shrink(spec):
    for s in common.shrink_flags(spec, 'stale', 'verbose', 'unnamed', 'old',
                                 'without', 'dirs', 'deftask'):
        yield s
    if spec.get('group') != 'features':
        yield dict(spec, group='features')
    for e in spec.get('dirs', {}):
        yield dict(spec, dirs={k: v for k, v in spec['dirs'].items()
                               if k != e})
    for s in common.shrink(spec):
        if s['dist'].get('normalized') is None and s['dist']['fn'] == 'dtw':
            continue
        yield s
