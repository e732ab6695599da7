"""C09: every triplet gets the score its two distances imply."""
import random

from .. import gen, world
from . import common

COUNT = {'quick': 600, 'thorough': 12000}


def make(rng, i, tier):
    if i % 100 == 50:
        t = gen.big_task(rng, on_levels=rng.choice([60, 100]),
                         across_levels=rng.choice([2, 3]))
        kn = {}
    elif i % 300 == 200:
        t, kn = gen.huge_task(rng), {}
    elif i % 25 == 13:
        t = gen.exact_task(rng, gen.exact_size(rng), rng.randrange(3))
        kn = rng.choice([{}, gen.knobs(rng)])
    else:
        t = gen.task(rng, hi=rng.choice([12, 30, 60, 120, 300]), cap=4000)
        kn = gen.knobs(rng, heavy=rng.random() < 0.5)
    return {'task': t, 'knobs': kn,
            'values': rng.choice(['few', 'many', 'special', 'tiny']),
            'vseed': rng.randrange(1 << 30),
            'faults': gen.benign(rng) if rng.random() < 0.5 else [],
            'args': rng.choice(['full', 'full', 'default'])}


def values(spec, n):
    rng = random.Random(spec['vseed'])
    k = spec['values']
    if k == 'few':
        return [float(rng.randrange(4)) for _ in range(n)]
    if k == 'many':
        return [rng.random() * 100 for _ in range(n)]
    if k == 'tiny':
        return [1.0 + rng.randrange(4) * 2.0 ** -52 for _ in range(n)]
    return [rng.choice([0.0, -0.0, float('inf'), float('nan'), 1e-300, 1e300,
                        -1.5, 2.0]) for _ in range(n)]


def write_distances(v, path='d.distance', done=True):
    import h5py
    import numpy as np
    with h5py.File(path, 'w') as f:
        f.attrs.create('done', done)
        f.create_group('distances').create_dataset(
            'data', data=np.array(v, dtype=float).reshape(-1, 1))


def score_default(task, dist, knobs):
    import ABXpy.score
    world.apply_knobs(knobs)
    ABXpy.score.score(task, dist)


def run(spec, run):
    common.inputs(spec, run)
    tk = common.task_file(spec, run)
    v = values(spec, tk['n_pairs'])
    run.ok(write_distances, v)
    want = common.scores_from(tk, v)
    path = 'd.score'
    if spec.get('args') == 'default':
        path = 'd_d.score'
        out = run.spawn(score_default, 'd.abx', 'd.distance',
                        spec.get('knobs'), faults=spec.get('faults', ()))
    else:
        out = run.spawn(world.stage_score, knobs=spec.get('knobs'),
                        faults=spec.get('faults', ()))
    if out.status != 'ok':
        run.violate('failed', 'the score computation %s on valid input' %
                    out.brief())
        return
    got = run.ok(world.attempt, world.read_score, path)
    if got[0] != 'ok':
        run.violate('unreadable', got[1])
        return
    got = got[1]
    run.note('scores', len(want))
    run.sig(spec['values'], sorted((spec.get('knobs') or {}).items()),
            len(want))
    if len(got) != len(want):
        run.violate('size', '%d scores for %d triplets' % (len(got),
                                                           len(want)))
        return
    bad = common.diff(got, want)
    if bad:
        run.violate('values', '%d of %d scores are wrong, first at row %d: %r '
                    'instead of %r' % (len(bad), len(want), bad[0],
                                       got[bad[0]], want[bad[0]]))


shrink = common.shrink
