"""C10: the analysis averages exactly the scores of each combination of
regressors, counts every triplet once and loses none."""
import random

from .. import gen, world
from . import common

COUNT = {'quick': 900, 'thorough': 12000}


def make(rng, i, tier):
    if i % 100 == 50:
        t = gen.big_task(rng, on_levels=rng.choice([20, 40, 100]),
                         across_levels=rng.choice([2, 3]))
        t['regressors'] = rng.choice([[], ['sx_A'], ['tk_B']])
    elif i % 150 == 75:
        t = gen.exact_task(rng, rng.choice([32768, 40000, 65537, 70000]))
        t['regressors'] = rng.choice([[], [], ['ph_B']])
    elif i % 50 == 20:
        t = gen.wide_task(rng, gen.levels(rng), rng.choice([1, 2, 3, 4]))
    elif i % 20 == 13:
        t = gen.exact_task(rng, gen.exact_size(rng), rng.randrange(3))
    else:
        t = gen.task(rng, hi=rng.choice([12, 30, 60, 120]), cap=4000)
        if rng.random() < 0.4:
            t['threshold'] = rng.choice([1, 2, 5])
            t['seed'] = gen.seed(rng)
    return {'task': t, 'vseed': rng.randrange(1 << 30),
            'bias': rng.choice([0.0, 0.2, 0.5, 0.8, 1.0]),
            'faults': gen.benign(rng) if rng.random() < 0.5 else []}


def write_scores(v, path='d.score'):
    import h5py
    import numpy as np
    with h5py.File(path, 'w') as f:
        f.create_dataset('scores', data=np.array(v, dtype=np.int8)
                         .reshape(-1, 1))


def run(spec, run):
    common.inputs(spec, run)
    run.ok(world.stage_task, spec['task'])
    tk = run.ok(world.read_task)
    rng = random.Random(spec['vseed'])
    v = [1 if rng.random() < spec['bias'] else rng.choice([-1, 0])
         for _ in range(tk['n_rows'])]
    run.ok(write_scores, v)
    out = run.spawn(world.stage_analyze, faults=spec.get('faults', ()))
    if out.status != 'ok':
        run.violate('failed', 'the analysis %s on valid input' % out.brief())
        return
    csv = run.ok(world.read_csv)
    want = common.expected_rows(spec, tk, v)
    run.note('rows', len(want))
    run.note('triplets', len(v))
    run.sig(len(want), len(v), csv['head'])
    if common.check_csv(run, spec, csv, want):
        n = sum(int(r[-1]) for r in csv['rows'])
        if n != len(v):
            run.violate('conservation', 'the rows count %d triplets, the task '
                        'has %d' % (n, len(v)))


shrink = common.shrink
