"""C05: the pairs of a task file are exactly those its triplets need, sorted
and without duplicates, whatever the memory the sort gets."""
from .. import gen, world
from . import common

COUNT = {'quick': 640, 'thorough': 9000}


def make(rng, i, tier):
    k = i % 10
    if k == 3:
        t = gen.big_task(rng, on_levels=rng.choice([8, 14, 20]),
                         across_levels=rng.choice([2, 3]),
                         by_levels=rng.choice([1, 2, 3]))
        # memory in Mb: from a single chunk to less than 1/30th of the data
        return {'task': t, 'knobs': {
            'sort_mem': rng.choice([1000, 0.05, 0.01, 0.006, 0.004, 0.002])},
            'faults': []}
    if i % 80 == 40:
        t = gen.big_task(rng, on_levels=rng.choice([60, 90]),
                         across_levels=rng.choice([2, 3]))
        return {'task': t, 'knobs': {}, 'faults': []}
    if i % 80 == 60:
        return {'task': gen.huge_task(rng), 'knobs': {}, 'faults': []}
    if i % 30 == 17:
        # as many pairs as triplets, and one more
        t = gen.exact_task(rng, gen.exact_size(rng) - rng.randrange(2),
                           rng.randrange(3))
        return {'task': t, 'knobs': rng.choice([{}, gen.knobs(rng)]),
                'faults': []}
    if i % 40 == 33:
        return {'task': gen.holed_task(rng), 'knobs': rng.choice(
            [{}, gen.knobs(rng)]), 'faults': []}
    t = gen.task(rng, hi=rng.choice([12, 30, 60, 120]), cap=3000,
                 filters=rng.random() < 0.3, regressors=rng.random() < 0.3)
    kn = gen.knobs(rng, heavy=rng.random() < 0.5)
    kn.setdefault('sort_rows', rng.choice([0.05, 0.2, 0.34, 0.5, 0.7, 1.0]))
    return {'task': t, 'knobs': kn, 'faults': gen.benign(rng)
            if rng.random() < 0.4 else []}


def run(spec, run):
    common.inputs(spec, run)
    t = spec['task']
    out = run.spawn(world.stage_task, t, knobs=spec.get('knobs'),
                    faults=spec.get('faults', ()))
    if out.status != 'ok':
        run.violate('failed', 'the task generation %s on a valid task' %
                    out.brief())
        return
    got = run.ok(world.attempt, world.read_task, regs=False)
    if got[0] != 'ok':
        run.violate('unreadable', got[1])
        return
    tk = got[1]
    run.note('pairs', tk['n_pairs'])
    run.sig(sorted((spec.get('knobs') or {}).items()), len(tk['bys']),
            tk['n_pairs'])
    common.check_pairs(run, spec, tk)


shrink = common.shrink
