"""C04: the task file holds exactly the triplets of the task, and for each its
regressors, whatever the buffer geometry and the behaviour of the disk."""
from .. import gen, ref, world
from . import common

COUNT = {'quick': 600, 'thorough': 12000}


def make(rng, i, tier):
    if i % 70 == 35:
        t = gen.big_task(rng, on_levels=rng.choice([16, 40, 70, 100]),
                         across_levels=rng.choice([2, 3]),
                         by_levels=rng.choice([1, 1, 2]))
        return {'task': t, 'knobs': {}, 'faults': []}
    if i % 300 == 150:
        return {'task': gen.huge_task(rng), 'knobs': {}, 'faults': []}
    if i % 30 == 13:
        t = gen.exact_task(rng, gen.exact_size(rng), rng.randrange(3))
        return {'task': t, 'knobs': {}, 'faults': []}
    if i % 50 == 27:
        return {'task': gen.holed_task(rng), 'knobs': rng.choice(
            [{}, gen.knobs(rng)]), 'faults': []}
    t = gen.task(rng, hi=rng.choice([12, 30, 60, 120, 300]), cap=4000)
    gen.feats(rng, t)       # items at other times
    return {'task': t, 'knobs': gen.knobs(rng), 'faults': gen.benign(rng)
            if rng.random() < 0.5 else [], 'how': common.task_past(rng)}


def run(spec, run):
    common.inputs(spec, run)
    t = spec['task']
    out = run.spawn(world.stage_task, t, knobs=spec.get('knobs'),
                    **dict(spec.get('how') or {}, faults=spec.get(
                        'faults', ())))
    run.sig(sorted((spec.get('knobs') or {}).items()), len(t['across']),
            len(t['by']), sorted(f['kind'] for f in t['filters']),
            sorted(t['regressors']))
    if out.status != 'ok':
        run.violate('failed', 'the task generation %s on a valid task' %
                    out.brief())
        return
    stats, by_stats = out.value
    got = run.ok(world.attempt, world.read_task)
    if got[0] != 'ok':
        run.violate('unreadable', got[1])
        return
    tk = got[1]
    common.check_task(run, spec, tk)
    n = sum(len(x) for cs in ref.triplets(t).values() for x in cs.values())
    run.note('triplets', n)
    if stats.get('nb_triplets') != n and \
            not stats.get('approximate_nb_triplets'):
        run.violate('stats', "stats['nb_triplets'] is %r, the task has %d "
                    "triplets" % (stats.get('nb_triplets'), n))
    each = sorted(filter(None, (sum(len(x) for x in cs.values())
                                for cs in ref.triplets(t).values())))
    said = [s.get('nb_triplets') for s in by_stats.values()]
    if not stats.get('approximate_nb_triplets') and None not in said and \
            sorted(filter(None, said)) != each:
        run.violate('stats', 'the numbers of triplets of the by blocks are '
                    '%r instead of %r' % (sorted(said)[:20], each[:20]))
    if stats.get('nb_by_levels') not in (None, len(ref.blocks(t))):
        run.violate('stats', "stats['nb_by_levels'] is %r instead of %d" % (
            stats.get('nb_by_levels'), len(ref.blocks(t))))


shrink = common.shrink
