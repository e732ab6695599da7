"""C01: the distances do not depend on the schedule nor the number of cpus."""
from .. import gen, world
from . import common

COUNT = {'quick': 500, 'thorough': 6000}


def make(rng, i, tier):
    t = gen.task(rng, hi=rng.choice([10, 16, 24]), cap=600, filters=False,
                 files=rng.choice([1, 2, 3]))
    if i % 20 == 7:
        # many items in a block
        t = gen.exact_task(rng, rng.choice([90, 128, 254, 256, 300, 520, 1030]),
                           rng.randrange(3))
    elif i % 20 == 17:
        # many pairs
        t = gen.task(rng, lo=30, hi=70, cap=12000, floor=1500, filters=False,
                     files=2)
    n_cpu = rng.choice([2, 2, 3, 3, 4, 6])
    spec = {'task': t, 'feats': gen.feats(rng, t, empty=rng.random() < 0.2),
            'dist': {'fn': rng.choice(
                ['code', 'unique', 'unique', 'unique', 'dtw', 'dtw', 'dtw_kl',
                 'dtw_kl', 'edit', 'js', 'hellinger', 'ncos']),
                     'n_cpu': n_cpu,
                     'normalized': rng.choice([None, 0, 1, 2])},
            'sched': gen.schedule(rng, n_cpu),
            'faults': [], 'wfaults': {}}
    if spec['dist']['fn'] == 'dtw':
        spec['feats']['kind'] = 'float'
        if spec['dist']['normalized'] is None:
            spec['dist']['normalized'] = 1
    fn = spec['dist']['fn']
    if fn in world.POSITIVE:
        spec['feats'].update(kind='pos', dim=rng.choice([2, 3, 5]))
    if fn in world.NO_OPTION:
        spec['dist']['normalized'] = None
    if rng.random() < 0.3:
        spec['dist']['block_mb'] = rng.choice([1, 3, 10]) * 8e-6
    if rng.random() < 0.3:
        spec['split'] = True
    elif rng.random() < 0.25:
        # the process has computed other distances before
        spec['past'] = {'seed': rng.choice([None, rng.randrange(1 << 30)]),
                        'n_cpu': rng.choice([1, 1, 2]),
                        'normalized': rng.choice([None, 0, 1])
                        if fn not in world.NO_OPTION and fn != 'dtw' else
                        spec['dist']['normalized']}
    if rng.random() < 0.15:
        spec['default_cpu'] = True
    if rng.random() < 0.5:
        # a file system without locks (NFS): HDF5 carries on without them
        spec['nolock'] = True
    if rng.random() < 0.35:
        f = [{'kind': 'short', 'ops': 'read|write', 'p': 0.3}]
        spec['wfaults'] = {str(k): f for k in range(1, n_cpu + 1)}
        spec['faults'] = f
    return spec


def after(past, *a, **k):
    """Compute distances after others, of files of the same names."""
    import os
    d = dict(a[0], n_cpu=past['n_cpu'], normalized=past['normalized'])
    if past['seed'] is not None:
        os.rename('d.features', 'mine')
        os.rename('past.features', 'd.features')
    world.stage_dist(d, out='past.distance')
    if past['seed'] is not None:
        os.rename('d.features', 'past.features')
        os.rename('mine', 'd.features')
    world.stage_dist(*a, **k)


def run(spec, run):
    feat = common.inputs(spec, run)
    tk = common.task_file(spec, run)
    want = common.expected_distances(spec, tk)
    d = dict(spec['dist'])
    cpu_count = None
    if spec.get('default_cpu'):
        cpu_count = d['n_cpu']
        d['n_cpu'] = None
    gate, fl = common.gate_for(spec)
    past, fn = spec.get('past'), (world.stage_dist,)
    if past:
        fn = (after, past)
        if past['seed'] is not None:
            run.ok(world.write_features, dict(spec['feats'], files=[
                [f, n, s ^ past['seed']] for f, n, s in
                spec['feats']['files']]), 'past.features')
    out = run.spawn(*fn, d, feat, cpu_count=cpu_count, gate=gate,
                    faults=list(spec.get('faults', [])) + fl)
    run.sig('order', run.traces[-1][1])
    if out.status != 'ok':
        run.violate('failed', 'n_cpu=%s: the distance computation %s although '
                    'no fault was injected (%s)' % (
                        spec['dist']['n_cpu'], out.brief(),
                        gate.blocked_at_end))
        return
    got = run.ok(world.attempt, world.read_dist)
    if got[0] != 'ok':
        run.violate('unreadable', 'the distance file is unreadable: %s' %
                    got[1])
        return
    got = got[1]
    if len(got['data']) != len(want):
        run.violate('size', '%d distances for %d pairs' % (
            len(got['data']), len(want)))
        return
    bad = common.diff(got['data'], want)
    if bad:
        run.violate('values', 'n_cpu=%s: %d of %d distances are wrong, first '
                    'at %d: %r instead of %r' % (
                        spec['dist']['n_cpu'], len(bad), len(want), bad[0],
                        got['data'][bad[0]], want[bad[0]]))
    if got['done'] is not True:
        run.violate('done', "complete distance file not marked as 'done' (%r)"
                    % got['done'])
    run.note('pairs', len(want))


def shrink(spec):
    for s in common.shrink_flags(spec, 'past'):
        yield s
    for s in common.shrink(spec):
        yield s
