"""C07: thresholding keeps, for any random stream, exactly the requested number
of triplets of every combination, each of them a triplet of the task, none
twice, and favours none."""
from .. import gen, world
from . import common

COUNT = {'quick': 300, 'thorough': 9000}


def make(rng, i, tier):
    if i % 25 == 7:
        return uniform_spec(rng)
    if i % 25 == 19:
        t = gen.broad_task(rng, gen.levels(rng), rng.choice(
            ['B', 'X', 'other']))
        t['threshold'] = rng.choice([1, 2, 5])
        t['seed'] = gen.seed(rng)
        return {'task': t, 'knobs': {}, 'faults': [], 'how': {}}
    t = gen.task(rng, hi=rng.choice([20, 40, 80, 160]), cap=6000, floor=30,
                 filters=rng.random() < 0.4, threshold=True)
    t['threshold'] = rng.choice([1, 2, 3, 5, 8, 13, 40, 70, 200])
    if rng.random() < 0.3:
        t.pop('seed')
    return {'task': t, 'knobs': gen.knobs(rng),
            'faults': gen.benign(rng) if rng.random() < 0.3 else [],
            'how': common.task_past(rng),
            'stream': rng.choice(['normal', 'normal', 'low', 'high', 'dup'])}


def uniform_spec(rng):
    """One cell whose triplets all share one combination: over many random
    streams all must be chosen about equally often."""
    n = rng.choice([3, 5, 11])
    rows = []
    for k in range(n):
        rows.append(['f0', k / 8.0, k / 8.0 + 1, 'a', 's1', 'm'])
    for k in range(2 + n // 5):
        rows.append(['f0', k / 8.0, k / 8.0 + 1, 'e', 's1', 'm'])
        rows.append(['f0', k / 8.0, k / 8.0 + 1, 'a', 's02', 'm'])
    t = {'cols': ['ph', 'tk', 'cx'], 'rows': rows, 'on': 'ph',
         'across': ['tk'], 'by': [], 'regressors': [], 'as_str': True,
         'filters': [{'kind': 'on_across', 'col': 'tk', 'op': 'in',
                      'vals': ['s1']},
                     {'kind': 'on_across', 'col': 'ph', 'op': 'in',
                      'vals': ['a']}],
         'threshold': 4}
    return {'kind': 'uniform', 'task': t, 'reps': 160,
            'first': rng.randrange(1 << 20), 'faults': []}


def streams(kind):
    """Perturb the first draws of numpy's global generator: an unlucky but
    possible stream."""
    import numpy as np
    if kind == 'normal':
        return
    rand, randint = np.random.rand, np.random.randint
    state = {'n': 0}

    def bent_rand(*shape):
        v = rand(*shape)
        state['n'] += 1
        if state['n'] < 40:
            if kind == 'low':
                return v * 1e-12
            if kind == 'high':
                return 1 - (1 - v) * 1e-9 - 1e-15
        return v

    def bent_randint(*a, **k):
        v = randint(*a, **k)
        state['n'] += 1
        if state['n'] < 6 and getattr(v, 'size', 0) > 1:
            if kind == 'dup':
                v[:] = v.ravel()[0]
            elif kind == 'low':
                v[:] = a[0] if len(a) > 1 else 0
            elif kind == 'high':
                v[:] = (a[1] if len(a) > 1 else a[0]) - 1
        return v
    np.random.rand, np.random.randint = bent_rand, bent_randint


def sampled_task(t, kind, knobs, how):
    streams(kind)
    return world.stage_task(t, knobs=knobs, **how)


def many(t, reps, first):
    """How often each triplet is kept over many seeds."""
    import os
    import h5py
    count = {}
    for k in range(reps):
        t['seed'] = first + k
        task = world.make_task(t)
        task.generate_triplets('u.abx', threshold=t['threshold'],
                               seed=t['seed'])
        with h5py.File('u.abx', 'r') as f:
            for r in f['triplets/data'][...]:
                r = tuple(int(x) for x in r)
                count[r] = count.get(r, 0) + 1
        os.remove('u.abx')
    return count


def run(spec, run):
    common.inputs(spec, run)
    t = spec['task']
    if spec.get('kind') == 'uniform':
        return run_uniform(spec, run)
    out = run.spawn(sampled_task, t, spec.get('stream', 'normal'),
                    spec.get('knobs'), spec.get('how') or {}, faults=spec.get('faults', ()))
    if out.status != 'ok':
        run.violate('failed', 'the sampled task generation %s' % out.brief())
        return
    got = run.ok(world.attempt, world.read_task)
    if got[0] != 'ok':
        run.violate('unreadable', got[1])
        return
    tk = got[1]
    run.note('sampled triplets', tk['n_rows'])
    run.sig(spec.get('stream'), t['threshold'], tk['n_rows'])
    common.check_task(run, spec, tk)
    common.check_pairs(run, spec, tk)


def run_uniform(spec, run):
    from .. import ref
    t = dict(spec['task'])
    full = [x for cs in ref.triplets(t).values() for ts in cs.values()
            for x in ts]
    out = run.spawn(many, t, spec['reps'], spec['first'])
    if out.status != 'ok':
        run.violate('failed', 'the sampled task generation %s' % out.brief())
        return
    n, k, reps = len(full), min(t['threshold'], len(full)), spec['reps']
    p = k / float(n)
    cnt = [out.value.get(x, 0) for x in full]
    if sum(cnt) != k * reps:
        run.violate('threshold', '%d triplets kept in %d samples of %d' % (
            sum(cnt), reps, k))
        return
    run.sig('uniform', n)
    run.note('uniformity experiments')
    if k == n:
        return
    # chi square of sampling without replacement, normal approximation with
    # a margin no fair sampler exceeds
    x2 = sum((c - reps * p) ** 2 for c in cnt) / (reps * p * (1 - p)) * \
        (n - 1) / n
    if x2 > (n - 1) + 12 * (2 * (n - 1)) ** 0.5 + 30:
        run.violate('biased', 'over %d samples of %d in %d triplets: chi '
                    'square %.1f for %d degrees of freedom, counts %r' % (
                        reps, k, n, x2, n - 1, cnt[:12]))


def shrink(spec):
    if spec.get('stream') not in (None, 'normal'):
        yield dict(spec, stream='normal')
    for s in common.shrink(spec):
        yield s
