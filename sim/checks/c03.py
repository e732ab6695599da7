"""C03: a distance file is marked as done only once it holds every distance,
whatever kills the computation and whenever; one that is not is refused."""
import os

from .. import actor, gen, world
from . import common

COUNT = {'quick': 150, 'thorough': 5000}


def make(rng, i, tier):
    t = gen.task(rng, hi=rng.choice([8, 12, 20]), cap=500, filters=False)
    n_cpu = rng.choice([1, 1, 2, 3, 4])
    spec = {'task': t, 'feats': gen.feats(rng, t),
            'dist': {'fn': rng.choice(['code', 'unique']), 'n_cpu': n_cpu,
                     'normalized': None},
            'sched': gen.schedule(rng, n_cpu), 'crashes': []}
    if rng.random() < 0.5:
        spec['dist']['block_mb'] = rng.choice([1, 3, 10]) * 8e-6
    if rng.random() < 0.4:
        spec['nolock'] = True
    for _ in range(5):
        c = {'at': rng.random()}
        if rng.random() < 0.35:
            c['at'] = 1 - 0.06 * c['at']
        if n_cpu == 1 or rng.random() < 0.3:
            c['kind'] = rng.choice(['crash', 'crash_after', 'torn'])
            c['ops'] = rng.choice(['all', 'write|trunc', 'write', 'open'])
            if c['kind'] == 'torn':
                c['ops'] = 'write'
                c['part'] = rng.randrange(1000)
            c['proc'] = rng.randrange(0, n_cpu + 1) if n_cpu > 1 else 0
        else:
            c['kind'] = 'kill'
            c['proc'] = rng.choice(['all', 'all', 0, 0,
                                    rng.randrange(1, n_cpu + 1)])
        if rng.random() < 0.3:
            c['again'] = True
        spec['crashes'].append(c)
    return spec


def rule(c, counts):
    """The fault rule that crashes at a given fraction of the operations."""
    ops = c['ops']
    n = sum(counts.values()) if ops == 'all' else \
        sum(counts[o] for o in ops.split('|'))
    f = {'kind': c['kind'], 'ops': ops, 'nth': int(c['at'] * n)}
    if c['kind'] == 'torn':
        f['arg'] = c['part']
    return f


def run(spec, run):
    feat = common.inputs(spec, run)
    tk = common.task_file(spec, run)
    want = common.expected_distances(spec, tk)
    snap = actor.snapshot(run.root)
    # the execution in which nothing crashes
    gate, fl = common.gate_for(spec)
    out = run.spawn(world.stage_dist, spec['dist'], feat, gate=gate,
                    faults=fl, tag='g')
    if out.status != 'ok' or not right(run, want):
        run.violate('failed', 'the computation %s without any fault' % (
            out.brief() if out.status != 'ok' else 'was wrong'))
        return
    steps = gate.step
    yields = {i: p.nyield for i, p in gate.procs.items()}
    counts = {0: out.sim['counts']}
    counts.update({i: s['counts'] for i, s in gate.worker_stats.items()})
    for c in spec['crashes']:
        actor.restore(run.root, snap)
        one(spec, run, c, feat, want, steps, yields, counts)
        if run.violations:
            return


def right(run, want):
    got = run.ok(world.attempt, world.read_dist)
    return got[0] == 'ok' and len(got[1]['data']) == len(want) and \
        not common.diff(got[1]['data'], want)


def one(spec, run, c, feat, want, steps, yields, counts):
    s = dict(spec, kills=[], wfaults={})
    faults = []
    if c['kind'] == 'kill':
        n = steps if c['proc'] == 'all' else yields.get(c['proc'], 0)
        s['kills'] = [{'proc': c['proc'], 'at': int(c['at'] * n)}]
    elif c['proc'] in counts:
        f = rule(c, counts[c['proc']])
        if c['proc'] == 0:
            faults = [f]
        else:
            s['wfaults'] = {str(c['proc']): [f]}
    gate, fl = common.gate_for(s)
    out = run.spawn(world.stage_dist, spec['dist'], feat, gate=gate,
                    faults=faults + fl, tag='g')
    how = '%s of process %s' % (c['kind'], c['proc'])
    check(run, out, how, want)
    if c.get('again') and not run.violations and out.status != 'ok':
        # the user, or a scheduler, starts it again
        if os.path.exists(os.path.join(run.root, 'd.score')):
            os.unlink(os.path.join(run.root, 'd.score'))
        gate, fl = common.gate_for(dict(spec, kills=[], wfaults={}))
        out = run.spawn(world.stage_dist, spec['dist'], feat, gate=gate,
                        faults=fl, tag='h')
        check(run, out, how + ' then a new start', want)
    run.sig(c['kind'], c['proc'] if c['proc'] in (0, 'all') else 'w',
            int(c['at'] * 50), out.status, len(spec['task']['rows']))


def check(run, out, how, want):
    if out.status == 'hang':
        run.violate('hang', '%s: the computation never ends' % how)
        return
    got = run.ok(world.attempt, world.read_dist)
    ok = got[0] == 'ok' and len(got[1]['data']) == len(want) and \
        not common.diff(got[1]['data'], want)
    state = 'absent' if not run.ok(world.exists, 'd.distance') else \
        'unreadable' if got[0] != 'ok' else \
        'done' if got[1]['done'] else \
        'unmarked' if got[1]['done'] is None else 'not done'
    run.note('left ' + state + (' complete' if ok else ''))
    if state == 'done' and not ok:
        run.violate('marked', '%s: the file is marked as done but %d of its '
                    '%d distances are wrong' % (how, len(common.diff(
                        got[1]['data'], want)), len(want)))
        return
    if out.status == 'ok' and not (ok and state == 'done'):
        run.violate('silent', '%s: the computation returned, leaving a file '
                    'that is %s' % (how, state))
        return
    if state == 'absent':
        return
    sc = run.spawn(world.stage_score, tag='s')
    if sc.status == 'hang':
        run.violate('hang', '%s: scoring what was left never ends' % how)
    elif sc.status == 'ok' and not ok:
        run.violate('scored', '%s: the file left (%s) is scored although '
                    'distances are missing' % (how, state))
    elif sc.status != 'ok' and state == 'done':
        run.violate('refused', '%s: the complete file is refused: %s' % (
            how, sc.brief()))


def shrink(spec):
    if len(spec['crashes']) > 1:
        for c in gen.chunks_removed(spec['crashes']):
            yield dict(spec, crashes=c)
    for i, c in enumerate(spec['crashes']):
        if c.get('again'):
            d = dict(c)
            d.pop('again')
            yield dict(spec, crashes=spec['crashes'][:i] + [d] +
                       spec['crashes'][i + 1:])
    for s in common.shrink(spec):
        yield s
