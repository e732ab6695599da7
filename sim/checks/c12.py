"""C12: what an interrupted stage leaves behind is never taken for its result:
it is absent, refused by what reads it, or complete; and starting again from
the same inputs gives the right result."""
import os

from .. import actor, gen, world
from . import c11, common

COUNT = {'quick': 200, 'thorough': 5000}
prepare, golden, stage, READ = c11.prepare, c11.golden, c11.stage, c11.READ


def make(rng, i, tier):
    t = gen.task(rng, hi=rng.choice([8, 16, 30, 60]), cap=1200,
                 threshold=rng.random() < 0.2)
    spec = {'task': t, 'feats': gen.feats(rng, t),
            'dist': {'fn': 'code', 'n_cpu': 1},
            'stage': rng.choice(['task'] * 4 + ['score'] * 3 + ['analyze'] * 2),
            'knobs': gen.knobs(rng) if rng.random() < 0.7 else {},
            'errs': []}
    for _ in range(5):
        kind = rng.choice(['crash', 'crash', 'crash_after', 'torn', 'torn',
                           'sigint', 'err', 'err'])
        e = {'kind': kind, 'at': rng.random(),
             'ops': rng.choice(['all', 'all', 'write|trunc', 'open|close'])}
        if rng.random() < 0.3:
            e['at'] = 1 - 0.15 * e['at']
        if kind == 'torn':
            e.update(ops='write', arg=rng.randrange(1000))
        if kind == 'err':
            op = rng.choice(['write', 'write', 'read', 'read', 'open'])
            e.update(ops=op, arg=rng.choice(gen.ERRNOS[op]))
            if rng.random() < 0.4:
                e['count'] = -1
        if rng.random() < 0.4:
            e['where'] = rng.random()
        if rng.random() < 0.25:
            e['again'] = True
        spec['errs'].append(e)
    return spec


rule = c11.rule


def run(spec, run):
    prepare(spec, run)
    snap = actor.snapshot(run.root)
    want, counts = golden(spec, run)
    if want is None:
        return
    csv = None
    if spec['stage'] == 'task':
        # what the rest of the pipeline makes of the task
        run.ok(world.stage_dist, spec['dist'])
        run.ok(world.stage_score)
    if spec['stage'] in ('task', 'score'):
        run.ok(world.stage_analyze)
        csv = run.ok(world.read_csv)
    fn, args, kw = stage(spec)
    for e in spec['errs']:
        actor.restore(run.root, snap)
        f = rule(e, counts)
        out = run.spawn(fn, *args, faults=[f], tag='g', seed=7, **kw)
        what = '%s%s at %s #%d of the %s stage' % (
            f['kind'], ' ' + f['arg'] if f['kind'] == 'err' else '',
            f['ops'], f['nth'], spec['stage'])
        run.sig(spec['stage'], f['kind'], f['ops'], int(e['at'] * 25),
                out.status, out.exc_type)
        if out.status == 'hang':
            run.violate('hang', what + ': it never ends')
            return
        left = judge(spec, run, what, want, csv)
        run.note('left ' + left)
        if run.violations:
            return
        if e.get('again'):
            again(spec, run, what, want, snap)
            if run.violations:
                return


def judge(spec, run, what, want, csv):
    out = c11.OUT[spec['stage']]
    if not run.ok(world.exists, out):
        return 'nothing'
    got = run.ok(world.attempt, READ[spec['stage']])
    if got == ('ok', want):
        return 'complete'
    if spec['stage'] == 'analyze':
        run.violate('partial', what + ': the results file is there but '
                    'incomplete')
        return 'partial'
    # the next stages are the judge
    rest = []
    if spec['stage'] == 'task':
        rest.append(('distances', world.stage_dist, (spec['dist'],)))
        rest.append(('score', world.stage_score, ()))
    rest.append(('analyze', world.stage_analyze, ()))
    for name, fn, args in rest:
        o = run.spawn(fn, *args)
        if o.status == 'hang' and got[0] == 'err':
            return 'something libhdf5 cannot read'
        if o.status == 'hang':
            run.violate('hang', what + ': the %s stage never ends on what it '
                        'left' % name)
            return 'hang'
        if o.status != 'ok':
            return 'refused by ' + name
    c = run.ok(world.attempt, world.read_csv)
    if c == ('ok', csv):
        # nothing a later stage uses is missing
        return 'usable'
    run.violate('taken', what + ': what it left is taken for a complete '
                'result by the next stages')
    return 'taken'


def again(spec, run, what, want, snap):
    """The user removes the outputs and starts again: nothing else that was
    left may matter."""
    for name in ('d.abx', 'd.distance', 'd.score', 'd.csv'):
        p = os.path.join(run.root, name)
        if name not in snap and os.path.exists(p):
            os.unlink(p)
    fn, args, kw = stage(spec)
    o = run.spawn(fn, *args, tag='g', seed=7, **kw)
    if o.status != 'ok':
        run.violate('again', what + ': started again, it ' + o.brief())
    elif run.ok(world.attempt, READ[spec['stage']]) != ('ok', want):
        run.violate('again', what + ': started again, its result is wrong')


shrink = c11.shrink
