"""C11: a stage that meets an I/O error either fails or still produces the
right result; it never returns leaving a wrong or incomplete file."""
import os

from .. import actor, gen, osim, world
from . import common

COUNT = {'quick': 260, 'thorough': 6000}
OUT = {'task': 'd.abx', 'dist': 'd.distance', 'score': 'd.score',
       'analyze': 'd.csv'}


def make(rng, i, tier):
    t = gen.task(rng, hi=rng.choice([8, 16, 30, 60]), cap=1500,
                 threshold=rng.random() < 0.25)
    spec = {'task': t, 'feats': gen.feats(rng, t),
            'dist': {'fn': 'code', 'n_cpu': 1},
            'stage': rng.choice(['task'] * 5 + ['dist', 'dist', 'score',
                                                'score', 'analyze']),
            'knobs': gen.knobs(rng) if rng.random() < 0.7 else {},
            'errs': []}
    if rng.random() < 0.3:
        # chunks that HDF5 does not cache: the disk is written at once
        spec['knobs'].update(wbuf=rng.choice([0.03, 0.25, 5]), chunk=1100)
    for _ in range(10):
        op = rng.choice(['write'] * 5 + ['read', 'open', 'trunc', 'close',
                                         'unlink', 'rename', 'mkdir'])
        e = {'ops': op, 'at': rng.random(),
             'arg': rng.choice(gen.ERRNOS.get(op, ['EACCES', 'EIO']))}
        if rng.random() < 0.25:
            e['at'] = 1 - 0.1 * e['at']
        if op == 'write' and rng.random() < 0.3:
            e.update(ops='write|trunc', arg='ENOSPC')
        if rng.random() < 0.35:
            e['count'] = -1
        elif rng.random() < 0.2:
            e['count'] = rng.choice([2, 5, 20])
        if rng.random() < 0.5:
            e['where'] = rng.random()
            if rng.random() < 0.4:
                e.update(ops='read', arg=rng.choice(gen.ERRNOS['read']))
        spec['errs'].append(e)
    return spec


def stage(spec):
    k = spec['stage']
    if k == 'task':
        return world.stage_task, (spec['task'],), {'knobs': spec['knobs']}
    if k == 'dist':
        return world.stage_dist, (spec['dist'],), {}
    if k == 'score':
        return world.stage_score, (), {'knobs': spec['knobs']}
    return world.stage_analyze, (), {}


READ = {'task': world.read_task, 'dist': world.read_dist,
        'score': world.read_score, 'analyze': world.read_csv}


def prepare(spec, run):
    """Everything up to the stage of the scenario, without faults."""
    common.inputs(spec, run)
    if spec['stage'] == 'task':
        return
    run.ok(world.stage_task, spec['task'])
    if spec['stage'] == 'dist':
        return
    run.ok(world.stage_dist, spec['dist'])
    if spec['stage'] == 'score':
        return
    run.ok(world.stage_score)


def golden(spec, run):
    """The stage without faults: its result and its operations."""
    fn, args, kw = stage(spec)
    log = run.root + '.log'
    if os.path.exists(log):
        os.unlink(log)
    out = run.spawn(fn, *args, tag='g', seed=7, log=log, **kw)
    if out.status != 'ok':
        run.violate('failed', 'the %s stage %s without any fault' % (
            spec['stage'], out.brief()))
        return None, None
    return run.ok(READ[spec['stage']]), dict(
        out.sim['counts'], log=read_log(log))


def read_log(path):
    """[(operation, file, class of sizes)]"""
    out = []
    with open(path) as f:
        for line in f:
            w = line.split(' ')
            n = int(w[3][4:]) if w[1] in ('read', 'write') else 0
            out.append((w[1], w[2], n.bit_length() // 2))
    return out


def rule(e, counts):
    ops = osim.OPS if e['ops'] == 'all' else e['ops'].split('|')
    if 'where' in e:
        # each operation on a file as likely, however seldom it happens
        log = counts['log']
        what = sorted({k for k in log if k[0] in ops})
        if what:
            k = what[int(e['where'] * len(what))]
            at = [i for i, x in enumerate(log) if x == k]
            at = at[min(int(e['at'] * len(at)), len(at) - 1)]
            f = {'kind': e.get('kind', 'err'), 'ops': k[0], 'path': k[1],
                 'nth': sum(x[0] == k[0] and k[1] in x[1]
                            for x in log[:at])}
            for k in ('arg', 'count'):
                if k in e:
                    f[k] = e[k]
            return f
    n = sum(counts[o] for o in ops)
    f = {'kind': e.get('kind', 'err'), 'ops': e['ops'],
         'nth': int(e['at'] * n)}
    for k in ('arg', 'count'):
        if k in e:
            f[k] = e[k]
    return f


def run(spec, run):
    prepare(spec, run)
    snap = actor.snapshot(run.root)
    want, counts = golden(spec, run)
    if want is None:
        return
    fn, args, kw = stage(spec)
    for e in spec['errs']:
        actor.restore(run.root, snap)
        f = rule(e, counts)
        out = run.spawn(fn, *args, faults=[f], tag='g', seed=7, **kw)
        run.sig(spec['stage'], f['ops'], f['arg'], f.get('count'),
                int(e['at'] * 20), out.status, out.exc_type)
        what = '%s on %s%s #%d%s in the %s stage' % (
            f['arg'], f['ops'], f.get('path', '') and ' of ' + f['path'],
            f['nth'],
            '' if f.get('count', 1) == 1 else ' and after', spec['stage'])
        if out.status == 'hang':
            run.violate('hang', what + ': it never ends')
            return
        if out.status != 'ok':
            run.note('reported')
            if not out.sim or not out.sim['hits'][0]:
                if out.status == 'raise':
                    run.violate('failed', what + ': it %s although the error '
                                'was never injected' % out.brief())
                    return
            continue
        run.note('survived' if out.sim['hits'][0] else 'not reached')
        got = run.ok(world.attempt, READ[spec['stage']])
        if got != ('ok', want):
            run.violate('wrong', what + ': it returned but its output is %s'
                        % ('wrong' if got[0] == 'ok' else got[1]))
            return


def shrink(spec):
    if len(spec['errs']) > 1:
        for c in gen.chunks_removed(spec['errs']):
            yield dict(spec, errs=c)
    for i, e in enumerate(spec['errs']):
        if 'count' in e:
            d = dict(e)
            d.pop('count')
            yield dict(spec, errs=spec['errs'][:i] + [d] +
                       spec['errs'][i + 1:])
    for s in common.shrink(spec):
        yield s
