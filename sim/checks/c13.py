"""C13: no stage modifies what it reads, whatever happens to it, and stages that
share inputs can run at the same time."""
import hashlib
import os

from .. import actor, gen, world
from . import c11, common

COUNT = {'quick': 400, 'thorough': 6000}


def make(rng, i, tier):
    t = gen.task(rng, hi=rng.choice([8, 12, 20]), cap=400)
    spec = {'task': t, 'feats': gen.feats(rng, t), 'kind': 'together',
            'dist': {'fn': 'code', 'n_cpu': 1}, 'knobs': {}, 'faults': []}
    if rng.random() < 0.35:
        # one stage alone, failing somewhere
        spec['kind'] = 'alone'
        spec['stage'] = rng.choice(['task', 'dist', 'score', 'analyze',
                                    'verify'])
        spec['knobs'] = gen.knobs(rng)
        spec['errs'] = []
        for _ in range(4):
            e = {'kind': rng.choice(['err', 'err', 'crash', 'torn', 'sigint',
                                     'short']),
                 'at': rng.random(),
                 'ops': rng.choice(['write', 'read', 'open', 'close'])}
            if e['kind'] == 'err':
                e['arg'] = rng.choice(gen.ERRNOS[e['ops']])
            if e['kind'] == 'torn':
                e.update(ops='write', arg=rng.randrange(1000))
            if e['kind'] == 'short':
                e.update(ops='write', arg=rng.randrange(1000), count=-1)
            spec['errs'].append(e)
        return spec
    n = rng.choice([2, 2, 3, 4])
    spec['jobs'] = [rng.choice(['dist', 'dist', 'score', 'score', 'analyze',
                                'task', 'verify']) for _ in range(n)]
    spec['sched'] = gen.schedule(rng, n)
    if rng.random() < 0.3:
        spec['nolock'] = True
    spec['names'] = rng.choice(['flat', 'dirs', 'dirs', 'stem'])
    if rng.random() < 0.5:
        spec['tmpdir'] = 'scratch'
    return spec


def output(spec, k):
    """The output of a job; those of several jobs may differ by their
    directory or their extension only."""
    names = spec.get('names', 'flat')
    return {'flat': 'o%d', 'dirs': 'dir%d/out.h5', 'stem': 'out.o%d'}[
        names] % k


# ---- in the actors -------------------------------------------------------------
def directories(spec):
    if spec.get('names') == 'dirs':
        for k in range(len(spec['jobs'])):
            os.makedirs('dir%d' % k, exist_ok=True)
    if spec.get('tmpdir'):
        os.makedirs(spec['tmpdir'], exist_ok=True)


FNS = ['code', 'unique', 'code', 'unique']


def stage_verify():
    import ABXpy.verify
    ABXpy.verify.check('d.item', 'd.features')


def child(k, job, spec):
    import traceback
    o = output(spec, k)
    try:
        if job == 'dist':
            world.stage_dist({'fn': FNS[k], 'n_cpu': 1}, out=o)
        elif job == 'score':
            world.stage_score(out=o)
        elif job == 'analyze':
            world.stage_analyze(out=o)
        elif job == 'task':
            world.stage_task(spec['task'], out=o,
                             tmpdir=spec.get('tmpdir'))
        else:
            stage_verify()
        res = 'ok'
    except BaseException as e:
        res = 'raised %s: %s' % (type(e).__name__, str(e)[:200])
        traceback.print_exc()
    with open('r%d' % k, 'w') as f:
        f.write(res)


def together(spec):
    import multiprocessing
    ps = [multiprocessing.Process(target=child, args=(k, j, spec))
          for k, j in enumerate(spec['jobs'])]
    for p in ps:
        p.start()
    for p in ps:
        p.join()


def results(n):
    out = []
    for k in range(n):
        try:
            with open('r%d' % k) as f:
                out.append(f.read())
        except IOError:
            out.append('never ended')
    return out


# ---- in the director -----------------------------------------------------------
def digests(run):
    """Every file but the temporary ones."""
    return {k: hashlib.sha256(v).hexdigest()
            for k, v in actor.snapshot(run.root).items()
            if k.split(os.sep)[0] not in ('tmp', 'scratch')}


def untouched(run, before, own, what, partial=False):
    """Nothing changed but the files of own; partial: those of its work may
    be there too."""
    after = digests(run)
    for n in sorted(before):
        if n not in own and after.get(n) != before[n]:
            run.violate('modified', '%s: %s was %s' % (
                what, n, 'removed' if n not in after else 'modified'))
            return
    new = [n for n in sorted(after) if n not in before and n not in own and
           n != 'd-removed.item' and not (
               partial and any(n.startswith(o) for o in own))]
    if new:
        run.violate('created', '%s: it created %s' % (what, ', '.join(new)))


def run(spec, run):
    if spec['kind'] == 'alone':
        return alone(spec, run)
    common.inputs(spec, run)
    tk = common.task_file(spec, run)
    run.ok(world.stage_dist, spec['dist'])
    run.ok(world.stage_score)
    run.ok(world.stage_analyze)
    want = {'score': run.ok(world.read_score), 'csv': run.ok(world.read_csv),
            'task': run.ok(world.read_task)}
    os.unlink(os.path.join(run.root, 'd.csv'))
    before = digests(run)
    run.ok(directories, spec)
    gate, fl = common.gate_for(spec)
    out = run.spawn(together, spec, gate=gate, faults=fl)
    run.sig(sorted(spec['jobs']), run.traces[-1][0])
    what = 'running %s at the same time' % ', '.join(spec['jobs'])
    if out.status == 'hang':
        run.violate('hang', what + ' never ends')
        return
    if out.status != 'ok':
        run.violate('failed', what + ' ' + out.brief())
        return
    for k, (job, res) in enumerate(zip(spec['jobs'],
                                       run.ok(results, len(spec['jobs'])))):
        if res != 'ok':
            run.violate('failed', '%s: the %s stage %s' % (what, job, res))
            return
        o = output(spec, k)
        if job == 'dist':
            s = dict(spec, dist={'fn': FNS[k], 'n_cpu': 1})
            exp = common.expected_distances(s, tk)
            got = run.ok(world.attempt, world.read_dist, o)
            ok = got[0] == 'ok' and got[1]['done'] and \
                len(got[1]['data']) == len(exp) and \
                not common.diff(got[1]['data'], exp)
        elif job == 'score':
            ok = run.ok(world.attempt, world.read_score, o) == \
                ('ok', want['score'])
        elif job == 'analyze':
            ok = run.ok(world.attempt, world.read_csv, o) == \
                ('ok', want['csv'])
        elif job == 'task':
            ok = run.ok(world.attempt, world.read_task, o) == \
                ('ok', want['task'])
        else:
            ok = True
        if not ok:
            run.violate('wrong', '%s: the %s stage is wrong' % (what, job))
            return
    untouched(run, before, [output(spec, k) for k in range(len(
        spec['jobs']))] + ['r%d' % k for k in range(len(spec['jobs']))], what)


def alone(spec, run):
    st = spec['stage']
    c11.prepare(dict(spec, stage='task' if st == 'verify' else st), run)
    snap = actor.snapshot(run.root)
    before = digests(run)
    own = [c11.OUT[st]] if st in c11.OUT else []
    if st == 'verify':
        fn, args, kw = stage_verify, (), {}
    else:
        fn, args, kw = c11.stage(spec)
    out = run.spawn(fn, *args, tag='g', seed=7, **kw)
    if out.status != 'ok':
        run.violate('failed', 'the %s stage %s' % (st, out.brief()))
        return
    untouched(run, before, own, 'the %s stage' % st)
    counts = out.sim['counts']
    for e in spec['errs']:
        if run.violations:
            return
        actor.restore(run.root, snap)
        f = c11.rule(e, counts)
        out = run.spawn(fn, *args, faults=[f], tag='g', seed=7, **kw)
        run.sig(st, f['kind'], f['ops'], int(e['at'] * 20), out.status)
        untouched(run, before, own, '%s on %s #%d of the %s stage' % (
            f['kind'], f['ops'], f['nth'], st), True)


def shrink(spec):
    if spec.get('names', 'flat') != 'flat':
        yield dict(spec, names='flat')
    for s in common.shrink_flags(spec, 'tmpdir'):
        yield s
    for key in ('errs', 'jobs'):
        if len(spec.get(key, ())) > 1:
            for c in gen.chunks_removed(spec[key]):
                if c:
                    yield dict(spec, **{key: c})
    for s in common.shrink(spec):
        yield s
