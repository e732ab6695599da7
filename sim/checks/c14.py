"""C14: a stage leaves nothing behind but its output: no temporary file, no open
file, whether it succeeds or fails."""
import os

from .. import actor, gen, world
from . import c11, c15, common

COUNT = {'quick': 360, 'thorough': 8000}


def make(rng, i, tier):
    t = gen.task(rng, hi=rng.choice([8, 16, 30, 60]), cap=1200,
                 threshold=rng.random() < 0.2)
    spec = {'task': t, 'feats': gen.feats(rng, t),
            'dist': {'fn': 'poison', 'n_cpu': rng.choice([1, 1, 2, 3])},
            'stage': rng.choice(['task'] * 5 + ['sort'] * 3 + ['dist'] * 2 +
                                ['score'] * 2 + ['analyze'] * 2),
            'sched': gen.schedule(rng, 3),
            'tmpdir': rng.random() < 0.4,
            'knobs': gen.knobs(rng, heavy=True) if rng.random() < 0.7
            else {}, 'tries': []}
    if spec['stage'] == 'sort':
        spec['sort'] = c15.make(rng, i, tier)
        spec['sort']['faults'] = []
        if spec['sort']['n'] > 300:
            spec['sort'].update(n=300, rows=rng.choice([30, 70, 160]))
    for _ in range(5):
        k = rng.choice(['ok', 'benign', 'app', 'app', 'err', 'err', 'full',
                        'full'])
        e = {'kind': k}
        if k == 'benign':
            e['faults'] = gen.benign(rng)
        elif k == 'err':
            op = rng.choice(['write', 'write', 'read', 'read', 'trunc'])
            e.update(ops=op, at=rng.random(),
                     arg=rng.choice(gen.ERRNOS[op]))
            if rng.random() < 0.3:
                e['count'] = rng.choice([2, 5, -1])
        elif k == 'full':
            e.update(ops='write|trunc', at=rng.random(),
                     arg=rng.choice(['ENOSPC', 'EDQUOT']), count=-1)
        spec['tries'].append(e)
    return spec


def stage(spec):
    k = spec['stage']
    if k == 'task':
        return world.stage_task, (spec['task'],), {
            'knobs': spec['knobs'], 'tmpdir': 'mine' if spec.get('tmpdir')
            else None}
    if k == 'sort':
        return sort, (spec['sort'], 'mine' if spec.get('tmpdir') else None), {}
    if k == 'dist':
        return world.stage_dist, (spec['dist'],), {}
    if k == 'score':
        return world.stage_score, (), {'knobs': spec['knobs']}
    return world.stage_analyze, (), {}


def sort(s, tmpdir):
    """The external sort alone."""
    import ABXpy.h5tools.h5_handler as h5_handler
    import inspect
    f = h5_handler.H5Handler.sort
    if tmpdir and 'tmpdir' in inspect.signature(f).parameters:
        def to(self, *a, **k):
            k.setdefault('tmpdir', tmpdir)
            return f(self, *a, **k)
        h5_handler.H5Handler.sort = to
    c15.sort(s)


OUTPUT = {'task': ['d.abx', 'd-removed.item'], 'sort': ['s.h5'], 'dist': ['d.distance'],
          'score': ['d.score'], 'analyze': ['d.csv']}


def run(spec, run):
    common.inputs(spec, run)
    if spec['stage'] == 'sort':
        run.ok(c15.prepare, spec['sort'])
    elif spec['stage'] != 'task':
        run.ok(world.stage_task, spec['task'])
        if spec['stage'] != 'dist':
            run.ok(world.stage_dist, dict(spec['dist'], n_cpu=1))
        if spec['stage'] == 'analyze':
            run.ok(world.stage_score)
    os.mkdir(os.path.join(run.root, 'mine'))
    snap = actor.snapshot(run.root)
    fn, args, kw = stage(spec)
    o = {'tag': 'g', 'seed': 7}
    counts = None
    for e in [{'kind': 'ok'}] + spec['tries']:
        actor.restore(run.root, snap)
        os.mkdir(os.path.join(run.root, 'mine'))
        faults = list(e.get('faults', ()))
        what = 'the %s stage' % spec['stage']
        a = args
        if e['kind'] == 'app':
            a, what = break_inputs(spec, run, args, what)
        elif e['kind'] in ('err', 'full'):
            f = c11.rule(dict(e, kind='err'), counts)
            faults = [f]
            what += ' meeting %s on %s #%d' % (f['arg'], f['ops'], f['nth'])
        gate = None
        if spec['stage'] == 'dist' and spec['dist']['n_cpu'] > 1:
            gate, _ = common.gate_for(spec)
        before = set(walk(run.root))
        out = run.spawn(fn, *a, faults=faults, gate=gate, want_fds=True, **dict(
            kw, **o))
        if counts is None:
            if out.status != 'ok':
                run.violate('failed', '%s %s without any fault' % (
                    what, out.brief()))
                return
            counts = out.sim['counts']
        if out.status not in ('ok', 'raise'):
            run.note('ended otherwise: ' + out.brief())   # another property
            continue
        run.note('returned' if out.status == 'ok' else 'failed')
        run.sig(spec['stage'], e['kind'], e.get('ops'), out.status,
                out.exc_type, int(e.get('at', 0) * 20))
        left = set(walk(run.root)) - before - set(OUTPUT[spec['stage']])
        if left:
            run.violate('left', '%s %s, leaving %s behind' % (
                what, out.brief(), sorted(left)))
            return
        if e['kind'] not in ('err', 'full') and out.fds:
            run.violate('open', '%s %s, leaving %s open' % (
                what, out.brief(), out.fds))
            return


def walk(root):
    for d, dirs, files in os.walk(root):
        for f in files + dirs:
            yield os.path.relpath(os.path.join(d, f), root)


def break_inputs(spec, run, args, what):
    """An ordinary failure: inputs that do not fit."""
    k = spec['stage']
    what += ' given inputs that do not fit'

    def lose(name):
        os.unlink(os.path.join(run.root, name))

    if k == 'task':
        run.ok(touch, 'd.abx')
    elif k == 'sort':
        run.ok(spoil, 's.h5')
    elif k == 'dist':
        lose('d.features')
        names = [f[0] for f in spec['feats']['files']]
        fs = dict(spec['feats'], files=[['nothing', 5, 1]] if
                  len(names) < 2 else spec['feats']['files'][1:])
        run.ok(world.write_features, fs)
    elif k == 'score':
        run.ok(spoil_distances)
    else:
        run.ok(spoil_scores)
    return args, what


def touch(p):
    with open(p, 'w') as f:
        f.write('mine')


def spoil(p):
    """The datasets to sort do not have the same number of rows."""
    import h5py
    with h5py.File(p, 'a') as f:
        for g in ('k', 'v'):
            if g in f and len(f[g]):
                del f[g]


def spoil_distances():
    import h5py
    with h5py.File('d.distance', 'a') as f:
        del f['distances/data']


def spoil_scores():
    import h5py
    with h5py.File('d.score', 'a') as f:
        del f['scores']


def shrink(spec):
    if len(spec['tries']) > 1:
        for c in gen.chunks_removed(spec['tries']):
            yield dict(spec, tries=c)
    for s in common.shrink_flags(spec, 'tmpdir'):
        yield s
    if 'sort' in spec:
        for s in c15.shrink(spec['sort']):
            yield dict(spec, sort=s)
    for s in common.shrink(spec):
        yield s
