"""C18: what exists is never silently altered: over any history of runs, failed
runs and starts over, the functions refuse an existing output and leave it as
it is, and the commands replace it as a whole."""
import hashlib
import os

from .. import actor, gen, world
from . import c11, c19, common

COUNT = {'quick': 300, 'thorough': 6000}
OUT = c11.OUT
ORDER = ['task', 'dist', 'score', 'analyze']


def make(rng, i, tier):
    """Two experiments A and B in one directory, and a history of runs."""
    ts = [gen.task(rng, hi=rng.choice([8, 12, 16]), cap=300, na=0.6,
                   threshold=rng.random() < 0.15) for _ in range(2)]
    spec = {'tasks': [{'task': t, 'feats': gen.feats(rng, t)} for t in ts],
            'fns': [rng.choice(['code', 'unique']) for _ in range(2)],
            'steps': [], 'faults': []}
    for _ in range(rng.choice([6, 9, 12])):
        spec['steps'].append(step(rng))
    # most histories build something first
    spec['steps'][:0] = [{'do': 'run', 'stage': s, 'exp': 0, 'cli': False}
                         for s in ORDER[:rng.choice([0, 1, 2, 3, 4, 4])]]
    if rng.random() < 0.4:
        p = {'do': 'plant', 'stage': rng.choice(ORDER),
             'what': rng.choice(['empty', 'empty', 'text', 'h5', 'cut'])}
        at = rng.randrange(len(spec['steps']) + 1)
        spec['steps'][at:at] = [p, {'do': 'run', 'stage': p['stage'],
                                    'exp': 0, 'cli': rng.random() < 0.4}]
    return spec


def step(rng):
    r = rng.random()
    s = {'do': 'run', 'stage': rng.choice(ORDER), 'exp': rng.randrange(2),
         'cli': rng.random() < 0.4}
    if r < 0.12:
        return {'do': 'remove', 'stage': s['stage']}
    if r < 0.15:
        return {'do': 'plant', 'stage': s['stage'],
                'what': rng.choice(['empty', 'empty', 'text', 'h5', 'cut'])}
    if r < 0.24:
        s['out'] = 'other'
    if r > 0.8:
        s['fault'] = {'kind': rng.choice(['err', 'err', 'crash', 'sigint']),
                      'ops': rng.choice(['write', 'read', 'open']),
                      'at': rng.random()}
        if s['fault']['kind'] == 'err':
            s['fault']['arg'] = rng.choice(gen.ERRNOS[s['fault']['ops']])
        s['fault']['nth'] = rng.randrange(rng.choice([3, 20, 120]))
    return s


def names(spec, s):
    e = 'e%d' % s['exp']
    pre = 'other' if s.get('out') else 'd'
    return {'item': e + '.item', 'features': e + '.features',
            'abx': pre + '.abx', 'distance': pre + '.distance',
            'score': pre + '.score', 'csv': pre + '.csv', 'pre': pre}


def output(spec, s):
    return names(spec, s)['pre'] + OUT[s['stage']][1:]


def perform(spec, s):
    """One run of a stage; in the actor."""
    n = names(spec, s)
    x = spec['tasks'][s['exp']]
    fn = spec['fns'][s['exp']]
    k = s['stage']
    if not s['cli']:
        if k == 'task':
            world.stage_task(x['task'], n['item'], n['abx'])
        elif k == 'dist':
            world.stage_dist({'fn': fn, 'n_cpu': 1}, n['features'], n['abx'],
                             n['distance'])
        elif k == 'score':
            world.stage_score(n['abx'], n['distance'], n['score'])
        else:
            world.stage_analyze(n['abx'], n['score'], n['csv'])
        return
    if k == 'task':
        a = c19.task_argv({'task': x['task'], 'order': 0})
        a = [n['item'] if v == 'd.item' else n['abx'] if v == 'd.abx' else
             n['item'][:-5] + v[1:] if v.startswith('d-filter') else v
             for v in a]
        c19.main('ABXpy.task', a)
    elif k == 'dist':
        c19.write_own()
        c19.main('ABXpy.distance', [n['features'], n['abx'], n['distance'],
                                    '-d', 'mydistances.' + fn])
    elif k == 'score':
        c19.main('ABXpy.score', [n['abx'], n['distance'], n['score']])
    else:
        c19.main('ABXpy.analyze', [n['score'], n['abx'], n['csv']])


READ = {'task': world.read_task, 'dist': world.read_dist,
        'score': world.read_score, 'analyze': world.read_csv}


def state(root):
    out = {}
    for f in sorted(os.listdir(root)):
        p = os.path.join(root, f)
        if os.path.isfile(p) and f != 'mydistances.py':
            with open(p, 'rb') as h:
                out[f] = hashlib.sha256(h.read()).hexdigest()
    return out


def run(spec, run):
    for k, x in enumerate(spec['tasks']):
        common.require_valid(x)
        run.ok(world.write_items, x['task'], 'e%d.item' % k)
        run.ok(world.write_features, x['feats'], 'e%d.features' % k)
    for n, s in enumerate(spec['steps']):
        one(spec, run, n, s)
        if run.violations:
            return


def plant(out, what):
    """The output is something that ABXpy did not write."""
    import h5py
    if what == 'cut':
        size = os.path.getsize(out) if os.path.exists(out) else 0
        with open(out, 'ab') as f:
            f.truncate(size // 2)
    elif what == 'h5':
        if os.path.exists(out):
            os.unlink(out)
        with h5py.File(out, 'w') as f:
            f['mine/data'] = [[1, 2], [3, 4]]
    else:
        with open(out, 'w') as f:
            f.write('' if what == 'empty' else 'not yours\n' * 7)


def one(spec, run, n, s):
    if s['do'] == 'remove':
        p = os.path.join(run.root, OUT[s['stage']])
        if os.path.exists(p):
            os.unlink(p)
        return
    if s['do'] == 'plant':
        run.ok(plant, OUT[s['stage']], s['what'])
        return
    out = output(spec, s)
    what = 'step %d, %s %s of experiment %d to %s' % (
        n, 'command' if s['cli'] else 'function', s['stage'], s['exp'], out)
    before = state(run.root)
    snap = actor.snapshot(run.root)
    o = {'tag': 'g', 'seed': 7}
    faults = []
    if s.get('fault'):
        f = s['fault']
        faults = [{a: f[a] for a in ('kind', 'ops', 'nth', 'arg') if a in f}]
    r = run.spawn(perform, spec, s, faults=faults, **o)
    after = state(run.root)
    run.sig(s['stage'], s['cli'], out in before, r.status, r.exc_type,
            bool(faults))
    # nothing but the output of the stage changes
    mine = {out, 'e%d-removed.item' % s['exp'], out + '.part'}
    other = [f for f in set(before) | set(after) if f not in mine and
             before.get(f) != after.get(f)]
    if other:
        run.violate('other', '%s: it %s and changed %s' % (
            what, r.brief(), sorted(other)))
        return
    if r.status == 'hang':
        run.violate('hang', what + ': it never ends')
        return
    existed = out in before
    if existed and not s['cli'] and s['stage'] != 'analyze':
        run.note('refused' if r.status != 'ok' else 'accepted')
        if r.status == 'ok':
            run.violate('accepted', '%s: it returned although its output '
                        'existed' % what)
        elif before[out] != after.get(out):
            run.violate('altered', '%s: it %s, and its existing output %s' % (
                what, r.brief(), 'changed' if out in after else
                'disappeared'))
        return
    if r.status != 'ok':
        run.note('failed')
        return
    if faults and r.sim['hits'][0]:
        run.note('survived')
    # the result is the one an empty directory gives
    if not run.ok(world.exists, out):
        run.violate('absent', what + ': it returned without an output')
        return
    got = run.ok(world.attempt, READ[s['stage']], out)
    run.note('replaced' if existed else 'created')
    snap2 = actor.snapshot(run.root)
    mine = {out}
    if s['stage'] == 'task':
        mine.add('e%d-removed.item' % s['exp'])
    actor.restore(run.root, {f: b for f, b in snap.items() if f not in mine})
    r2 = run.spawn(perform, spec, s, **o)
    alone = run.ok(world.attempt, READ[s['stage']], out) \
        if r2.status == 'ok' else ('failed', r2.brief())
    new = state(run.root)
    changed = [f for f in sorted(mine) if f != out and
               new.get(f) != after.get(f)]
    actor.restore(run.root, snap2)
    if got == alone and changed:
        run.violate('mixed', '%s: %s is not the one obtained without the '
                    'existing outputs' % (what, ', '.join(changed)))
        return
    if got != alone:
        run.violate('mixed', '%s: the result is not the one obtained without '
                    'the existing output (%s)' % (
                        what, 'different' if alone[0] == 'ok' else alone[1]))


def shrink(spec):
    for c in gen.chunks_removed(spec['steps']):
        if c:
            yield dict(spec, steps=c)
    for i, s in enumerate(spec['steps']):
        for k in ('fault', 'out'):
            if k in s:
                d = {a: b for a, b in s.items() if a != k}
                yield dict(spec, steps=spec['steps'][:i] + [d] +
                           spec['steps'][i + 1:])
    for i, x in enumerate(spec['tasks']):
        for y in gen.shrink_common(x):
            t = list(spec['tasks'])
            t[i] = y
            yield dict(spec, tasks=t)
