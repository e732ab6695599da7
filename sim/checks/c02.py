"""C02: whatever fails while the distances are computed, the computation ends
with an error and the file it leaves is not taken for a complete one."""
from .. import gen, ref, world
from . import common

COUNT = {'quick': 700, 'thorough': 9000}
KINDS = ['poison', 'poison', 'missing', 'worker_err', 'worker_err',
         'worker_err', 'main_err', 'kill', 'kill', 'kill', 'full']


def make(rng, i, tier):
    t = gen.task(rng, hi=rng.choice([10, 16, 24]), cap=600, filters=False,
                 files=rng.choice([2, 3]))
    n_cpu = rng.choice([1, 2, 2, 3, 3, 4, 5])
    kind = rng.choice(KINDS)
    spec = {'task': t, 'feats': gen.feats(rng, t), 'what': kind,
            'dist': {'fn': 'poison', 'n_cpu': n_cpu,
                     'normalized': rng.choice([None, 0, 1])},
            'sched': gen.schedule(rng, n_cpu),
            'faults': [], 'wfaults': {}, 'kills': []}
    if rng.random() < 0.3:
        spec['dist']['block_mb'] = rng.choice([1, 3, 10]) * 8e-6
    if rng.random() < 0.4:
        spec['nolock'] = True
    if kind == 'worker_err' and n_cpu == 1:
        kind = spec['what'] = 'main_err'
    if kind == 'kill' and n_cpu == 1:
        spec['dist']['n_cpu'] = 2
    if kind == 'poison':
        # which item makes the distance function raise
        spec['poison'] = rng.randrange(1 << 20)
        spec['raise'] = rng.randrange(len(world.POISONS))
    elif kind == 'missing':
        spec['missing'] = rng.randrange(1 << 20)
    elif kind == 'worker_err':
        for _ in range(rng.choice([1, 1, 2])):
            spec['wfaults'].setdefault(
                str(rng.randrange(1, n_cpu + 1)), []).append(err(rng, 120))
    elif kind == 'main_err':
        spec['faults'] = [err(rng, 160 if n_cpu == 1 else 70)]
    elif kind == 'full':
        # the disk is full from some point on, for everybody
        f = {'kind': 'err', 'ops': 'write|trunc', 'arg': 'ENOSPC',
             'nth': rng.randrange(12), 'count': -1, 'w': 1}
        spec['faults'] = [dict(f)]
        spec['wfaults'] = {str(k): [dict(f, nth=rng.randrange(6))]
                           for k in range(1, n_cpu + 1)}
    elif kind == 'kill':
        for _ in range(rng.choice([1, 1, 1, 2])):
            spec['kills'].append({
                'proc': rng.randrange(1, spec['dist']['n_cpu'] + 1),
                'at': rng.choice([0, rng.randrange(20), rng.randrange(130)])})
    return spec


def err(rng, top):
    op = rng.choice(['write', 'write', 'read', 'open', 'trunc', 'close'])
    f = {'kind': 'err', 'ops': op, 'arg': rng.choice(gen.ERRNOS[op]),
         'nth': rng.randrange(rng.choice([4, 12, top]))}
    if rng.random() < 0.3:
        f['count'] = -1
    return f


def write_poisoned(spec):
    """Features in which one item holds the value that makes the distance
    function raise; its frames belong to no smaller set of items."""
    import h5features
    fs = poisoned(spec)
    names = [f[0] for f in spec['feats']['files']]
    h5features.write('d.features', 'features', names,
                     [fs[n][0] for n in names], [fs[n][1] for n in names])
    return fs


def poisoned(spec):
    fs = world.make_features(spec['feats'])
    row = spec['task']['rows'][spec['poison'] % len(spec['task']['rows'])]
    t, x = fs[str(row[0])]
    x[(t >= float(row[1])) & (t <= float(row[2]))] = world.POISON_VALUE + \
        spec.get('raise', 0)
    return fs


def must_fail(spec, tk):
    """Does the scenario make a correct computation impossible?"""
    bl = ref.blocks(spec['task'])
    fs = poisoned(spec) if spec['what'] == 'poison' else None
    gone = None
    if spec['what'] == 'missing':
        names = [f[0] for f in spec['feats']['files']]
        gone = names[spec['missing'] % len(names)]
    for b in tk['bys']:
        d = tk['by'][b]
        for i in {k for p in d['pairs']
                  for k in (p % d['base'], p // d['base'])}:
            loc = bl[b].rows[i]['#loc']
            if gone is not None and loc[0] == gone:
                return True
            if fs is not None and (ref.frames(spec['task'], fs, loc) >=
                                   world.POISON_VALUE).any():
                return True
    return False


def judge(run, spec, out, want, fatal, tk, gate=None):
    """The verdict on a finished computation and the file it left."""
    where = ', '.join(map(str, gate.blocked_at_end)) if gate else ''
    if out.status == 'hang':
        run.violate('hang', '%s: the computation never ends (%s)' % (
            spec['what'], where))
        return
    got = run.ok(world.attempt, world.read_dist)
    right = want is not None and got[0] == 'ok' and \
        len(got[1]['data']) == len(want) and \
        not common.diff(got[1]['data'], want)
    if out.status == 'ok':
        run.note('survived')
        if fatal:
            run.violate('silent', '%s: the computation returned although it '
                        'could not compute every distance' % spec['what'])
        elif not right:
            run.violate('wrong', '%s: the computation returned but its file '
                        'is %s' % (spec['what'], 'wrong' if got[0] == 'ok'
                                   else 'unreadable: ' + got[1]))
        elif got[1]['done'] is not True:
            run.violate('unmarked', '%s: complete but not marked as done' %
                        spec['what'])
        return
    run.note('reported')
    if got[0] == 'ok' and got[1]['done'] and not right:
        run.violate('marked', '%s: the computation %s but left a file marked '
                    'as done' % (spec['what'], out.brief()))
        return
    # what counts: the next stage must not take it for complete
    if not run.ok(world.exists, 'd.distance'):
        return
    sc = run.spawn(world.stage_score)
    if sc.status == 'ok' and not right:
        run.violate('scored', '%s: the computation %s, yet scoring the file '
                    'it left succeeded' % (spec['what'], out.brief()))
    elif sc.status == 'hang':
        run.violate('hang', 'scoring the file that was left never ends')


def run(spec, run):
    common.require_valid(spec)
    run.ok(world.write_items, spec['task'])
    if spec['what'] == 'poison':
        run.ok(write_poisoned, spec)
    elif spec['what'] == 'missing':
        names = [f[0] for f in spec['feats']['files']]
        gone = names[spec['missing'] % len(names)]
        keep = [n for n in names if n != gone]
        run.ok(world.write_features, spec['feats'], 'd.features',
               keep or None)
        if not keep:
            spec = dict(spec, what='none')
    else:
        run.ok(world.write_features, spec['feats'])
    tk = common.task_file(spec, run)
    fatal = spec['what'] in ('poison', 'missing') and must_fail(spec, tk)
    want = None if fatal else common.expected_distances(spec, tk)
    if not fatal and spec['what'] == 'poison':
        want = None
        fatal = False
        spec = dict(spec, what='unused poison')
        want = expected_poisoned(spec, tk)
    gate, fl = common.gate_for(spec)
    out = run.spawn(world.stage_dist, spec['dist'], gate=gate,
                    faults=list(spec.get('faults', [])) + fl)
    run.sig(spec['what'], out.status, out.exc_type, run.traces[-1][1])
    if spec['what'] in ('unused poison', 'none') and out.status != 'ok':
        run.violate('failed', 'the computation %s although nothing was wrong'
                    % out.brief())
        return
    if out.status != 'ok' and spec['what'] not in ('poison', 'missing') and \
            not run.faults.keys() - {'ENOSYS:flock'}:
        # no injected fault was reached
        if not hit(gate, out):
            run.violate('failed', 'the computation %s although no fault was '
                        'injected' % out.brief())
            return
    judge(run, spec, out, want, fatal, tk, gate)


def hit(gate, out):
    """Faults of workers that died with their counters."""
    return bool(gate.kill_hits) or len(gate.worker_stats) + 1 < \
        len(gate.procs) or out.status == 'signal'


def expected_poisoned(spec, tk):
    feats = poisoned(spec)
    fn = world.dist_code
    kw = common.norm_kw(spec['dist'].get('normalized'))
    out = [None] * tk['n_pairs']
    bl = ref.blocks(spec['task'])
    for b in tk['bys']:
        d = tk['by'][b]
        for n, p in enumerate(d['pairs']):
            x, y = (ref.frames(spec['task'], feats, bl[b].rows[i]['#loc'])
                    for i in (p % d['base'], p // d['base']))
            out[d['range'][0] + n] = float(fn(x, y, **kw))
    return out


def shrink(spec):
    if spec.get('raise'):
        yield dict(spec, **{'raise': 0})
    for s in common.shrink(spec):
        yield s
