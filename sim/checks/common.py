"""Shared pieces of the checks: set-up of a scenario and oracles."""
import collections

from .. import gen, ref, sched, world
from ..actor import HarnessError


def require_valid(spec):
    why = gen.valid(spec['task'], 10 ** 7)
    if why:
        raise HarnessError('invalid scenario: ' + why)


def inputs(spec, run):
    """Item file and features file(s); returns the features argument."""
    require_valid(spec)
    run.ok(world.write_items, spec['task'])
    if 'feats' not in spec:
        return None
    if spec.get('split') and len(spec['feats']['files']) > 1:
        names = [f[0] for f in spec['feats']['files']]
        feat = []
        for k, part in enumerate((names[::2], names[1::2])):
            run.ok(world.write_features, spec['feats'], 'd%d.features' % k,
                   part)
            feat.append('d%d.features' % k)
        return feat
    run.ok(world.write_features, spec['feats'])
    return 'd.features'


def task_past(rng):
    """What may be asked of a Task object before the triplets."""
    out = {}
    if rng.random() < 0.2:
        out['past'] = [rng.choice(['print', 'full print', None, 1, 2, 5])
                       for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.15:
        out['verbose'] = True
    if rng.random() < 0.3:
        out['out'] = None       # the default name
    return out


def task_file(spec, run):
    run.ok(world.stage_task, spec['task'])
    return run.ok(world.read_task, regs=False)


def norm_kw(normalized):
    return {} if normalized is None else {'normalized': normalized != 0}


def expected_distances(spec, tk):
    """The distances the pairs of the task file must get, in order."""
    feats = world.make_features(spec['feats'])
    fn = world.get_distance(spec['dist']['fn'])
    kw = norm_kw(spec['dist'].get('normalized'))
    out = [None] * tk['n_pairs']
    blocks = ref.blocks(spec['task'])
    for b in tk['bys']:
        d = tk['by'][b]
        rows = blocks[b].rows
        fr = {}

        def get(i):
            if i not in fr:
                fr[i] = ref.frames(spec['task'], feats, rows[i]['#loc'])
            return fr[i].copy()
        for n, p in enumerate(d['pairs']):
            out[d['range'][0] + n] = float(
                fn(get(p % d['base']), get(p // d['base']), **kw))
    return out


def scores_from(tk, dist):
    """The scores the triplets of the task file must get, in order, given
    the distances of its pairs."""
    out = [None] * tk['n_rows']
    for n, b in enumerate(tk['bys']):
        d = tk['by'][b]
        pos = {p: dist[d['range'][0] + k] for k, p in enumerate(d['pairs'])}
        s = tk['index'][n][0]
        for k, (A, B, X) in enumerate(d['triplets']):
            out[s + k] = ref.score(pos[A + d['base'] * X],
                                   pos[B + d['base'] * X])
    return out


def same(a, b):
    return a == b or (a != a and b != b)


def diff(got, want):
    """Indices at which two sequences of numbers differ."""
    return [i for i, (a, b) in enumerate(zip(got, want)) if not same(a, b)]


NOLOCK = {'kind': 'err', 'ops': 'flock', 'arg': 'ENOSYS', 'p': 1.0}


def gate_for(spec, **kw):
    fl = [NOLOCK] if spec.get('nolock') else []
    wf = {str(k): list(v) + fl for k, v in spec.get('wfaults', {}).items()}
    for k in range(1, sched.MAXPROC):
        wf.setdefault(str(k), fl)
    kw.setdefault('kills', spec.get('kills', ()))
    return sched.Gate(spec['sched'], worker_faults=wf, **kw), fl


def check_task(run, spec, tk, prefix=''):
    """Compare a task file with the reference model; True if it agrees."""
    t = spec['task']
    n0 = len(run.violations)
    bl = ref.blocks(t)
    want = ref.triplets(t)
    thr = t.get('threshold')
    if sorted(tk['bys']) != sorted(want):
        run.violate(prefix + 'bys', 'by blocks %r instead of %r' % (
            sorted(tk['bys']), sorted(want)))
        return False
    end = 0
    for n, b in enumerate(tk['bys']):
        s, e = tk['index'][n]
        if s != end or e < s:
            run.violate(prefix + 'by_index', 'by block %r spans rows %d to %d,'
                        ' the previous one ended at %d' % (b, s, e, end))
            return False
        end = e
    if end != tk['n_rows']:
        run.violate(prefix + 'by_index', '%d rows, the by blocks cover %d' % (
            tk['n_rows'], end))
        return False
    for b in tk['bys']:
        d = tk['by'][b]
        full = [x for ts in want[b].values() for x in ts]
        got = collections.Counter(d['triplets'])
        if thr is None:
            wanted = collections.Counter(full)
            if got != wanted:
                miss, extra = wanted - got, got - wanted
                run.violate(
                    prefix + 'triplets', 'by block %r: %d triplets missing %r,'
                    ' %d unexpected %r' % (
                        b, sum(miss.values()), list(miss)[:3],
                        sum(extra.values()), list(extra)[:3]))
                continue
        else:
            dup = [x for x, c in got.items() if c > 1]
            alien = set(got) - set(full)
            if dup or alien:
                run.violate(prefix + 'sampled', 'by block %r: duplicated '
                            'triplets %r, triplets outside the task %r' % (
                                b, dup[:3], sorted(alien)[:3]))
                continue
            for key, ts in want[b].items():
                groups = collections.Counter(
                    ref.threshold_key(t, bl[b], x) for x in ts)
                have = collections.Counter(
                    ref.threshold_key(t, bl[b], x) for x in ts if x in got)
                bad = [(k, c, have[k]) for k, c in groups.items()
                       if have[k] != min(c, thr)]
                if bad:
                    run.violate(
                        prefix + 'threshold', 'by block %r cell %r: '
                        'combination %r has %d triplets, threshold %d, %d '
                        'kept' % (b, key, bad[0][0], bad[0][1], thr,
                                  bad[0][2]))
                    break
        if 'regs' in d:
            names = ref.regressor_names(t)
            if sorted(d['regs']) != sorted(names):
                run.violate(prefix + 'regressors', 'regressors %r instead of '
                            '%r' % (sorted(d['regs']), sorted(names)))
                continue
            for name in names:
                col = d['regs'][name]
                if len(col) != len(d['triplets']):
                    run.violate(prefix + 'regressors', 'by block %r, %s: %d '
                                'values for %d triplets' % (
                                    b, name, len(col), len(d['triplets'])))
                    break
            else:
                for k, x in enumerate(d['triplets']):
                    r = ref.regressors(t, bl[b], x)
                    bad = [m for m in names if d['regs'][m][k] != str(r[m])]
                    if bad:
                        run.violate(
                            prefix + 'regressors', 'by block %r triplet %r: '
                            '%s is %r instead of %r' % (
                                b, x, bad[0], d['regs'][bad[0]][k],
                                r[bad[0]]))
                        break
        if 'locs' in d:
            locs = [r['#loc'] for r in bl[b].rows]
            used = {i for x in d['triplets'] for i in x}
            bad = [i for i in sorted(used)
                   if i >= len(d['locs']) or d['locs'][i] != locs[i]]
            if bad:
                run.violate(prefix + 'locations', 'by block %r item %d is '
                            'located at %r instead of %r' % (
                                b, bad[0], d['locs'][bad[0]:bad[0] + 1],
                                locs[bad[0]]))
    return len(run.violations) == n0


def check_pairs(run, spec, tk, prefix=''):
    """Check the pairs of a task file against its own triplets."""
    n0 = len(run.violations)
    end = 0
    for b in tk['bys']:
        d = tk['by'][b]
        s, e = d['range']
        if s != end or e < s:
            run.violate(prefix + 'pair_index', 'pairs of %r span %d to %d, '
                        'the previous block ended at %d' % (b, s, e, end))
            return False
        end = e
        top = max(max(x) for x in d['triplets'])
        if d['base'] <= top:
            run.violate(prefix + 'pair_base', 'base %d cannot encode item %d'
                        % (d['base'], top))
            continue
        want = sorted(a + d['base'] * x
                      for a, x in ref.pairs_of(d['triplets']))
        if d['pairs'] != want:
            g, w = set(d['pairs']), set(want)
            run.violate(
                prefix + 'pairs', 'by block %r: %d pairs for %d needed, %d '
                'missing, %d unexpected, %d duplicated, sorted: %r' % (
                    b, len(d['pairs']), len(want), len(w - g), len(g - w),
                    len(d['pairs']) - len(g),
                    d['pairs'] == sorted(d['pairs'])))
    if end != tk['n_pairs']:
        run.violate(prefix + 'pair_index', '%d pairs, the by blocks cover %d'
                    % (tk['n_pairs'], end))
    return len(run.violations) == n0


def expected_rows(spec, tk, scores):
    """The analysis of a task file given its scores (in order)."""
    trip, sc = {}, {}
    for n, b in enumerate(tk['bys']):
        s, e = tk['index'][n]
        trip[b] = tk['by'][b]['triplets']
        sc[b] = scores[s:e]
    return ref.table(spec['task'], trip, sc)


def check_csv(run, spec, csv, want, prefix=''):
    names = ref.regressor_names(spec['task'])
    head = csv['head']
    if sorted(head) != sorted(names + ['by', 'score', 'n']) or \
            head[-3:] != ['by', 'score', 'n']:
        run.violate(prefix + 'header', 'header %r for regressors %r' % (
            head, names))
        return False
    if not csv['tail_ok']:
        run.violate(prefix + 'tail', 'the last line is not terminated')
    got = {}
    pos = [head.index(n) for n in names] + [head.index('by')]
    for r in csv['rows']:
        if len(r) != len(head):
            run.violate(prefix + 'row', 'malformed row %r' % (r,))
            return False
        k = tuple(r[p] for p in pos)
        if k in got:
            run.violate(prefix + 'duplicate', 'two rows for %r' % (k,))
            return False
        got[k] = (float(r[-2]), int(r[-1]))
    if set(got) != set(want):
        run.violate(prefix + 'rows', '%d rows missing %r, %d unexpected %r' % (
            len(set(want) - set(got)), sorted(set(want) - set(got))[:2],
            len(set(got) - set(want)), sorted(set(got) - set(want))[:2]))
        return False
    for k in want:
        (gs, gn), (ws, wn) = got[k], want[k]
        if gn != wn or abs(gs - ws) > 1e-9:
            run.violate(prefix + 'average', '%r: score %r n %d instead of %r '
                        'n %d' % (k, gs, gn, ws, wn))
            return False
    return True


def shrink_flags(spec, *flags):
    for k in flags:
        if spec.get(k):
            s = dict(spec)
            del s[k]
            yield s


def shrink(spec):
    for s in shrink_flags(spec, 'split', 'nolock', 'default_cpu'):
        yield s
    if spec.get('how'):
        for k in spec['how']:
            yield dict(spec, how={a: b for a, b in spec['how'].items()
                                  if a != k})
    for s in gen.shrink_common(spec):
        yield s
