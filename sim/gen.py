"""Seeded generators of scenarios.  Everything they return is plain JSON: a
scenario is completely described by its specification."""
import collections

from . import ref

COLS = ['ph', 'tk', 'cx', 'sx']
MORE = ['wd', 'ds']
VALUES = {
    'ph': ['a', 'e', 'I', 'oo', 'u9'],
    'tk': ['s1', 's02', 'S3', 'spk4'],
    'cx': ['b-d', 'k/t', 'm.n', 'Z'],
    'sx': ['f', 'm', 'x'],
    'wd': ['w1', "it's", 'W1', '\u025bt\xe9'],
    'ds': ['d10', 'd9', 'x+y'],
}


class Invalid(Exception):
    pass


def n_triplets(task):
    return sum(len(t) for cs in ref.triplets(task).values()
               for t in cs.values())


def est_triplets(task):
    """Cheap upper bound, so that no enumeration explodes."""
    n = 0
    for lab, b in ref.blocks(task).items():
        for key, A, B, X in ref.cells(task, b):
            n += len(A) * len(B) * len(X)
    return n


def valid(task, cap=20000):
    """None, or why the task is outside the domain."""
    if not task['rows']:
        return 'no rows'
    for r in task['rows']:
        if len(r) != 3 + len(task['cols']):
            return 'ragged'
    for key, col, m in task.get('aux', ()):
        k, c = (task['cols'].index(x) + 3 for x in (key, col))
        if any(r[c] != m.get(str(r[k]), 'NA') for r in task['rows']):
            return 'auxiliary files'
    for c in task.get('num', ()):
        if any(r[3 + task['cols'].index(c)] == 'NA' for r in task['rows']):
            return 'missing number'
    its = ref.items(task)
    if len(its) < 3:
        return 'too few items'
    bl = ref.blocks(task)
    if not bl:
        return 'no by block'
    if any(lab.startswith(x + '/') for lab in bl for x in bl):
        return 'label'
    n = est_triplets(task)
    if n == 0 or n > cap:
        return 'size %d' % n
    if not ref.triplets(task):
        return 'no triplets'
    return None


def seed(rng):
    return rng.choice([0, 0, 1, 2 ** 32 - 1]) if rng.random() < 0.2 else \
        rng.randrange(1 << 30)


def rows_random(rng, cols, levels, n, files, na=0.0):
    rows = []
    for i in range(n):
        f = files[rng.randrange(len(files))]
        on = rng.randrange(0, 24) / 8.0
        off = on + rng.randrange(1, 9) / 8.0
        labels = [VALUES[c][rng.randrange(levels[c])] for c in cols]
        if na and rng.random() < na:
            labels[rng.randrange(len(labels))] = 'NA'
        rows.append([f, on, off] + labels)
    return rows


def rows_factorial(rng, cols, levels, reps, files):
    rows = [[]]
    for c in cols:
        rows = [r + [v] for r in rows for v in VALUES[c][:levels[c]]]
    out = []
    for r in rows:
        for _ in range(rng.randrange(1, reps + 1)):
            on = rng.randrange(0, 24) / 8.0
            out.append([files[rng.randrange(len(files))], on,
                        on + rng.randrange(1, 9) / 8.0] + r)
    rng.shuffle(out)
    return out


def pick_vals(rng, t, c, levels):
    vs = t.get('num', {}).get(c, VALUES[c])[:levels[c]]
    k = rng.randrange(1, max(2, len(vs)))
    return sorted(rng.sample(vs, k))


def task(rng, lo=6, hi=40, cap=4000, floor=1, filters=True, regressors=True,
         na=True, files=2, by=True, across=None, tries=400, threshold=False):
    """A random task with between floor and cap triplets."""
    for _ in range(tries):
        ncol = rng.choice([2, 3, 4, 4, 5, 6])
        cols = COLS + MORE if ncol > 4 or rng.random() < 0.2 else list(COLS)
        rng.shuffle(cols)
        cols = cols[:ncol]
        levels = {c: rng.randrange(2, len(VALUES[c]) + 1) for c in cols}
        fs = ['f%d' % i for i in range(files)]
        if rng.random() < 0.1:
            # names of several forms, or that look like numbers
            fs = rng.choice([['0', '12', '7', '100'], ['7', '31', '1234567'],
                             ['spk1/r.1', 'spk1/r.2', 'spk2/r.1', 'r']])[
                                 :files]
            files = len(fs)
        if rng.random() < 0.3:
            rows = rows_factorial(rng, cols, levels, rng.randrange(1, 4), fs)
            if len(rows) > hi:
                rows = rows[:hi]
        else:
            rows = rows_random(rng, cols, levels, rng.randrange(lo, hi + 1),
                               fs, 0.06 if rng.random() < (
                                   0.25 if na is True else na) else 0)
        t = {'cols': cols, 'rows': rows}
        if rng.random() < 0.15:
            auxiliary(rng, t, levels, na)
        if rng.random() < 0.15:
            numbers(rng, t)
        if rng.random() < 0.2:
            t['sep'] = rng.choice(['\t', '\t', '  ', ' \t'])
            # lines without items, spaces at the ends of the others
            t['blank'] = [[rng.randrange(len(rows) + 1),
                           rng.choice(['', ' ', '\t'])]
                          for _ in range(rng.choice([0, 1, 1, 3]))]
            t['trail'] = rng.choice(['', '', ' ', '\t '])
        names = list(cols)
        rng.shuffle(names)
        on = names.pop()
        n_across = rng.choice([0, 1, 1, 1, 1, 2, 2, 3, 4]) \
            if across is None else across
        ac = [names.pop() for _ in range(min(n_across, len(names)))]
        n_by = rng.choice([0, 0, 1, 1, 2, 2, 3]) if by else 0
        bys = [names.pop() for _ in range(min(n_by, len(names)))]
        t.update({'on': on, 'across': ac, 'by': bys, 'filters': [],
                  'regressors': [], 'as_str': rng.random() < 0.5})
        others = names
        if regressors and rng.random() < 0.45:
            pool = [c + e for c in cols for e in ('_A', '_B', '_X')
                    if c not in bys]
            pool += list(bys)
            rng.shuffle(pool)
            t['regressors'] = pool[:rng.choice([1, 1, 2, 2, 3, 5])]
        if filters and rng.random() < 0.45:
            for _ in range(rng.choice([1, 1, 2, 3])):
                t['filters'].append(one_filter(rng, t, levels, others))
            if rng.random() < 0.25:
                t['scripts'] = rng.choice(['plain', 'import', 'statements'])
        if threshold:
            t['threshold'] = rng.choice([1, 1, 2, 3, 5, 8])
            t['seed'] = seed(rng)
        if valid(t, cap) is None and est_triplets(t) >= floor:
            return t
    # fall back to something small that always works
    cols = ['ph', 'tk']
    rows = [['f0', i / 2.0, i / 2.0 + 0.5, p, s]
            for i, (p, s) in enumerate((p, s) for p in ('a', 'e', 'I')
                                       for s in ('s1', 's02'))]
    t = {'cols': cols, 'rows': rows, 'on': 'ph', 'across': ['tk'], 'by': [],
         'filters': [], 'regressors': [], 'as_str': True}
    if threshold:
        t['threshold'], t['seed'] = 1, seed(rng)
    return t


def auxiliary(rng, t, levels, na):
    """Some columns come from auxiliary files, indexed by another column."""
    t['aux'] = []
    order = list(t['cols'])
    rng.shuffle(order)
    for n in range(1, rng.choice([2, 2, 3])):
        if n >= len(order):
            break
        # a column derives from one of the previous ones: the files chain
        key, col = order[rng.randrange(n)], order[n]
        k, c = t['cols'].index(key) + 3, t['cols'].index(col) + 3
        m = {v: VALUES[col][rng.randrange(levels[col])]
             for v in VALUES[key][:levels[key]]}
        if na and rng.random() < 0.3:
            m.pop(rng.choice(sorted(m)))
        t['aux'].append([key, col, m])
        for r in t['rows']:
            r[c] = m.get(r[k], 'NA')


def numbers(rng, t):
    """The labels of a column are numbers."""
    c = rng.choice(t['cols'])
    i = t['cols'].index(c) + 3
    if any(r[i] == 'NA' for r in t['rows']):
        return
    n = len(VALUES[c])
    vals = rng.sample(range(-5, 120), n)
    kind = rng.choice(['small', 'small', 'small', 'float', 'big', 'bool'])
    if kind == 'float':
        vals = [v / 4. for v in vals]
    elif kind == 'big':
        vals = [rng.choice([10 ** 6, 2 ** 31, 2 ** 40]) + v for v in vals]
    elif kind == 'bool' and len({str(r[i]) for r in t['rows']}) <= 2 and \
            not any(c in a[:2] for a in t.get('aux', ())):
        two = sorted({str(r[i]) for r in t['rows']})
        vals = [v != two[0] for v in VALUES[c]]
    m = dict(zip(VALUES[c], vals))
    for r in t['rows']:
        r[i] = m[r[i]]
    for a in t.get('aux', ()):
        if a[0] == c:
            a[2] = {str(m.get(k, k)): v for k, v in a[2].items()}
        if a[1] == c:
            a[2] = {k: m[v] for k, v in a[2].items()}
    t['num'] = {c: vals}


def one_filter(rng, t, levels, others):
    kinds = ['generic', 'A', 'B', 'X', 'ABX', 'on_across', '2']
    if t['by']:
        kinds.append('by')
    k = rng.choice(kinds)
    op = rng.choice(['in', 'not in'])
    free = [c for c in t['cols'] if c not in t['by']]
    if k == 'by':
        c = rng.choice(t['by'])
        return {'kind': 'by', 'col': c, 'op': op,
                'vals': pick_vals(rng, t, c, levels)}
    if k in ('on_across', '2'):
        c = rng.choice([t['on']] + t['across'])
        return {'kind': k, 'col': c, 'op': op,
                'vals': pick_vals(rng, t, c, levels)}
    if k == 'ABX':
        l, r = rng.sample(['A', 'B', 'X'], 2)
        return {'kind': 'ABX', 'col': rng.choice(free), 'l': l, 'r': r,
                'cmp': rng.choice(['==', '!='])}
    c = rng.choice(free)
    return {'kind': k, 'col': c, 'op': op, 'vals': pick_vals(rng, t, c, levels)}


def big_task(rng, on_levels=40, across_levels=3, reps=1, by_levels=1):
    """Many items and triplets: natural (default) buffer sizes are crossed."""
    cols = ['ph', 'tk', 'sx']
    rows = []
    i = 0
    for b in range(by_levels):
        for a in range(across_levels):
            for o in range(on_levels):
                for _ in range(reps):
                    on = rng.randrange(0, 24) / 8.0
                    rows.append(['f%d' % (i % 2), on,
                                 on + rng.randrange(1, 5) / 8.0,
                                 'p%d' % o, 't%d' % a, 'x%d' % b])
                    i += 1
    rng.shuffle(rows)
    return {'cols': cols, 'rows': rows, 'on': 'ph', 'across': ['tk'],
            'by': ['sx'] if by_levels > 1 else [], 'filters': [],
            'regressors': [], 'as_str': True}


def feats(rng, t, kind='int', dim=None, empty=False):
    names = sorted({str(r[0]) for r in t['rows']})
    more = {}
    if rng.random() < 0.35:
        # short items, far from the beginning (exact in binary and decimal)
        more = {'unit': rng.choice([1, 2 ** -4, 2 ** -7]),
                'origin': rng.choice([0, 100, 3600, 2 ** 17])}
        for r in t['rows']:
            r[1:3] = [more['origin'] + more['unit'] * x for x in r[1:3]]
    shift = rng.choice([1, 1, 1, 0])
    if not shift and rng.random() < 0.5:
        more['ulp'] = True
    return dict(more, **{'files': [[n, 34 if not empty else rng.choice([34, 20, 6]),
                       rng.randrange(1 << 30)] for n in names],
            'dim': dim or rng.choice([1, 2, 3]), 'kind': kind,
            'amp': rng.choice([1, 3, 6]),
            # frames on the very bounds of the items
            'shift': shift})


def schedule(rng, n=6, total=2000):
    k = rng.choice(['random', 'random', 'sticky', 'sticky', 'rr', 'pct',
                    'pct', 'starve', 'serial'])
    s = {'kind': k, 'seed': rng.randrange(1 << 30)}
    if k == 'sticky':
        s['p'] = rng.choice([0.02, 0.1, 0.3])
    if k == 'rr':
        s['quantum'] = rng.choice([1, 2, 3, 7, 31])
    if k == 'pct':
        s['change'] = sorted(rng.randrange(total)
                             for _ in range(rng.choice([1, 2, 3, 6])))
    if k == 'starve':
        s['victims'] = sorted(rng.sample(range(n + 1), rng.randrange(1, 3)))
    return s


def knobs(rng, heavy=False):
    """Buffer geometry, in the units of the code's own parameters."""
    k = {}
    if rng.random() < (1 if heavy else 0.7):
        k['wbuf'] = rng.choice([0.03, 0.06, 0.1, 0.25, 1, 5])
        k['chunk'] = rng.choice([0.05, 0.2, 1, 10])
    if rng.random() < (1 if heavy else 0.7):
        k['rbuf'] = rng.choice([0.03, 0.05, 0.1, 0.25, 1, 5])
        k['occ'] = rng.choice([0.01, 0.1, 0.25, 0.25, 0.5, 0.9])
    if rng.random() < 0.6:
        k['sort_rows'] = rng.choice([0.05, 0.2, 0.35, 0.5, 0.51, 0.8, 1.0])
        k['sort_out'] = rng.choice([0, 1, 2, 5, 50])
    return k


# ---- faults ---------------------------------------------------------------------
ERRNOS = {'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG'],
          'trunc': ['ENOSPC', 'EIO'], 'open': ['EMFILE', 'EACCES', 'ENOSPC',
                                               'EIO', 'ENFILE'],
          'read': ['EIO', 'ESTALE'], 'fsync': ['EIO'],
          'close': ['EIO', 'EDQUOT']}


def benign(rng):
    """Faults that correct code survives without noticing."""
    out = []
    if rng.random() < 0.7:
        out.append({'kind': 'short', 'ops': 'read|write',
                    'p': rng.choice([0.05, 0.3, 0.9])})
    if rng.random() < 0.5:
        out.append({'kind': 'err', 'ops': 'read|write', 'arg': 'EINTR',
                    'p': rng.choice([0.05, 0.2])})
    if rng.random() < 0.4:
        out.append({'kind': 'clock', 'ops': 'all', 'p': 0.02,
                    'arg': rng.choice([-3600, -1, 30, 86400])})
    if rng.random() < 0.2:
        out.append({'kind': 'err', 'ops': 'flock', 'arg': 'ENOSYS', 'p': 1.0})
    return out


# ---- shrinking -------------------------------------------------------------------
def without(lst, i, n=1):
    return lst[:i] + lst[i + n:]


def chunks_removed(lst):
    """Candidates with parts of a list removed, big parts first."""
    n = len(lst)
    size = n // 2
    # at most about 150 candidates: a long list is first cut in pieces
    while size >= 1 and n // size <= 75:
        for i in range(0, n, size):
            yield without(lst, i, size)
        size //= 2


def shrink_common(spec):
    """Generic reductions of a specification."""
    def put(**kw):
        s = dict(spec)
        s.update(kw)
        return s

    for field in ('faults', 'kills'):
        if spec.get(field):
            for c in chunks_removed(spec[field]):
                yield put(**{field: c})
    if spec.get('wfaults'):
        for k in spec['wfaults']:
            yield put(wfaults={a: b for a, b in spec['wfaults'].items()
                               if a != k})
    sc = spec.get('sched')
    if sc and sc.get('kind') == 'list':
        for c in chunks_removed(sc['list']):
            yield put(sched=dict(sc, list=c))
    elif sc and sc.get('kind') != 'serial':
        yield put(sched={'kind': 'serial', 'seed': 0})
    d = spec.get('dist')
    if d and d.get('n_cpu', 1) > 1:
        for n in range(1, d['n_cpu']):
            yield put(dist=dict(d, n_cpu=n))
    if d and d.get('normalized') is not None and d.get('fn') != 'dtw':
        yield put(dist=dict(d, normalized=None))
    if d and d.get('block_mb'):
        yield put(dist=dict(d, block_mb=None))
    k = spec.get('knobs')
    if k:
        for name in list(k):
            yield put(knobs={a: b for a, b in k.items() if a != name})
    t = spec.get('task')
    if t:
        for field in ('filters', 'regressors', 'by', 'across'):
            if len(t['rows']) > 1500 and field != 'regressors':
                # the number of triplets would explode
                continue
            for i in range(len(t[field])):
                t2 = dict(t, **{field: without(t[field], i)})
                if valid(t2, 10 ** 7) is None:
                    yield put(task=t2)
        for field in ('threshold', 'sep', 'blank', 'trail', 'scripts'):
            if t.get(field) is not None:
                t2 = dict(t)
                t2.pop(field)
                yield put(task=t2)
        for rows in chunks_removed(t['rows']):
            t2 = dict(t, rows=rows)
            if valid(t2, 10 ** 7) is None:
                yield put(task=t2)


def complexity(spec):
    """What the minimiser minimises."""
    if 'tasks' in spec:
        return sum(complexity(s) + 100 for s in spec['tasks']) + \
            len(spec.get('faults', ())) * 50
    t = spec.get('task') or {}
    n = len(t.get('rows', ())) * 10 + len(t.get('filters', ())) * 20 + \
        len(t.get('regressors', ())) * 20
    n += len(spec.get('faults', ())) * 50 + len(spec.get('kills', ())) * 50
    sc = spec.get('sched') or {}
    n += len(sc.get('list', ())) * 5 + (sc.get('kind') not in
                                        (None, 'serial', 'list')) * 1000
    n += len(spec.get('knobs') or {}) * 10
    n += (spec.get('dist') or {}).get('n_cpu', 0)
    return n


def count(c):
    return dict(collections.Counter(c))


def levels(rng):
    """A number of levels next to the capacity of an integer type."""
    return rng.choice([100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257,
                       260, 300])


def broad_task(rng, levels, side):
    """Few cells, one with many combinations of the labels of B, or of X, in
    number next to the capacity of an integer type, of a few triplets each."""
    at = lambda: rng.randrange(0, 24) / 8.0

    def item(p, t, c):
        on = at()
        return ['f%d' % rng.randrange(2), on, on + rng.randrange(1, 9) / 8.0,
                p, t, c]
    n = levels - (side != 'other')
    rows = [item('pa', 'ta', 'ca') for _ in range(rng.choice([1, 2, 3]))]
    k = rng.choice([1, 1, 2])
    if side == 'B':         # the phones of B
        rows += [item('p%d' % i, 'ta', 'ca') for i in range(n)
                 for _ in range(rng.choice([1, 2, 3]))]
        rows += [item('pa', 't%d' % i, 'ca') for i in range(k)]
    elif side == 'X':       # the talkers of X
        rows += [item('p%d' % i, 'ta', 'ca') for i in range(k)]
        rows += [item('pa', 't%d' % i, 'ca') for i in range(n)
                 for _ in range(rng.choice([1, 2, 3]))]
    else:                   # another label of B, X
        rows += [item('p%d' % (i % k), 'ta', 'c%d' % i) for i in range(n)
                 for _ in range(rng.choice([1, 2, 3]))]
        rows += [item('pa', 't%d' % i, 'c%d' % i) for i in range(k)]
    rng.shuffle(rows)
    return {'cols': ['ph', 'tk', 'cx'], 'rows': rows, 'on': 'ph',
            'across': ['tk'], 'by': [], 'filters': [],
            'regressors': rng.choice([['cx_B'], ['cx_B', 'cx_X'], ['cx_A', 'cx_B']]) if
            side == 'other' else rng.choice([[], ['cx_B'], ['ph_B']]),
            'as_str': False}


def wide_task(rng, levels, n_across):
    """Few triplets but very many combinations of regressors."""
    cols = ['ph'] + ['c%d' % k for k in range(n_across)]
    rows = []
    for g in range(levels):
        for o in (g, (g + 1) % levels):
            on = rng.randrange(0, 24) / 8.0
            rows.append(['f%d' % (g % 2), on, on + rng.randrange(1, 5) / 8.0,
                         'p%d' % o] + ['v%d' % g for _ in range(n_across)])
    rng.shuffle(rows)
    return {'cols': cols, 'rows': rows, 'on': 'ph', 'across': cols[1:],
            'by': [], 'filters': [], 'regressors': [], 'as_str': False}


def exact_task(rng, n, by=0):
    """Exactly n triplets, in one cell; n is usually next to the size of a
    buffer.  With by, small blocks come before and after that one."""
    cols = ['ph', 'tk', 'sx']
    at = lambda: rng.randrange(0, 24) / 8.0

    def item(p, t, s):
        on = at()
        return ['f%d' % rng.randrange(2), on, on + rng.randrange(1, 9) / 8.0,
                p, t, s]
    # A (a, s) and X (a, t) are fixed, any of the others is B
    k = rng.choice([1, 1, 2, 5])
    rows = [item('a', 's1', 'm'), item('a', 's02', 'm')]
    rows += [item('eIou'[i % min(k, 4)], 's1', 'm') for i in range(n)]
    if by:
        for s in 'fz'[:by]:
            rows += [item('a', 's1', s), item('a', 's02', s)]
            rows += [item('e', 's1', s) for _ in range(rng.randrange(1, 4))]
    rng.shuffle(rows)
    return {'cols': cols, 'rows': rows, 'on': 'ph', 'across': ['tk'],
            'by': ['sx'] if by else [], 'filters': [],
            'regressors': rng.choice([[], ['ph_B']]), 'as_str': True}


def huge_task(rng):
    """So many items in a block that the codes of the pairs are next to the
    capacity of an integer type."""
    n = rng.choice([32768, 46341, 65536, 65536, 65536]) + rng.choice([-4, -1, 2, 400])
    t = exact_task(rng, n)
    if rng.random() < 0.7:
        # X is among the last items: the biggest codes
        x = next(r for r in t['rows'] if r[4] == 's02')
        t['rows'].remove(x)
        t['rows'].insert(n - rng.randrange(3), x)
    return t


def holed_task(rng):
    """Many more items than the filters keep: the indices of those that are
    left are next to the capacity of an integer type, their number is not."""
    n = rng.choice([128, 256, 256, 256, 32768, 65536]) + \
        rng.choice([-1, 0, 1, 1, 2, 40])
    t = exact_task(rng, rng.randrange(1, 30))
    last = rng.choice(t['rows'])
    t['rows'].remove(last)
    more = n - 1 - len(t['rows'])
    t['rows'] += [['f%d' % rng.randrange(2), 1., 1.5, 'zz', 's1', 'm']
                  for _ in range(more)]
    rng.shuffle(t['rows'])
    t['rows'].append(last)
    t['filters'] = [{'kind': 'generic', 'col': 'ph', 'op': 'not in',
                     'vals': ['zz']}]
    if n < 1000 and rng.random() < 0.3:
        t['filters'] = [dict(t['filters'][0], kind='B')]
    return t


def exact_size(rng):
    """A number of rows next to a power of two or a round number."""
    n = rng.choice([256, 512, 1000, 1024, 2000, 2048, 4000, 4096, 5000, 8192,
                    10000])
    return n + rng.choice([-1, 0, 1, 1])
