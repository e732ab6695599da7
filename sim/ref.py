"""Executable reference model of an ABX evaluation.

Written from the documentation (README, doc/, docstrings), in plain python and
without any of the code under test: item table -> triplets -> pairs ->
distances -> scores -> averaged scores.
"""
import collections
import itertools

import numpy as np


class Block(object):
    """A 'by' block: its items, in file order."""

    def __init__(self, label, rows):
        self.label = label
        self.rows = rows          # list of dicts: column -> value
        self.keep = []            # positions that survive the item filters


def label_of(by, row):
    vals = [row[c] for c in by]
    if not by:
        return '0'
    if len(by) == 1:
        return str(vals[0])
    return str(tuple(vals))


def match(f, v):
    return (v in f['vals']) == (f['op'] == 'in')


def filter_string(f):
    neg = '' if f.get('op', 'in') == 'in' else 'not '
    if f['kind'] == 'ABX':
        return '[a %s b for a, b in zip(%s_%s, %s_%s)]' % (
            f['cmp'], f['col'], f['l'], f['col'], f['r'])
    ext = {'by': '', 'generic': '', 'on_across': '_1', 'A': '_A', 'B': '_B',
           'X': '_X', '2': '_2'}[f['kind']]
    return '[v %sin %r for v in %s%s]' % (neg, list(f['vals']), f['col'], ext)


def filter_arg(task, i, base='d'):
    """A filter of the task as its user writes it: the expression or the name
    of a file that holds it."""
    return '%s-filter%d.py' % (base, i) if task.get('scripts') else \
        filter_string(task['filters'][i])


def script(task, i):
    s = filter_string(task['filters'][i])
    return {'plain': s + '\n', 'import': 'import math\n' + s + '\n',
            'statements': '# a filter\nfrom math import floor\n'
            'selection = ' + s + '\nselection\n'}[task['scripts']]


def items(task):
    """Parsed rows (dicts), without those with a missing label."""
    out = []
    for r in task['rows']:
        if any(v == 'NA' for v in r[3:]):
            continue
        d = dict(zip(task['cols'], r[3:]))
        d['#loc'] = (str(r[0]), float(r[1]), float(r[2]))
        out.append(d)
    return out


def blocks(task):
    """{label: Block}, by-filtered, with item filters applied."""
    groups = collections.OrderedDict()
    for row in items(task):
        groups.setdefault(label_of(task['by'], row), []).append(row)
    out = {}
    for lab, rows in groups.items():
        if not all(match(f, rows[0][f['col']]) for f in task['filters']
                   if f['kind'] == 'by'):
            continue
        b = Block(lab, rows)
        b.keep = [i for i, r in enumerate(rows)
                  if all(match(f, r[f['col']]) for f in task['filters']
                         if f['kind'] == 'generic')]
        if b.keep:
            out[lab] = b
    return out


def cells(task, b):
    """Yield ((on, across), A list, B list, X list) of every on/across cell."""
    on, across = task['on'], task['across']
    rows = b.rows
    fs = collections.defaultdict(list)
    for f in task['filters']:
        fs[f['kind']].append(f)

    def keep_A(i):
        return all(match(f, rows[i][f['col']]) for f in fs['A'])

    def keep_B(i):
        return all(match(f, rows[i][f['col']]) for f in fs['B']) and all(
            match(f, rows[i][f['col']]) for f in fs['2'] if f['col'] == on)

    def keep_X(i):
        return all(match(f, rows[i][f['col']]) for f in fs['X']) and all(
            match(f, rows[i][f['col']]) for f in fs['2'] if f['col'] != on)

    groups = collections.OrderedDict()
    for i in b.keep:
        key = (rows[i][on], tuple(rows[i][c] for c in across) if across else i)
        groups.setdefault(key, []).append(i)
    for (o, a), members in groups.items():
        first = rows[members[0]]
        if not all(match(f, first[f['col']]) for f in fs['on_across']):
            continue
        A = [i for i in members if keep_A(i)]
        if across:
            B = [i for i in b.keep
                 if rows[i][on] != o and
                 all(rows[i][c] == v for c, v in zip(across, a)) and keep_B(i)]
            X = [i for i in b.keep
                 if rows[i][on] == o and
                 all(rows[i][c] != v for c, v in zip(across, a)) and keep_X(i)]
        else:
            B = [i for i in b.keep if rows[i][on] != o and keep_B(i)]
            X = [i for i in b.keep
                 if rows[i][on] == o and i != members[0] and keep_X(i)]
        yield (o, a), A, B, X


def cell_triplets(task, b, A, B, X):
    fs = [f for f in task['filters'] if f['kind'] == 'ABX']
    out = list(itertools.product(A, B, X))
    for f in fs:
        pos = {'A': 0, 'B': 1, 'X': 2}
        l, r = pos[f['l']], pos[f['r']]
        col = f['col']
        if f['cmp'] == '==':
            out = [t for t in out if b.rows[t[l]][col] == b.rows[t[r]][col]]
        else:
            out = [t for t in out if b.rows[t[l]][col] != b.rows[t[r]][col]]
    return out


def across_cols(task):
    """The across columns, and those that derive from them."""
    out = list(task['across'])
    for c in out:
        out += [a[1] for a in task.get('aux', ())
                if a[0] == c and a[1] not in out]
    return out


def regressor_names(task):
    names = []
    for c in [task['on']] + across_cols(task):
        names += [c + '_1', c + '_2']
    return names + list(task['regressors'])


def regressors(task, b, t):
    """{name: value} of a triplet (A, B, X)."""
    A, B, X = (b.rows[i] for i in t)
    on = task['on']
    out = {on + '_1': A[on], on + '_2': B[on]}
    for c in across_cols(task):
        out[c + '_1'] = A[c]
        out[c + '_2'] = X[c]
    for r in task['regressors']:
        if r[-2:] == '_A':
            out[r] = A[r[:-2]]
        elif r[-2:] == '_B':
            out[r] = B[r[:-2]]
        elif r[-2:] == '_X':
            out[r] = X[r[:-2]]
        else:
            out[r] = A[r]
    return out


def threshold_key(task, b, t):
    """Triplets of a cell are capped per combination of these values."""
    B, X = b.rows[t[1]], b.rows[t[2]]
    key = [B[task['on']]] + [X[c] for c in task['across']]
    for r in task['regressors']:
        if r[-2:] == '_B':
            key.append(B[r[:-2]])
        elif r[-2:] == '_X':
            key.append(X[r[:-2]])
    return tuple(key)


def triplets(task):
    """{by label: {cell key: [triplets]}} before thresholding, and only the by
    blocks that have triplets."""
    out = {}
    for lab, b in blocks(task).items():
        cs = {}
        for key, A, B, X in cells(task, b):
            ts = cell_triplets(task, b, A, B, X)
            if ts:
                cs[key] = ts
        if cs:
            out[lab] = cs
    return out


def pairs_of(trip):
    """The (first, X) item pairs the triplets need."""
    s = set()
    for a, bb, x in trip:
        s.add((a, x))
        s.add((bb, x))
    return s


def frames(task, features, loc):
    """The feature frames of an item."""
    f, on, off = loc
    t, x = features[f]
    sel = (t >= on) & (t <= off)
    return x[sel, :]


def score(dax, dbx):
    return 1 if dax < dbx else (-1 if dax > dbx else 0)


def table(task, trip, scores):
    """{(regressor values..., by): (mean, n)} given {by: [triplets]} and the
    matching {by: [scores]}."""
    names = regressor_names(task)
    bl = blocks(task)
    acc = {}
    for lab in trip:
        b = bl[lab]
        for t, s in zip(trip[lab], scores[lab]):
            r = regressors(task, b, t)
            k = tuple(str(r[n]) for n in names) + (lab,)
            e = acc.setdefault(k, [0, 0])
            e[0] += s
            e[1] += 1
    return {k: ((s / float(n) + 1) / 2, n) for k, (s, n) in acc.items()}


# ---- the distances of the command line ---------------------------------------
def cosine(x, y):
    """Angle between the frames, over pi; null frames are at 0 from one
    another and at 1 from the others."""
    out = []
    for a in x:
        row = []
        for b in y:
            na, nb = float((a * a).sum()) ** .5, float((b * b).sum()) ** .5
            if na == 0 or nb == 0:
                row.append(0. if na == nb else 1.)
            else:
                c = float((a * b).sum()) / (na * nb)
                row.append(float(np.arccos(min(1., max(-1., c)))) / np.pi)
        out.append(row)
    return out


def kl(x, y):
    """Symmetrised Kullback-Leibler divergence of normalised frames."""
    eps = np.finfo(float).eps

    def norm(m):
        m = m / m.sum(1)[:, None] + eps
        return m / m.sum(1)[:, None]
    x, y = norm(x), norm(y)
    return [[float((a * np.log(a / b)).sum() + (b * np.log(b / a)).sum()) / 2
             for b in y] for a in x]


def dtw(d, normalized):
    """Cost of the best alignment, over its length if normalized."""
    n, m = len(d), len(d[0])
    best = {}
    for i in range(n):
        for j in range(m):
            prev = [best[p] for p in ((i - 1, j - 1), (i, j - 1), (i - 1, j))
                    if p in best]
            c, k = min(prev, key=lambda t: t[0]) if prev else (0., 0)
            best[i, j] = (c + d[i][j], k + 1)
    c, k = best[n - 1, m - 1]
    return c / k if normalized else c


def levenshtein(x, y):
    x, y = [tuple(a) for a in x], [tuple(a) for a in y]
    row = list(range(len(y) + 1))
    for i, a in enumerate(x):
        new = [i + 1]
        for j, b in enumerate(y):
            new.append(min(new[-1] + 1, row[j + 1] + 1, row[j] + (a != b)))
        row = new
    return float(row[-1])


def distance(name, x, y, normalized):
    """The distance of two items, as the command line computes it."""
    if not len(x) or not len(y):
        return 0. if len(x) == len(y) else float('inf')
    if name == 'edit':
        return levenshtein(x, y)
    return dtw({'dtw': cosine, 'dtw_kl': kl}[name](x, y), normalized)
