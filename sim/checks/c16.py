"""C16: what is written through NP2H5 in any sequence of pieces is what is read
back through H52NP in any sequence of requests."""
import random

from .. import gen, world

COUNT = {'quick': 2500, 'thorough': 30000}
# uses that must be reported, and leave what was written before as it was
MISUSES = ['short', 'over', 'exists', 'reshape', 'retype', 'missing',
           'amount', 'unfixed overwrite', 'error', 'unopened read',
           'unopened sub', 'unopened write', 'late read', 'late write',
           'missing sub']
TYPES = ['int64', 'uint8', 'uint16', 'float64', 'int32']


def make(rng, i, tier):
    sets = []
    for k in range(rng.choice([1, 1, 2, 3])):
        cols = rng.choice([1, 1, 2, 3, 5])
        typ = rng.choice(TYPES)
        pieces = [rng.choice([0, 1, 1, 2, 3, 7, 20, 50, 200])
                  for _ in range(rng.choice([1, 3, 8, 20]))]
        if sum(pieces) == 0:
            pieces.append(4)
        w = cols * int(typ.strip('uintfloa')) // 8
        sets.append({
            'cols': cols, 'type': typ, 'pieces': pieces,
            'fixed': rng.random() < 0.35,
            'guess': rng.choice([0, 0, 1, 5, 100]),
            # buffer sizes in rows
            'wbuf': rng.choice([1, 2, 3, 5, 8, 64, 1000]) * w / 1000.,
            'chunk': rng.choice([1, 3, 10, 100]) * w / 1000.,
            'rbuf': rng.choice([1, 2, 3, 5, 8, 64, 1000]) * w / 1000.,
            'occ': rng.choice([0.01, 0.25, 0.25, 0.5, 0.99]),
            'sub': rng.random() < 0.4,
            'reads': [rng.choice([None, 1, 2, 3, 5, 13, 64, 500])
                      for _ in range(rng.choice([0, 2, 6, 15]))]})
    then = None
    if rng.random() < 0.5:
        n = rng.choice([1, 2, 3, 8, 40])
        then = {'what': rng.choice(MISUSES + ['overwrite', 'overwrite']),
                'set': rng.randrange(len(sets)), 'rows': n,
                'off': rng.randrange(1, n + 2), 'cut': rng.randrange(1, 9),
                'wbuf': rng.choice([1, 2, 3, 8, 100])}
    return {'sets': sets, 'order': rng.randrange(1 << 30), 'then': then,
            'handle': rng.random() < 0.4,
            'faults': gen.benign(rng) if rng.random() < 0.5 else []}


def content(k, s):
    import numpy as np
    n = sum(s['pieces'])
    a = (np.arange(n * s['cols']) * (7 + k) + 3 * k) % 251
    return a.reshape(n, s['cols']).astype(s['type'])


def write(spec):
    import h5py
    import ABXpy.h5tools.np2h5 as np2h5
    rng = random.Random(spec['order'])

    def go(h):
        with np2h5.NP2H5(h) as f:
            bufs, todo = [], []
            for k, s in enumerate(spec['sets']):
                n = sum(s['pieces']) if s['fixed'] else \
                    min(s['guess'], sum(s['pieces']))
                bufs.append(f.add_dataset(
                    'g%d' % (k % 2), 'd%d' % k, n, s['cols'],
                    chunk_size=s['chunk'], buf_size=s['wbuf'],
                    item_type=s['type'], fixed_size=s['fixed']))
                todo.append(list(s['pieces']))
            data = [content(k, s) for k, s in enumerate(spec['sets'])]
            at = [0] * len(data)
            while any(todo):
                k = rng.choice([j for j, t in enumerate(todo) if t])
                n = todo[k].pop(0)
                piece = data[k][at[k]:at[k] + n].copy()
                bufs[k].write(piece)
                # the caller may reuse its array
                piece[...] = 99
                at[k] += n
    if spec['handle']:
        with h5py.File('b.h5', 'w') as h:
            go(h)
    else:
        go('b.h5')


def raw():
    import h5py
    out = {}
    with h5py.File('b.h5', 'r') as f:
        for g in f:
            for d in f[g]:
                out[d] = f[g][d][...]
    return out


def bounds(k, s, order):
    n = sum(s['pieces'])
    if not s['sub']:
        return 0, n
    rng = random.Random(order + k)
    a = rng.randrange(n)
    return a, rng.randrange(a, n) + 1


def read(spec):
    """Interleaved reads of all datasets; the pieces, in order."""
    import h5py
    import ABXpy.h5tools.h52np as h52np
    rng = random.Random(spec['order'] + 1)
    out = [[] for _ in spec['sets']]

    def go(h):
        with h52np.H52NP(h) as f:
            bufs = []
            for k, s in enumerate(spec['sets']):
                kw = {'buf_size': s['rbuf'],
                      'minimum_occupied_portion': s['occ']}
                if s['sub']:
                    bufs.append(f.add_subdataset(
                        'g%d' % (k % 2), 'd%d' % k,
                        indexes=bounds(k, s, spec['order']), **kw))
                else:
                    bufs.append(f.add_dataset('g%d' % (k % 2), 'd%d' % k,
                                              **kw))
            todo = [list(s['reads']) for s in spec['sets']]
            live = list(range(len(bufs)))
            guard = 0
            while live:
                guard += 1
                if guard > 200000:
                    raise RuntimeError('the reads do not end')
                k = rng.choice(live)
                if bufs[k].isempty():
                    live.remove(k)
                    try:
                        bufs[k].read()
                        out[k].append(('after the end', None))
                    except StopIteration:
                        pass
                    continue
                n = todo[k].pop(0) if todo[k] else None
                piece = bufs[k].read(n) if n else next(iter(bufs[k]))
                out[k].append((n, piece.copy()))
                # and do what it likes with what it reads
                piece[...] = 98
    if spec['handle']:
        with h5py.File('b.h5', 'r') as h:
            go(h)
    else:
        go('b.h5')
    return out


class Deliberate(Exception):
    pass


def then(spec):
    """A second use of the same file."""
    import ABXpy.h5tools.np2h5 as np2h5
    import ABXpy.h5tools.h52np as h52np
    t = spec['then']
    k, what = t['set'] % len(spec['sets']), t['what']
    s = spec['sets'][k]
    w = s['cols'] * int(s['type'].strip('uintfloa')) // 8 / 1000.
    old = content(k, s)
    g, d = 'g%d' % (k % 2), 'd%d' % k
    if what == 'unopened read':
        h52np.H52NP('b.h5').add_dataset(g, d)
        return
    if what == 'unopened sub':
        h52np.H52NP('b.h5').add_subdataset(g, d, indexes=(0, len(old)))
        return
    if what == 'unopened write':
        np2h5.NP2H5('b.h5').add_dataset(g, 'new', 4, 1)
        return
    if what == 'late read':
        with h52np.H52NP('b.h5') as f:
            b = f.add_dataset(g, d)
        b.read(1)
        return
    if what == 'late write':
        with np2h5.NP2H5('b.h5') as f:
            b = f.add_dataset(g, 'new', n_columns=1, fixed_size=False)
        b.write(old[:, :1])
        return
    if what in ('missing', 'missing sub', 'amount'):
        with h52np.H52NP('b.h5') as f:
            if what == 'missing':
                f.add_dataset(g, 'nothing')
            elif what == 'missing sub':
                f.add_subdataset(g, 'nothing', indexes=(0, 1))
            else:
                f.add_dataset(g, d).read(0)
        return
    rows, cols, typ, name = len(old), s['cols'], s['type'], 'd%d' % k
    new = content(k + 5, s)
    kw = {'overwrite': what in ('overwrite', 'reshape', 'retype',
                                'unfixed overwrite'),
          'fixed_size': what != 'unfixed overwrite'}
    if what in ('short', 'over', 'error'):
        name, rows = 'new', t['rows']
        n = rows + t['off'] if what == 'over' else max(rows - t['off'], 0)
        new = new[[0] * n]
    elif what == 'reshape':
        rows, new = rows + 1, new[[0] * (rows + 1)]
    elif what == 'retype':
        typ = 'int64' if typ != 'int64' else 'float64'
    with np2h5.NP2H5('b.h5') as f:
        b = f.add_dataset('g%d' % (k % 2), name, rows, cols,
                          buf_size=t['wbuf'] * w, item_type=typ, **kw)
        for i in range(0, len(new), t['cut']):
            b.write(new[i:i + t['cut']].astype(typ))
        if what == 'error':
            raise Deliberate('raised in the with block')


def check_then(spec, run):
    import numpy as np
    t = spec['then']
    out = run.spawn(then, spec)
    run.sig('then', t['what'], t['rows'], t['off'], t['cut'], t['wbuf'])
    run.note('then ' + t['what'])
    if t['what'] == 'overwrite':
        if out.status != 'ok':
            run.violate('overwrite', 'overwriting a dataset by one of the '
                        'same shape %s' % out.brief())
            return
    elif out.status == 'ok':
        run.violate('silent', '%r: returned normally' % t['what'])
        return
    elif out.status != 'raise' or (t['what'] == 'error' and
                                 out.exc_type != 'Deliberate'):
        run.violate('loud', '%r: %s' % (t['what'], out.brief()))
        return
    got = run.ok(world.attempt, raw)
    if got[0] != 'ok':
        run.violate('unreadable', 'after %r: %s' % (t['what'], got[1]))
        return
    for k, s in enumerate(spec['sets']):
        new = t['what'] == 'overwrite' and \
            k == t['set'] % len(spec['sets'])
        want, have = content(k + 5 * new, s), got[1].get('d%d' % k)
        if have is None or have.shape != want.shape or \
                not np.array_equal(have, want):
            run.violate('others', 'after %r: dataset %d is not what was last '
                        'written to it' % (t['what'], k))
            return


def run(spec, run):
    import numpy as np
    fl = spec.get('faults', ())
    out = run.spawn(write, spec, faults=fl)
    run.sig([(s['cols'], s['type'], s['fixed'], s['sub'], s['pieces'],
              s['reads']) for s in spec['sets']])
    if out.status != 'ok':
        run.violate('write', 'writing %s' % out.brief())
        return
    got = run.ok(world.attempt, raw)
    if got[0] != 'ok':
        run.violate('unreadable', got[1])
        return
    for k, s in enumerate(spec['sets']):
        want = content(k, s)
        have = got[1].get('d%d' % k)
        run.note('rows', len(want))
        if have is None or have.shape != want.shape or \
                have.dtype != want.dtype or not np.array_equal(have, want):
            run.violate('written', 'dataset %d written in pieces %r: %s' % (
                k, s['pieces'][:12], 'missing' if have is None else
                'shape %r instead of %r' % (have.shape, want.shape)
                if have.shape != want.shape else 'content differs'))
            return
    out = run.spawn(read, spec, faults=fl)
    if out.status != 'ok':
        run.violate('read', 'reading %s' % out.brief())
        return
    for k, s in enumerate(spec['sets']):
        a, b = bounds(k, s, spec['order'])
        want = content(k, s)[a:b]
        parts = out.value[k]
        if any(n == 'after the end' for n, _ in parts):
            run.violate('end', 'dataset %d returned data after its end' % k)
            return
        have = np.concatenate([p for _, p in parts])
        if have.shape != want.shape or not np.array_equal(have, want):
            run.violate('readback', 'dataset %d rows %d to %d read in %r: %s'
                        % (k, a, b, [n for n, _ in parts][:10],
                           'shape %r instead of %r' % (have.shape, want.shape)
                           if have.shape != want.shape else
                           'content differs'))
            return
        left = len(want)
        for n, p in parts:
            if n is not None and len(p) != min(n, left):
                run.violate('amount', 'asked %d of %d remaining rows, got %d'
                            % (n, left, len(p)))
                return
            left -= len(p)
    if spec.get('then'):
        check_then(spec, run)


def shrink(spec):
    if spec['faults']:
        yield dict(spec, faults=[])
    if spec.get('then'):
        yield dict(spec, then=None)
    for c in gen.chunks_removed(spec['sets']):
        if c:
            yield dict(spec, sets=c)
    for k, s in enumerate(spec['sets']):
        for f in ('pieces', 'reads'):
            for c in gen.chunks_removed(s[f]):
                if f == 'reads' or sum(c):
                    s2 = dict(s, **{f: c})
                    yield dict(spec, sets=spec['sets'][:k] + [s2] +
                               spec['sets'][k + 1:])
        if s['sub']:
            yield dict(spec, sets=spec['sets'][:k] + [dict(s, sub=False)] +
                       spec['sets'][k + 1:])
