"""C15: the external sort orders the keys, keeps the rows of every dataset with
their key, and loses nothing, whatever its buffers."""
import random

from .. import gen, world

COUNT = {'quick': 1800, 'thorough': 20000}


def make(rng, i, tier):
    n = rng.choice([1, 2, 3, 5, 17, 64, 100, 257, 1000, 1000, 3000, 1024, 4096,
                    4097])
    rows = rng.choice([1, 0.5, 0.51, 0.34, 0.2, 0.07, 0.03, 2.0])
    lo = int((n / 2.0) ** 0.5) + 2
    return {'n': n, 'rows': max(lo, int(n * rows)),
            'out': rng.choice([1, 2, 3, 7, 50, 1000]),
            'keys': rng.choice(['few', 'many', 'sorted', 'reverse', 'equal',
                                'big', 'middle', 'spread']),
            'ktype': rng.choice(['int64', 'uint8', 'uint16', 'uint64',
                                 'uint32']),
            'cols': rng.choice([[], [], [1], [3], [1, 2], [2, 5, 1]]),
            'kseed': rng.randrange(1 << 30),
            'faults': gen.benign(rng) if rng.random() < 0.4 else []}


def keys(spec):
    rng = random.Random(spec['kseed'])
    n = spec['n']
    top = {'uint8': 255, 'uint16': 65535, 'uint32': 2 ** 32 - 1,
           'int64': 2 ** 63 - 1, 'uint64': 2 ** 64 - 1}[spec['ktype']]
    k = spec['keys']
    if k == 'few':
        return [rng.randrange(3) for _ in range(n)]
    if k == 'equal':
        return [5] * n
    if k == 'big':
        return [top - rng.randrange(4) for _ in range(n)]
    if k == 'middle':
        # where a signed and an unsigned reading part
        return [top // 2 - 2 + rng.randrange(6) for _ in range(n)]
    if k == 'spread':
        # every order of magnitude
        return [min(top, int(2 ** rng.uniform(0, 65)) % (top + 1))
                for _ in range(n)]
    v = [rng.randrange(top + 1) for _ in range(n)]
    if k == 'sorted':
        v.sort()
    if k == 'reverse':
        v.sort(reverse=True)
    return v


def prepare(spec):
    import h5py
    import numpy as np
    with h5py.File('s.h5', 'w') as f:
        g = f.create_group('k')
        g.create_dataset('key', data=np.array(
            keys(spec), dtype=spec['ktype']).reshape(-1, 1))
        h = f.create_group('v')
        for j, c in enumerate(spec['cols']):
            # row identity in every dataset
            a = np.arange(spec['n']).reshape(-1, 1) * 10 + np.arange(c)
            h.create_dataset('d%d' % j, data=a.astype(
                [np.int64, np.float64, np.uint32][j]))
        f.create_dataset('other', data=np.arange(7))


def sort(spec):
    import numpy as np
    import ABXpy.h5tools.h5_handler as h5_handler
    names = ['d%d' % j for j in range(len(spec['cols']))]
    h = h5_handler.H5Handler('s.h5', 'k', 'key', ['v'] * len(names), names)
    w = np.dtype(spec['ktype']).itemsize + sum(
        c * np.dtype([np.int64, np.float64, np.uint32][j]).itemsize
        for j, c in enumerate(spec['cols']))
    h.sort(buffer_size=spec['rows'] * w / 1000.,
           o_buffer_size=spec['out'] * w / 1000.)


def read(spec):
    import h5py
    with h5py.File('s.h5', 'r') as f:
        out = {'key': [int(x) for x in f['k/key'][...][:, 0]],
               'names': sorted(f['k']) + sorted(f['v']),
               'other': f['other'][...].tolist()}
        for j in range(len(spec['cols'])):
            out[j] = f['v/d%d' % j][...].tolist()
        return out


def run(spec, run):
    run.ok(prepare, spec)
    out = run.spawn(sort, spec, faults=spec.get('faults', ()))
    if out.status != 'ok':
        run.violate('failed', 'sorting %d rows with chunks of %d rows %s' % (
            spec['n'], spec['rows'], out.brief()))
        return
    got = run.ok(world.attempt, read, spec)
    if got[0] != 'ok':
        run.violate('unreadable', got[1])
        return
    got = got[1]
    v = keys(spec)
    run.note('rows', len(v))
    run.sig(spec['n'], spec['rows'], spec['out'], spec['keys'], spec['ktype'],
            spec['cols'])
    if got['key'] != sorted(v):
        run.violate('order', 'n=%d: the keys are not the sorted input '
                    '(sorted: %r, same multiset: %r)' % (
                        spec['n'], got['key'] == sorted(got['key']),
                        sorted(got['key']) == sorted(v)))
        return
    perm = None
    for j, c in enumerate(spec['cols']):
        p = [int(r[0]) // 10 for r in got[j]]
        if sorted(p) != list(range(spec['n'])) or any(
                int(x) != 10 * p[i] + m for i, r in enumerate(got[j])
                for m, x in enumerate(r)):
            run.violate('rows', 'dataset %d lost or mixed rows' % j)
            return
        if [v[i] for i in p] != got['key']:
            run.violate('alignment', 'dataset %d: rows separated from their '
                        'key' % j)
            return
        if perm is not None and p != perm:
            run.violate('alignment', 'datasets are ordered differently')
            return
        perm = p
    if got['other'] != list(range(7)):
        run.violate('other', 'an unrelated dataset changed')
    import os
    left = os.listdir(os.path.join(run.root, 'tmp'))
    if left:
        run.violate('temporary', 'temporary files left behind: %r' % left)


def shrink(spec):
    if spec['faults']:
        yield dict(spec, faults=[])
    if spec['cols']:
        yield dict(spec, cols=spec['cols'][:-1])
    for n in (spec['n'] // 2, spec['n'] - 1):
        if n > 0:
            yield dict(spec, n=n, rows=max(int((n / 2.0) ** .5) + 2, min(
                spec['rows'], n)))
