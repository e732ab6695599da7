"""C17: the conversion of a folder of features is complete and the same whatever
the order in which the file system lists it, the size of the batches and the
behaviour of the disk; what cannot be read is reported."""
import os
import random

from .. import gen, world

COUNT = {'quick': 2000, 'thorough': 15000}
NAMES = ['a', 'b.c', 'S_01', 'x-y', 'f0', 'f10', 'f2', 'Z', 'spk.1.2', 'q',
         'a.b.c.d.e', 'A', 'z', 'a b', 'F2', 'f0.x', 'f']
DAMAGES = ['cut', 'empty', 'head', 'flip', 'text', 'no time', 'no features',
           'directory', 'missing']


def make(rng, i, tier):
    n = rng.choice([1, 2, 3, 5, 8, 10])
    files = [[f, rng.choice([1, 2, 5, 20]), rng.randrange(1 << 30)]
             for f in rng.sample(NAMES, n)]
    spec = {'files': files, 'dim': rng.choice([1, 2, 13]),
            'order': rng.randrange(1 << 30),
            'batch': rng.choice([None, 1, 2, 3, n, n + 1, max(1, n - 1)]),
            'load': rng.random() < 0.3,
            'ext': rng.choice(['.npz', '.npz', '.npz', '.fea']), 'parts': rng.choice([1, 1, 1, 2]),
            'faults': gen.benign(rng) if rng.random() < 0.5 else []}
    if n < 2:
        spec['parts'] = 1
    if rng.random() < 0.2:
        # a source that is not (any more) what it should be
        spec['bad'] = [rng.randrange(n), rng.choice(DAMAGES), rng.random()]
    if rng.random() < 0.2:
        spec['dtype'] = rng.choice(['float32', 'float32', 'int64'])
    if rng.random() < 0.35:
        op = rng.choice(['read', 'open'])
        spec['err'] = {'kind': 'err', 'ops': op, 'path': spec['ext'],
                       'arg': rng.choice(gen.ERRNOS[op]),
                       'nth': rng.randrange(3 * n)}
    return spec


def content(spec):
    import numpy as np
    out = {}
    for name, n, seed in spec['files']:
        rs = np.random.RandomState(seed)
        x = rs.randn(n, spec['dim'])
        if spec.get('dtype'):
            x = (x * 100).astype(spec['dtype'])
        out[name] = (np.arange(n) * 0.01 + 0.0025, x)
    return out


def parts(spec):
    k = spec.get('parts', 1)
    return ['p%d' % i for i in range(k)], [spec['files'][i::k]
                                           for i in range(k)]


def prepare(spec):
    import numpy as np
    c = content(spec)
    for d, fs in zip(*parts(spec)):
        os.mkdir(d)
        for name, _, _ in fs:
            with open(os.path.join(d, name + spec.get('ext', '.npz')),
                      'wb') as f:
                np.savez(f, time=c[name][0], features=c[name][1])
    if spec.get('bad'):
        damage(spec, c)


def bad_source(spec):
    name = spec['files'][spec['bad'][0] % len(spec['files'])][0]
    for d, fs in zip(*parts(spec)):
        if name in [f[0] for f in fs]:
            return name, os.path.join(d, name + spec.get('ext', '.npz'))


def damage(spec, c):
    import numpy as np
    name, path = bad_source(spec)
    _, how, x = spec['bad']
    with open(path, 'rb') as f:
        data = f.read()
    at = int(x * len(data))
    os.unlink(path)
    if how == 'directory':
        os.mkdir(path)
    elif how == 'no time':
        with open(path, 'wb') as f:
            np.savez(f, features=c[name][1])
    elif how == 'no features':
        with open(path, 'wb') as f:
            np.savez(f, time=c[name][0])
    elif how != 'missing':
        data = {'cut': data[:at], 'empty': b'',
                'head': bytes(8) + data[8:],
                'flip': data[:at] + bytes([data[at] ^ (1 << at % 8)]) +
                data[at + 1:],
                'text': b'0.5 1.5\n2.5 3.5\n'}[how]
        with open(path, 'wb') as f:
            f.write(data)


def own_load(path):
    import numpy as np
    with np.load(path) as d:
        return {'time': list(d['time']) and d['time'],
                'features': d['features']}


def listing(seed):
    """The order of a directory is the file system's."""
    real = os.listdir

    def shuffled(*a):
        out = sorted(real(*a))
        random.Random('%s/%s' % (seed, out)).shuffle(out)
        return out
    os.listdir = shuffled


def convert(spec):
    import ABXpy.misc.any2h5features as conv
    listing(spec['order'])
    kw = {'load': own_load} if spec.get('load') else {}
    for d in parts(spec)[0]:
        if spec.get('batch') is None:
            conv.convert(d, 'd.features', **kw)
        else:
            names = os.listdir(d)
            if spec.get('bad') and spec['bad'][1] == 'missing':
                p = bad_source(spec)[1]
                if os.path.dirname(p) == d:
                    names.append(os.path.basename(p))
            conv.any_to_h5features(d, names, 'd.features', '/features/',
                                   batch_size=spec['batch'], **kw)


def read():
    import h5features
    t, f = h5features.read('d.features', 'features')[:2]

    def name(k):
        return k.decode() if isinstance(k, bytes) else str(k)
    return {name(k): (t[k].tolist(), f[k].tolist()) for k in t}


def run(spec, run):
    run.ok(prepare, spec)
    faults = list(spec.get('faults', ()))
    if spec.get('err'):
        faults.append(spec['err'])
    out = run.spawn(convert, spec, faults=faults)
    bad = spec.get('bad')
    if bad and bad[1] == 'missing' and spec.get('batch') is None:
        # nobody asked for it
        name = bad_source(spec)[0]
        bad, spec = None, dict(spec, files=[
            f for f in spec['files'] if f[0] != name])
    if bad:
        run.faults['source: ' + bad[1]] += 1
    run.sig(len(spec['files']), spec.get('batch'), spec.get('parts'),
            out.status, out.exc_type, (spec.get('err') or {}).get('ops'), bad and bad[1])
    hit = bool(spec.get('err')) and bool(out.sim) and \
        out.sim['hits'][-1] > 0
    if out.status != 'ok':
        run.note('reported')
        if not hit and not bad:
            run.violate('failed', 'the conversion %s although nothing was '
                        'wrong' % out.brief())
        return
    run.note('survived' if hit or bad else 'converted')
    if not spec['files'] and not os.path.exists('d.features'):
        return
    got = run.ok(world.attempt, read)
    if got[0] != 'ok':
        run.violate('unreadable', got[1])
        return
    got = got[1]
    want = {k: (t.tolist(), f.tolist()) for k, (t, f) in content(spec).items()}
    if sorted(got) != sorted(want):
        run.violate('files', 'the file holds %r instead of %r' % (
            sorted(got), sorted(want)))
        return
    wrong = [k for k in want if got[k] != want[k]]
    if wrong:
        run.violate('content', 'the features of %r are not those of its '
                    'source' % wrong[0])


def shrink(spec):
    for k in ('err', 'load', 'batch', 'bad', 'dtype'):
        if spec.get(k):
            yield dict(spec, **{k: None})
    for c in gen.chunks_removed(spec.get('faults', [])):
        yield dict(spec, faults=c)
    if spec.get('parts', 1) > 1:
        yield dict(spec, parts=1)
    if len(spec['files']) > spec.get('parts', 1):
        for c in gen.chunks_removed(spec['files']):
            if len(c) >= spec.get('parts', 1):
                yield dict(spec, files=c)
