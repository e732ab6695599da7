"""C08: an IncrementalSampler delivers, over any history of chunk requests and
any random stream, exactly K distinct indices of [0, N), in place."""
import math

from .. import gen
from . import c07

COUNT = {'quick': 2400, 'thorough': 60000}


def make(rng, i, tier):
    if i % 40 == 11:
        N = rng.choice([6, 12, 30, 130, 600, 6000, 3 * 10 ** 9])
        K = rng.randrange(1, min(N, 400))
        return {'kind': 'uniform', 'N': N, 'K': K, 'reps': 400,
                'first': rng.randrange(1 << 20),
                'chunks': chunks(rng, N, rng.choice([2, 3, 6]))}
    if i % 40 == 31:
        # the number of items that fall in a chunk
        N = rng.choice([20, 60, 200, 1000, 10 ** 4, 10 ** 6, 10 ** 9])
        K = rng.choice([k for k in (5, 10, 40, 150, 600, N // 2, N - 3)
                        if k < N and min(k, 600) == k])
        return {'kind': 'counts', 'N': N, 'K': K, 'reps': 1500,
                'first': rng.randrange(1 << 20),
                'n': max(1, min(N - 1, int(N * rng.choice(
                    [.05, .2, .3, .5, .6, .8, .95]))))}
    N = rng.choice([1, 2, 3, 10, 50, 101, 150, 1000, 5000, 20000,
                    10 ** 6, 10 ** 9, 10 ** 12])
    if N <= 20000:
        K = rng.choice([1, N, N - 1, N // 2, N // 7, rng.randrange(0, N + 1)])
        K = min(max(K, 1), N)
    else:
        K = rng.choice([1, 2, 10, 500, 20000 if N < 10 ** 12 else 3000])
    if rng.random() < 0.04:
        N, K = 400000, rng.choice([250000, 330000, 399999])
    spec = {'N': N, 'K': K, 'relative': rng.random() < 0.5,
            'np_seed': rng.randrange(1 << 30),
            'stream': rng.choice(['normal', 'normal', 'normal', 'low', 'high',
                                  'dup'])}
    if rng.random() < 0.3:
        if rng.random() < 0.3 and K > 0:
            spec['step'] = None
        else:
            spec['step'] = max(1, N // rng.choice([1, 2, 3, 7, 20])) + \
                rng.randrange(2)
    else:
        spec['chunks'] = chunks(rng, N, rng.choice([1, 2, 3, 5, 12]))
    if N > 1000 and rng.random() < 0.3:
        spec['both'] = True
    return spec


def chunks(rng, N, n):
    cuts = sorted(rng.randrange(N + 1) for _ in range(n - 1))
    out = [b - a for a, b in zip([0] + cuts, cuts + [N])]
    while out[-1] == 0:
        out.pop()                # nothing may be asked once all is sampled
    if rng.random() < 0.3:
        out[-1] += rng.randrange(1, 10)       # asks for more than there is
    return out


def history(spec):
    import ABXpy.sampling.sampler as sampler
    c07.streams(spec.get('stream', 'normal'))
    kw = {}
    if 'chunks' not in spec:
        kw['step'] = spec['step']
    s = sampler.IncrementalSampler(spec['N'], spec['K'],
                                   relative_indexing=spec['relative'], **kw)
    out = []
    if 'chunks' in spec:
        for n in spec['chunks']:
            out.append([int(x) for x in s.sample(n)])
    else:
        for x in s:
            out.append([int(v) for v in x])
            if len(out) > 100000:
                break
        out.append(('step', int(s.step)))
    return out


def cells(N):
    """Equal parts of [0, N)."""
    return N if N <= 130 else 50


def uniform(spec):
    import numpy as np
    import ABXpy.sampling.sampler as sampler
    count = [0] * cells(spec['N'])
    for r in range(spec['reps']):
        np.random.seed(spec['first'] + r)
        s = sampler.IncrementalSampler(spec['N'], spec['K'],
                                       relative_indexing=False)
        for n in spec['chunks']:
            for x in s.sample(n):
                count[int(x) * len(count) // spec['N']] += 1
    return count


def in_chunk(spec):
    import numpy as np
    import ABXpy.sampling.sampler as sampler
    count = {}
    for r in range(spec['reps']):
        np.random.seed(spec['first'] + r)
        s = sampler.IncrementalSampler(spec['N'], spec['K'])
        k = len(s.sample(spec['n']))
        count[k] = count.get(k, 0) + 1
    return count


def run(spec, run):
    if spec.get('kind') == 'uniform':
        return run_uniform(spec, run)
    if spec.get('kind') == 'counts':
        return run_counts(spec, run)
    out = run.spawn(history, spec, np_seed=spec['np_seed'])
    run.events += 1
    if out.status != 'ok':
        run.violate('failed', 'sampling %d of %d in %r %s' % (
            spec['K'], spec['N'], spec.get('chunks', spec.get('step')),
            out.brief()))
        return
    got = out.value
    sizes = spec.get('chunks')
    if sizes is None:
        step = got.pop()[1]
        sizes = [step] * len(got)
        if len(got) * step < spec['N']:
            run.violate('coverage', 'iteration stopped after %d chunks of %d '
                        'of %d items' % (len(got), step, spec['N']))
            return
    pos, total = 0, []
    for n, c in zip(sizes, got):
        n = min(n, spec['N'] - pos)
        base = 0 if not spec['relative'] else pos
        for x in c:
            if not pos <= x + base < pos + n:
                run.violate('range', 'index %d returned for the chunk [%d, '
                            '%d)' % (x + base, pos, pos + n))
                return
        if c != sorted(c):
            run.violate('order', 'the items of the chunk [%d, %d) are not in '
                        'increasing order: %r' % (pos, pos + n, c[:20]))
            return
        total += [x + base for x in c]
        pos += n
    run.digest(len(total), sum(total))
    run.note('sampled', len(total))
    run.sig(spec['N'], spec['K'], [len(c) for c in got])
    if len(total) != spec['K']:
        run.violate('count', '%d items sampled instead of %d (of %d, chunks '
                    '%r)' % (len(total), spec['K'], spec['N'], sizes[:12]))
    elif len(set(total)) != len(total):
        run.violate('duplicates', '%d items sampled, %d distinct' % (
            len(total), len(set(total))))
    elif spec.get('both'):
        # absolute indices are the relative ones, moved: small errors of
        # position stay within large chunks
        other = run.spawn(history, dict(spec, relative=not spec['relative']),
                          np_seed=spec['np_seed'])
        if other.status != 'ok':
            run.violate('failed', 'sampling %d of %d in %r %s' % (
                spec['K'], spec['N'], sizes[:12], other.brief()))
            return
        pos = 0
        for n, a, b in zip(sizes, got, other.value):
            n = min(n, spec['N'] - pos)
            if not spec['relative']:
                a, b = b, a
            d = [(x, y) for x, y in zip(a, b) if x + pos != y]
            if d or len(a) != len(b):
                run.violate('positions', 'in the chunk at %d, item %d is '
                            'given the absolute index %d' % ((pos,) + (
                                d + [(-1, -1)])[0]))
                return
            pos += n


def run_counts(spec, run):
    """The number of items that fall in the first chunk is hypergeometric."""
    out = run.spawn(in_chunk, spec)
    run.events += 1
    if out.status != 'ok':
        run.violate('failed', 'sampling %s' % out.brief())
        return
    N, K, n, reps = spec['N'], spec['K'], spec['n'], spec['reps']
    run.sig('counts', N, K, n)
    run.note('distribution experiments')
    lo, hi = max(0, n - (N - K)), min(n, K)
    if any(not lo <= k <= hi for k in out.value):
        run.violate('count', '%d to %d of %d items in a chunk of %d of %d' % (
            min(out.value), max(out.value), K, n, N))
        return

    def lc(a, b):
        return math.lgamma(a + 1) - math.lgamma(b + 1) - \
            math.lgamma(a - b + 1)
    x2, cells, e, o = 0., 0, 0., 0
    for k in range(lo, hi + 1):
        e += reps * math.exp(lc(K, k) + lc(N - K, n - k) - lc(N, n))
        o += out.value.get(k, 0)
        if e >= 20:
            x2, cells, e, o = x2 + (o - e) ** 2 / e, cells + 1, 0., 0
    if cells < 2:
        return
    # what remains
    x2 += (o - e) ** 2 / max(e, 10.)
    if x2 > cells + 10 * (2 * cells) ** 0.5 + 30:
        run.violate('distribution', 'over %d samples of %d in %d, the number '
                    'of items in the first %d is %s: chi square %.1f in %d '
                    'cells' % (reps, K, N, n, dict(sorted(
                        out.value.items())[:12]), x2, cells))


def run_uniform(spec, run):
    out = run.spawn(uniform, spec)
    run.events += 1
    if out.status != 'ok':
        run.violate('failed', 'sampling %s' % out.brief())
        return
    cnt = out.value
    N, K, n, reps = spec['N'], spec['K'], len(cnt), spec['reps']
    run.sig('uniform', N, K)
    run.note('uniformity experiments')
    if sum(cnt) != K * reps:
        run.violate('count', '%d items in %d samples of %d' % (
            sum(cnt), reps, K))
        return
    if K == N:
        return
    p = 1. / n
    var = reps * K * p * (1 - p) * (N - K) / (N - 1)
    x2 = sum((c - reps * K * p) ** 2 for c in cnt) / var * (n - 1) / n
    if x2 > (n - 1) + 12 * (2 * (n - 1)) ** 0.5 + 30:
        run.violate('biased', 'over %d samples of %d in %d (chunks %r): chi '
                    'square %.1f, counts %r' % (
                        reps, K, N, spec['chunks'], x2, cnt[:20]))


def shrink(spec):
    if spec.get('stream') not in (None, 'normal'):
        yield dict(spec, stream='normal')
    if spec.get('chunks') and not spec.get('kind'):
        for c in gen.chunks_removed(spec['chunks']):
            if c and sum(c):
                N = sum(c)
                yield dict(spec, chunks=c, N=N, K=min(N, spec['K']))
