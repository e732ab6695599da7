"""The world of a run: what the directors and the actors can do.

Director side: Run (bookkeeping of a run) and the actors it spawns.
Actor side: the pipeline stages, called through ABXpy's public interface, and
inspectors that read back the files they produce.
"""
import collections
import hashlib
import inspect
import os
import warnings

import numpy as np

from . import actor, osim, ref, sched
from .actor import HarnessError

warnings.simplefilter('ignore')


class Stop(Exception):
    """The run cannot go on: a violation has been recorded."""


OPTIONS = ('faults', 'seed', 'tag', 'np_seed', 'cpu', 'gate', 'prepare', 'log',
           'want_fds', 'fds', 'root')


class Run(object):
    """Bookkeeping of one simulated run."""

    def __init__(self, root, spec, opts):
        self.root, self.spec, self.opts = root, spec, opts
        self.violations = []
        self.h = hashlib.sha256()
        self.events = 0
        self.sim_ns = 0
        self.faults = collections.Counter()
        self.traces = []
        self.notes = collections.Counter()
        self.sigs = []
        self.n_actor = 0

    def violate(self, key, msg):
        self.violations.append({'key': key, 'msg': str(msg)[:1500]})

    def note(self, what, n=1):
        self.notes[what] += n

    def sig(self, *what):
        """A state/behaviour signature, for the coverage measure."""
        self.sigs.append(hashlib.sha256(repr(what).encode()).hexdigest()[:12])

    def digest(self, *what):
        self.h.update(repr(what).encode())

    def spawn(self, fn, *args, **o):
        """Run fn in an actor of this run's world."""
        kw = {k: o.pop(k) for k in list(o) if k not in OPTIONS}
        faults = o.get('faults', ())
        self.n_actor += 1
        o.setdefault('seed', self.spec.get('seed', 0) * 1000 + self.n_actor)
        o.setdefault('tag', '%d' % self.n_actor)
        root = o.pop('root', self.root)
        gate = o.get('gate')
        if self.opts.get('log'):
            o.setdefault('log', self.opts['log'])
        out = actor.spawn(root, fn, args, kw, **o)
        if gate is not None:
            actor.reap_orphans()
            s = gate.summary()
            self.digest('gate', s)
            self.traces.append((s['trace'], s['lockorder']))
            self.note('scheduler steps', s['steps'])
            self.note('context switches', s['switches'])
            for k in s['kills']:
                self.faults['kill:' + {0: 'main', 'all': 'all'}.get(
                    k[0], 'worker')] += 1
            self.switches = gate.switches
            for i, st in gate.worker_stats.items():
                self.events += st['events']
                for f, n in zip(gate.worker_faults.get(str(i), []),
                                st['hits']):
                    if n > 0:
                        self.faults[osim.fault_name(f)] += n
        self.digest(out.status, out.exc_type)
        if out.sim:
            self.events += out.sim['events']
            self.sim_ns += out.sim['clock_ns']
            self.digest(out.sim['hash'], out.sim['hits'])
            for f, n in zip(faults, out.sim['hits']):
                if n > 0:
                    self.faults[osim.fault_name(f)] += n
        elif out.status in ('exit', 'signal', 'hang'):
            for f in faults:
                if f['kind'] in ('crash', 'torn', 'crash_after'):
                    self.faults[f['kind']] += out.status == 'exit'
        return out

    def ok(self, fn, *args, **o):
        """Run fn in a fault free actor; anything but a return is a harness
        error (set-up and inspection)."""
        if fn is attempt:
            o.setdefault('cpu', 30)
        out = self.spawn(fn, *args, **o)
        if out.status != 'ok':
            if fn is attempt and out.status != 'raise':
                # a damaged file can make libhdf5 crash or loop
                return ('err', 'the reader ' + out.brief())
            if fn.__name__.startswith(('stage_', 'read_')):
                # a stage of the pipeline, or reading back what it wrote
                self.violate('broken', '%s %s without any fault' % (
                    fn.__name__.replace('_', ' '), out.brief()))
                raise Stop()
            raise HarnessError('%s: %s\n%s' % (
                fn.__name__, out.brief(), getattr(out, 'tb', '')))
        return out.value

    def result(self):
        return {'violations': self.violations, 'hash': self.h.hexdigest()[:16],
                'events': self.events, 'sim_ns': self.sim_ns,
                'faults': dict(self.faults), 'traces': self.traces,
                'notes': dict(self.notes), 'sigs': self.sigs,
                'switches': getattr(self, 'switches', None)}


# ---- input files -------------------------------------------------------------
def write_items(task, path='d.item'):
    derived = {a[1] for a in task.get('aux', ())}
    keep = [0, 1, 2] + [i + 3 for i, c in enumerate(task['cols'])
                        if c not in derived]
    sep = task.get('sep', ' ')
    with open(path, 'w') as f:
        f.write(sep.join(['#file', 'onset', 'offset']) + sep + '#' + sep.join(
            c for c in task['cols'] if c not in derived) + '\n')
        lines = [sep.join(str(r[i]) for i in keep) + task.get('trail', '')
                 for r in task['rows']]
        for at, text in task.get('blank', ()):
            lines.insert(at, text)
        f.write('\n'.join(lines + ['']))
    if task.get('scripts'):
        for i in range(len(task['filters'])):
            with open(ref.filter_arg(task, i, path[:-len('.item')]),
                      'w') as f:
                f.write(ref.script(task, i))
    # the other columns are in auxiliary files, one per column they derive from
    base = path[:-len('.item')]
    keys = []
    for a in task.get('aux', ()):
        if a[0] not in keys:
            keys.append(a[0])
    for key in keys:
        maps = [a for a in task['aux'] if a[0] == key]
        with open('%s.%s' % (base, key), 'w') as f:
            f.write(sep.join([key] + [a[1] for a in maps]) + '\n')
            for v in sorted({v for a in maps for v in a[2]}):
                f.write(sep.join([v] + [str(a[2].get(v, 'NA'))
                                        for a in maps]) + '\n')


def make_features(fspec):
    """{file: (times, features)} from its compact description."""
    out = {}
    dim = fspec.get('dim', 2)
    for name, n, seed in fspec['files']:
        rs = np.random.RandomState(seed)
        t = np.arange(n) / 8.0 + fspec.get('shift', 1) / 16.0
        t = fspec.get('origin', 0) + t * fspec.get('unit', 1)
        if fspec.get('ulp'):
            # next to the bounds of the items
            side = rs.randint(-1, 2, size=n)
            t = np.nextafter(t, t + side)
        if fspec.get('kind', 'int') == 'int':
            x = rs.randint(-fspec.get('amp', 3), fspec.get('amp', 3) + 1,
                           size=(n, dim)).astype(float)
        elif fspec['kind'] == 'sym':
            x = rs.randint(0, fspec['amp'] + 1, size=(n, dim)).astype(float)
        elif fspec['kind'] == 'pos':
            x = rs.randint(1, 1000, size=(n, dim)) / 1000.
        else:
            x = rs.randn(n, dim)
        out[name] = (t, x)
    return out


def write_features(fspec, path='d.features', only=None, group='features',
                   old=False):
    import h5features
    feats = make_features(fspec)
    names = [f[0] for f in fspec['files'] if only is None or f[0] in only]
    h5features.write(path, group, names, [feats[n][0] for n in names],
                     [feats[n][1] for n in names])
    if old:
        # the version 1.0 of the format
        import h5py
        with h5py.File(path, 'r+') as f:
            g = f[group]
            g.move('items', 'files')
            g.move('labels', 'times')
            g.move('index', 'file_index')
            g.attrs['version'] = '1.0'


# ---- distances ---------------------------------------------------------------
class Poison(Exception):
    pass


class Unpicklable(Exception):
    def __init__(self, what):
        Exception.__init__(self, what)
        self.f = lambda: what


class HalfPicklable(Exception):
    def __init__(self, what, where):
        Exception.__init__(self, what)


def dist_code(a, b, normalized=None):
    """An asymmetric, integer valued distance with many ties."""
    s = 0.0
    if a.shape[0]:
        s += abs(a[0, 0] * 3 - (b[-1, 0] if b.shape[0] else 50)) + a.shape[0]
        s += 2 * abs(a.sum())
    s += abs(b.sum()) + 5 * (a.shape[0] == 0) + 7 * (b.shape[0] == 0)
    if normalized is not None:
        s = s / 2 + 1 if normalized else s * 2
    return s


def dist_unique(a, b, normalized=None):
    """An asymmetric distance that separates almost all pairs."""
    wa = np.arange(1, a.size + 1)
    wb = np.arange(3, 2 * b.size + 3, 2)
    return float(abs((a.ravel() * wa).sum() * 1.37 -
                     (b.ravel() * wb).sum() * 0.61) + 0.01 * a.shape[0] +
                 0.001 * b.shape[0] + (0.5 if normalized else 0.0))


POISON_VALUE = 977.0
# what a user's distance may raise
POISONS = [Poison, ZeroDivisionError, FloatingPointError, OverflowError,
           ValueError, KeyError, IndexError, TypeError, AssertionError,
           MemoryError, StopIteration, OSError, UserWarning, Unpicklable,
           HalfPicklable, EOFError, NotImplementedError, BrokenPipeError]


def dist_poison(a, b, normalized=None):
    v = max(a.max() if a.size else 0, b.max() if b.size else 0)
    if v >= POISON_VALUE:
        c = POISONS[int(v - POISON_VALUE) % len(POISONS)]
        if c is HalfPicklable:
            raise c('poisoned', 'item')
        raise c('poisoned item')
    return dist_code(a, b, normalized)


def _dtw(a, b, name, module='kullback_leibler'):
    import importlib
    import ABXpy.distances.metrics.dtw as dtw
    m = importlib.import_module('ABXpy.distances.metrics.' + module)
    if not a.shape[0] or not b.shape[0]:
        return 0 if a.shape[0] == b.shape[0] else np.inf
    f = getattr(m, name)
    return dtw.dtw(a, b, lambda x, y: np.array(f(x, y)).reshape(
        len(x), len(y)), True)


# a user's own distances, built with the metrics of the package
def dist_js(a, b):
    return _dtw(a, b, 'js_divergence')


def dist_hellinger(a, b):
    return _dtw(a, b, 'hellinger_distance')


def dist_ncos(a, b):
    return _dtw(a, b, 'normalize_cosine_distance', 'cosine')


POSITIVE = ('dtw_kl', 'js', 'hellinger', 'ncos')
NO_OPTION = ('edit', 'js', 'hellinger', 'ncos')


def get_distance(name):
    import ABXpy.distance
    if name == 'dtw':
        return ABXpy.distance.default_distance
    if name == 'dtw_kl':
        return ABXpy.distance.dtw_kl_distance
    if name == 'edit':
        return ABXpy.distance.edit_distance
    return {'js': dist_js, 'hellinger': dist_hellinger, 'ncos': dist_ncos,
            'code': dist_code, 'unique': dist_unique,
            'poison': dist_poison}[name]


# ---- knobs: the buffer sizes the h5tools already expose ------------------------
def _override(cls, meth, **force):
    """Force keyword arguments of a method, when it has them."""
    f = getattr(cls, meth, None)
    if f is None:
        return
    try:
        sig = inspect.signature(f)
    except (TypeError, ValueError):
        return

    def wrapped(*a, **k):
        try:
            b = sig.bind(*a, **k)
        except TypeError:
            return f(*a, **k)
        for name, val in force.items():
            if name in sig.parameters and name not in b.arguments:
                if callable(val):
                    val = val(b.arguments)
                if val is not None:
                    b.arguments[name] = val
        return f(*b.args, **b.kwargs)
    wrapped.__name__ = meth
    setattr(cls, meth, wrapped)


def _force_sort(cls, rows, o_rows):
    """Force the number of rows per chunk of the external sort."""
    f = getattr(cls, 'sort', None)
    if f is None:
        return
    sig = inspect.signature(f)
    if 'buffer_size' not in sig.parameters:
        return

    def wrapped(*a, **k):
        import h5py
        b = sig.bind(*a, **k)
        self = b.arguments['self']
        try:
            with h5py.File(self.file, 'r') as fh:
                dsets = [fh[g][d] for g, d in zip(self.groups, self.datasets)]
                n = dsets[0].shape[0]
                w = sum(d.shape[1] * d.dtype.itemsize for d in dsets)
        except Exception:
            return f(*a, **k)
        lo = int(np.ceil(np.sqrt(n))) + 1
        r = max(lo, int(rows * n))
        b.arguments['buffer_size'] = r * w / 1000.
        if 'o_buffer_size' in sig.parameters and o_rows:
            b.arguments['o_buffer_size'] = o_rows * w / 1000.
        return f(*b.args, **b.kwargs)
    cls.sort = wrapped


def apply_knobs(k):
    import ABXpy.h5tools.np2h5 as np2h5
    import ABXpy.h5tools.h52np as h52np
    import ABXpy.h5tools.h5_handler as h5_handler
    import ABXpy.task as task
    if not k:
        return
    if k.get('wbuf'):
        _override(np2h5.NP2H5, 'add_dataset', buf_size=k['wbuf'])
    if k.get('chunk'):
        _override(np2h5.NP2H5, 'add_dataset', chunk_size=k['chunk'])
    if k.get('rbuf'):
        _override(h52np.H52NP, 'add_dataset', buf_size=k['rbuf'],
                  minimum_occupied_portion=k.get('occ'))
        _override(h52np.H52NP, 'add_subdataset', buf_size=k['rbuf'],
                  minimum_occupied_portion=k.get('occ'))
    if k.get('sort_rows'):
        _force_sort(h5_handler.H5Handler, k['sort_rows'], k.get('sort_out'))
    if k.get('sort_mem') and hasattr(task, 'sort_pairs'):
        f = task.sort_pairs
        sig = inspect.signature(f)

        def wrapped(*a, **kw):
            b = sig.bind(*a, **kw)
            if 'memory' in sig.parameters:
                b.arguments['memory'] = k['sort_mem']
            return f(*b.args, **b.kwargs)
        task.sort_pairs = wrapped


# ---- stages ------------------------------------------------------------------
def make_task(t, path='d.item', verbose=False):
    import ABXpy.task
    kw = {'verbose': True} if verbose else {}
    if t['across']:
        kw['across'] = t['across'][0] if t.get('as_str') and \
            len(t['across']) == 1 else list(t['across'])
    if t['by']:
        kw['by'] = t['by'][0] if t.get('as_str') and len(t['by']) == 1 \
            else list(t['by'])
    if t['filters']:
        kw['filters'] = [ref.filter_arg(t, i, path[:-len('.item')])
                         for i in range(len(t['filters']))]
    if t['regressors']:
        kw['regressors'] = list(t['regressors'])
    return ABXpy.task.Task(path, t['on'], **kw)


def stage_task(t, item='d.item', out='d.abx', tmpdir=None, knobs=None,
               past=(), verbose=False):
    """past: what the same Task object has been asked before."""
    apply_knobs(knobs)
    task = make_task(t, item, verbose)
    for n, p in enumerate(past):
        if p == 'print':
            task.print_stats('stats%d.txt' % n)
        elif p == 'full print':
            task.print_stats('stats%d.txt' % n, summarized=False)
        else:
            task.generate_triplets(output='past%d.abx' % n, threshold=p,
                                   tmpdir=tmpdir)
    stats = {k: (bool(v) if isinstance(v, bool) else int(v))
             for k, v in task.stats.items() if np.isscalar(v)}
    by_stats = {str(b): {k: int(v) for k, v in s.items() if np.isscalar(v)}
                for b, s in task.by_stats.items()}
    kw = {}
    if t.get('threshold') is not None:
        kw['threshold'] = t['threshold']
    if t.get('seed') is not None:
        kw['seed'] = t['seed']
    if out is not None:
        kw['output'] = out
    task.generate_triplets(tmpdir=tmpdir, **kw)
    return stats, by_stats


def stage_dist(d, feat='d.features', task='d.abx', out='d.distance',
               cpu_count=None):
    import ABXpy.distances.distances as dd
    from . import simmp
    simmp.CPU_COUNT = cpu_count
    if d.get('block_mb'):
        _override_fn(dd, 'create_distance_jobs', buffer_max_size=d['block_mb'])
    group = d.get('group', 'features')
    kw = {}
    if isinstance(feat, list):
        group = [group] * len(feat)
        kw['feature_file_as_list'] = True
    dd.compute_distances(feat, group, task, out, get_distance(d['fn']),
                         d.get('normalized'), n_cpu=d['n_cpu'], **kw)


def _override_fn(mod, name, **force):
    f = getattr(mod, name, None)
    if f is None:
        return
    sig = inspect.signature(f)

    def wrapped(*a, **k):
        b = sig.bind(*a, **k)
        for n, v in force.items():
            if n in sig.parameters and n not in b.arguments:
                b.arguments[n] = v
        return f(*b.args, **b.kwargs)
    setattr(mod, name, wrapped)


def stage_score(task='d.abx', dist='d.distance', out='d.score', knobs=None):
    import ABXpy.score
    apply_knobs(knobs)
    ABXpy.score.score(task, dist, out)


def stage_analyze(task='d.abx', score='d.score', out='d.csv'):
    import ABXpy.analyze
    ABXpy.analyze.analyze(task, score, out)


# ---- inspectors ----------------------------------------------------------------
def read_task(path='d.abx', regs=True, feats=True):
    """Everything a user reads from a task file, as plain data."""
    import h5py
    import pandas
    out = {'bys': [], 'by': {}}
    with h5py.File(path, 'r') as f:
        bys = [b if isinstance(b, str) else b.decode() for b in f['bys'][...]]
        out['bys'] = bys
        data = f['triplets/data'][...]
        idx = f['triplets/by_index'][...]
        out['n_rows'] = int(data.shape[0])
        out['index'] = [[int(a), int(b)] for a, b in idx]
        up = f['unique_pairs/data'][...]
        out['n_pairs'] = int(up.shape[0])
        for n, b in enumerate(bys):
            s, e = [int(x) for x in idx[n]]
            base, ps, pe = [int(x) for x in f['unique_pairs'].attrs[b]]
            d = {'triplets': [tuple(int(x) for x in r) for r in data[s:e]],
                 'base': base, 'range': [ps, pe],
                 'pairs': [int(x) for x in up[ps:pe, 0]]}
            if regs:
                g = f['regressors'][b]
                names = [x if isinstance(x, str) else x.decode()
                         for x in g['indexed_datasets'][...]]
                ind = g['indexed_data'][...]
                cols = {}
                for j, name in enumerate(names):
                    levels = [x.decode() if isinstance(x, bytes) else x
                              for x in g['indexes'][name][...]]
                    cols[name] = [str(levels[int(v)]) for v in ind[:, j]]
                d['regs'] = cols
            out['by'][b] = d
    if feats:
        st = pandas.HDFStore(path, mode='r')
        for b in bys:
            df = st['feat_dbs/' + b]
            out['by'][b]['locs'] = [
                (str(r[0]), float(r[1]), float(r[2]))
                for r in df.itertuples(index=False)]
        st.close()
    return out


def read_dist(path='d.distance'):
    import h5py
    with h5py.File(path, 'r') as f:
        done = f.attrs.get('done')
        return {'done': None if done is None else bool(done),
                'data': f['distances/data'][...][:, 0].tolist()}


def read_score(path='d.score'):
    import h5py
    with h5py.File(path, 'r') as f:
        return [int(x) for x in f['scores'][...][:, 0]]


def read_csv(path='d.csv'):
    with open(path) as f:
        lines = f.read().split('\n')
    head = lines[0].split('\t')
    rows = [l.split('\t') for l in lines[1:] if l]
    return {'head': head, 'rows': rows, 'tail_ok': lines[-1] == ''}


def exists(*paths):
    return all(os.path.exists(p) for p in paths)


def attempt(fn, *a, **k):
    """Inspector that may legitimately fail on a damaged file."""
    try:
        return ('ok', fn(*a, **k))
    except Exception as e:
        return ('err', repr(e)[:300])


def warm_up(root):
    """Exercise every stage once in the zygote so that lazy imports and caches
    do not depend on which actor comes first."""
    cwd = os.getcwd()
    os.chdir(root)
    try:
        t = {'cols': ['c0', 'c1'], 'on': 'c0', 'across': ['c1'], 'by': [],
             'filters': [], 'regressors': [],
             'rows': [['f0', 0, 1, a, b] for a in 'xy' for b in 'uv']}
        write_items(t)
        write_features({'files': [['f0', 4, 1]]})
        import tempfile
        tempfile.tempdir = os.path.join(root, 'tmp')
        stage_task(t)
        read_task()
        import ABXpy.distances.distances as dd
        dd.compute_distances('d.features', 'features', 'd.abx', 'd.distance',
                             dist_code, None, n_cpu=1)
        stage_score()
        stage_analyze()
    except Exception:
        # never let a broken tree hide behind the warm up: the runs report it
        pass
    finally:
        os.chdir(cwd)
