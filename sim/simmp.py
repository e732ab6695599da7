"""Simulated multiprocessing and concurrent.futures process pools.

Stubs, with the semantics of CPython 3.12's own (fork start method): arguments
and results are pickled; Pool.map waits for every chunk and re-raises the first
failure; a Pool that loses a worker loses its task, so waiting for it never
returns; a ProcessPoolExecutor that loses a worker terminates the others and
breaks all unfinished futures.  Outside a gated actor they delegate to the real
ones.
"""
import concurrent.futures
import concurrent.futures.process
import concurrent.futures._base as fbase
import multiprocessing
import multiprocessing.context
import multiprocessing.managers
import multiprocessing.pool
import os
import pickle
import queue as _queue
import signal
import time
import traceback

from . import osim, sched

REAL = {}
CPU_COUNT = None


def gated():
    return sched.ACTIVE is not None and sched.CLIENT.pid == os.getpid()


def call(*a, **k):
    return sched.CLIENT.call(*a, **k)


# ---- locks ------------------------------------------------------------------
class SimLock(object):
    def __init__(self, value=1, bound=1, reentrant=False):
        g = sched.ACTIVE
        g.nlocks += 1
        self.id = (sched.CLIENT.proc, g.nlocks)
        self.bound, self.reentrant = bound, reentrant
        self.owner, self.depth = None, 0
        call('L', obj=(self.id, value))

    def acquire(self, block=True, timeout=None, blocking=None):
        if blocking is not None:
            block = blocking
        if self.reentrant and self.owner == os.getpid():
            self.depth += 1
            return True
        if block and timeout is None:
            call('A', obj=self.id)
            ok = True
        else:
            ok = call('a', obj=self.id, reply=True)
        if ok and self.reentrant:
            self.owner, self.depth = os.getpid(), 1
        return ok

    def release(self):
        if self.reentrant:
            self.depth -= 1
            if self.depth:
                return
            self.owner = None
        call('R', obj=(self.id, self.bound))

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimQueue(object):
    def __init__(self, *a, **k):
        g = sched.ACTIVE
        g.nqueues += 1
        self.id = (sched.CLIENT.proc, g.nqueues)

    def put(self, x, *a, **k):
        call('q', obj=(self.id, pickle.dumps(x)))

    put_nowait = put

    def get(self, *a, **k):
        return pickle.loads(call('g', obj=self.id, reply=True))

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class SimManager(object):
    def __init__(self):
        self._real = None

    def start(self, *a, **k):
        pass

    def Lock(self):
        return SimLock()

    def RLock(self):
        return SimLock(reentrant=True)

    def Semaphore(self, value=1):
        return SimLock(value, 1 << 30)

    def BoundedSemaphore(self, value=1):
        return SimLock(value, value)

    def Queue(self, *a):
        return SimQueue()

    def shutdown(self):
        if self._real is not None:
            self._real.shutdown()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()

    def __getattr__(self, name):     # dict, list, Value...: the real one
        if name.startswith('_'):
            raise AttributeError(name)
        if self._real is None:
            self._real = REAL['Manager']()
        return getattr(self._real, name)


# ---- processes ----------------------------------------------------------------
def fork_worker(gid, body):
    """Fork a simulated process running body(); returns (proc, pid)."""
    g = sched.ACTIVE
    if sched.CLIENT.proc != 0:
        raise NotImplementedError('nested workers are not simulated')
    i = g.next_proc
    if i >= sched.MAXPROC:
        raise OSError(11, 'Resource temporarily unavailable')
    g.next_proc += 1
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            import tempfile
            from . import actor
            _, cw, dr, _ = g.chan[i]
            sched.CLIENT = sched.Client(dr, cw, i)
            L = osim.lib()
            L.sim_clear_rules()
            osim.add_rules(g.worker_faults.get(str(i), []))
            L.sim_reseed(1000003 * i + 17)
            tempfile._name_sequence = actor.NameSeq('w%d' % i)
            L.sim_gate(dr, cw, g.mask)
            call('S', obj=os.getpid())
            code = body() or 0
            call('X', obj=osim.stats(g.worker_faults.get(str(i), [])))
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    call('Q', obj=(i, pid, gid))
    return i, pid


def new_group(kind):
    g = sched.ACTIVE
    g.ngroups += 1
    call('G', obj=(g.ngroups, kind))
    return g.ngroups


def worker_loop(initializer=None, initargs=()):
    def body():
        if initializer is not None:
            initializer(*initargs)
        while True:
            t, blob = call('T', reply=True)
            if t is None:
                return 0
            try:
                fn, args, kw, many = pickle.loads(blob)
                if many:
                    val = [fn(*a) for a in args]
                else:
                    val = fn(*args, **kw)
                res = ('ok', pickle.dumps(val))
            except BaseException as e:
                if isinstance(e, (SystemExit, KeyboardInterrupt)):
                    raise
                try:
                    blob = pickle.dumps(e)
                except Exception:
                    blob = pickle.dumps(RuntimeError(repr(e)))
                try:
                    pickle.loads(blob)
                except Exception:
                    # the thread that reads the results dies of it: a pool
                    # waits for ever, an executor is broken, as when the
                    # worker dies
                    raise SystemExit(1)
                res = ('err', blob)
            call('D', obj=(t, res))
    return body


def submit(gid, tasks):
    g = sched.ACTIVE
    out = []
    for t in tasks:
        g.ntasks += 1
        out.append((g.ntasks, pickle.dumps(t)))
    call('U', obj=(gid, out))
    return [t for t, _ in out]


def unwrap(res):
    kind, blob = res
    if kind == 'ok':
        return pickle.loads(blob)
    if kind == 'broken':
        raise concurrent.futures.process.BrokenProcessPool(
            'A process in the process pool was terminated abruptly while '
            'the future was running or pending.')
    raise pickle.loads(blob)


def reap(pids):
    for pid in pids:
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass


class SimAsyncResult(object):
    def __init__(self, ids, collect, callback=None, error_callback=None):
        self.ids, self.collect = ids, collect
        self.callback, self.error_callback = callback, error_callback

    def wait(self, timeout=None):
        call('W', obj=(self.ids, 'all'), reply=True)

    def ready(self):
        return len(call('w', obj=self.ids, reply=True)) == len(self.ids)

    def get(self, timeout=None):
        res = call('W', obj=(self.ids, 'all'), reply=True)
        try:
            val = self.collect([unwrap(res[t]) for t in self.ids])
        except Exception as e:
            if self.error_callback:
                self.error_callback(e)
            raise
        if self.callback:
            self.callback(val)
        return val

    def successful(self):
        res = call('W', obj=(self.ids, 'all'), reply=True)
        return all(r[0] == 'ok' for r in res.values())


class SimPool(object):
    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        self.n = processes
        self.gid = new_group('pool')
        self.workers = [fork_worker(self.gid,
                                    worker_loop(initializer, initargs))
                        for _ in range(processes)]
        self.state = 'run'

    def _chunks(self, fn, args, star, chunksize):
        if self.state != 'run':
            raise ValueError('Pool not running')
        args = list(args)
        if chunksize is None:
            chunksize, extra = divmod(len(args), self.n * 4)
            if extra:
                chunksize += 1
        if not args:
            return []
        args = [tuple(a) if star else (a,) for a in args]
        return submit(self.gid, [
            (fn, args[i:i + chunksize], {}, True)
            for i in range(0, len(args), chunksize)])

    @staticmethod
    def _flat(parts):
        return [x for p in parts for x in p]

    def map_async(self, fn, it, chunksize=None, callback=None,
                  error_callback=None):
        return SimAsyncResult(self._chunks(fn, it, False, chunksize),
                              self._flat, callback, error_callback)

    def starmap_async(self, fn, it, chunksize=None, callback=None,
                      error_callback=None):
        return SimAsyncResult(self._chunks(fn, it, True, chunksize),
                              self._flat, callback, error_callback)

    def map(self, fn, it, chunksize=None):
        return self.map_async(fn, it, chunksize).get()

    def starmap(self, fn, it, chunksize=None):
        return self.starmap_async(fn, it, chunksize).get()

    def apply_async(self, fn, args=(), kwds={}, callback=None,
                    error_callback=None):
        if self.state != 'run':
            raise ValueError('Pool not running')
        ids = submit(self.gid, [(fn, tuple(args), dict(kwds), False)])
        return SimAsyncResult(ids, lambda v: v[0], callback, error_callback)

    def apply(self, fn, args=(), kwds={}):
        return self.apply_async(fn, args, kwds).get()

    def imap(self, fn, it, chunksize=1):
        ids = self._chunks(fn, it, False, chunksize)

        def gen():
            for t in ids:
                res = call('W', obj=([t], 'all'), reply=True)
                for x in unwrap(res[t]):
                    yield x
        return gen()

    def imap_unordered(self, fn, it, chunksize=1):
        ids = self._chunks(fn, it, False, chunksize)

        def gen():
            left = list(ids)
            while left:
                res = call('W', obj=(left, 'any'), reply=True)
                t = next(t for t in left if t in res)
                left.remove(t)
                for x in unwrap(res[t]):
                    yield x
        return gen()

    def close(self):
        if self.state == 'run':
            self.state = 'close'
            call('C', obj=self.gid)

    def terminate(self):
        self.state = 'terminate'
        call('C', obj=self.gid)
        call('K', obj=[i for i, _ in self.workers])
        reap([p for _, p in self.workers])

    def join(self):
        if self.state == 'run':
            raise ValueError('Pool is still running')
        call('J', obj=[i for i, _ in self.workers])
        reap([p for _, p in self.workers])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimFuture(concurrent.futures.Future):
    def __init__(self, tid):
        super().__init__()
        self.tid = tid

    def _settle(self, res):
        if self._state == fbase.FINISHED:
            return
        try:
            self.set_result(unwrap(res))
        except concurrent.futures.InvalidStateError:
            raise
        except Exception as e:
            self.set_exception(e)

    def _block(self):
        if self._state != fbase.FINISHED:
            res = call('W', obj=([self.tid], 'all'), reply=True)
            self._settle(res[self.tid])

    def done(self):
        if self._state != fbase.FINISHED:
            res = call('w', obj=[self.tid], reply=True)
            if self.tid in res:
                self._settle(res[self.tid])
        return self._state == fbase.FINISHED

    def running(self):
        return not self.done()

    def cancel(self):
        return False

    def result(self, timeout=None):
        self._block()
        return super().result(0)

    def exception(self, timeout=None):
        self._block()
        return super().exception(0)

    def add_done_callback(self, fn):
        super().add_done_callback(fn)


class SimExecutor(object):
    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), max_tasks_per_child=None):
        if max_workers is None:
            max_workers = os.cpu_count() or 1
        if max_workers < 1:
            raise ValueError('max_workers must be greater than 0')
        self.n = max_workers
        self.gid = new_group('executor')
        self.init = (initializer, initargs)
        self.workers = []
        self.futures = []
        self.down = False

    def submit(self, fn, *args, **kw):
        if self.down:
            raise RuntimeError('cannot schedule new futures after shutdown')
        t, = submit(self.gid, [(fn, args, kw, False)])
        if not self.workers:
            self.workers = [fork_worker(self.gid, worker_loop(*self.init))
                            for _ in range(self.n)]
        f = SimFuture(t)
        self.futures.append(f)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *args) for args in zip(*its)]

        def gen():
            for f in fs:
                yield f.result()
        return gen()

    def shutdown(self, wait=True, cancel_futures=False):
        if self.down:
            return
        self.down = True
        call('C', obj=self.gid)
        if wait:
            call('J', obj=[i for i, _ in self.workers])
            reap([p for _, p in self.workers])
            for f in self.futures:
                f.done()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False


class SimProcess(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={},
                 daemon=None):
        self._target, self._args, self._kwargs = target, args, dict(kwargs)
        self.name, self.daemon = name, daemon
        self.exitcode = None
        self.pid = None
        self._i = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        def body():
            self.run()
            return 0
        self._i, self.pid = fork_worker(new_group('proc'), body)

    def join(self, timeout=None):
        call('J', obj=[self._i])
        if self.exitcode is None:
            _, st = os.waitpid(self.pid, 0)
            self.exitcode = (-os.WTERMSIG(st) if os.WIFSIGNALED(st)
                             else os.WEXITSTATUS(st))

    def is_alive(self):
        return call('E', obj=[self._i], reply=True)[self._i]

    def terminate(self):
        call('K', obj=[self._i])

    kill = terminate
    close = lambda self: None


def as_completed(fs, timeout=None):
    fs = list(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        for f in REAL['as_completed'](fs, timeout):
            yield f
        return
    left = list(dict.fromkeys(fs))
    while left:
        res = call('W', obj=([f.tid for f in left], 'any'), reply=True)
        f = next(f for f in left if f.tid in res)
        f._settle(res[f.tid])
        left.remove(f)
        yield f


def wait(fs, timeout=None, return_when='ALL_COMPLETED'):
    fs = list(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        return REAL['wait'](fs, timeout, return_when)
    if return_when == 'ALL_COMPLETED':
        for f in fs:
            f._block()
    elif return_when == 'FIRST_COMPLETED':
        call('W', obj=([f.tid for f in fs], 'any'), reply=True)
    else:
        left = [f for f in fs if not f.done()]
        done = [f for f in fs if f not in left]
        while left and not any(f.exception() for f in done):
            res = call('W', obj=([f.tid for f in left], 'any'), reply=True)
            f = next(f for f in left if f.tid in res)
            f._settle(res[f.tid])
            left.remove(f)
            done.append(f)
    done = {f for f in fs if f.done()}
    return fbase.DoneAndNotDoneFutures(done, set(fs) - done)


def install():
    """Put the simulated versions in place (before importing ABXpy)."""
    import multiprocessing.synchronize
    mp = multiprocessing
    REAL.update(Pool=mp.Pool, Manager=mp.Manager, Lock=mp.Lock,
                RLock=mp.RLock, Semaphore=mp.Semaphore, Process=mp.Process,
                Queue=mp.Queue, cpu_count=mp.cpu_count,
                os_cpu_count=os.cpu_count,
                ProcessPoolExecutor=concurrent.futures.ProcessPoolExecutor,
                as_completed=concurrent.futures.as_completed,
                wait=concurrent.futures.wait, get_context=mp.get_context)

    def pick(sim, name):
        def factory(*a, **k):
            return sim(*a, **k) if gated() else REAL[name](*a, **k)
        factory.__name__ = name
        return factory

    mp.Pool = mp.pool.Pool = pick(SimPool, 'Pool')
    mp.Manager = pick(SimManager, 'Manager')
    mp.Lock = pick(SimLock, 'Lock')
    mp.RLock = pick(lambda: SimLock(reentrant=True), 'RLock')
    mp.Semaphore = pick(lambda v=1: SimLock(v, 1 << 30), 'Semaphore')
    mp.Queue = pick(SimQueue, 'Queue')

    class Process(REAL['Process']):
        def __new__(cls, *a, **k):
            if gated():
                return SimProcess(*a, **k)
            return object.__new__(cls)
    mp.Process = Process

    class ProcessPoolExecutor(REAL['ProcessPoolExecutor']):
        def __new__(cls, *a, **k):
            if gated():
                return SimExecutor(*a, **k)
            return object.__new__(cls)
    concurrent.futures.ProcessPoolExecutor = ProcessPoolExecutor
    concurrent.futures.process.ProcessPoolExecutor = ProcessPoolExecutor
    concurrent.futures.as_completed = as_completed
    concurrent.futures.wait = wait

    def cpu_count():
        return CPU_COUNT or REAL['os_cpu_count']()
    mp.cpu_count = cpu_count
    os.cpu_count = cpu_count

    class Ctx(object):
        def __init__(self, real):
            self._real = real

        def __getattr__(self, name):
            if gated() and name in ('Pool', 'Manager', 'Lock', 'RLock',
                                    'Semaphore', 'Process', 'Queue',
                                    'cpu_count'):
                return getattr(mp, name)
            return getattr(self._real, name)

    def get_context(method=None):
        real = REAL['get_context'](method)
        return Ctx(real) if gated() else real
    mp.get_context = get_context
