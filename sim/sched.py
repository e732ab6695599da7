"""The process scheduler of the simulator.

`Gate` lets the director run the main process of a simulated deployment and
the workers it forks strictly one at a time.  Every process is a real forked
process (so that each has its own HDF5 library state, descriptors and flocks,
as in production) but it only executes between two scheduling points; at each
scheduling point -- every simulated system call, lock, queue, task and join
operation -- it parks on a pipe and the director picks, from a seeded strategy,
who goes next.  Locks, task queues, futures and joins are implemented by the
director, so it knows who is blocked on what: when nobody can run and the main
process has not finished, the execution hangs, whatever the wall clock says.
"""
import collections
import os
import pickle
import random
import select
import signal
import struct
import time

from . import osim

HDR = struct.Struct('<cBBBI')
MAXPROC = 24
MAX_STEPS = 400000
WALL = 240

ACTIVE = None            # the Gate of the current (gated) process
CLIENT = None


class Lost(BaseException):
    pass


class Client(object):
    def __init__(self, rfd, wfd, proc):
        self.rfd, self.wfd, self.proc = rfd, wfd, proc
        self.pid = os.getpid()

    def _read(self, n):
        out = b''
        while len(out) < n:
            b = os.read(self.rfd, n - len(out))
            if not b:
                os._exit(99)
            out += b
        return out

    def call(self, typ, a=0, b=0, obj=None, reply=False):
        blob = b'' if obj is None else pickle.dumps(obj)
        msg = HDR.pack(typ.encode(), a, b, 0, len(blob)) + blob
        view = memoryview(msg)
        while view:
            view = view[os.write(self.wfd, view):]
        self._read(1)
        if reply:
            n, = struct.unpack('<I', self._read(4))
            return pickle.loads(self._read(n))


class Proc(object):
    def __init__(self, i, pid, gid):
        self.i, self.pid, self.gid = i, pid, gid
        self.pidfd = os.pidfd_open(pid) if pid else None
        self.state = 'ready'      # ready|lock|task|wait|join|get|dead
        self.arg = None
        self.reply = None
        self.nyield = 0
        self.task = None
        self.prio = 0.0


class Group(object):
    def __init__(self, gid, kind):
        self.gid, self.kind = gid, kind   # 'pool' | 'executor' | 'proc'
        self.queue = collections.deque()
        self.procs = []
        self.closed = False
        self.broken = None                # None | 'pending' | True


class Gate(object):
    def __init__(self, sched, kills=(), worker_faults=None, mask='all'):
        self.sched = dict(sched)
        self.kills = [dict(k) for k in kills]
        self.worker_faults = worker_faults or {}
        self.mask = osim.mask(mask)
        self.chan = []
        for _ in range(MAXPROC):
            c2d_r, c2d_w = os.pipe()
            d2c_r, d2c_w = os.pipe()
            self.chan.append((c2d_r, c2d_w, d2c_r, d2c_w))
        self.nlocks = 0
        self.ngroups = 0
        self.nqueues = 0
        self.ntasks = 0
        # director state
        self.procs = {}
        self.groups = {}
        self.locks = {}
        self.queues = collections.defaultdict(collections.deque)
        self.results = {}
        self.switches = []
        self.trace_hash = 1469598103934665603
        self.lockorder = []
        self.step = 0
        self.kill_hits = []
        self.blocked_at_end = []
        self.worker_stats = {}

    # ---- in the main actor -------------------------------------------------
    def enter_main(self):
        global ACTIVE, CLIENT
        ACTIVE = self
        _, cw, dr, _ = self.chan[0]
        CLIENT = Client(dr, cw, 0)
        self.next_proc = 1
        osim.lib().sim_gate(dr, cw, self.mask)
        CLIENT.call('S', obj=os.getpid())

    def leave_main(self):
        CLIENT.call('X')

    # ---- in the director ---------------------------------------------------
    def _recv(self, p, end):
        """Next message of process p, or None if it died."""
        fd = self.chan[p.i][0]
        buf = b''
        need = HDR.size
        hdr = None
        while True:
            left = end - time.monotonic()
            if left <= 0:
                raise TimeoutError('scheduler wall clock limit')
            po = select.poll()
            po.register(fd, select.POLLIN)
            if p.pidfd is not None:
                po.register(p.pidfd, select.POLLIN)
            ev = dict(po.poll(left * 1000))
            if fd in ev:
                buf += os.read(fd, need - len(buf))
                if len(buf) < need:
                    continue
                if hdr is None:
                    hdr = HDR.unpack(buf)
                    if hdr[4] == 0:
                        return hdr[0].decode(), hdr[1], hdr[2], None
                    buf, need = b'', hdr[4]
                else:
                    return hdr[0].decode(), hdr[1], hdr[2], pickle.loads(buf)
            elif p.pidfd in ev:
                return None

    def _go(self, p):
        fd = self.chan[p.i][3]
        os.write(fd, b'g')
        if p.reply is not None:
            blob = pickle.dumps(p.reply[0])
            view = memoryview(struct.pack('<I', len(blob)) + blob)
            while view:
                view = view[os.write(fd, view):]
            p.reply = None

    def _kill(self, p):
        if p.state != 'dead':
            try:
                os.kill(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self._died(p)

    def _died(self, p):
        p.state = 'dead'
        g = self.groups.get(p.gid)
        if p.pidfd is not None:
            po = select.poll()
            po.register(p.pidfd, select.POLLIN)
            po.poll(20000)
        if g is not None and p.i != 0 and not p.clean:
            if g.kind == 'executor' and not g.broken:
                g.broken = 'pending'

    def _runnable(self, p):
        s = p.state
        if s == 'ready':
            return True
        if s == 'dead':
            return False
        if s == 'lock':
            return self.locks.get(p.arg, 0) > 0
        if s == 'task':
            g = self.groups[p.gid]
            return bool(g.queue) or g.closed
        if s == 'wait':
            ids, mode = p.arg
            done = [t in self.results for t in ids]
            return any(done) if mode == 'any' else all(done)
        if s == 'join':
            return all(self.procs[j].state == 'dead' for j in p.arg
                       if j in self.procs)
        if s == 'get':
            return bool(self.queues[p.arg])
        raise AssertionError(s)

    def _grant(self, p):
        """Complete the operation p was blocked on."""
        s = p.state
        if s == 'lock':
            self.locks[p.arg] -= 1
            self.lockorder.append('L%d' % p.i)
        elif s == 'task':
            g = self.groups[p.gid]
            if g.queue:
                p.task, blob = g.queue.popleft()
                p.reply = ((p.task, blob),)
                self.lockorder.append('T%d' % p.i)
            else:
                p.reply = ((None, None),)
        elif s == 'wait':
            ids, _ = p.arg
            p.reply = ({t: self.results[t] for t in ids if t in self.results},)
        elif s == 'get':
            p.reply = (self.queues[p.arg].popleft(),)
        p.state = 'ready'

    def _handle(self, p, msg, end):
        typ, a, b, obj = msg
        p.state = 'ready'
        if typ == 'Y':
            p.nyield += 1
        elif typ == 'L':                       # new lock / semaphore
            self.locks[obj[0]] = obj[1]
        elif typ == 'A':
            p.state, p.arg = 'lock', obj
        elif typ == 'a':                       # try-acquire
            if self.locks.get(obj, 0) > 0:
                self.locks[obj] -= 1
                p.reply = (True,)
            else:
                p.reply = (False,)
        elif typ == 'R':
            self.locks[obj[0]] = min(self.locks[obj[0]] + 1, obj[1])
        elif typ == 'G':                       # new group
            self.groups[obj[0]] = Group(*obj)
        elif typ == 'Q':                       # worker forked by p
            i, pid, gid = obj
            w = Proc(i, pid, gid)
            w.clean = False
            w.prio = self.rng.random()
            self.procs[i] = w
            self.groups[gid].procs.append(i)
            if self._recv(w, end) is None:
                self._died(w)
        elif typ == 'U':                       # submit tasks
            gid, tasks = obj
            g = self.groups[gid]
            if g.broken is True:
                for t, _ in tasks:
                    self.results[t] = ('broken', None)
            else:
                g.queue.extend(tasks)
        elif typ == 'T':
            p.state, p.task = 'task', None
        elif typ == 'D':
            t, res = obj
            self.results[t] = res
            p.task = None
        elif typ == 'W':
            p.state, p.arg = 'wait', obj
        elif typ == 'w':                       # poll results
            p.reply = ({t: self.results[t] for t in obj if t in self.results},)
        elif typ == 'C':                       # close the group's queue
            self.groups[obj].closed = True
        elif typ == 'J':
            p.state, p.arg = 'join', list(obj)
        elif typ == 'K':                       # terminate processes
            for j in obj:
                if j in self.procs:
                    self.procs[j].clean = True
                    self._kill(self.procs[j])
        elif typ == 'E':                       # which of these are alive
            p.reply = ({j: self.procs[j].state != 'dead' for j in obj},)
        elif typ == 'q':
            self.queues[obj[0]].append(obj[1])
        elif typ == 'g':
            p.state, p.arg = 'get', obj
        elif typ == 'X':
            p.clean = True
            if obj is not None:
                self.worker_stats[p.i] = obj
            self._go(p)
            if p.i != 0:
                self._died(p)
            else:
                p.state = 'dead'
        else:
            raise AssertionError('bad message %r' % (msg,))

    def _break(self, g):
        """What ProcessPoolExecutor's manager does when a worker died."""
        g.broken = True
        for j in g.procs:
            w = self.procs[j]
            if w.state != 'dead':
                w.clean = True
                self._kill(w)
        for t, _ in g.queue:
            self.results[t] = ('broken', None)
        g.queue.clear()
        for j in g.procs:
            t = self.procs[j].task
            if t is not None and t not in self.results:
                self.results[t] = ('broken', None)

    def _choose(self, run, cur):
        """Pick the next entry of run (list of proc ids / 'M<gid>')."""
        default = cur if cur in run else run[0]
        k = self.sched.get('kind', 'serial')
        rng = self.rng
        if len(run) == 1:
            c = run[0]
        elif k == 'serial':
            c = default
        elif k == 'random':
            c = run[rng.randrange(len(run))]
        elif k == 'sticky':
            c = default
            if rng.random() < self.sched.get('p', 0.1):
                c = run[rng.randrange(len(run))]
        elif k == 'rr':
            q = self.sched.get('quantum', 1)
            c = default
            if self.step % q == 0 and cur in run:
                c = run[(run.index(cur) + 1) % len(run)]
        elif k == 'pct':
            if self.step in self.change:
                if cur in self.procs:
                    self.procs[cur].prio = -rng.random()
            c = max(run, key=lambda r: self.procs[r].prio
                    if r in self.procs else rng.random())
        elif k == 'starve':
            others = [r for r in run if r not in self.sched['victims']]
            pool = others or run
            c = default if default in pool and rng.random() > 0.1 \
                else pool[rng.randrange(len(pool))]
        elif k == 'list':
            c = self.over.get(self.step, default)
            if c not in run:
                c = default
        else:
            raise AssertionError(k)
        if c != default:
            self.switches.append([self.step, c])
        return c

    def direct(self, main_pid):
        """Run the whole simulated deployment.  'done' or 'hang'."""
        self.rng = random.Random(self.sched.get('seed', 0))
        self.over = {int(s): c for s, c in self.sched.get('list', [])}
        self.change = set(self.sched.get('change', ()))
        end = time.monotonic() + WALL
        main = Proc(0, main_pid, None)
        main.clean = False
        main.prio = self.rng.random()
        self.procs[0] = main
        cur = 0
        try:
            if self._recv(main, end) is None:
                self._died(main)
            while True:
                run = [i for i in sorted(self.procs)
                       if self._runnable(self.procs[i])]
                run += ['M%s' % g.gid for g in self.groups.values()
                        if g.broken == 'pending']
                if main.state == 'dead':
                    # orphaned workers finish what they are doing, those
                    # waiting for work see the closed queue
                    for i, p in self.procs.items():
                        if p.state == 'task':
                            p.clean = True
                            self._kill(p)
                    run = [i for i in run if i in self.procs and
                           self.procs[i].state != 'dead']
                    if not run or main.clean:
                        return 'done'
                elif not run:
                    self.blocked_at_end = [
                        (i, p.state) for i, p in sorted(self.procs.items())
                        if p.state != 'dead']
                    return 'hang'
                if self.step >= MAX_STEPS:
                    self.blocked_at_end = [('livelock', self.step)]
                    return 'hang'
                every = [k for k in self.kills if k['proc'] == 'all' and
                         k['at'] == self.step]
                if every:
                    # the whole machine goes down
                    self.kill_hits.append(['all', self.step])
                    for q in self.procs.values():
                        q.clean = q.i != 0
                        self._kill(q)
                    return 'done'
                c = self._choose(run, cur)
                self.step += 1
                for ch in str(c).encode():
                    self.trace_hash = ((self.trace_hash ^ ch) *
                                       1099511628211) % 2 ** 64
                if isinstance(c, str):
                    self._break(self.groups[int(c[1:])])
                    continue
                p = self.procs[c]
                kill = [k for k in self.kills
                        if k['proc'] == c and k['at'] == p.nyield
                        and not k.get('done')]
                if kill:
                    kill[0]['done'] = True
                    self.kill_hits.append([c, p.nyield])
                    p.clean = False
                    self._kill(p)
                    continue
                if p.state != 'ready':
                    self._grant(p)
                cur = c
                self._go(p)
                msg = self._recv(p, end)
                if msg is None:
                    self._died(p)
                else:
                    self._handle(p, msg, end)
        finally:
            for p in self.procs.values():
                if p.state != 'dead' or not p.clean:
                    try:
                        if p.i != 0 or p.state != 'dead':
                            os.kill(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                if p.pidfd is not None:
                    os.close(p.pidfd)
            for c in self.chan:
                for fd in c:
                    os.close(fd)

    def summary(self):
        return {'steps': self.step, 'trace': '%016x' % self.trace_hash,
                'lockorder': ''.join(self.lockorder),
                'switches': len(self.switches),
                'workers': sorted((i, s['hash'], s['hits'])
                                  for i, s in self.worker_stats.items()),
                'procs': len(self.procs), 'kills': self.kill_hits,
                'blocked': self.blocked_at_end}
